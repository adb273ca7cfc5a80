#pragma once
#include "model.hpp"
#include "elliptic/VectorFunction.hpp"
#include "SpatialModel.hpp"
namespace hm {
template<class P> struct EllipticPDE {
    std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Elliptic::VectorFunction<P> f;
    EllipticPDE(const RMesh& m, const dmat& x, const PL& p) : om(omesh(m, x)), pl(p), sm(om->mesh, om->sets, pl), name("Elliptic"), f(sm, dm, pl, name) {}
};
template<class P> void jacobians(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims; constexpr int nd = P::SimplexT::mNumDofsPerNode;
    RMesh m = randomMesh(s, d); PL p = baseList(s, m, ph); int n = m.nv() * nd;
    dvec u = rvec(s, n, 1.0), z = density(s, m.nv()), v = rvec(s, n, 1.0), w = rvec(s, m.nv(), 1.0), y = rvec(s, m.nv() * d, 1.0);
    s.desc << describe(m) << "; " << describe(p);
    bool bl = p.isSublist("Body Loads"), pr = false; for (const char* l : {"Natural Boundary Conditions", "Mechanical Natural Boundary Conditions"}) if (p.isSublist(l)) for (const char* i : {"Load 0", "Load 1"}) if (p.sublist(l).isSublist(i) && p.sublist(l).sublist(i).get<std::string>("Type") == "Uniform Pressure") pr = true;
    s.tag(bl ? "body load" : "no body load"); if (pr) s.tag("pressure"); s.tag(p.sublist("Elliptic").sublist("Penalty Function").get<std::string>("Type"));
    EllipticPDE<P> e(m, m.x, p); auto R = [&](const dvec& a, const dvec& b) { return vec(e.f.value(view(a), view(b))); };
    dvec r0 = R(u, z); REQ((int)r0.size() == n, "residual length"); double rs = maxabs(r0); bool ok;
    if (m.ne() > 1) s.nontrivial();
    dmat Ju = dense(e.f.gradient_u(view(u), view(z))); dvec q = ddx([&](double t) { return R(axpy(u, t, v), z); }, 1e-2, ok); double js = maxabs(Ju), sc = std::max({maxabs(q), rs, js * maxabs(v)});
    if (ok) sameVec(mul(Ju, v), q, sc, 1e-6, "derivative by state");
    dmat Jt = dense(e.f.gradient_u_T(view(u), view(z))); REQ(Jt.size() == Ju.size(), "transposed size"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) REQ(std::fabs(Jt[j][i] - Ju[i][j]) <= 1e-10 * js, "transposed derivative by state (" << i << "," << j << "): " << Jt[j][i] << " vs " << Ju[i][j]);
    dmat Jz = dense(e.f.gradient_z(view(u), view(z))); REQ((int)Jz.size() == m.nv() && (int)Jz[0].size() == n, "control derivative shape"); q = ddx([&](double t) { return R(u, axpy(z, t, w)); }, 1e-3, ok); sc = std::max({maxabs(q), rs, js * maxabs(u)});
    if (ok) sameVec(tmul(Jz, w), q, sc, 1e-6, "derivative by control");
    dmat Jx = dense(e.f.gradient_x(view(u), view(z))); REQ((int)Jx.size() == m.nv() * d && (int)Jx[0].size() == n, "configuration derivative shape");
    dmat dx(m.nv(), dvec(d)); for (int i = 0; i < m.nv(); ++i) for (int k = 0; k < d; ++k) dx[i][k] = y[i * d + k] * m.hmin;
    auto Q = [&](const PL& l) { return ddx([&](double t) { EllipticPDE<P> g(m, axpy(m.x, t, dx), l); return vec(g.f.value(view(u), view(z))); }, 1e-3, ok); };
    q = Q(p); sc = std::max({maxabs(q), rs, js * maxabs(u)}); dvec g = tmul(Jx, flat(dx));
    if (ok && bl && !near(g, q, sc * 1e-6)) { PL l = p; l.remove("Body Loads"); dvec b = Q(l); if (ok && near(g, b, sc * 1e-6)) { s.known("bodyload-shape", "the derivative of the residual by the node coordinates leaves out the body load"); return; } }
    if (ok) sameVec(g, q, sc, 1e-6, "derivative by node coordinates");
}
} // namespace hm
