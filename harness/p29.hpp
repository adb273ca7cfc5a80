// Stabilized mixed (displacement, pressure[, temperature]) equations: residual and derivatives, the projected pressure
// gradient, and whole problems.
#pragma once
#include "p22.hpp"
#include "p26.hpp"
#include "Simp.hpp"
#include "StabilizedMechanics.hpp"
#include "StabilizedThermomechanics.hpp"
#include "VectorFunctionVMS.hpp"
#include "Projection.hpp"
namespace hm {
struct VMat { double E, nu, G, K, ps, al[3], k[3], T0, ts; };
struct VModel { PL pl; std::vector<VMat> mat; std::vector<int> of; dvec load; int kind, pk; double p, mn, b, pp, pmn, pb; bool body = false; };
inline void vpen(Src& s, PL& l, int& kind, double& p, double& mn, double& b) { auto& q = l.sublist("Penalty Function"); penalty(s, l); std::string t = q.get<std::string>("Type"); kind = t == "SIMP" ? 0 : t == "RAMP" ? 1 : t == "Heaviside" ? 2 : 3; p = q.isParameter("Exponent") ? q.get<double>("Exponent") : 1; mn = q.isParameter("Minimum Value") ? q.get<double>("Minimum Value") : 0; b = kind == 2 ? q.get<double>("Regularization Length") : 0; }
inline double vw(int kind, double p, double mn, double b, double r) { if (kind == 0) return mn + (1 - mn) * std::pow(r, p); if (kind == 1) return mn + (1 - mn) * r / (1 + p * (1 - r)); if (kind == 2) return r >= b ? 1 : mn + (1 - mn) * std::pow(0.5 * (1 + std::sin(M_PI * r / (2 * b))), p); return 1; }
inline dmat vgrad(const RMesh& m, const dmat& x, int e) { int n = m.d + 1; dmat A(n, dvec(n)), r(n, dvec(m.d)); for (int j = 0; j < n; ++j) { A[j][0] = 1; for (int k = 0; k < m.d; ++k) A[j][k + 1] = x[m.ev[e][j]][k]; } for (int i = 0; i < n; ++i) { dvec b(n, 0.0), a; b[i] = 1; REQ(h::solve(A, b, a), "degenerate cell"); for (int k = 0; k < m.d; ++k) r[i][k] = a[k + 1]; } return r; }
template<class P> VModel vmodel(Src& s, const RMesh& m, bool loads, bool body, bool plainProj, const dvec& z) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; constexpr bool th = nd == d + 2; VModel o; PL& p = o.pl; p.set<std::string>("PDE Constraint", "Elliptic"); vpen(s, p.sublist("Elliptic"), o.kind, o.p, o.mn, o.b); s.tag(p.sublist("Elliptic").sublist("Penalty Function").get<std::string>("Type"));
    o.pk = 3; o.pp = o.pmn = o.pb = 0; if (!plainProj && s.flag()) { vpen(s, p.sublist("State Gradient Projection"), o.pk, o.pp, o.pmn, o.pb); if (o.pk < 3) s.tag("weighted projection"); }
    auto& mm = p.sublist("Material Models"); int nm = s.intIn(1, 2); double ps = s.flag() ? s.real(0.5, 2) : 1.0; if (ps != 1) mm.set<double>("Pressure Scaling", ps); std::vector<std::string> names;
    for (int i = 0; i < nm; ++i) { VMat q; names.push_back("Mat " + std::to_string(i)); auto& l = mm.sublist(names.back()); bool cubic = th && s.flag(); auto& e = l.sublist(th ? cubic ? "Cubic Linear Thermoelastic" : "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); e.set<double>("Youngs Modulus", q.E = s.real(1, 4)); e.set<double>("Poissons Ratio", q.nu = s.real(0.0, 0.45)); q.G = q.E / (2 * (1 + q.nu)); double la = q.E * q.nu / ((1 + q.nu) * (1 - 2 * q.nu)); q.K = la + 2 * q.G / d; q.ps = ps; if (ps != 1 || !th) e.set<double>("Pressure Scaling", ps); q.T0 = 0; q.ts = 1;
        if (th) { double a = s.real(0.05, 0.3), k = s.real(0.5, 2); for (int j = 0; j < 3; ++j) { q.al[j] = a; q.k[j] = k; if (cubic) k = s.real(0.5, 2); } if (cubic) { for (int j = 0; j < d; ++j) { std::string c = std::to_string(j + 1) + std::to_string(j + 1); e.set<double>("a" + c, q.al[j]); e.set<double>("k" + c, q.k[j]); } } else { e.set<double>("Thermal Expansion Coefficient", a); e.set<double>("Thermal Conductivity Coefficient", k); } e.set<double>("Reference Temperature", q.T0 = s.flag() ? s.sreal(1) : 0.0); if (s.flag()) e.set<double>("Temperature Scaling", q.ts = s.real(0.5, 2)); }
        o.mat.push_back(q); }
    spatialModel(p, m, names); o.of.assign(m.ne(), 0); for (size_t b = 0; b < m.blocks.size(); ++b) for (int e : m.blocks[b]) o.of[e] = b % nm;
    o.load.assign(m.nv() * nd, 0.0); if (loads) { int w = s.intIn(1, th ? 3 : 1); if (w & 1) someLoads(s, p, m, "Mechanical Natural Boundary Conditions", d, o.load, nd, 0, true); if (w & 2) someLoads(s, p, m, "Thermal Natural Boundary Conditions", 1, o.load, nd, d + 1, false); }
    if (body) { o.body = true; auto& l = p.sublist("Body Loads").sublist("B"); l.set<std::string>("Type", "Uniform"); int ix = s.intIn(0, d - 1); l.set<int>("Index", ix); auto& b = bodyFn(s.intIn(0, 4)); l.set<std::string>("Function", b.f); s.tag("body load");
        for (int e = 0; e < m.ne(); ++e) { dvec c(d, 0.0); double rho = 0; for (int v : m.ev[e]) { rho += z[v] / (d + 1); for (int j = 0; j < d; ++j) c[j] += m.x[v][j] / (d + 1); } for (int v : m.ev[e]) o.load[v * nd + ix] += b.v(c) * rho * volOf(m, e) / (d + 1); } }
    return o;
}
template<class P> dvec vref(const RMesh& m, const VModel& o, const dvec& u, const dvec& n, const dvec& z) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; constexpr bool th = nd == d + 2; dvec r(m.nv() * nd); for (size_t i = 0; i < r.size(); ++i) r[i] = -o.load[i];
    for (int e = 0; e < m.ne(); ++e) { auto& q = o.mat[o.of[e]]; dmat g = vgrad(m, m.x, e); double V = volOf(m, e), rho = 0, pm = 0, T = 0; dmat L(d, dvec(d, 0.0)); dvec gp(d, 0.0), gT(d, 0.0), nm(d, 0.0);
        for (int i = 0; i <= d; ++i) { int v = m.ev[e][i]; rho += z[v] / (d + 1); pm += u[v * nd + d] / (d + 1); if (th) T += u[v * nd + d + 1] / (d + 1); for (int j = 0; j < d; ++j) { nm[j] += n[v * d + j] / (d + 1); gp[j] += u[v * nd + d] * g[i][j]; if (th) gT[j] += u[v * nd + d + 1] * g[i][j]; for (int k = 0; k < d; ++k) L[k][j] += u[v * nd + k] * g[i][j]; } }
        double w = vw(o.kind, o.p, o.mn, o.b, rho), tr = 0, dt = th ? q.ts * q.al[0] * (T - q.T0) : 0; for (int j = 0; j < d; ++j) tr += L[j][j]; double press = q.ps * pm, tau = std::pow(V, 2.0 / 3) / (2 * q.G), vol = q.ps * (tr - d * dt - press / q.K);
        for (int i = 0; i <= d; ++i) { int v = m.ev[e][i]; for (int k = 0; k < d; ++k) { double f = press * g[i][k]; for (int j = 0; j < d; ++j) f += q.G * (L[k][j] + L[j][k] - (j == k ? 2 * tr / d : 0)) * g[i][j]; r[v * nd + k] += V * w * f; }
            double f = vol / (d + 1); for (int j = 0; j < d; ++j) f -= q.ps * tau * (q.ps * gp[j] - nm[j]) * g[i][j]; r[v * nd + d] += V * w * f; if (th) { double h = 0; for (int j = 0; j < d; ++j) h += q.ts * q.ts * q.k[j] * gT[j] * g[i][j]; r[v * nd + d + 1] += V * w * h; } } }
    return r;
}
template<class F> struct VFun { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::VectorFunctionVMS<F> f; VFun(const RMesh& m, const dmat& x, const PL& p, const std::string& nm) : om(omesh(m, x)), pl(p), sm(om->mesh, om->sets, pl), name(nm), f(sm, dm, pl, name) {} };
// every derivative of a residual r(state, node state, control, coordinates)
template<class F> void vjac(Src& s, const RMesh& m, const VModel& o, const std::string& nm, int nd, int nn, const dvec& u, const dvec& n, const dvec& z, bool proj) {
    int d = m.d, N = m.nv(); VFun<F> e(m, m.x, o.pl, nm); auto R = [&](const dvec& a, const dvec& b, const dvec& c) { return vec(e.f.value(view(a), view(b), view(c))); }; dvec v = rvec(s, N * nd, 1.0), vn = rvec(s, N * nn, 1.0), w = rvec(s, N, 1.0); dmat dx(N, dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin;
    dvec r0 = R(u, n, z); double rs = maxabs(r0); bool ok; dmat Ju = dense(e.f.gradient_u(view(u), view(n), view(z))), Jt = dense(e.f.gradient_u_T(view(u), view(n), view(z))); double js = maxabs(Ju); REQ((int)Ju.size() == N * nd && (int)Ju[0].size() == N * nd && Jt.size() == Ju.size(), "shape of the derivative by state");
    dvec q = ddx([&](double t) { return R(axpy(u, t, v), n, z); }, 1e-2, ok); double sc = std::max({maxabs(q), rs, js}); if (ok) sameVec(mul(Ju, v), q, sc, 1e-6, "derivative by state"); for (size_t i = 0; i < Ju.size(); ++i) for (size_t j = 0; j < Ju.size(); ++j) REQ(std::fabs(Jt[j][i] - Ju[i][j]) <= 1e-10 * js, "transposed derivative by state (" << i << "," << j << "): " << Jt[j][i] << " vs " << Ju[i][j]);
    dmat Jn = dense(e.f.gradient_n_T(view(u), view(n), view(z))); REQ((int)Jn.size() == N * nn && (int)Jn[0].size() == N * nd, "shape of the transposed derivative by node state: " << Jn.size() << " by " << Jn[0].size()); q = ddx([&](double t) { return R(u, axpy(n, t, vn), z); }, 1e-2, ok); sc = std::max({maxabs(q), rs, maxabs(Jn)}); if (ok) sameVec(tmul(Jn, vn), q, sc, 1e-6, "derivative by node state");
    if (proj) { dmat J = dense(e.f.gradient_n(view(u), view(n), view(z))); REQ((int)J.size() == N * nd && (int)J[0].size() == N * nn, "shape of the derivative by node state"); for (size_t i = 0; i < J.size(); ++i) for (size_t j = 0; j < J[i].size(); ++j) REQ(std::fabs(Jn[j][i] - J[i][j]) <= 1e-10 * maxabs(Jn), "derivative by node state (" << i << "," << j << "): " << J[i][j] << " vs transposed " << Jn[j][i]); }
    dmat Jz = dense(e.f.gradient_z(view(u), view(n), view(z))); REQ((int)Jz.size() == N && (int)Jz[0].size() == N * nd, "shape of the derivative by control"); q = ddx([&](double t) { return R(u, n, axpy(z, t, w)); }, 1e-3, ok); sc = std::max({maxabs(q), rs, js * maxabs(u)}); if (ok) sameVec(tmul(Jz, w), q, sc, 1e-6, "derivative by control");
    if (o.body && !proj) return; // the missing shape derivative of body loads is finding bodyload-shape of P19
    dmat Jx = dense(e.f.gradient_x(view(u), view(n), view(z))); REQ((int)Jx.size() == N * d && (int)Jx[0].size() == N * nd, "shape of the derivative by node coordinates"); q = ddx([&](double t) { VFun<F> g(m, axpy(m.x, t, dx), o.pl, nm); return vec(g.f.value(view(u), view(n), view(z))); }, 1e-3, ok); sc = std::max({maxabs(q), rs, js * maxabs(u)}); if (ok) sameVec(tmul(Jx, flat(dx)), q, sc, 1e-6, "derivative by node coordinates");
}
template<class P> void vresidual(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); dvec z = density(s, m.nv()); VModel o = vmodel<P>(s, m, s.flag(), s.chance(1, 3), false, z); dvec u = rvec(s, m.nv() * nd, 0.5), n = rvec(s, m.nv() * d, 0.5); s.desc << describe(m) << "; " << describe(o.pl); if (m.ne() > 1) s.nontrivial();
    { VFun<P> e(m, m.x, o.pl, "Elliptic"); dvec r = vec(e.f.value(view(u), view(n), view(z))), q = vref<P>(m, o, u, n, z); REQ(r.size() == q.size(), "residual length"); sameVec(r, q, maxabs(q), 1e-9, "residual"); }
    vjac<P>(s, m, o, "Elliptic", nd, d, u, n, z, false);
}
template<class P> void vprojection(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims; using F = typename P::ProjectorT; RMesh m = randomMesh(s, d); dvec z = density(s, m.nv()); VModel o = vmodel<P>(s, m, false, false, false, z); dvec p = rvec(s, m.nv(), 0.5), n = rvec(s, m.nv() * d, 0.5); s.desc << describe(m) << "; " << describe(o.pl); if (m.ne() > 1) s.nontrivial();
    { VFun<F> e(m, m.x, o.pl, "State Gradient Projection"); dvec r = vec(e.f.value(view(n), view(p), view(z))), q(m.nv() * d, 0.0); for (int c = 0; c < m.ne(); ++c) { dmat g = vgrad(m, m.x, c); double V = volOf(m, c), rho = 0; dvec f(d, 0.0); for (int i = 0; i <= d; ++i) { int v = m.ev[c][i]; rho += z[v] / (d + 1); for (int j = 0; j < d; ++j) f[j] += n[v * d + j] / (d + 1) - o.mat[0].ps * p[v] * g[i][j]; } double w = vw(o.pk, o.pp, o.pmn, o.pb, rho); for (int v : m.ev[c]) for (int j = 0; j < d; ++j) q[v * d + j] += V * w * f[j] / (d + 1); } REQ(r.size() == q.size(), "residual length"); sameVec(r, q, maxabs(q), 1e-9, "projection residual"); }
    vjac<F>(s, m, o, "State Gradient Projection", d, 1, n, p, z, true);
}
// stress power of the mixed state
template<class P> void venergy(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); dvec z = density(s, m.nv()); VModel o = vmodel<P>(s, m, false, false, false, z); auto& c = o.pl.sublist("Criteria").sublist("f"); c.set<std::string>("Type", "Scalar Function"); c.set<std::string>("Scalar Function Type", "Internal Elastic Energy"); int k; double p, mn, b; vpen(s, c, k, p, mn, b);
    dvec u = rvec(s, m.nv() * nd, 0.5), v = rvec(s, m.nv() * nd, 1.0), w = rvec(s, m.nv(), 1.0); dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& q : a) q = s.sreal(1) * m.hmin; s.desc << describe(m) << "; " << describe(o.pl);
    auto om = omesh(m); PL pl = o.pl; Plato::SpatialModel sm(om->mesh, om->sets, pl); Plato::DataMap dm; std::string nm = "f"; auto f = Plato::Elliptic::ScalarFunctionBaseFactory<P>().create(sm, dm, pl, nm); REQ(f, "no criterion"); auto V = [&](const dvec& a, const dvec& r) { return f->value(solution(dmat{a}), view(r)); };
    double want = 0, sc = 0; for (int e = 0; e < m.ne(); ++e) { auto& q = o.mat[o.of[e]]; dmat g = vgrad(m, m.x, e), L(d, dvec(d, 0.0)); double rho = 0, pm = 0, tr = 0, t = 0; for (int i = 0; i <= d; ++i) { int n = m.ev[e][i]; rho += z[n] / (d + 1); pm += u[n * nd + d] / (d + 1); for (int a = 0; a < d; ++a) for (int j = 0; j < d; ++j) L[a][j] += u[n * nd + a] * g[i][j]; } for (int j = 0; j < d; ++j) tr += L[j][j]; for (int a = 0; a < d; ++a) for (int j = 0; j < d; ++j) { double ep = (L[a][j] + L[j][a]) / 2; t += 2 * q.G * (ep - (a == j ? tr / d : 0)) * ep; } double x = volOf(m, e) * vw(k, p, mn, b, rho); want += x * (t + q.ps * pm * tr); sc += x * (std::fabs(t) + std::fabs(q.ps * pm * tr)); }
    double f0 = V(u, z); NEAR(f0, want, sc, "energy"); if (m.ne() > 1 && f0 != 0) s.nontrivial(); bool ok; double err; dvec q = ddx([&](double e) { return dvec{V(axpy(u, e, v), z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(vec(f->gradient_u(solution(dmat{u}), view(z), 0)), v, q, sc, ok, err, "derivative by state");
    q = ddx([&](double e) { return dvec{V(u, axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(vec(f->gradient_z(solution(dmat{u}), view(z))), w, q, sc, ok, err, "derivative by control");
    dvec gx = vec(f->gradient_x(solution(dmat{u}), view(z))); q = ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{V(u, z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(gx, flat(dx), q, sc, ok, err, "derivative by node coordinates");
}
} // namespace hm
