// Interpolation, projection, inertia, damping and heat: cell values from nodal values and back, mass and energy preserved.
#include "cell.hpp"
#include <Sacado.hpp>
#include <Teuchos_ParameterList.hpp>
#include "InterpolateFromNodal.hpp"
#include "ProjectToNode.hpp"
#include "StateValues.hpp"
#include "InertialForces.hpp"
#include "RayleighDamping.hpp"
#include "MaterialModel.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalContent.hpp"
#include "ThermalFlux.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
using namespace h;
using PL = Teuchos::ParameterList;

// weights: the centroid rule's own, or arbitrary barycentric ones
template<int D> static dvec basis(pbt::Src& s) {
    dvec b(D + 1, 1.0 / (D + 1)); if (s.flag()) { double t = 0; for (auto& x : b) { x = 0.05 + s.real(0, 1); t += x; } for (auto& x : b) x /= t; } return b;
}
template<int D, int N, int O, int M> static void interp(pbt::Src& s) {
    Cells<D> c(s); dvec b = basis<D>(s); V1 bv = view(b); double m = s.mag(1e-3, 1e3);
    bool affine = s.flag(); dmat G = randMat(s, N, D, m); dvec a0 = s.vec(N, m);
    V2 st("st", c.n, N * (D + 1)), out("out", c.n, M); V1 sc("sc", c.n); double big = 0;
    for (int e = 0; e < c.n; ++e) { sc(e) = 3.25; for (int q = 0; q < M; ++q) out(e, q) = s.sreal(5);
        for (int k = 0; k <= D; ++k) for (int q = 0; q < N; ++q) { double v = a0[q]; if (affine) for (int a = 0; a < D; ++a) v += G[q][a] * c.x[e][k][a]; else v = s.sreal(m); st(e, k * N + q) = v; big = std::max(big, std::fabs(v)); } }
    s.desc << "interpolate D=" << D << " dofs/node=" << N << " offset=" << O << " count=" << M << (affine ? " affine field" : " arbitrary"); s.nontrivial(N > 1);
    Plato::InterpolateFromNodal<D, N, O, M> f;
    for (int e = 0; e < c.n; ++e) { f(e, bv, st, sc); f(e, bv, st, out); }
    for (int e = 0; e < c.n; ++e) for (int q = 0; q < M; ++q) {
        double w = 0; if (affine) { w = a0[O + q]; for (int a = 0; a < D; ++a) { double x = 0; for (int k = 0; k <= D; ++k) x += b[k] * c.x[e][k][a]; w += G[O + q][a] * x; } } else for (int k = 0; k <= D; ++k) w += b[k] * st(e, k * N + O + q);
        NEAR(out(e, q), w, big, "cell " << e << " value " << q); if (q == 0) NEAR(sc(e), w, big, "cell " << e << " scalar value");
    }
    // all dofs at once
    V2 all("all", c.n, N); for (int e = 0; e < c.n; ++e) for (int q = 0; q < N; ++q) all(e, q) = -1.5; Plato::StateValues sv; for (int e = 0; e < c.n; ++e) sv(e, bv, st, all);
    for (int e = 0; e < c.n; ++e) for (int q = 0; q < N; ++q) { double w = 0; for (int k = 0; k <= D; ++k) w += b[k] * st(e, k * N + q); NEAR(all(e, q), w, big, "state value " << q << " of cell " << e); }
}
PBT("interpolate", 900, "several dofs per node") { switch (s.intIn(0, 6)) { case 0: interp<2, 2, 0, 2>(s); break; case 1: interp<3, 3, 0, 3>(s); break; case 2: interp<3, 4, 3, 1>(s); break; case 3: interp<3, 5, 1, 3>(s); break; case 4: interp<2, 4, 2, 2>(s); break; case 5: interp<1, 1, 0, 1>(s); break; default: interp<2, 3, 2, 1>(s); } }

template<int D, int N, int O, int M> static void project(pbt::Src& s) {
    Cells<D> c(s); dvec b = basis<D>(s); V1 bv = view(b); double m = s.mag(1e-3, 1e3); bool def = s.flag(), scalar = s.flag(); double sc = def ? 1.0 : s.sreal(4);
    dmat val = randMat(s, c.n, M, m), pre = randMat(s, c.n, N * (D + 1), m); V2 vv = view2(val, M), out = view2(pre, N * (D + 1)); V1 v1("v", c.n); for (int e = 0; e < c.n; ++e) v1(e) = val[e][0];
    s.desc << "project D=" << D << " dofs/node=" << N << " offset=" << O << (scalar ? " scalar" : " vector") << " scale=" << sc; s.nontrivial(!def || N > 1);
    REQ((std::is_same<Plato::ProjectToNode<D>, Plato::ProjectToNode<D, D, 0>>::value), "default dofs per node and offset");
    Plato::ProjectToNode<D, N, O> f;
    for (int e = 0; e < c.n; ++e) { if (scalar) { if (def) f(e, c.vol, bv, v1, out); else f(e, c.vol, bv, v1, out, sc); } else { if (def) f(e, c.vol, bv, vv, out); else f(e, c.vol, bv, vv, out, sc); } }
    int cnt = scalar ? 1 : M;
    for (int e = 0; e < c.n; ++e) { double big = m * (1 + c.v[e] * std::fabs(sc)); dvec tot(N, 0.0);
        for (int k = 0; k <= D; ++k) for (int q = 0; q < N; ++q) { double w = pre[e][k * N + q]; bool mine = q >= O && q < O + cnt; if (mine) w += sc * b[k] * val[e][q - O] * c.v[e]; NEAR(out(e, k * N + q), w, big, "node " << k << " dof " << q); tot[q] += out(e, k * N + q) - pre[e][k * N + q]; }
        for (int q = 0; q < N; ++q) NEAR(tot[q], q >= O && q < O + cnt ? sc * val[e][q - O] * c.v[e] : 0.0, big * 4, "the nodal shares of dof " << q << " do not add up to the cell total"); }
}
PBT("project", 900, "an explicit scale or several dofs per node") { switch (s.intIn(0, 5)) { case 0: project<2, 2, 0, 2>(s); break; case 1: project<3, 3, 0, 3>(s); break; case 2: project<3, 4, 3, 1>(s); break; case 3: project<3, 5, 1, 3>(s); break; case 4: project<1, 1, 0, 1>(s); break; default: project<2, 4, 1, 2>(s); } }

template<int D> static void inertia(pbt::Src& s) {
    Cells<D> c(s); dvec b = basis<D>(s); V1 bv = view(b); int N = s.intIn(1, 2 * D); double m = s.mag(1e-3, 1e3), rho = s.logreal(1e-3, 1e4);
    dmat val = randMat(s, c.n, N, m); V2 vv = view2(val, N), out("o", c.n, N * (D + 1)); for (int e = 0; e < c.n; ++e) for (int q = 0; q < N * (D + 1); ++q) out(e, q) = s.sreal(8);
    s.desc << "inertia D=" << D << " dofs/node=" << N << " rho=" << rho; s.nontrivial(c.n > 1);
    Plato::InertialForces f(rho); for (int e = 0; e < c.n; ++e) f(e, c.vol, bv, vv, out);
    for (int e = 0; e < c.n; ++e) for (int q = 0; q < N; ++q) { double tot = 0, big = rho * m * c.v[e]; for (int k = 0; k <= D; ++k) { NEAR(out(e, k * N + q), rho * c.v[e] * b[k] * val[e][q], big, "node " << k << " dof " << q); tot += out(e, k * N + q); } NEAR(tot, rho * c.v[e] * val[e][q], big * 4, "total inertia of dof " << q); }
}
PBT("inertial_forces", 600, "several cells") { switch (s.intIn(0, 2)) { case 0: inertia<2>(s); break; case 1: inertia<3>(s); break; default: inertia<1>(s); } }

template<int ND> static void rayleigh(pbt::Src& s) {
    int n = s.len(1, 4); double m = s.mag(1e-3, 1e3); dmat K = randMat(s, n, ND, m), M = randMat(s, n, ND, m); V2 k = view2(K, ND), mm = view2(M, ND), o("o", n, ND); double am = s.sreal(2), ak = s.sreal(2); int how = s.intIn(0, 2);
    s.desc << "damping, " << ND << " dofs, mass " << am << " stiffness " << ak << " ctor " << how; s.nontrivial(how != 2);
    PL p; if (how == 1) { if (s.flag()) p.set<double>("Rayleigh Mass Damping", am); else am = 0; if (s.flag()) p.set<double>("Rayleigh Stiffness Damping", ak); else ak = 0; } if (how == 2) { am = 0.025; ak = 0.023; }
    Plato::RayleighDamping<ND> f = how == 0 ? Plato::RayleighDamping<ND>(am, ak) : how == 1 ? Plato::RayleighDamping<ND>(p) : Plato::RayleighDamping<ND>();
    for (int e = 0; e < n; ++e) { for (int q = 0; q < ND; ++q) o(e, q) = 77; f(e, k, mm, o); }
    for (int e = 0; e < n; ++e) for (int q = 0; q < ND; ++q) NEAR(o(e, q), am * M[e][q] + ak * K[e][q], m, "dof " << q << " of cell " << e);
}
PBT("rayleigh_damping", 500, "given constants") { switch (s.intIn(0, 2)) { case 0: rayleigh<12>(s); break; case 1: rayleigh<6>(s); break; default: rayleigh<2>(s); } }

template<int D> static Teuchos::RCP<Plato::MaterialModel<D>> thermal(pbt::Src& s, bool mass, bool nonlin, dmat* c0, dmat* c1, dmat* c2) {
    PL in; PL& l = in.sublist("Material Models").sublist("Stuff").sublist(mass ? "Thermal Mass" : "Thermal Conduction"); if (nonlin) l.set<bool>("Temperature Dependent", true);
    if (mass) { // c0[0][0..1] constants of density and heat
        const char* nm[] = {"Mass Density", "Specific Heat"};
        for (int i = 0; i < 2; ++i) { (*c0)[0][i] = s.real(0.5, 5); (*c1)[0][i] = (*c2)[0][i] = 0; if (nonlin && s.flag()) { PL& q = l.sublist(nm[i]); q.set<double>("c0", (*c0)[0][i]); q.set<double>("c1", (*c1)[0][i] = s.sreal(0.1)); q.set<double>("c2", (*c2)[0][i] = s.sreal(0.01)); } else l.set<double>(nm[i], (*c0)[0][i]); }
        return Plato::ThermalMassModelFactory<D>(in).create("Stuff");
    }
    PL& q = l.sublist("Thermal Conductivity"); dmat* cs[] = {c0, c1, c2};
    for (int t = 0; t < (nonlin ? 3 : 1); ++t) for (int i = 0; i < D; ++i) for (int j = i; j < D; ++j) { double v = s.sreal(t == 0 ? 5 : t == 1 ? 0.1 : 0.01); (*cs[t])[i][j] = (*cs[t])[j][i] = v; q.set<double>((nonlin ? "c" + std::to_string(t) : std::string("c")) + std::to_string(i + 1) + std::to_string(j + 1), v); }
    return Plato::ThermalConductionModelFactory<D>(in).create("Stuff");
}
template<int D> static void heat(pbt::Src& s) {
    bool nonlin = s.flag(); int n = s.len(1, 3); dmat a = zeros(3, 3), b = zeros(3, 3), c = zeros(3, 3); double m = s.mag(1e-2, 1e2);
    s.desc << "heat content D=" << D << (nonlin ? " temperature dependent" : " constant"); s.nontrivial(nonlin);
    auto mod = thermal<D>(s, true, nonlin, &a, &b, &c); Plato::ThermalContent<D> f(mod); double tm = s.chance(1, 6) ? s.logreal(20, 5000) : 20, ts = 5 + 0.1 * tm + 0.01 * tm * tm; dvec T = s.vec(n, tm), R = s.vec(n, m); V1 o("o", n);
    auto at = [&](int i, double t) { return a[0][i] + b[0][i] * t + c[0][i] * t * t; };
    for (int e = 0; e < n; ++e) { o(e) = 9; f(e, o, view(R), view(T)); NEAR(o(e), R[e] * at(0, T[e]) * at(1, T[e]), m * ts * ts, "heat content of cell " << e); if (!nonlin) { o(e) = 9; f(e, o, view(R)); NEAR(o(e), R[e] * a[0][0] * a[0][1], m * 10, "heat content (constant form) of cell " << e); } }
    dmat k0 = zeros(3, 3), k1 = zeros(3, 3), k2 = zeros(3, 3); auto con = thermal<D>(s, false, nonlin, &k0, &k1, &k2); Plato::ThermalFlux<D> q(con); dmat g = randMat(s, n, D, m); V2 gv = view2(g, D), fl("fl", n, D);
    for (int e = 0; e < n; ++e) { for (int i = 0; i < D; ++i) fl(e, i) = 4; q(e, fl, gv, view(T)); for (int i = 0; i < D; ++i) { double w = 0; for (int j = 0; j < D; ++j) w -= (k0[i][j] + k1[i][j] * T[e] + k2[i][j] * T[e] * T[e]) * g[e][j]; NEAR(fl(e, i), w, 4 * m * ts, "heat flux component " << i); }
        if (!nonlin) { for (int i = 0; i < D; ++i) fl(e, i) = 4; q(e, fl, gv); for (int i = 0; i < D; ++i) { double w = 0; for (int j = 0; j < D; ++j) w -= k0[i][j] * g[e][j]; NEAR(fl(e, i), w, m * 40, "heat flux (constant form) component " << i); } } }
    // derivative with respect to temperature carried by AD types
    if (nonlin) { using F = Sacado::Fad::SFad<double, 1>; Plato::ScalarVectorT<F> tf("tf", 1), of("of", 1), rf("rf", 1); tf(0) = F(1, 0, T[0]); rf(0) = F(R[0]); f(0, of, rf, tf); double d = R[0] * ((b[0][0] + 2 * c[0][0] * T[0]) * at(1, T[0]) + at(0, T[0]) * (b[0][1] + 2 * c[0][1] * T[0])); NEAR(of(0).dx(0), d, m * ts * ts / 5, "temperature derivative of the heat content");
        Plato::ScalarMultiVectorT<F> ff("ff", 1, D), gg("gg", 1, D); for (int j = 0; j < D; ++j) gg(0, j) = F(g[0][j]); q(0, ff, gg, tf); for (int i = 0; i < D; ++i) { double w = 0; for (int j = 0; j < D; ++j) w -= (k1[i][j] + 2 * k2[i][j] * T[0]) * g[0][j]; NEAR(ff(0, i).dx(0), w, m * (0.3 + 0.06 * tm), "temperature derivative of the heat flux"); } }
}
PBT("heat_content_and_flux", 900, "temperature dependent") { switch (s.intIn(0, 2)) { case 0: heat<2>(s); break; case 1: heat<3>(s); break; default: heat<1>(s); } }

// the one-point rule integrates every affine function over every simplex exactly
template<int D> static void rule(pbt::Src& s) {
    Plato::LinearTetCubRuleDegreeOne<D> r; Cells<D> c(s); dvec G = s.vec(D, 5); double g0 = s.sreal(5); s.desc << "one point rule D=" << D; s.nontrivial();
    REQ(r.getNumCubPoints() == 1, "number of points"); auto b = r.getBasisFunctions(); auto x = r.getCubPointsCoords(); REQ(b.extent(0) == D + 1 && x.extent(0) == D, "sizes");
    double f = 1; for (int k = 2; k <= D; ++k) f *= k; NEAR(r.getCubWeight(), 1 / f, 0, "weight"); double sum = 0; for (int k = 0; k <= D; ++k) sum += b(k); NEAR(sum, 1.0, 0, "basis functions do not add up to one"); for (int a = 0; a < D; ++a) NEAR(b(a + 1), x(a), 0, "basis function versus coordinate");
    for (int e = 0; e < c.n; ++e) { double got = 0, want = 0; for (int k = 0; k <= D; ++k) { double v = g0; for (int a = 0; a < D; ++a) v += G[a] * c.x[e][k][a]; got += b(k) * v; want += v / (D + 1); } NEAR(got * r.getCubWeight() * f * c.v[e], want * c.v[e], 1e3 * c.v[e], "integral of an affine function"); }
}
PBT("one_point_rule", 200, "every case") { switch (s.intIn(0, 2)) { case 0: rule<2>(s); break; case 1: rule<3>(s); break; default: rule<1>(s); } }
