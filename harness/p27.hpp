// Path-dependent plasticity: the residuals of the mixed (displacement, pressure, temperature) equations and of the local
// J2 equations, their derivatives, the return to the yield surface, and the work criteria.
#pragma once
#include "p26.hpp"
#include "Simp.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "Projection.hpp"
#include "Plasticity.hpp"
#include "ThermoPlasticity.hpp"
#include "InfinitesimalStrainPlasticity.hpp"
#include "InfinitesimalStrainThermoPlasticity.hpp"
#include "GlobalVectorFunctionInc.hpp"
#include "LocalVectorFunctionInc.hpp"
#include "PathDependentScalarFunctionFactory.hpp"
namespace hm {
using Plato::ScalarArray3D;
struct PMat { double E, nu, G, K, Hi, Hk, Y, al, T0, k, ep, ee, pp, pe, ea, eu, pa, pu; };
struct PModel { PL pl; std::vector<PMat> mat; std::vector<int> of; double ps = 1, ts = 1, rp = 3, rm = 1e-9, ra = 0.1, ru = 4; dvec load; bool body = false; };
inline double msimp(double p, double mn, double r) { return mn + (1 - mn) * std::pow(r, p); }
template<class P> PModel plastic(Src& s, const RMesh& m, bool loads, bool body, const dvec& z) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; constexpr bool th = nd == d + 2; PModel o; PL& p = o.pl; p.set<std::string>("Physics", th ? "Thermoplasticity" : "Plasticity"); p.set<std::string>("PDE Constraint", "Elliptic");
    auto& mm = p.sublist("Material Models"); if (s.flag()) { o.ps = s.real(0.5, 2); mm.set<double>("Pressure Scaling", o.ps); } if (th && s.flag()) { o.ts = s.real(0.5, 2); mm.set<double>("Temperature Scaling", o.ts); }
    int nm = s.intIn(1, 2); std::vector<std::string> names; for (int i = 0; i < nm; ++i) { PMat q; names.push_back("Mat " + std::to_string(i)); auto& l = mm.sublist(names.back()); auto& e = l.sublist(th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic");
        e.set<double>("Density", 1.0); e.set<double>("Youngs Modulus", q.E = s.real(1, 4)); e.set<double>("Poissons Ratio", q.nu = s.real(0.05, 0.4)); q.G = q.E / (2 * (1 + q.nu)); q.K = q.E / (3 * (1 - 2 * q.nu)); q.al = q.T0 = q.k = 0;
        if (th) { e.set<double>("Thermal Conductivity Coefficient", q.k = s.real(0.5, 2)); e.set<double>("Thermal Expansion Coefficient", q.al = s.real(0.05, 0.3)); e.set<double>("Reference Temperature", q.T0 = s.sreal(1)); }
        auto& j = l.sublist("Plasticity Model").sublist("J2 Plasticity"); j.set<double>("Hardening Modulus Isotropic", q.Hi = s.real(0, 1)); j.set<double>("Hardening Modulus Kinematic", q.Hk = s.real(0, 1)); j.set<double>("Initial Yield Stress", q.Y = s.real(0.02, 1));
        auto opt = [&](const char* nme, double def, double v) { if (s.flag()) { j.set<double>(nme, v); return v; } return def; };
        q.ep = opt("Elastic Properties Penalty Exponent", 1.0, s.real(1, 3)); q.ee = opt("Elastic Properties Minimum Ersatz", 1e-9, s.pick<double>({1e-3, 0.1})); q.ea = opt("Elastic Properties Additive Continuation", 0.1, s.real(0.05, 1)); q.eu = opt("Elastic Properties Penalty Exponent Upper Bound", 4.0, s.real(3, 4));
        q.pp = opt("Plastic Properties Penalty Exponent", 0.5, s.real(0.5, 2.5)); q.pe = opt("Plastic Properties Minimum Ersatz", 1e-4, s.pick<double>({1e-3, 0.1})); q.pa = opt("Plastic Properties Additive Continuation", 0.1, s.real(0.05, 1)); q.pu = opt("Plastic Properties Penalty Exponent Upper Bound", 3.5, s.real(2.5, 3.5)); o.mat.push_back(q); }
    spatialModel(p, m, names); o.of.assign(m.ne(), 0); for (size_t b = 0; b < m.blocks.size(); ++b) for (int e : m.blocks[b]) o.of[e] = b % nm;
    auto& el = p.sublist("Elliptic"); if (s.chance(4, 5)) { auto& q = el.sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); o.rp = 1; auto opt = [&](const char* nme, double& r, double v) { if (s.flag()) q.set<double>(nme, r = v); }; opt("Exponent", o.rp, s.real(1, 3.5)); opt("Minimum Value", o.rm, s.pick<double>({1e-3, 0.1})); opt("Additive Continuation", o.ra, s.real(0.05, 1)); opt("Penalty Exponent Upper Bound", o.ru, s.real(3.5, 5)); }
    o.load.assign(m.nv() * nd, 0.0);
    if (loads) { auto& n = p.sublist("Natural Boundary Conditions"); int w = s.intIn(1, th ? 3 : 1); if (w & 1) someLoads(s, n, m, "Mechanical Natural Boundary Conditions", d, o.load, nd, 0, true); if (w & 2) someLoads(s, n, m, "Thermal Natural Boundary Conditions", 1, o.load, nd, d, false); }
    if (body) { o.body = true; auto& l = p.sublist("Body Loads").sublist("B"); l.set<std::string>("Type", "Uniform"); int ix = s.intIn(0, d - 1); l.set<int>("Index", ix); auto& b = bodyFn(s.intIn(0, 4)); l.set<std::string>("Function", b.f); s.tag("body load");
        for (int e = 0; e < m.ne(); ++e) { dvec c(d, 0.0); double rho = 0; for (int v : m.ev[e]) { rho += z[v] / (d + 1); for (int j = 0; j < d; ++j) c[j] += m.x[v][j] / (d + 1); } for (int v : m.ev[e]) o.load[v * nd + ix] += b.v(c) * rho * volOf(m, e) / (d + 1); } }
    return o;
}
template<class P> struct Plast {
    using L = typename P::LocalPhysicsT; std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::GlobalVectorFunctionInc<P> f; Plato::LocalVectorFunctionInc<L> g;
    Plast(const RMesh& m, const dmat& x, const PL& p) : om(omesh(m, x)), pl(p), sm(om->mesh, om->sets, pl), name("Elliptic"), f(sm, dm, pl, name), g(sm, dm, pl) {}
};
struct PState { dvec u, up, c, cp, n, z; };
template<class P> PState pstate(Src& s, const RMesh& m) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, nl = P::SimplexT::mNumLocalDofsPerCell; PState q; q.u = rvec(s, m.nv() * nd, 0.5); q.up = rvec(s, m.nv() * nd, 0.5); q.c = rvec(s, m.ne() * nl, 0.3); q.cp = rvec(s, m.ne() * nl, 0.3); q.n = rvec(s, m.nv() * d, 0.5); q.z = density(s, m.nv());
    for (int e = 0; e < m.ne(); ++e) { q.c[e * nl] = s.real(0, 0.5); q.cp[e * nl] = s.real(0, 0.3); q.c[e * nl + 1] = s.flag() ? s.real(0.1, 0.4) : -s.real(0.1, 0.4); if (q.c[e * nl + 1] > 0) s.tag("yielding cell"); else s.tag("elastic cell"); } return q;
}
// ---- reference
inline dmat gradN(const RMesh& m, const dmat& x, int e) { int n = m.d + 1; dmat A(n, dvec(n)), r(n, dvec(m.d)); for (int j = 0; j < n; ++j) { A[j][0] = 1; for (int k = 0; k < m.d; ++k) A[j][k + 1] = x[m.ev[e][j]][k]; } for (int i = 0; i < n; ++i) { dvec b(n, 0.0), a; b[i] = 1; REQ(h::solve(A, b, a), "degenerate cell"); for (int k = 0; k < m.d; ++k) r[i][k] = a[k + 1]; } return r; }
struct Vg { int n; std::vector<std::pair<int, int>> ij; }; // Voigt order of the stored tensors
inline const Vg& vg(int d) { static const Vg a{4, {{0, 0}, {1, 1}, {0, 1}, {2, 2}}}, b{6, {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}}; return d == 2 ? a : b; }
using T3 = std::array<std::array<double, 3>, 3>;
inline T3 tens(const double* v, int d, bool eng) { T3 t{}; auto& g = vg(d); for (int i = 0; i < g.n; ++i) { auto q = g.ij[i]; double x = q.first == q.second || !eng ? v[i] : v[i] / 2; t[q.first][q.second] = t[q.second][q.first] = x; } return t; }
inline double tr(const T3& t) { return t[0][0] + t[1][1] + t[2][2]; }
inline T3 dev(T3 t) { double c = tr(t) / 3; for (int i = 0; i < 3; ++i) t[i][i] -= c; return t; }
inline T3 lin(double a, const T3& x, double b, const T3& y) { T3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a * x[i][j] + b * y[i][j]; return r; }
inline double dd(const T3& a, const T3& b) { double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += a[i][j] * b[i][j]; return r; }
// total strain, temperature, density, nodal means of a cell
struct Cell { double vol, rho, T, p; dmat dN; T3 eps, de; dvec gp, gT, n; };
template<class P> Cell cellOf(const RMesh& m, const PModel& o, int e, const dvec& u, const dvec& z, const dvec& nn) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, po = P::SimplexT::mPressureDofOffset; constexpr bool th = nd == d + 2; Cell c; c.vol = volOf(m, e); c.dN = gradN(m, m.x, e); c.rho = c.T = c.p = 0; c.eps = T3{}; c.gp.assign(d, 0); c.gT = c.n = c.gp;
    for (int a = 0; a <= d; ++a) { int v = m.ev[e][a]; c.rho += z[v] / (d + 1); c.p += u[v * nd + po] / (d + 1); if (th) c.T += u[v * nd + d] / (d + 1); for (int i = 0; i < d; ++i) { c.gp[i] += u[v * nd + po] * c.dN[a][i]; if (th) c.gT[i] += u[v * nd + d] * c.dN[a][i]; c.n[i] += nn.empty() ? 0 : nn[v * d + i] / (d + 1); for (int j = 0; j < d; ++j) { c.eps[i][j] += u[v * nd + i] * c.dN[a][j] / 2; c.eps[j][i] += u[v * nd + i] * c.dN[a][j] / 2; } } }
    return c;
}
inline T3 elasticStrain(const Cell& c, const PModel& o, const PMat& q, const double* loc, int d) { T3 t = lin(1, c.eps, -1, tens(loc + 2, d, true)); for (int i = 0; i < 3; ++i) t[i][i] -= q.al * (o.ts * c.T - q.T0); return t; }
template<class P> dvec refGlobal(const RMesh& m, const PModel& o, const PState& q, double lc, double rp) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, po = P::SimplexT::mPressureDofOffset, nl = P::SimplexT::mNumLocalDofsPerCell; constexpr bool th = nd == d + 2; dvec r(m.nv() * nd, 0.0);
    for (int e = 0; e < m.ne(); ++e) { auto& a = o.mat[o.of[e]]; Cell c = cellOf<P>(m, o, e, q.u, q.z, q.n); double pen = msimp(rp, o.rm, c.rho); T3 s = lin(2 * a.G * pen, dev(elasticStrain(c, o, a, &q.c[e * nl], d)), 0, T3{}); double p = o.ps * c.p, vs = tr(c.eps) - 3 * a.al * (o.ts * c.T - a.T0) - p / (pen * a.K), tau = std::pow(c.vol, 2.0 / 3) / (2 * a.G);
        for (int b = 0; b <= d; ++b) { int v = m.ev[e][b]; for (int i = 0; i < d; ++i) { double x = p * c.dN[b][i]; for (int j = 0; j < d; ++j) x += s[i][j] * c.dN[b][j]; r[v * nd + i] += c.vol * x; }
            double x = o.ps * vs / (d + 1); for (int j = 0; j < d; ++j) x -= pen * o.ps * tau * (o.ps * c.gp[j] - c.n[j]) * c.dN[b][j]; r[v * nd + po] += c.vol * x; if (th) for (int j = 0; j < d; ++j) r[v * nd + d] += c.vol * pen * a.k * o.ts * c.gT[j] * c.dN[b][j]; } }
    for (size_t i = 0; i < r.size(); ++i) r[i] -= lc * o.load[i]; return r;
}
inline double grow(double p, double a, double u, int k) { for (int i = 0; i < k; ++i) p = std::min(p + a, u); return p; }
template<class P> void advance(Plast<P>& e, int k, const PState& q) { Plato::ScalarMultiVector U("U", 1, q.u.size()), C("C", 1, q.c.size()); for (int i = 0; i < k; ++i) { e.f.updateProblem(U, C, view(q.z)); e.g.updateProblem(U, C, view(q.z)); } }
// ---- checks
// the mixed residual is the balance it stands for
template<class P> void plasticBalance(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims; RMesh m = randomMesh(s, d); PState q = pstate<P>(s, m); PModel o = plastic<P>(s, m, s.flag(), s.flag(), q.z); int k = s.intIn(0, 3); double lc = s.flag() ? 1.0 : s.real(0, 2); s.desc << describe(m) << " updates " << k << " load factor " << lc << "; " << describe(o.pl); if (m.ne() > 1) s.nontrivial();
    Plast<P> e(m, m.x, o.pl); e.dm.mScalarValues["LoadControlConstant"] = lc; advance(e, k, q); dvec r = vec(e.f.value(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.n), view(q.z), 0.0)), w = refGlobal<P>(m, o, q, lc, grow(o.rp, o.ra, o.ru, k)); sameVec(r, w, maxabs(w), 1e-10, "residual");
}
inline dvec apply(const RMesh& m, const ScalarArray3D& A, int rd, int cd, const dvec& v) { // per-cell derivative blocks times a direction; dofs per node, or -dofs per cell
    auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), A); int nc = m.d + 1, R = rd > 0 ? rd * nc : -rd, C = cd > 0 ? cd * nc : -cd; REQ((int)h.extent(0) == m.ne() && (int)h.extent(1) == R && (int)h.extent(2) == C, "shape of the derivative: " << h.extent(0) << " x " << h.extent(1) << " x " << h.extent(2)); dvec r(rd > 0 ? m.nv() * rd : m.ne() * R, 0.0);
    auto ix = [&](int e, int k, int dpn, int n) { return dpn > 0 ? m.ev[e][k / dpn] * dpn + k % dpn : e * n + k; }; for (int e = 0; e < m.ne(); ++e) for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) r[ix(e, i, rd, R)] += h(e, i, j) * v[ix(e, j, cd, C)]; return r;
}
template<class P> void plasticDerivatives(Src& s, bool local) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, nl = P::SimplexT::mNumLocalDofsPerCell; RMesh m = randomMesh(s, d); PState q = pstate<P>(s, m); PModel o = plastic<P>(s, m, !local && s.flag(), !local && s.chance(1, 4), q.z); int k = s.intIn(0, 2); double lc = s.flag() ? 1.0 : s.real(0, 2); s.desc << describe(m) << " updates " << k << " load factor " << lc << "; " << describe(o.pl); if (m.ne() > 1) s.nontrivial();
    auto make = [&](const dmat& x, const PL& p) { auto e = std::make_shared<Plast<P>>(m, x, p); e->dm.mScalarValues["LoadControlConstant"] = lc; advance(*e, k, q); return e; }; auto E = make(m.x, o.pl);
    auto val = [&](Plast<P>& e, const PState& a) { return local ? vec(e.g.value(view(a.u), view(a.up), view(a.c), view(a.cp), view(a.z), 0.0)) : vec(e.f.value(view(a.u), view(a.up), view(a.c), view(a.cp), view(a.n), view(a.z), 0.0)); };
    dvec r0 = val(*E, q); int row = local ? -nl : nd; bool ok; double sc0 = maxabs(r0) + 0.1;
    if (local) { auto ws = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), E->g.valueWorkSet(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.z), 0.0)); for (int e = 0; e < m.ne(); ++e) for (int i = 0; i < nl; ++i) REQ(ws(e, i) == r0[e * nl + i], "cell " << e << " entry " << i << " of the residual workset is " << ws(e, i) << ", of the residual vector " << r0[e * nl + i]); }
    struct A { const char* n; dvec PState::*p; int col; }; int which = s.intIn(0, local ? 4 : 5); static const A as[] = {{"state", &PState::u, nd}, {"previous state", &PState::up, nd}, {"local state", &PState::c, -nl}, {"previous local state", &PState::cp, -nl}, {"control", &PState::z, 1}, {"projected pressure gradient", &PState::n, d}};
    for (int w = 0; w < (local ? 5 : 6); ++w) { const A& a = as[w]; dvec v = rvec(s, (q.*a.p).size(), 1.0); dvec D = ddx([&](double t) { PState b = q; b.*a.p = axpy(q.*a.p, t, v); return val(*E, b); }, w == 4 ? 1e-3 : 1e-2, ok); if (!ok) continue; dvec g;
#define PG(F) (local ? apply(m, E->g.F(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.z), 0.0), row, a.col, v) : apply(m, E->f.F(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.n), view(q.z), 0.0), row, a.col, v))
        if (w == 0) g = PG(gradient_u); if (w == 1) g = PG(gradient_up); if (w == 2) g = PG(gradient_c); if (w == 3) g = PG(gradient_cp); if (w == 4) g = PG(gradient_z); if (w == 5) { dmat J = dense(E->f.gradient_n_T_assembled(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.n), view(q.z), 0.0)); REQ((int)J.size() == m.nv() * d, "rows of the transposed derivative by projected gradient"); g = tmul(J, v); }
        sameVec(g, D, std::max(maxabs(D), sc0), 1e-6, std::string("derivative by ") + a.n); s.tag(a.n); }
    (void)which; dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& x : a) x = s.sreal(m.hmin);
    auto X = [&](const PL& p) { return ddx([&](double t) { auto e = make(axpy(m.x, t, dx), p); return val(*e, q); }, 1e-3, ok); }; dvec D = X(o.pl); if (!ok) return; const A a = {"", nullptr, d}; dvec v = flat(dx), g = PG(gradient_x); double sc = std::max(maxabs(D), sc0);
    if (o.body && !near(g, D, sc * 1e-6)) { PL l = o.pl; l.remove("Body Loads"); dvec b = X(l); if (ok && near(g, b, sc * 1e-6)) { s.known("bodyload-shape", "the derivative of the residual by the node coordinates leaves out the body load"); return; } }
    sameVec(g, D, sc, 1e-6, "derivative by node coordinates");
}
// the local state of a step is the radial return of the previous one
template<class P> void radialReturn(const RMesh& m, const PModel& o, int k, int t, const PState& q, const dvec& z, double tol, bool& yielded, bool& back) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nl = P::SimplexT::mNumLocalDofsPerCell; const int ns = vg(d).n;
    for (int e = 0; e < m.ne(); ++e) { auto& a = o.mat[o.of[e]]; Cell c = cellOf<P>(m, o, e, q.u, z, {}); double pe = msimp(grow(a.ep, a.ea, a.eu, k), a.ee, c.rho), pp = msimp(grow(a.pp, a.pa, a.pu, k), a.pe, c.rho), G = pe * a.G, Hi = pp * a.Hi, Hk = pp * a.Hk, Y = pp * a.Y; const double* b = &q.cp[e * nl]; T3 ep = tens(b + 2, d, true), be = tens(b + 2 + ns, d, false), xi = lin(2 * G, dev(lin(1, c.eps, -1, ep)), -1, be); double nx = std::sqrt(dd(xi, xi)), f = std::sqrt(1.5) * nx - Y - Hi * b[0], dg = 0; T3 N{};
        if (std::fabs(f) < 1e-9) continue; if (f > 0) { dg = f / (3 * G + Hi + Hk); N = lin(1 / nx, xi, 0, xi); yielded = true; } else if (b[0] > 0) back = true;
        const double* g = &q.c[e * nl]; T3 wp = lin(1, ep, std::sqrt(1.5) * dg, N), wb = lin(1, be, std::sqrt(2.0 / 3) * dg * Hk, N), gp = tens(g + 2, d, true), gb = tens(g + 2 + ns, d, false); double sc = tol;
        REQ(std::fabs(g[1] - dg) <= sc, "step " << t << " cell " << e << ": plastic multiplier " << g[1] << ", radial return " << dg); REQ(std::fabs(g[0] - b[0] - dg) <= sc, "step " << t << " cell " << e << ": accumulated plastic strain " << g[0] << " from " << b[0] << " by " << dg); REQ(dd(lin(1, gp, -1, wp), lin(1, gp, -1, wp)) <= sc * sc, "step " << t << " cell " << e << ": plastic strain differs from the radial return"); REQ(dd(lin(1, gb, -1, wb), lin(1, gb, -1, wb)) <= sc * sc * 10, "step " << t << " cell " << e << ": backstress differs from the radial return");
        T3 x2 = lin(2 * G, dev(lin(1, c.eps, -1, gp)), -1, gb); double f2 = std::sqrt(1.5 * dd(x2, x2)) - Y - Hi * g[0]; REQ(f2 <= 10 * tol, "step " << t << " cell " << e << ": stress outside the yield surface by " << f2); }
}
// a history of displacements: the local state is the radial return of the previous one
template<class P> void returnMapping(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, nl = P::SimplexT::mNumLocalDofsPerCell; const int ns = vg(d).n; RMesh m = randomMesh(s, d); dvec z = density(s, m.nv()); PModel o = plastic<P>(s, m, false, false, z); int k = s.intIn(0, 2), steps = s.intIn(1, 4); s.desc << describe(m) << " updates " << k << " steps " << steps << "; " << describe(o.pl);
    Plast<P> E(m, m.x, o.pl); PState q; q.u = q.up = dvec(m.nv() * nd, 0.0); q.c = q.cp = dvec(m.ne() * nl, 0.0); q.z = z; advance(E, k, q); bool yielded = false, back = false;
    for (int t = 0; t < steps; ++t) { q.up = q.u; q.cp = q.c; q.u = s.chance(1, 5) ? axpy(q.u, 0, q.u) : s.chance(1, 4) ? dvec(q.u.size(), 0.0) : rvec(s, q.u.size(), s.pick<double>({0.01, 0.1, 0.5})); Plato::ScalarVector C("c", m.ne() * nl); for (int i = 0; i < m.ne() * nl; ++i) C(i) = s.sreal(1); E.g.updateLocalState(view(q.u), view(q.up), C, view(q.cp), view(z), 0.0); q.c = vec(C);
        radialReturn<P>(m, o, k, t, q, z, 1e-9, yielded, back);
        dvec r = vec(E.g.value(view(q.u), view(q.up), view(q.c), view(q.cp), view(z), 0.0)); for (size_t i = 0; i < r.size(); ++i) REQ(std::fabs(r[i]) <= 1e-8, "step " << t << ": local residual of the returned state is " << r[i] << " in cell " << i / nl << " entry " << i % nl); }
    if (yielded) s.nontrivial(); if (back) s.tag("elastic after yielding");
}
// work criteria
template<class P> void workCriteria(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, nl = P::SimplexT::mNumLocalDofsPerCell; RMesh m = randomMesh(s, d); PState q = pstate<P>(s, m); PModel o = plastic<P>(s, m, false, false, q.z); auto& cr = o.pl.sublist("Criteria"); int nf = s.intIn(1, 2), k = s.intIn(0, 2); std::vector<double> ex(nf), mn(nf), mu(nf), wt(nf); std::vector<int> kind(nf); Teuchos::Array<std::string> fn; Teuchos::Array<double> fw;
    for (int i = 0; i < nf; ++i) { kind[i] = s.intIn(0, 1); auto& c = cr.sublist("C" + std::to_string(i)); c.set<std::string>("Type", "Scalar Function"); c.set<std::string>("Scalar Function Type", kind[i] ? "Plastic Work" : "Elastic Work"); mu[i] = 1; if (s.flag()) c.set<double>("Multiplier", mu[i] = s.sreal(2)); auto& pf = c.sublist("Penalty Function"); pf.set<std::string>("Type", "SIMP"); double e = s.real(1, 3.5), a = s.real(0.05, 1), ub = s.real(3.5, 5); pf.set<double>("Exponent", e); pf.set<double>("Minimum Value", mn[i] = s.pick<double>({1e-9, 1e-3, 0.1})); pf.set<double>("Additive Continuation", a); pf.set<double>("Penalty Exponent Upper Bound", ub); ex[i] = grow(e, a, ub, k); fn.push_back("C" + std::to_string(i)); fw.push_back(wt[i] = s.sreal(2)); s.tag(kind[i] ? "plastic work" : "elastic work"); }
    bool ws = nf > 1 || s.flag(); if (ws) { auto& c = cr.sublist("W"); c.set<std::string>("Type", "Weighted Sum"); c.set("Functions", fn); c.set("Weights", fw); } else wt[0] = 1; s.desc << describe(m) << " updates " << k << "; " << describe(o.pl); if (m.ne() > 1) s.nontrivial();
    struct Inst { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::shared_ptr<Plato::LocalScalarFunctionInc> f; Inst(const RMesh& m, const dmat& x, const PL& p, const std::string& n) : om(omesh(m, x)), pl(p), sm(om->mesh, om->sets, pl) { f = Plato::PathDependentScalarFunctionFactory<P>().create(sm, dm, pl, n); } };
    auto make = [&](const dmat& x) { auto i = std::make_shared<Inst>(m, x, o.pl, ws ? "W" : "C0"); Plato::ScalarMultiVector U("U", 1, q.u.size()), C("C", 1, q.c.size()); for (int j = 0; j < k; ++j) i->f->updateProblem(U, C, view(q.z)); return i; }; auto E = make(m.x);
    auto val = [&](Inst& i, const PState& a) { return i.f->value(view(a.u), view(a.up), view(a.c), view(a.cp), view(a.z), 0.0); };
    // variant bit 0: the recorded trace of the 3D stress law, bit 1: the recorded criteria that do not scale temperatures
    double big = 1e-3; auto work = [&](int variant) { double want = 0; PModel w = o; if (variant & 2) w.ts = 1;
        for (int e = 0; e < m.ne(); ++e) { auto& a = o.mat[o.of[e]]; Cell c1 = cellOf<P>(m, o, e, q.u, q.z, {}), c0 = cellOf<P>(m, o, e, q.up, q.z, {}); T3 e1 = elasticStrain(c1, w, a, &q.c[e * nl], d), e0 = elasticStrain(c0, w, a, &q.cp[e * nl], d), dp = lin(1, tens(&q.c[e * nl + 2], d, true), -1, tens(&q.cp[e * nl + 2], d, true)), av = lin(0.5, e1, 0.5, e0), sg = lin(2 * a.G, av, 0, av); double t = variant & 1 ? av[0][0] + av[1][1] + 2 * av[1][2] : tr(av); for (int i = 0; i < 3; ++i) sg[i][i] += (a.K - 2 * a.G / 3) * t;
            for (int i = 0; i < nf; ++i) { double x = wt[i] * mu[i] * msimp(ex[i], mn[i], c1.rho) * c1.vol * dd(sg, kind[i] ? dp : lin(1, e1, -1, e0)); want += x; big = std::max(big, std::fabs(x)); } } return want; };
    double v0 = val(*E, q), want = work(0); auto is = [&](double w) { return std::fabs(v0 - w) <= 1e-10 * big * m.ne(); };
    if (!is(want)) { std::ostringstream msg; msg << "work " << v0 << ", expected " << want; bool trc = d == 3, sc = o.ts != 1; if (trc && is(work(1))) s.known("cauchy-3d-trace", msg.str()); else if (sc && is(work(2))) s.known("work-temperature-scaling", msg.str()); else if (trc && sc && is(work(3))) { s.known("cauchy-3d-trace", msg.str()); s.known("work-temperature-scaling", msg.str()); } else FAIL(msg.str()); }
    struct A { const char* n; dvec PState::*p; int col; }; static const A as[] = {{"state", &PState::u, nd}, {"previous state", &PState::up, nd}, {"local state", &PState::c, -nl}, {"previous local state", &PState::cp, -nl}, {"control", &PState::z, 1}}; bool ok;
    auto app = [&](const Plato::ScalarMultiVector& G, int cd, const dvec& v) { auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), G); int C = cd > 0 ? cd * (d + 1) : -cd; REQ((int)h.extent(0) == m.ne() && (int)h.extent(1) == C, "shape of the derivative: " << h.extent(0) << " x " << h.extent(1)); double r = 0; for (int e = 0; e < m.ne(); ++e) for (int j = 0; j < C; ++j) r += h(e, j) * v[cd > 0 ? m.ev[e][j / cd] * cd + j % cd : e * C + j]; return r; };
#define PC(F) E->f->F(view(q.u), view(q.up), view(q.c), view(q.cp), view(q.z), 0.0)
    for (int w = 0; w < 5; ++w) { const A& a = as[w]; dvec v = rvec(s, (q.*a.p).size(), 1.0); double D = ddx([&](double t) { PState b = q; b.*a.p = axpy(q.*a.p, t, v); return dvec{val(*E, b)}; }, w == 4 ? 1e-3 : 1e-2, ok)[0]; auto G = w == 0 ? PC(gradient_u) : w == 1 ? PC(gradient_up) : w == 2 ? PC(gradient_c) : w == 3 ? PC(gradient_cp) : PC(gradient_z); double g = app(G, a.col, v); if (ok) REQ(std::fabs(g - D) <= 1e-6 * (std::fabs(D) + big * m.ne()), "derivative by " << a.n << " is " << g << ", difference quotient " << D); }
    dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& x : a) x = s.sreal(m.hmin); double D = ddx([&](double t) { auto e = make(axpy(m.x, t, dx)); return dvec{val(*e, q)}; }, 1e-3, ok)[0], g = app(PC(gradient_x), d, flat(dx)); if (ok) REQ(std::fabs(g - D) <= 1e-6 * (std::fabs(D) + big * m.ne()), "derivative by node coordinates is " << g << ", difference quotient " << D);
}
} // namespace hm
