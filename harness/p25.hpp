// Output fields: those of the state they are asked for, element by element, whatever the blocks.
#pragma once
#include "p23.hpp"
#include "p24.hpp"
namespace hm {
// constant gradient of each shape function of an element
inline dmat shapeGrad(const RMesh& m, int c) { int d = m.d; dmat A(d, dvec(d)), r(d + 1, dvec(d, 0.0)); auto& e = m.ev[c]; for (int i = 0; i < d; ++i) for (int k = 0; k < d; ++k) A[i][k] = m.x[e[i + 1]][k] - m.x[e[0]][k]; for (int i = 0; i < d; ++i) { dvec b(d, 0.0), g; b[i] = 1; if (!h::solve(A, b, g)) throw pbt::Discard(); r[i + 1] = g; for (int k = 0; k < d; ++k) r[0][k] -= g[k]; } return r; }
inline dmat fieldGrad(const RMesh& m, const dvec& u, int nd, int off, int nc, int c) { dmat g = shapeGrad(m, c), r(nc, dvec(m.d, 0.0)); for (int i = 0; i <= m.d; ++i) for (int a = 0; a < nc; ++a) for (int k = 0; k < m.d; ++k) r[a][k] += g[i][k] * u[m.ev[c][i] * nd + off + a]; return r; }
inline std::vector<std::pair<int, int>> voigt(int d) { if (d == 2) return {{0, 0}, {1, 1}, {0, 1}}; return {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}; }
inline dvec strainOf(const RMesh& m, const dvec& u, int nd, int c) { dmat g = fieldGrad(m, u, nd, 0, m.d, c); dvec r; for (auto& q : voigt(m.d)) r.push_back(q.first == q.second ? g[q.first][q.first] : g[q.first][q.second] + g[q.second][q.first]); return r; }
inline dmat cellField(Plato::DataMap& dm, const std::string& name, const RMesh& m, int cols) { REQ(dm.scalarMultiVectors.count(name), "no output '" << name << "'"); auto v = dm.scalarMultiVectors[name]; REQ((int)v.extent(0) == m.ne() && (int)v.extent(1) == cols, "output '" << name << "' is " << v.extent(0) << " x " << v.extent(1) << " for " << m.ne() << " elements"); dmat r(m.ne(), dvec(cols)); for (int i = 0; i < m.ne(); ++i) for (int j = 0; j < cols; ++j) r[i][j] = v(i, j); return r; }
inline void sameRow(const dvec& a, const dvec& b, double sc, const std::string& what, int c) { for (size_t i = 0; i < a.size(); ++i) REQ(std::fabs(a[i] - b[i]) <= 1e-9 * sc + 1e-13, what << " of element " << c << ", component " << i << ": " << a[i] << " instead of " << b[i]); }
// nodal forces of element stresses, and the source of element fluxes
inline dvec nodal(const RMesh& m, const dmat& stress, const dmat* flux, int nd) { dvec r(m.nv() * nd, 0.0); auto vo = voigt(m.d); for (int c = 0; c < m.ne(); ++c) { dmat g = shapeGrad(m, c); double w = volOf(m, c); for (int i = 0; i <= m.d; ++i) { int n = m.ev[c][i] * nd; if (!stress.empty()) for (size_t k = 0; k < vo.size(); ++k) { int a = vo[k].first, b = vo[k].second; r[n + a] += w * g[i][b] * stress[c][k]; if (a != b) r[n + b] += w * g[i][a] * stress[c][k]; } if (flux) for (int k = 0; k < m.d; ++k) r[n + nd - 1] += w * g[i][k] * (*flux)[c][k]; } } return r; }
inline std::vector<std::string> wanted(Src& s, PL& l, std::vector<std::string> all) { std::vector<std::string> r; for (auto& k : all) if (s.chance(3, 4)) r.push_back(k); if (r.empty()) r.push_back(all[0]); Teuchos::Array<std::string> a(r.size()); for (size_t i = 0; i < r.size(); ++i) a[i] = r[i]; l.set("Plottable", a); return r; }
inline bool has(const std::vector<std::string>& v, const char* k) { return std::count(v.begin(), v.end(), k) > 0; }
inline double sameForces(const dvec& got, const dvec& want, const char* what, int lo, int hi, int nd) { double sc = 1e-12; for (size_t i = 0; i < got.size(); ++i) sc = std::max({sc, std::fabs(got[i]), std::fabs(want[i])}); for (size_t i = 0; i < got.size(); ++i) if ((int)(i % nd) >= lo && (int)(i % nd) < hi) REQ(std::fabs(got[i] - want[i]) <= 1e-9 * sc, what << " does not give the residual of dof " << i << ": " << got[i] << " and " << want[i]); return sc; }
// checks everything that was asked for against the state and the residual (without loads)
inline void outputs(const RMesh& m, Plato::DataMap& dm, const std::vector<std::string>& want, const dvec& u, const dvec& res, int nd, Phys ph) {
    int d = m.d, nv = d == 2 ? 3 : 6; dmat st; if (has(want, "strain")) { dmat g = cellField(dm, "strain", m, nv); for (int c = 0; c < m.ne(); ++c) { dvec e = strainOf(m, u, nd, c); sameRow(g[c], e, maxabs(e) + maxabs(u) / m.hmin, "strain", c); } }
    const char* gn = ph == EMECH ? "efield" : "tgrad"; const char* fn = ph == EMECH ? "edisp" : "flux"; if (has(want, gn)) { dmat g = cellField(dm, gn, m, d); for (int c = 0; c < m.ne(); ++c) { dvec e = fieldGrad(m, u, nd, nd - 1, 1, c)[0]; if (ph == EMECH) for (double& x : e) x = -x; sameRow(g[c], e, maxabs(e) + maxabs(u) / m.hmin, gn, c); } }
    if (has(want, "stress")) { st = cellField(dm, "stress", m, nv); sameForces(nodal(m, st, nullptr, nd), res, "stress", 0, d, nd); }
    if (has(want, fn)) { dmat f = cellField(dm, fn, m, d); dvec r = nodal(m, {}, &f, nd); if (ph == THERM) for (double& x : r) x = -x; // heat conduction outputs the physical flux, against the gradient
        sameForces(r, res, fn, nd - 1, nd, nd); }
    if (has(want, "Vonmises")) { REQ(dm.scalarVectors.count("Vonmises") && (int)dm.scalarVectors["Vonmises"].extent(0) == m.ne(), "no output 'Vonmises' for every element"); if (!st.empty()) for (int c = 0; c < m.ne(); ++c) { double v = dm.scalarVectors["Vonmises"](c), e; auto& q = st[c]; e = d == 2 ? std::sqrt(q[0] * q[0] + q[1] * q[1] - q[0] * q[1] + 3 * q[2] * q[2]) : std::sqrt(0.5 * ((q[0] - q[1]) * (q[0] - q[1]) + (q[1] - q[2]) * (q[1] - q[2]) + (q[2] - q[0]) * (q[2] - q[0])) + 3 * (q[3] * q[3] + q[4] * q[4] + q[5] * q[5])); NEAR(v, e, maxabs(q), "von Mises stress of element " << c); } }
}
inline std::vector<std::string> fields(Phys ph) { if (ph == MECH) return {"strain", "stress", "Vonmises"}; if (ph == THERM) return {"tgrad", "flux"}; if (ph == TMECH) return {"strain", "stress", "tgrad", "flux"}; return {"strain", "stress", "efield", "edisp"}; }
template<class P> void steadyOutputs(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); ModelOpt mo; mo.loads = mo.body = false; mo.refStrain = true; PL p = baseList(s, m, ph, mo); auto want = wanted(s, p.sublist("Elliptic"), fields(ph)); dvec z = density(s, m.nv()), u = rvec(s, m.nv() * nd, 1.0), u2 = rvec(s, m.nv() * nd, 1.0);
    s.desc << describe(m) << "; " << describe(p); if (m.ne() > 1) s.nontrivial(); if (m.blocks.size() > 1) s.tag("blocks");
    SteadyPDE<P> e(m, p); e.f.value(view(u2), view(z)); e.f.gradient_u(view(u2), view(z)); if (s.flag()) { auto k = e.dm.getState(); } dvec r = vec(e.f.value(view(u), view(z))); for (auto& k : fields(ph)) if (!has(want, k.c_str())) REQ(!e.dm.scalarMultiVectors.count(k) && !e.dm.scalarVectors.count(k), "output '" << k << "' was not asked for"); outputs(m, e.dm, want, u, r, nd, ph);
    if (s.flag()) e.f.gradient_z(view(u), view(z)), e.f.gradient_u(view(u), view(z)); outputs(m, e.dm, want, u, r, nd, ph);
}
template<class P> void transientOutputs(Src& s) { // thermomechanics
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = d + 1; RMesh m = randomMesh(s, d); dvec rhoc; bool nm; PL p = transientList(s, m, TMECH, rhoc, nm); p.remove("Mechanical Natural Boundary Conditions", false); p.remove("Thermal Natural Boundary Conditions", false); auto want = wanted(s, p.sublist("Parabolic"), {"strain", "stress"}); dvec z = density(s, m.nv()), u = rvec(s, m.nv() * nd, 1.0), v = rvec(s, m.nv() * nd, 1.0), u2 = rvec(s, m.nv() * nd, 1.0);
    s.desc << describe(m) << "; " << describe(p); if (m.ne() > 1) s.nontrivial(); if (m.blocks.size() > 1) s.tag("blocks"); TransientPDE<P> e(m, m.x, p); e.f.value(view(u2), view(v), view(z), 0.1); dvec r = vec(e.f.value(view(u), view(v), view(z), 0.1)); outputs(m, e.dm, want, u, r, nd, TMECH);
}
template<int d> void dynamicOutputs(Src& s) {
    using P = Plato::Hyperbolic::Mechanics<d>; RMesh m = randomMesh(s, d); std::vector<Mat> mats; PL p = dynamicList(s, m, mats); p.remove("Natural Boundary Conditions", false); p.remove("Body Loads", false); auto want = wanted(s, p.sublist("Hyperbolic"), {"strain", "stress", "velgrad"}); int n = m.nv() * d; dvec z = density(s, m.nv()), u = rvec(s, n, 1.0), v = rvec(s, n, 1.0), u2 = rvec(s, n, 1.0), zero(n, 0.0); bool damped = true; for (auto& q : mats) damped = damped && (q.a || q.b);
    s.desc << describe(m) << "; " << describe(p); if (m.ne() > 1) s.nontrivial(); if (m.blocks.size() > 1) s.tag("blocks"); DynamicPDE<P> e(m, p); e.f.value(view(u2), view(u2), view(u2), view(z), 0.1, 0.0); bool drag = false; for (auto& q : mats) drag = drag || q.a; dvec acc = zero; if (drag) for (int i = 0; i < n; ++i) acc[i] = -mats[0].a * v[i]; bool one = true; for (auto& q : mats) one = one && q.a == mats[0].a; /* acceleration that cancels the drag on the mass, which is no stress */ dvec r = vec(e.f.value(view(u), view(v), view(acc), view(z), 0.1, 0.0)); auto w2 = want; if (!one) w2.erase(std::remove(w2.begin(), w2.end(), "stress"), w2.end()); outputs(m, e.dm, w2, u, r, d, MECH);
    if (has(want, "velgrad") && damped) { dmat g = cellField(e.dm, "velgrad", m, d == 2 ? 3 : 6); for (int c = 0; c < m.ne(); ++c) { dvec k = strainOf(m, v, d, c); sameRow(g[c], k, maxabs(k) + maxabs(v) / m.hmin, "velocity gradient", c); } s.tag("velgrad"); }
}
// whole problems: the stored fields of every step are those of that step's solution
template<class P> void steadyHistory(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; using Pb = Plato::Elliptic::Problem<P>; MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); ModelOpt mo; mo.poly = false; PL p = baseList(s, m, ph, mo); essential(s, p, m, nd, false); p.sublist("Linear Solver"); auto want = wanted(s, p.sublist("Elliptic"), fields(ph)); dvec z = density(s, m.nv()), z2 = density(s, m.nv()); s.desc << describe(m) << "; " << describe(p);
    auto om = omesh(m); PL pl = p; Pb pb(om->mesh, om->sets, pl, machine()); pb.readEssentialBoundaryConditions(pl); if (s.flag()) pb.solution(view(z2)); Plato::Solution r = pb.solution(view(z)); dvec u(m.nv() * nd); for (size_t i = 0; i < u.size(); ++i) u[i] = r.State(0, i); DISCARD_IF(!(maxabs(u) < 1e3)); if (m.ne() > 1 && maxabs(u) > 0) s.nontrivial();
    PL l2 = p; l2.remove("Natural Boundary Conditions", false); l2.remove("Mechanical Natural Boundary Conditions", false); l2.remove("Thermal Natural Boundary Conditions", false); l2.remove("Electrical Natural Boundary Conditions", false); l2.remove("Body Loads", false); SteadyPDE<P> e(m, l2); dvec res = vec(e.f.value(view(u), view(z))); REQ(pb.getDataMap().stateDataMaps.size() == 1, "stored states: " << pb.getDataMap().stateDataMaps.size()); auto st = pb.getDataMap().getState(0); outputs(m, st, want, u, res, nd, ph);
}
template<int d> void dynamicHistory(Src& s) {
    using P = Plato::Hyperbolic::Mechanics<d>; MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); std::vector<Mat> mats; PL p = dynamicList(s, m, mats); timeLoads(s, p, d); essential(s, p, m, d, false); p.sublist("Displacement Boundary Conditions") = p.sublist("Essential Boundary Conditions"); p.sublist("Linear Solver"); int steps = s.intIn(1, 4); { auto& q = p.sublist("Time Integration"); q.set<int>("Number Time Steps", steps); q.set<double>("Time Step", s.logreal(0.05, 1)); q.set<double>("Newmark Beta", 0.25); q.set<double>("Newmark Gamma", 0.5); } std::vector<std::string> want = {"strain"}; { Teuchos::Array<std::string> a(1, "strain"); p.sublist("Hyperbolic").set("Plottable", a); }
    dvec z = density(s, m.nv()), z2 = density(s, m.nv()); s.desc << describe(m) << "; " << describe(p); auto om = omesh(m); PL pl = p; Plato::HyperbolicProblem<P> pb(om->mesh, om->sets, pl, machine()); if (s.flag()) pb.solution(view(z2)); auto r = pb.solution(view(z)); auto& dm = pb.getDataMap(); REQ((int)dm.stateDataMaps.size() == steps, "stored states: " << dm.stateDataMaps.size() << " for " << steps << " steps"); if (steps > 1 && m.ne() > 1) s.nontrivial();
    for (int k = 0; k < steps; ++k) { dvec u(m.nv() * d); for (size_t i = 0; i < u.size(); ++i) u[i] = r.State(k, i); DISCARD_IF(!(maxabs(u) < 1e4)); auto st = dm.getState(k); outputs(m, st, want, u, u, d, MECH); } THROWS(dm.getState(steps), "state after the last one");
}
template<class P> void transientHistory(Src& s) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = d + 1; MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); dvec rhoc; bool nm; PL p = transientList(s, m, TMECH, rhoc, nm); DISCARD_IF(hasTempDep(p)); p.sublist("Linear Solver"); int steps = s.intIn(1, 4); { auto& q = p.sublist("Time Integration"); q.set<int>("Number Time Steps", steps); q.set<double>("Time Step", s.logreal(0.05, 1)); } essential(s, p, m, nd, false); std::vector<std::string> want = {"strain"}; { Teuchos::Array<std::string> a(1, "strain"); p.sublist("Parabolic").set("Plottable", a); }
    dvec z = density(s, m.nv()), z2 = density(s, m.nv()); s.desc << describe(m) << "; " << describe(p); auto om = omesh(m); PL pl = p; Plato::Parabolic::Problem<P> pb(om->mesh, om->sets, pl, machine()); if (s.flag()) pb.solution(view(z2)); auto r = pb.solution(view(z)); auto& dm = pb.getDataMap(); REQ((int)dm.stateDataMaps.size() == steps, "stored states: " << dm.stateDataMaps.size() << " for " << steps << " steps"); if (steps > 1 && m.ne() > 1) s.nontrivial();
    for (int k = 0; k < steps; ++k) { dvec u(m.nv() * nd); for (size_t i = 0; i < u.size(); ++i) u[i] = r.State(k, i); DISCARD_IF(!(maxabs(u) < 1e4)); auto st = dm.getState(k); outputs(m, st, want, u, u, nd, TMECH); }
}
} // namespace hm
