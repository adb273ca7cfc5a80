// Transient heat and thermoelastic problems: assembled residual and derivatives, agreement with the steady residual, time
// stepping, and total derivatives of criteria.
#pragma once
#include "p22.hpp"
#include "parabolic/Problem.hpp"
namespace hm {
struct TOpt { bool poly = true; };
// a steady list, with what the transient problem needs on top
inline PL transientList(Src& s, const RMesh& m, Phys ph, dvec& rhoc, bool& nonlinMass) {
    ModelOpt mo; mo.body = false; PL p = baseList(s, m, ph, mo); p.set<std::string>("PDE Constraint", "Parabolic"); p.remove("Elliptic"); penalty(s, p.sublist("Parabolic"), false); p.sublist("Elliptic").sublist("Penalty Function") = p.sublist("Parabolic").sublist("Penalty Function");
    auto& mm = p.sublist("Material Models"); nonlinMass = false; rhoc.clear();
    for (int i = 0; mm.isSublist("Mat " + std::to_string(i)); ++i) { auto& q = mm.sublist("Mat " + std::to_string(i)).sublist("Thermal Mass"); bool poly = s.chance(1, 4); if (poly) { q.set<bool>("Temperature Dependent", true); nonlinMass = true; } polyOrConst(s, q, "Mass Density", 0.3, 3, poly); polyOrConst(s, q, "Specific Heat", 0.5, 2, poly); rhoc.push_back(poly ? 0 : q.get<double>("Mass Density") * q.get<double>("Specific Heat")); }
    return p;
}
template<class P> struct TransientPDE { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Parabolic::VectorFunction<P> f; TransientPDE(const RMesh& m, const dmat& x, const PL& p) : om(omesh(m, x)), pl(p), sm(om->mesh, om->sets, pl), name("Parabolic"), f(sm, dm, pl, name) {} };
template<class P> struct SteadyPDE { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Elliptic::VectorFunction<P> f; SteadyPDE(const RMesh& m, const PL& p) : om(omesh(m)), pl(p), sm(om->mesh, om->sets, pl), name("Elliptic"), f(sm, dm, pl, name) {} };
template<class P> void transientResidual(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); dvec rhoc; bool nm; PL p = transientList(s, m, ph, rhoc, nm); int n = m.nv() * nd;
    dvec u = rvec(s, n, 1.0), v = rvec(s, n, 1.0), z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0), a = rvec(s, n, 1.0); dmat dx(m.nv(), dvec(d)); for (auto& r : dx) for (double& b : r) b = s.sreal(1) * m.hmin; double dt = s.real(0.01, 1);
    s.desc << describe(m) << "; " << describe(p); if (m.ne() > 1) s.nontrivial();
    TransientPDE<P> e(m, m.x, p); REQ(e.f.size() == n, "number of unknowns"); auto R = [&](const dvec& b, const dvec& c, const dvec& k) { return vec(e.f.value(view(b), view(c), view(k), dt)); };
    dvec r0 = R(u, v, z); REQ((int)r0.size() == n, "residual length"); double rs = maxabs(r0); bool ok;
    // at rest it is the steady problem
    dvec zero(n, 0.0), rr = R(u, zero, z); { SteadyPDE<P> g(m, p); sameVec(rr, vec(g.f.value(view(u), view(z))), maxabs(rr), 1e-10, "residual at rest, compared with the steady problem"); }
    // the heat taken up: density, heat capacity, rate and volume
    if (!nm) { dvec one(m.nv(), 1.0), q0 = R(u, zero, one), q1 = R(u, v, one); double got = 0, want = 0, sc = 0; constexpr int o = nd - 1; for (int i = 0; i < m.nv(); ++i) { got += q1[i * nd + o] - q0[i * nd + o]; sc = std::max(sc, std::fabs(q0[i * nd + o])); for (int k = 0; k < o; ++k) REQ(q1[i * nd + k] == q0[i * nd + k], "mechanical equation depends on the rate"); } std::vector<std::string> names; for (size_t b = 0; b < m.blocks.size(); ++b) for (int c : m.blocks[b]) { double t = 0; for (int q : m.ev[c]) t += v[q * nd + o] / (d + 1); double k = t * volOf(m, c) * rhoc[b % rhoc.size()]; want += k; sc = std::max(sc, std::fabs(k)); }
        // Heaviside keeps its own value at full density
        if (p.sublist("Parabolic").sublist("Penalty Function").get<std::string>("Type") != "Heaviside") REQ(std::fabs(got - want) <= 1e-9 * sc * m.nv(), "heat taken up: " << got << " instead of " << want); }
    dmat Ju = dense(e.f.gradient_u(view(u), view(v), view(z), dt)), Jv = dense(e.f.gradient_v(view(u), view(v), view(z), dt)); double js = std::max(maxabs(Ju), maxabs(Jv));
    dvec q = ddx([&](double t) { return R(axpy(u, t, a), v, z); }, 1e-2, ok); if (ok) sameVec(mul(Ju, a), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by state");
    q = ddx([&](double t) { return R(u, axpy(v, t, a), z); }, 1e-2, ok); if (ok) sameVec(mul(Jv, a), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by rate");
    dmat Jz = dense(e.f.gradient_z(view(u), view(v), view(z), dt)); REQ((int)Jz.size() == m.nv() && (int)Jz[0].size() == n, "control derivative shape"); q = ddx([&](double t) { return R(u, v, axpy(z, t, w)); }, 1e-3, ok); if (ok) sameVec(tmul(Jz, w), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by control");
    dmat Jx = dense(e.f.gradient_x(view(u), view(v), view(z), dt)); REQ((int)Jx.size() == m.nv() * d && (int)Jx[0].size() == n, "configuration derivative shape"); q = ddx([&](double t) { Moved mv(*e.om, axpy(m.x, t, dx)); return R(u, v, z); }, 1e-3, ok); if (ok) sameVec(tmul(Jx, flat(dx)), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by node coordinates");
}
template<class P> void transientProblem(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; using Pb = Plato::Parabolic::Problem<P>; MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); dvec rhoc; bool nm; PL p = transientList(s, m, ph, rhoc, nm); int n = m.nv() * nd;
    bool nonlin = hasTempDep(p); if (nonlin) { auto& q = p.sublist("Newton Iteration"); q.set<int>("Maximum Iterations", 40); q.set<double>("Increment Tolerance", 1e-12); s.tag("nonlinear"); } else if (s.chance(1, 4)) { auto& q = p.sublist("Newton Iteration"); q.set<int>("Maximum Iterations", 2); } p.sublist("Linear Solver");
    int steps = s.intIn(1, 4); double dt = s.logreal(0.02, 1), al = s.pick<double>({0.5, 0.6, 0.75, 1.0}); { auto& q = p.sublist("Time Integration"); q.set<int>("Number Time Steps", steps); q.set<double>("Time Step", dt); if (al != 0.5 || s.flag()) q.set<double>("Trapezoid Alpha", al); }
    Bc bc = essential(s, p, m, nd, s.chance(1, 4)); dvec u0(n, 0.0);
    if (s.flag()) { static const char* f[] = {"1.5", "x", "1+2*x-y", "x*y"}; auto F = [](int k, const dvec& x) { return k == 0 ? 1.5 : k == 1 ? x[0] : k == 2 ? 1 + 2 * x[0] - x[1] : x[0] * x[1]; }; int k = s.intIn(0, 3), other = s.intIn(0, 3); p.sublist("Computed Fields").sublist("Other").set<std::string>("Function", f[other]); p.sublist("Computed Fields").sublist("Initial").set<std::string>("Function", f[k]); int dof = ph == THERM ? 0 : s.pick<int>({nd - 1, 0, 1}); const char* dn = dof == nd - 1 ? "Temperature" : dof == 0 ? "Displacement X" : "Displacement Y"; p.sublist("Initial State").sublist(dn).set<std::string>("Computed Field", "Initial"); for (int i = 0; i < m.nv(); ++i) u0[i * nd + dof] = F(k, m.x[i]); s.tag("initial state"); }
    auto& cq = p.sublist("Criteria").sublist("f0"); cq.set<std::string>("Type", "Scalar Function"); std::string ct = ph == TMECH ? "Internal Thermoelastic Energy" : s.flag() ? "Internal Thermal Energy" : "Temperature Average"; cq.set<std::string>("Scalar Function Type", ct); penalty(s, cq, false);
    { auto& v = p.sublist("Criteria").sublist("vol"); v.set<bool>("Linear", true); v.set<std::string>("Type", "Scalar Function"); v.set<std::string>("Scalar Function Type", "Volume"); auto& q = v.sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); q.set<double>("Exponent", 1.0); q.set<double>("Minimum Value", 0.0); }
    dvec z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0), z2 = density(s, m.nv()); dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin; bool dofx = s.flag() && maxabs(u0) == 0, given = s.flag();
    s.desc << describe(m) << "; " << describe(p); s.tag(ct);
    auto om = omesh(m); PL pl = p; Pb pb(om->mesh, om->sets, pl, machine());
    auto grab = [&](Plato::ScalarMultiVector v) { dmat r; for (size_t i = 0; i < v.extent(0); ++i) { r.push_back({}); for (size_t j = 0; j < v.extent(1); ++j) r[i].push_back(v(i, j)); } return r; };
    Plato::Solution sol = pb.solution(view(z)); dmat U = grab(sol.State), V = grab(sol.StateDot); REQ((int)U.size() == steps && (int)U[0].size() == n && (int)V.size() == steps, "number of steps"); sameVec(U[0], u0, maxabs(u0), 1e-12, "initial state"); for (double x : V[0]) REQ(x == 0, "initial rate");
    // each step is what Newton's method on the dense step equations finds
    { PL l2 = p; Plato::DataMap dm; Plato::SpatialModel sm(om->mesh, om->sets, l2); Plato::Parabolic::VectorFunction<P> pde(sm, dm, l2, l2.get<std::string>("PDE Constraint")); std::vector<char> fixed(n, 0); for (int k : bc.dofs) fixed[k] = 1; double c = 1 / (al * dt);
        dvec yp = u0, vp(n, 0.0); for (int k = 1; k < steps; ++k) { dvec y(n, 0.0), v; bool conv = false; auto rate = [&](const dvec& a) { dvec r(n); for (int i = 0; i < n; ++i) r[i] = c * (a[i] - yp[i]) - (1 - al) / al * vp[i]; return r; };
            for (size_t i = 0; i < bc.dofs.size(); ++i) y[bc.dofs[i]] = bc.vals[i];
            for (int it = 0; it < 25 && !conv; ++it) { v = rate(y); dvec r = vec(pde.value(view(y), view(v), view(z), dt)); dmat J = dense(pde.gradient_u(view(y), view(v), view(z), dt)), M = dense(pde.gradient_v(view(y), view(v), view(z), dt)); double js = 1e-300; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { J[i][j] += c * M[i][j]; js = std::max(js, std::fabs(J[i][j])); } dvec b = r, dy; for (double& q : b) q = -q; for (int i = 0; i < n; ++i) if (fixed[i]) { for (int j = 0; j < n; ++j) J[i][j] = J[j][i] = 0; J[i][i] = js; b[i] = 0; } if (!eqSolve(J, b, dy)) throw pbt::Discard(); y = axpy(y, 1, dy); conv = !nonlin || maxabs(dy) < 1e-11 * (1 + maxabs(y)); }
            DISCARD_IF(!conv || !(maxabs(y) < 1e3)); v = rate(y); double us = maxabs(U[k]) + maxabs(y), vs = maxabs(V[k]) + maxabs(v);
            for (int i = 0; i < n; ++i) { REQ(std::fabs(U[k][i] - y[i]) <= 1e-6 * us + 1e-12, "step " << k << " dof " << i << (fixed[i] ? " (prescribed)" : "") << " is " << U[k][i] << ", independent solution " << y[i]); REQ(std::fabs(V[k][i] - v[i]) <= 1e-6 * (vs + us * c) + 1e-12, "rate of step " << k << " dof " << i << " is " << V[k][i] << ", independent solution " << v[i]); }
            yp = U[k]; vp = V[k]; if (us > 0 && m.ne() > 1 && k > 1) s.nontrivial(); } }
    auto F = [&](const dvec& a) { pb.solution(view(a)); return pb.criterionValue(view(a), "f0"); };
    double f0 = F(z), f1 = pb.criterionValue(view(z), pb.getGlobalSolution(), "f0"); REQ(f0 == f1 && std::isfinite(f0), "value with and without the solution given: " << f1 << " and " << f0); DISCARD_IF(std::fabs(f0) > 1e8);
    THROWS(pb.criterionValue(view(z), "nothing"), "criterion that does not exist"); REQ(pb.criterionIsLinear("vol") && !pb.criterionIsLinear("f0"), "which criteria are linear");
    // solving for something else in between changes nothing
    { dmat A = grab(pb.getGlobalSolution().State); for (int k = 0; k < steps; ++k) sameVec(A[k], U[k], maxabs(U[k]), 1e-8, "solved twice, step " + std::to_string(k)); F(z2); double f2 = F(z); REQ(std::fabs(f2 - f0) <= 1e-8 * std::fabs(f0) + 1e-14, "solved again after another design: " << f2 << " instead of " << f0); }
    bool ok; double err; dvec q; auto G = [&](bool x) { F(z); auto S = pb.getGlobalSolution(); return vec(x ? (given ? pb.criterionGradientX(view(z), S, "f0") : pb.criterionGradientX(view(z), "f0")) : given ? pb.criterionGradient(view(z), S, "f0") : pb.criterionGradient(view(z), "f0")); };
    if (!dofx) { dvec g = G(false); q = ddx([&](double e) { return dvec{F(axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(g, w, q, std::fabs(f0) + 1e-3, ok, err, "total derivative by control"); }
    else { dvec g = G(true); q = ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{F(z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(g, flat(dx), q, std::fabs(f0) + 1e-3, ok, err, "total derivative by node coordinates"); s.tag("by coordinates"); }
}
} // namespace hm
