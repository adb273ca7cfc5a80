// Structural dynamics: assembled residual and derivatives, agreement with the static residual, Newmark stepping, total derivatives of criteria.
#pragma once
#include "p22.hpp"
#include "hyperbolic/HyperbolicProblem.hpp"
#include "hyperbolic/HyperbolicMechanics.hpp"
#include "Mechanics.hpp"
namespace hm {
struct TimeFn { const char* text; double (*f)(double); };
inline const TimeFn& timeFn(Src& s) { static const TimeFn t[] = {{"t", [](double t) { return t; }}, {"1-2*t", [](double t) { return 1 - 2 * t; }}, {"0.7", [](double) { return 0.7; }}, {"t*t-0.3", [](double t) { return t * t - 0.3; }}, {"0.2+t", [](double t) { return 0.2 + t; }}}; return t[s.intIn(0, 4)]; }
struct Mat { double rho = 1, a = 0, b = 0; };
inline PL dynamicList(Src& s, const RMesh& m, std::vector<Mat>& mats) {
    ModelOpt mo; mo.refStrain = false; mo.loads = true; PL p = baseList(s, m, MECH, mo); p.set<std::string>("PDE Constraint", "Hyperbolic"); p.remove("Elliptic"); penalty(s, p.sublist("Hyperbolic"), false); p.sublist("Elliptic").sublist("Penalty Function") = p.sublist("Hyperbolic").sublist("Penalty Function");
    auto& mm = p.sublist("Material Models"); mats.clear(); for (int i = 0; mm.isSublist("Mat " + std::to_string(i)); ++i) { auto& l = mm.sublist("Mat " + std::to_string(i)); auto& q = l.sublist(l.name(l.begin())); Mat k; if (s.chance(3, 4)) { k.rho = s.real(0.3, 3); q.set<double>("Mass Density", k.rho); } else q.remove("Mass Density", false); if (s.chance(1, 3)) { k.a = s.real(0.01, 0.5); q.set<double>("RayleighA", k.a); } if (s.chance(1, 3)) { k.b = s.real(0.01, 0.5); q.set<double>("RayleighB", k.b); } mats.push_back(k); }
    return p;
}
struct TLoad { std::string name; std::vector<const TimeFn*> f; bool one = false; };
// turns some loads into ones that depend on time
inline std::vector<TLoad> timeLoads(Src& s, PL& p, int d) {
    std::vector<TLoad> r; if (!p.isSublist("Natural Boundary Conditions")) return r; auto& n = p.sublist("Natural Boundary Conditions"); std::vector<std::string> names; for (auto i = n.begin(); i != n.end(); ++i) names.push_back(n.name(i));
    for (auto& k : names) { auto& q = n.sublist(k); if (q.get<std::string>("Type") != "Uniform" || s.flag()) continue; TLoad t; t.name = k; if (q.isParameter("Values")) { Teuchos::Array<std::string> v(d); for (auto& x : v) { t.f.push_back(&timeFn(s)); x = t.f.back()->text; } q.remove("Values"); q.set("Values", v); } else { t.one = true; t.f.push_back(&timeFn(s)); q.remove("Value"); q.set<std::string>("Value", t.f[0]->text); } r.push_back(t); s.tag("load in time"); }
    return r;
}
inline PL frozen(const PL& p, const std::vector<TLoad>& l, double time, int d) { PL r = p; for (auto& t : l) { auto& q = r.sublist("Natural Boundary Conditions").sublist(t.name); if (t.one) { q.remove("Value"); q.set<double>("Value", t.f[0]->f(time)); } else { Teuchos::Array<double> v(d); for (int i = 0; i < d; ++i) v[i] = t.f[i]->f(time); q.remove("Values"); q.set("Values", v); } } return r; }
template<class P> struct DynamicPDE { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Hyperbolic::VectorFunction<P> f; DynamicPDE(const RMesh& m, const PL& p) : om(omesh(m)), pl(p), sm(om->mesh, om->sets, pl), name("Hyperbolic"), f(sm, dm, pl, name) {} };
template<class P> struct StaticPDE { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Elliptic::VectorFunction<P> f; StaticPDE(const RMesh& m, const PL& p) : om(omesh(m)), pl(p), sm(om->mesh, om->sets, pl), name("Elliptic"), f(sm, dm, pl, name) {} };
template<int d> void dynamicResidual(Src& s) {
    using P = Plato::Hyperbolic::Mechanics<d>; RMesh m = randomMesh(s, d); std::vector<Mat> mats; PL p = dynamicList(s, m, mats); auto tl = timeLoads(s, p, d); int n = m.nv() * d; double time = s.chance(1, 4) ? 0 : s.real(0, 2), dt = s.real(0.01, 1);
    dvec u = rvec(s, n, 1.0), v = rvec(s, n, 1.0), a = rvec(s, n, 1.0), z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0), q, c = rvec(s, n, 1.0); dmat dx(m.nv(), dvec(d)); for (auto& r : dx) for (double& b : r) b = s.sreal(1) * m.hmin;
    s.desc << describe(m) << "; time " << time << "; " << describe(p); if (m.ne() > 1) s.nontrivial(); bool body = p.isSublist("Body Loads");
    DynamicPDE<P> e(m, p); REQ((int)e.f.size() == n, "number of unknowns"); auto R = [&](const dvec& u, const dvec& v, const dvec& a, const dvec& k) { return vec(e.f.value(view(u), view(v), view(a), view(k), dt, time)); };
    dvec r0 = R(u, v, a, z), zero(n, 0.0); REQ((int)r0.size() == n, "residual length"); double rs = maxabs(r0); bool ok;
    // at rest it is the static problem, with the loads of this moment
    dvec rr = R(u, zero, zero, z); PL pf = frozen(p, tl, time, d); { StaticPDE<Plato::Mechanics<d>> g(m, pf); sameVec(rr, vec(g.f.value(view(u), view(z))), maxabs(rr), 1e-10, "residual at rest, compared with the static problem"); }
    // inertia: total force on a body moving as a whole
    { dvec one(m.nv(), 1.0), aa(n), vv(n); dvec ca(d), cv(d); for (int k = 0; k < d; ++k) ca[k] = s.sreal(2), cv[k] = s.sreal(2); for (int i = 0; i < n; ++i) aa[i] = ca[i % d], vv[i] = cv[i % d]; dvec q0 = R(u, zero, zero, one), q1 = R(u, vv, aa, one); dvec want(d, 0.0), got(d, 0.0); double sc = maxabs(q0); for (size_t b = 0; b < m.blocks.size(); ++b) for (int t : m.blocks[b]) for (int k = 0; k < d; ++k) { auto& M = mats[b % mats.size()]; double f = M.rho * volOf(m, t) * (ca[k] + M.a * cv[k]); want[k] += f; sc = std::max(sc, std::fabs(f)); }
        for (int i = 0; i < n; ++i) got[i % d] += q1[i] - q0[i]; if (p.sublist("Hyperbolic").sublist("Penalty Function").get<std::string>("Type") != "Heaviside") for (int k = 0; k < d; ++k) REQ(std::fabs(got[k] - want[k]) <= 1e-9 * sc * m.nv(), "total inertia in direction " << k << " is " << got[k] << " instead of " << want[k]); }
    dmat Ju = dense(e.f.gradient_u(view(u), view(v), view(a), view(z), dt, time)), Jv = dense(e.f.gradient_v(view(u), view(v), view(a), view(z), dt, time)), Ja = dense(e.f.gradient_a(view(u), view(v), view(a), view(z), dt, time)); double js = std::max({maxabs(Ju), maxabs(Jv), maxabs(Ja)});
    // with one damping for everything, damping is the same mixture of mass and stiffness
    { bool same = true; for (auto& k : mats) same = same && k.a == mats[0].a && k.b == mats[0].b; if (same) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) REQ(std::fabs(Jv[i][j] - mats[0].a * Ja[i][j] - mats[0].b * (Ju[i][j])) <= 1e-10 * js, "damping entry " << i << " " << j << " is " << Jv[i][j] << ", mass " << Ja[i][j] << ", stiffness " << Ju[i][j]); }
    auto chk = [&](const dmat& J, const char* what, auto F) { dvec q = ddx(F, 1e-2, ok); if (ok) sameVec(mul(J, c), q, std::max({maxabs(q), rs, js}), 1e-6, what); };
    chk(Ju, "derivative by displacement", [&](double t) { return R(axpy(u, t, c), v, a, z); }); chk(Jv, "derivative by velocity", [&](double t) { return R(u, axpy(v, t, c), a, z); }); chk(Ja, "derivative by acceleration", [&](double t) { return R(u, v, axpy(a, t, c), z); });
    dmat Jz = dense(e.f.gradient_z(view(u), view(v), view(a), view(z), dt, time)); REQ((int)Jz.size() == m.nv() && (int)Jz[0].size() == n, "control derivative shape"); q = ddx([&](double t) { return R(u, v, a, axpy(z, t, w)); }, 1e-3, ok); if (ok) sameVec(tmul(Jz, w), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by control");
    if (body) return; // body loads: finding bodyload-shape of P19
    dmat Jx = dense(e.f.gradient_x(view(u), view(v), view(a), view(z), dt, time)); REQ((int)Jx.size() == n && (int)Jx[0].size() == n, "configuration derivative shape"); q = ddx([&](double t) { Moved mv(*e.om, axpy(m.x, t, dx)); return R(u, v, a, z); }, 1e-3, ok); if (ok) sameVec(tmul(Jx, flat(dx)), q, std::max({maxabs(q), rs, js}), 1e-6, "derivative by node coordinates");
}
template<int d> void dynamicProblem(Src& s) {
    using P = Plato::Hyperbolic::Mechanics<d>; using Pb = Plato::HyperbolicProblem<P>; MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); std::vector<Mat> mats; PL p = dynamicList(s, m, mats); timeLoads(s, p, d); int n = m.nv() * d; p.sublist("Linear Solver"); bool body = p.isSublist("Body Loads");
    int steps = s.intIn(1, 4); double dt = s.logreal(0.05, 1), be = s.pick<double>({0.25, 0.3, 0.5}), ga = s.pick<double>({0.5, 0.6, 0.75}); { auto& q = p.sublist("Time Integration"); q.set<int>("Number Time Steps", steps); q.set<double>("Time Step", dt); q.set<double>("Newmark Beta", be); q.set<double>("Newmark Gamma", ga); }
    Bc bc = essential(s, p, m, d, s.chance(1, 4)); std::vector<const TimeFn*> bf(bc.dofs.size(), nullptr); p.sublist("Displacement Boundary Conditions") = p.sublist("Essential Boundary Conditions"); p.remove("Essential Boundary Conditions");
    { auto& l = p.sublist("Displacement Boundary Conditions"); std::vector<std::string> names; for (auto i = l.begin(); i != l.end(); ++i) names.push_back(l.name(i)); for (auto& k : names) { auto& q = l.sublist(k); if (!s.chance(1, 4)) continue; const TimeFn* f = &timeFn(s); int dof = q.get<int>("Index"); for (int v : m.nsets.at(q.get<std::string>("Sides"))) for (size_t i = 0; i < bc.dofs.size(); ++i) if (bc.dofs[i] == v * d + dof) bf[i] = f; q.remove("Value", false); q.set<std::string>("Type", "Time Dependent"); q.set<std::string>("Function", f->text); s.tag("prescribed in time"); } }
    auto value = [&](size_t i, double t) { return bf[i] ? bf[i]->f(t) : bc.vals[i]; };
    dvec u0(n, 0.0), v0(n, 0.0); bool init = s.flag(); if (init) { static const char* f[] = {"1.5", "x", "1+2*x-y", "x*y"}; auto F = [](int k, const dvec& x) { return k == 0 ? 1.5 : k == 1 ? x[0] : k == 2 ? 1 + 2 * x[0] - x[1] : x[0] * x[1]; }; static const char* ax[] = {"X", "Y", "Z"}; for (int i = 0; i < 4; ++i) p.sublist("Computed Fields").sublist("F" + std::to_string(i)).set<std::string>("Function", f[i]);
        for (int i = s.intIn(1, 2); i > 0; --i) { bool vel = s.flag(); int k = s.intIn(0, 3), dof = s.intIn(0, d - 1); p.sublist("Initial State").sublist(std::string(vel ? "Velocity " : "Displacement ") + ax[dof]).set<std::string>("Computed Field", "F" + std::to_string(k)); for (int j = 0; j < m.nv(); ++j) (vel ? v0 : u0)[j * d + dof] = F(k, m.x[j]); } s.tag("initial state"); }
    auto& cq = p.sublist("Criteria").sublist("f0"); cq.set<std::string>("Type", "Scalar Function"); std::string ct = s.flag() ? "Internal Elastic Energy" : "Stress P-Norm"; cq.set<std::string>("Scalar Function Type", ct); penalty(s, cq, false); if (ct == "Stress P-Norm") cq.set<double>("Exponent", s.pick<double>({2.0, 4.0, 6.0}));
    dvec z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0), z2 = density(s, m.nv()); dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin; bool dofx = s.flag() && !init && !body, given = s.flag();
    s.desc << describe(m) << "; " << describe(p); s.tag(ct);
    auto om = omesh(m); PL pl = p; Pb pb(om->mesh, om->sets, pl, machine());
    auto grab = [&](Plato::ScalarMultiVector v) { dmat r; for (size_t i = 0; i < v.extent(0); ++i) { r.push_back({}); for (size_t j = 0; j < v.extent(1); ++j) r[i].push_back(v(i, j)); } return r; };
    Plato::Solution sol = pb.solution(view(z)); dmat U = grab(sol.State), V = grab(sol.StateDot), A = grab(sol.StateDotDot); REQ((int)U.size() == steps && (int)U[0].size() == n && (int)V.size() == steps && (int)A.size() == steps, "number of steps"); sameVec(U[0], u0, maxabs(u0), 1e-12, "initial displacement"); sameVec(V[0], v0, maxabs(v0), 1e-12, "initial velocity"); for (double x : A[0]) REQ(x == 0, "initial acceleration");
    // each step: prescribed values, Newmark's relations, and balance of the free equations, as an independent dense solution finds them
    { PL l2 = p; Plato::DataMap dm; Plato::SpatialModel sm(om->mesh, om->sets, l2); Plato::Hyperbolic::VectorFunction<P> pde(sm, dm, l2, l2.get<std::string>("PDE Constraint")); std::vector<char> fixed(n, 0); for (int k : bc.dofs) fixed[k] = 1; double cv = ga / (be * dt), ca = 1 / (be * dt * dt);
        dvec up = u0, vp = v0, ap(n, 0.0), zero(n, 0.0); for (int k = 1; k < steps; ++k) { double t = k * dt; dvec y(n, 0.0), v(n), a(n), dy; for (size_t i = 0; i < bc.dofs.size(); ++i) y[bc.dofs[i]] = value(i, t);
            auto upd = [&] { for (int i = 0; i < n; ++i) { a[i] = ca * (y[i] - up[i] - dt * vp[i]) - (0.5 / be - 1) * ap[i]; v[i] = vp[i] + dt * ((1 - ga) * ap[i] + ga * a[i]); } }; upd();
            dvec r = vec(pde.value(view(y), view(v), view(a), view(z), dt, t)); dmat K = dense(pde.gradient_u(view(y), view(v), view(a), view(z), dt, t)), C = dense(pde.gradient_v(view(y), view(v), view(a), view(z), dt, t)), M = dense(pde.gradient_a(view(y), view(v), view(a), view(z), dt, t)); double js = 1e-300; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { K[i][j] += cv * C[i][j] + ca * M[i][j]; js = std::max(js, std::fabs(K[i][j])); }
            dvec b(n); for (int i = 0; i < n; ++i) b[i] = fixed[i] ? 0 : -r[i]; for (int i = 0; i < n; ++i) if (fixed[i]) { for (int j = 0; j < n; ++j) K[i][j] = K[j][i] = 0; K[i][i] = js; } if (!eqSolve(K, b, dy)) throw pbt::Discard(); y = axpy(y, 1, dy); upd(); DISCARD_IF(!(maxabs(y) < 1e3));
            double us = maxabs(U[k]) + maxabs(y) + maxabs(up), vs = maxabs(V[k]) + maxabs(v) + maxabs(vp) + us * cv, as = maxabs(A[k]) + maxabs(a) + us * ca;
            for (int i = 0; i < n; ++i) { REQ(std::fabs(U[k][i] - y[i]) <= 1e-6 * us + 1e-12, "step " << k << " dof " << i << (fixed[i] ? " (prescribed)" : "") << " is " << U[k][i] << ", independent solution " << y[i]); REQ(std::fabs(V[k][i] - v[i]) <= 1e-6 * vs + 1e-12, "velocity of step " << k << " dof " << i << " is " << V[k][i] << ", independent solution " << v[i]); REQ(std::fabs(A[k][i] - a[i]) <= 1e-6 * as + 1e-12, "acceleration of step " << k << " dof " << i << " is " << A[k][i] << ", independent solution " << a[i]); }
            up = U[k]; vp = V[k]; ap = A[k]; if (us > 0 && m.ne() > 1 && k > 1) s.nontrivial(); } }
    auto F = [&](const dvec& a) { pb.solution(view(a)); return pb.criterionValue(view(a), "f0"); };
    double f0 = F(z), f1 = pb.criterionValue(view(z), pb.getGlobalSolution(), "f0"); REQ(f0 == f1 && std::isfinite(f0), "value with and without the solution given: " << f1 << " and " << f0); DISCARD_IF(std::fabs(f0) > 1e8);
    // energy, summed over the steps after the first, from the stiffness
    if (ct == "Internal Elastic Energy") { PL l3 = p; l3.sublist("Elliptic").sublist("Penalty Function") = cq.sublist("Penalty Function"); StaticPDE<Plato::Mechanics<d>> g(m, l3); dvec zero(n, 0.0); dmat K = dense(g.f.gradient_u(view(zero), view(z))); double want = 0, sc = 0; for (int k = 1; k < steps; ++k) { double e = dot(U[k], mul(K, U[k])); want += e; sc += maxabs(K) * maxabs(U[k]) * maxabs(U[k]) * n; } REQ(std::fabs(f0 - want) <= 1e-9 * sc, "energy " << f0 << ", from the stiffness " << want); }
    THROWS(pb.criterionValue(view(z), "nothing"), "criterion that does not exist");
    { dmat B = grab(pb.getGlobalSolution().State); for (int k = 0; k < steps; ++k) sameVec(B[k], U[k], maxabs(U[k]), 1e-8, "solved twice, step " + std::to_string(k)); F(z2); double f2 = F(z); REQ(std::fabs(f2 - f0) <= 1e-8 * std::fabs(f0) + 1e-14, "solved again after another design: " << f2 << " instead of " << f0); }
    if (ct == "Stress P-Norm") DISCARD_IF(std::fabs(f0) < 1e-6);
    bool ok; double err; dvec q; auto G = [&](bool x) { F(z); auto S = pb.getGlobalSolution(); return vec(x ? (given ? pb.criterionGradientX(view(z), S, "f0") : pb.criterionGradientX(view(z), "f0")) : given ? pb.criterionGradient(view(z), S, "f0") : pb.criterionGradient(view(z), "f0")); };
    if (!dofx) { dvec g = G(false); q = ddx([&](double e) { return dvec{F(axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(g, w, q, std::fabs(f0) + 1e-3, ok, err, "total derivative by control"); }
    else { dvec g = G(true); q = ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{F(z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(g, flat(dx), q, std::fabs(f0) + 1e-3, ok, err, "total derivative by node coordinates"); s.tag("by coordinates"); }
}
} // namespace hm
