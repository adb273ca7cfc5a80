// Whole steady problems: solve, criteria at the solution, total derivatives compared with solving again.
#pragma once
#include "p20.hpp"
#include "elliptic/Problem.hpp"
namespace hm {
struct Bc { std::vector<int> dofs; dvec vals; };
// fixes every dof on one face and some dofs elsewhere, no dof twice
inline Bc essential(Src& s, PL& p, const RMesh& m, int nd, bool zero) {
    Bc r; std::vector<char> used(m.nv() * nd, 0); auto& q = p.sublist("Essential Boundary Conditions"); int id = 0; std::string face = s.pick<std::string>({"x0", "y1", "y0", "x1"});
    auto add = [&](const std::string& set, int dof) { auto it = m.nsets.find(set); if (it == m.nsets.end() || it->second.empty()) return; for (int v : it->second) if (used[v * nd + dof]) return; auto& b = q.sublist("BC " + std::to_string(id++)); int how = zero ? 0 : s.intIn(0, 2); double val = how == 0 ? 0 : s.sreal(0.5);
        b.set<std::string>("Sides", set); b.set<int>("Index", dof); if (how == 0) b.set<std::string>("Type", "Zero Value"); else { b.set<std::string>("Type", "Fixed Value"); b.set<double>("Value", val); }
        for (int v : it->second) { used[v * nd + dof] = 1; r.dofs.push_back(v * nd + dof); r.vals.push_back(val); } };
    for (int i = 0; i < nd; ++i) add(face, i); for (int i = s.intIn(0, 2); i > 0; --i) add(s.pick<std::string>({"rnd", "x1", "inner", "y0", "x0"}), s.intIn(0, nd - 1)); return r;
}
inline bool hasTempDep(const PL& p) { auto& q = p.sublist("Material Models"); for (auto i = q.begin(); i != q.end(); ++i) { auto& l = q.sublist(q.name(i)); for (auto j = l.begin(); j != l.end(); ++j) if (l.isSublist(l.name(j)) && l.sublist(l.name(j)).isParameter("Temperature Dependent")) return true; } return false; }
template<class P> void problem1(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; using Pb = Plato::Elliptic::Problem<P>;
    MeshOpt me; me.max2 = 2; me.max3 = 1; if (d == 3 && s.chance(1, 4)) me.max3 = 2; RMesh m = randomMesh(s, d, me); ModelOpt mo; PL p = baseList(s, m, ph, mo); CritOpt o; Crits c; std::string nm = criterion(s, p, m, ph, c, o, 1);
    bool self = ph == MECH && s.chance(1, 8); if (self) { p.set<bool>("Self-Adjoint", true); p.remove("Body Loads", false); p.remove("Cell Problem Forcing", false); p.remove("Criteria"); c.clear(); auto& q = p.sublist("Criteria").sublist("f0"); q.set<std::string>("Type", "Scalar Function"); q.set<std::string>("Scalar Function Type", "Internal Elastic Energy"); q.sublist("Penalty Function") = p.sublist("Elliptic").sublist("Penalty Function"); c["f0"].type = "Internal Elastic Energy"; nm = "f0"; auto& mm = p.sublist("Material Models"); for (auto i = mm.begin(); i != mm.end(); ++i) { auto& l = mm.sublist(mm.name(i)); for (auto j = l.begin(); j != l.end(); ++j) for (auto e : {"e11", "e22", "e33", "e12", "e13", "e23"}) l.sublist(l.name(j)).remove(e, false); } s.tag("self-adjoint"); }
    bool body = p.isSublist("Body Loads");
    { auto& v = p.sublist("Criteria").sublist("vol"); v.set<bool>("Linear", true); v.set<std::string>("Type", "Scalar Function"); v.set<std::string>("Scalar Function Type", "Volume"); auto& q = v.sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); q.set<double>("Exponent", 1.0); q.set<double>("Minimum Value", 0.0); }
    Bc bc = essential(s, p, m, nd, self || s.chance(1, 4)); bool nonlin = hasTempDep(p); if (nonlin) { auto& q = p.sublist("Newton Iteration"); q.set<int>("Maximum Iterations", 40); q.set<double>("Increment Tolerance", 1e-12); s.tag("nonlinear"); } p.sublist("Linear Solver");
    dvec z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0), z2 = density(s, m.nv()); dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin; int upd = c[nm].auglag ? s.intIn(0, 2) : 0; bool dofx = s.flag() && !self && !body; // self-adjoint is for loads that do not depend on the design; body loads: finding bodyload-shape of P19
    s.desc << describe(m) << "; " << nm << "; " << upd << " updates; " << describe(p);
    auto om = omesh(m); PL pl = p; Pb pb(om->mesh, om->sets, pl, machine()); pb.readEssentialBoundaryConditions(pl);
    auto solve = [&](const dvec& a) { Plato::Solution r = pb.solution(view(a)); dvec u(r.State.extent(1)); for (size_t i = 0; i < u.size(); ++i) { u[i] = r.State(0, i); } return u; };
    dvec u = solve(z); double us = maxabs(u);
    // the solution has the prescribed values, balances every free equation, and is what elimination or Newton's method from zero finds
    { PL l2 = p; Plato::DataMap dm; Plato::SpatialModel sm(om->mesh, om->sets, l2); Plato::Elliptic::VectorFunction<P> pde(sm, dm, l2, l2.get<std::string>("PDE Constraint")); std::vector<char> fixed(u.size(), 0); for (int k : bc.dofs) fixed[k] = 1;
        dvec y(u.size(), 0.0); bool conv = false; double js = 0, r0 = 0; for (int it = 0; it < 25 && !conv; ++it) { dvec r = vec(pde.value(view(y), view(z))); auto J = dense(pde.gradient_u(view(y), view(z))); if (!it) { r0 = maxabs(r); for (auto& a : J) js = std::max(js, maxabs(a)); } dvec b = r, dy; for (double& q : b) q = -q; for (size_t k = 0; k < y.size(); ++k) if (!fixed[k]) for (size_t i = 0; i < bc.dofs.size(); ++i) b[k] -= J[k][bc.dofs[i]] * (bc.vals[i] - y[bc.dofs[i]]); for (size_t k = 0; k < y.size(); ++k) if (fixed[k]) { for (size_t l = 0; l < y.size(); ++l) J[k][l] = J[l][k] = 0; J[k][k] = std::max(js, 1e-300); } for (size_t i = 0; i < bc.dofs.size(); ++i) b[bc.dofs[i]] = (bc.vals[i] - y[bc.dofs[i]]) * std::max(js, 1e-300); if (!eqSolve(J, b, dy)) throw pbt::Discard(); y = axpy(y, 1, dy); conv = !nonlin || maxabs(dy) < 1e-11 * (1 + maxabs(y)); }
        DISCARD_IF(!conv || !(maxabs(y) < 1e3)); double us = maxabs(u); for (double x : u) REQ(std::isfinite(x), "solution is not finite"); if (us > 0 && m.ne() > 1) s.nontrivial();
        for (size_t i = 0; i < bc.dofs.size(); ++i) REQ(std::fabs(u[bc.dofs[i]] - bc.vals[i]) <= 1e-8 * (1 + us), "dof " << bc.dofs[i] << " is " << u[bc.dofs[i]] << ", prescribed " << bc.vals[i]);
        dvec r = vec(pde.value(view(u), view(z))); double sc = js * us + r0 + maxabs(r); for (size_t i = 0; i < r.size(); ++i) if (!fixed[i]) REQ(std::fabs(r[i]) <= 1e-8 * sc, "free equation " << i << " is out of balance by " << r[i] << " (scale " << sc << ")");
        for (size_t i = 0; i < u.size(); ++i) REQ(std::fabs(u[i] - y[i]) <= 1e-5 * (us + maxabs(y)) + 1e-12, "dof " << i << " of the solution is " << u[i] << ", independent solution " << y[i]); }
    // criteria at the solution
    for (int i = 0; i < upd; ++i) pb.updateProblem(view(z), pb.getGlobalSolution());
    auto F = [&](const dvec& a) { solve(a); return pb.criterionValue(view(a), nm); };
    for (auto& k : c) if (k.second.type == "Division") { solve(z); double den = pb.criterionValue(view(z), k.second.kids[1]), num = pb.criterionValue(view(z), k.second.kids[0]); DISCARD_IF(us < 1e-6 || std::fabs(den) < 1e-4 * std::max(1.0, std::fabs(num))); } else if (k.second.type.find("P-Norm") != std::string::npos) { solve(z); DISCARD_IF(std::fabs(pb.criterionValue(view(z), k.first)) < 1e-6); } double f0 = F(z), f1 = pb.criterionValue(view(z), pb.getGlobalSolution(), nm); REQ(f0 == f1, "value with and without the solution given: " << f1 << " and " << f0); REQ(std::isfinite(f0), "value is not finite"); DISCARD_IF(std::fabs(f0) > 1e8);
    THROWS(pb.criterionValue(view(z), "nothing"), "criterion that does not exist"); THROWS(pb.criterionGradient(view(z), "nothing"), "gradient of a criterion that does not exist"); THROWS(pb.criterionGradientX(view(z), "nothing"), "gradient of a criterion that does not exist"); REQ(pb.criterionIsLinear("vol") && !pb.criterionIsLinear(nm), "which criteria are linear");
    { double v = 0; for (int e = 0; e < m.ne(); ++e) for (int n : m.ev[e]) v += z[n] / (d + 1) * volOf(m, e); NEAR(pb.criterionValue(view(z), "vol"), v, v, "volume"); }
    bool ok; double err; dvec q; auto g = [&](bool x) { solve(z); bool given = s.flag(); auto U = pb.getGlobalSolution(); return vec(x ? (given ? pb.criterionGradientX(view(z), U, nm) : pb.criterionGradientX(view(z), nm)) : given ? pb.criterionGradient(view(z), U, nm) : pb.criterionGradient(view(z), nm)); };
    if (!dofx) { dvec gz = g(false); q = ddx([&](double e) { return dvec{F(axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(gz, w, q, std::fabs(f0) + 1e-5, ok, err, "total derivative by control"); }
    else { dvec gx = g(true); q = ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{F(z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(gx, flat(dx), q, std::fabs(f0) + 1e-5, ok, err, "total derivative by node coordinates"); s.tag("by coordinates"); }
    // solving for something else in between changes nothing
    F(z2); double f2 = F(z); REQ(std::fabs(f2 - f0) <= 1e-9 * (std::fabs(f0) + 1e-12), "solved again after another design: " << f2 << " instead of " << f0);
}
template<class P> void problem(Src& s, Phys ph) { try { problem1<P>(s, ph); } catch (const std::exception& e) { if (std::string(e.what()).find("Denominator of division function evaluated to 0") != std::string::npos) throw pbt::Discard(); throw; } }
} // namespace hm
