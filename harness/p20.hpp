// Random criteria (single, and nested combinations of them) over random models.
#pragma once
#include "model.hpp"
#include <list>
#include "SpatialModel.hpp"
#include "elliptic/ScalarFunctionBaseFactory.hpp"
namespace hm {
struct CritOpt { bool multi = false; int combos = 3; bool solution = true; bool auglag = true; bool volume = false; };
struct Crit { std::string type; bool additive = true; bool auglag = false; std::vector<std::string> kids; dvec w, gold; };
using Crits = std::map<std::string, Crit>;
using strArray = Teuchos::Array<std::string>; using numArray = Teuchos::Array<double>;
inline bool allIsotropic(const PL& p) { auto& q = p.sublist("Material Models"); for (auto i = q.begin(); i != q.end(); ++i) if (!q.sublist(q.name(i)).isSublist("Isotropic Linear Elastic")) return false; return true; }
// a single criterion; multi: several time steps, so only criteria that add up over steps
inline std::string leaf(Src& s, PL& p, const RMesh& m, Phys ph, Crits& c, CritOpt o) {
    std::string nm = "f" + std::to_string(c.size()); auto& q = p.sublist("Criteria").sublist(nm); q.set<std::string>("Type", "Scalar Function"); auto& k = c[nm]; int nv = m.d == 3 ? 6 : 3, nd = ph == MECH ? m.d : ph == THERM ? 1 : m.d + 1;
    std::vector<std::string> t; 
    if (ph == MECH) t = {"Internal Elastic Energy", "Effective Energy", "Stress P-Norm"}; if (ph == THERM) t = {"Internal Thermal Energy", "Flux P-Norm"}; if (ph == TMECH) t = {"Internal Thermoelastic Energy"}; if (ph == EMECH) t = {"Internal Electroelastic Energy", "Stress P-Norm"};
    if (o.solution) t.push_back("Solution");
    if (o.auglag && ph == MECH) { t.push_back("Stress Constraint"); t.push_back("Stress Constraint General"); } if (o.auglag && (ph == MECH || ph == TMECH)) t.push_back("Stress Constraint Quadratic");
    k.type = t[s.intIn(0, (int)t.size() - 1)]; if (o.multi && (k.type == "Solution" || k.type.find("P-Norm") != std::string::npos)) k.type = t[0];
    s.tag(k.type);
    if (k.type == "Solution") { q.set<std::string>("Type", "Solution"); q.set<std::string>("Domain", s.pick<std::string>({"x0", "y1", "rnd", "all"})); numArray n(nd); for (auto& v : n) v = s.sreal(2); q.set("Normal", n); bool mag = s.flag(); q.set<bool>("Magnitude", mag); k.additive = false; return nm; }
    q.set<std::string>("Scalar Function Type", k.type);
    penalty(s, q, ph == MECH || ph == EMECH);
    if (k.type == "Stress P-Norm" || k.type == "Flux P-Norm") { k.additive = false; q.set<double>("Exponent", s.pick<double>({2.0, 4.0, 6.0, 3.0, 2.5})); if (k.type == "Stress P-Norm" && s.chance(1, 3)) { auto& r = q.sublist("Normalize"); r.set<std::string>("Type", "Scalar"); r.sublist("Scalar").set<double>("Reference Weight", s.real(0.5, 2)); r.sublist("Scalar").set<double>("Scalar Product Weight", s.real(0.5, 2)); } }
    if (k.type == "Effective Energy") { numArray a(nv); for (auto& v : a) v = s.sreal(1); q.set("Assumed Strain", a); if (!p.isSublist("Cell Problem Forcing")) p.sublist("Cell Problem Forcing").set<int>("Column Index", s.intIn(0, nv - 1)); }
    if (k.type.rfind("Stress Constraint", 0) == 0) { k.auglag = true; double lim = s.pick<double>({0.05, 0.5, 2.0, 1e3}); q.set<double>(k.type == "Stress Constraint Quadratic" ? "Local Measure Limit" : "Stress Limit", lim); if (s.flag()) q.set<double>("Initial Penalty", s.real(0.05, 2)); if (s.flag()) q.set<double>("Initial Lagrange Multiplier", s.real(0.01, 1)); if (s.flag()) q.set<double>("SIMP penalty", s.pick<double>({1.0, 2.0, 3.0})); if (s.flag()) q.set<double>("Min. Ersatz Material", s.pick<double>({0.0, 1e-3, 0.1}));
        if (k.type == "Stress Constraint Quadratic" && ph == MECH && allIsotropic(p) && s.flag()) { q.set<std::string>("Local Measure", "TensileEnergyDensity"); s.tag("TensileEnergyDensity"); } }
    return nm;
}
inline std::string criterion(Src& s, PL& p, const RMesh& m, Phys ph, Crits& c, CritOpt o, int depth = 2) {
    int k = depth ? s.intIn(0, 5) : 0; if (k < 3) return leaf(s, p, m, ph, c, o);
    std::vector<std::string> kids; int n = k == 4 ? 2 : s.intIn(1, 3); for (int i = 0; i < n; ++i) kids.push_back(criterion(s, p, m, ph, c, o, depth - 1));
    std::string nm = "f" + std::to_string(c.size()); auto& f = c[nm]; auto& q = p.sublist("Criteria").sublist(nm); f.kids = kids; f.additive = true; for (auto& x : kids) { f.additive = f.additive && c[x].additive; f.auglag = f.auglag || c[x].auglag; }
    f.type = k == 3 ? "Weighted Sum" : k == 4 ? "Division" : "Least Squares"; q.set<std::string>("Type", f.type); s.tag(f.type);
    if (k == 4) { q.set("Numerator", kids[0]); q.set("Denominator", kids[1]); return nm; }
    numArray w(n), g(n); for (int i = 0; i < n; ++i) { w[i] = s.sreal(2); g[i] = s.pick<double>({0.0, 0.5, -1.5, 3.0}); } f.w = w.toVector(); f.gold = g.toVector(); q.set("Functions", strArray(kids)); q.set("Weights", w); if (k == 5) q.set("Gold Values", g);
    return nm;
}
// the value a composite must have, from the values of its leaves
inline double combine(const Crits& c, const std::string& n, const std::map<std::string, double>& leafv) {
    const Crit& k = c.at(n); if (k.kids.empty()) return leafv.at(n); if (k.type == "Division") return combine(c, k.kids[0], leafv) / combine(c, k.kids[1], leafv);
    double r = 0; for (size_t i = 0; i < k.kids.size(); ++i) { double v = combine(c, k.kids[i], leafv); if (k.type == "Weighted Sum") r += k.w[i] * v; else { double sc = std::fabs(k.gold[i]) > 0.1 ? std::fabs(k.gold[i]) : 1; r += k.w[i] * (v - k.gold[i]) * (v - k.gold[i]) / sc / sc; } } return r;
}
// node coordinates changed in place, seen by everything that was built on the mesh
struct Moved { OMesh& o; dvec save; Moved(OMesh& om, const dmat& x) : o(om) { auto c = o.mesh.coords(); double* p = const_cast<double*>(c.data()); for (int i = 0; i < c.size(); ++i) save.push_back(p[i]); dvec f = flat(x); for (int i = 0; i < c.size(); ++i) p[i] = f[i]; } ~Moved() { auto c = o.mesh.coords(); double* p = const_cast<double*>(c.data()); for (int i = 0; i < c.size(); ++i) p[i] = save[i]; } };
inline Plato::Solution solution(const dmat& u) { Plato::ScalarMultiVector v("states", u.size(), u[0].size()); for (size_t i = 0; i < u.size(); ++i) for (size_t j = 0; j < u[0].size(); ++j) v(i, j) = u[i][j]; return Plato::Solution(v); }
inline void sameDeriv(const dvec& g, const dvec& dir, const dvec& q, double extra, bool ok, double err, const std::string& what) {
    REQ(g.size() == dir.size(), what << ": length " << g.size() << " instead of " << dir.size()); for (double x : g) REQ(std::isfinite(x), what << " is not finite"); if (!ok) return;
    double sc = extra + std::fabs(q[0]), a = dot(g, dir); for (size_t i = 0; i < g.size(); ++i) sc = std::max(sc, std::fabs(g[i] * dir[i])); REQ(std::fabs(a - q[0]) <= 1e-6 * sc + 1e-14 + err, what << ": " << a << ", difference quotient " << q[0] << " (scale " << sc << ")");
}
template<class P> void criteria(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode;
    RMesh m = randomMesh(s, d); ModelOpt mo; mo.loads = mo.body = false; PL p = baseList(s, m, ph, mo); int steps = s.chance(1, 3) ? s.intIn(2, 3) : 1; CritOpt o; o.multi = steps > 1; Crits c; std::string nm = criterion(s, p, m, ph, c, o);
    dmat u, v; for (int i = 0; i < steps; ++i) { u.push_back(rvec(s, m.nv() * nd, 1.0)); v.push_back(rvec(s, m.nv() * nd, 1.0)); } dvec z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0); int upd = c[nm].auglag ? s.intIn(0, 2) : 0; dmat uu; for (int i = 0; i < upd; ++i) uu.push_back(rvec(s, m.nv() * nd, 1.0));
    dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin; 
    s.desc << describe(m) << "; " << steps << " steps; " << upd << " updates; " << nm << "; " << describe(p);
    auto om = omesh(m); PL pl = p; Plato::SpatialModel sm(om->mesh, om->sets, pl); Plato::DataMap dm;
    std::list<PL> lists; auto make = [&](const std::string& n) { std::string a = n; lists.push_back(p); PL* l = &lists.back(); auto f = Plato::Elliptic::ScalarFunctionBaseFactory<P>().create(sm, dm, *l, a); REQ(f, "no criterion " << c[n].type); for (auto& x : uu) f->updateProblem(view(x), view(z)); return f; };
    auto f = make(nm); auto V = [&](const dmat& a, const dvec& b) { return f->value(solution(a), view(b)); };
    // value
    std::map<std::string, double> lv; for (auto& k : c) if (k.second.kids.empty()) lv[k.first] = make(k.first)->value(solution(u), view(z));
    bool degenerate = false; for (auto& k : c) if (k.second.type == "Division") { double den = combine(c, k.second.kids[1], lv), num = combine(c, k.second.kids[0], lv); if (std::fabs(den) < 1e-4 * std::max(1.0, std::fabs(num))) degenerate = true; } DISCARD_IF(degenerate);
    double f0 = V(u, z), fc = combine(c, nm, lv); REQ(std::isfinite(f0), "value is not finite"); REQ(std::fabs(f0 - fc) <= 1e-9 * (std::fabs(fc) + std::fabs(f0)) || c[nm].kids.size(), "value"); if (c[nm].kids.size()) { double sc = std::fabs(fc); for (auto& l : lv) sc = std::max(sc, std::fabs(l.second)); REQ(std::fabs(f0 - fc) <= 1e-8 * sc + 1e-12, "value of the combination: " << f0 << ", from its parts " << fc); }
    if (m.ne() > 1 && f0 != 0) s.nontrivial();
    bool ok; double err; dvec q;
    for (int k = 0; k < steps; ++k) { dmat t = u; q = ddx([&](double e) { t[k] = axpy(u[k], e, v[k]); return dvec{V(t, z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(vec(f->gradient_u(solution(u), view(z), k)), v[k], q, std::fabs(f0), ok, err, "derivative by the state of step " + std::to_string(k)); }
    q = ddx([&](double e) { return dvec{V(u, axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(vec(f->gradient_z(solution(u), view(z))), w, q, std::fabs(f0), ok, err, "derivative by control");
    dvec gx = vec(f->gradient_x(solution(u), view(z))); q = ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{V(u, z)}; }, 1e-3, ok, 1e-5, &err); sameDeriv(gx, flat(dx), q, std::fabs(f0), ok, err, "derivative by node coordinates");
    double f1 = V(u, z); REQ(std::fabs(f1 - f0) <= 1e-12 * std::fabs(f0), "value changed by evaluating derivatives: " << f0 << " then " << f1);
}
} // namespace hm
