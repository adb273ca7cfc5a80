// Whole path-dependent problems: every pseudo time step, the criteria over the history, total derivatives, what is written.
#pragma once
#include "p22.hpp"
#include "p27.hpp"
#include "PlasticityProblem.hpp"
namespace hm {
struct TBc { int dof; double a; int kind; double scale; }; // 0: constant, 1: a t, 2: a t^2, 3: a sin 4t
inline double at(const TBc& b, double t) { return (b.kind == 0 ? b.a : b.kind == 1 ? b.a * t : b.kind == 2 ? b.a * t * t : b.a * std::sin(4 * t)) / b.scale; }
template<class P> std::vector<TBc> drive(Src& s, PModel& o, const RMesh& m) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, po = P::SimplexT::mPressureDofOffset; constexpr bool th = nd == d + 2; std::vector<TBc> r; std::vector<char> used(m.nv() * nd, 0); auto& q = o.pl.sublist("Essential Boundary Conditions"); int id = 0; std::string face = s.pick<std::string>({"x0", "y1", "y0", "x1"}); if (!m.nsets.count(face) || (int)m.nsets.at(face).size() < d) face = "x0";
    auto add = [&](const std::string& set, int dof, int kind) { auto it = m.nsets.find(set); if (it == m.nsets.end() || it->second.empty()) return; for (int v : it->second) if (used[v * nd + dof]) return; auto& b = q.sublist("BC " + std::to_string(id++)); double sc = dof == po ? o.ps : th && dof == d ? o.ts : 1, a = kind < 0 ? 0 : s.sreal(dof == po ? 0.1 : 0.4); b.set<std::string>("Sides", set); if (dof || s.flag()) b.set<int>("Index", dof); std::ostringstream f; f.precision(17);
        if (kind < 0) b.set<std::string>("Type", "Zero Value"); else if (kind == 0) { b.set<std::string>("Type", "Fixed Value"); b.set<double>("Value", a); } else { b.set<std::string>("Type", "Time Dependent"); f << a << (kind == 1 ? "*t" : kind == 2 ? "*t*t" : "*sin(4*t)"); b.set<std::string>("Function", f.str()); }
        for (int v : it->second) { used[v * nd + dof] = 1; r.push_back({v * nd + dof, a, std::max(kind, 0), sc}); } };
    for (int i = 0; i < d; ++i) add(face, i, s.chance(4, 5) ? -1 : 1); if (th) add(face, d, s.intIn(-1, 3)); for (int i = s.intIn(0, 3); i > 0; --i) add(s.pick<std::string>({"x1", "y0", "rnd", "inner", "x0", "y1"}), s.intIn(0, s.chance(1, 5) ? nd - 1 : d - 1), s.intIn(-1, 3)); return r;
}
inline RMesh oneCell(const RMesh& a) { RMesh m; m.d = a.d; m.hmin = a.hmin; int n = a.d + 1; m.ev.resize(1); for (int i = 0; i < n; ++i) { m.x.push_back(a.x[a.ev[0][i]]); m.ev[0].push_back(i); } m.blocks = {{0}}; for (int k = 0; k < n; ++k) { std::vector<int> q; for (int i = 0; i < a.d; ++i) q.push_back(m.ev[0][Omega_h::simplex_down_template(a.d, k, i)]); m.ssets["all"].push_back(q); if (k == 0) { m.ssets["x0"].push_back(q); m.nsets["x0"] = q; } if (k == n - 1) m.ssets["rnd"].push_back(q); } for (int v = 0; v < n; ++v) if (std::find(m.nsets["x0"].begin(), m.nsets["x0"].end(), v) == m.nsets["x0"].end()) m.nsets["x1"].push_back(v); m.nsets["rnd"] = {n - 1}; return m; }
struct Proj { bool on = false; double p = 1, mn = 0, a = 0.1, u = 4; };
template<class P> void plasticProblem(Src& s, int what) { // 0: the steps, 1: by control, 2: by coordinates
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode, po = P::SimplexT::mPressureDofOffset, nl = P::SimplexT::mNumLocalDofsPerCell; constexpr bool th = nd == d + 2; using Pb = Plato::PlasticityProblem<P>;
    MeshOpt me; me.max2 = 2; me.max3 = 1; RMesh m = randomMesh(s, d, me); bool one = what && s.chance(1, 3); if (one) { m = oneCell(m); s.tag("one cell"); } dvec z = density(s, m.nv()), z2 = density(s, m.nv()), w = rvec(s, m.nv(), 1.0);
    bool loads = s.chance(1, 3), body = what != 2 && s.chance(1, 4); PModel o = plastic<P>(s, m, loads, body, z); auto bc = drive<P>(s, o, m); Proj pj; int upd = s.chance(1, 3) ? s.intIn(1, 2) : 0, steps = what == 2 && !one && s.chance(2, 3) ? 1 : s.intIn(1, 4), most = steps + s.intIn(0, 3); double T = s.pick<double>({1.0, 1.0, 0.5, 0.25, 2.0});
    if (s.flag()) { pj.on = true; pj.p = s.real(1, 3); pj.mn = s.pick<double>({1e-9, 0.1}); if (what == 1 && !one && s.chance(4, 5)) pj.mn = 1; pj.a = s.real(0.05, 1); pj.u = s.real(3, 5); auto& q = o.pl.sublist("State Gradient Projection").sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); q.set<double>("Exponent", pj.p); q.set<double>("Minimum Value", pj.mn); q.set<double>("Additive Continuation", pj.a); q.set<double>("Penalty Exponent Upper Bound", pj.u); s.tag("weighted projection"); }
    { auto& q = o.pl.sublist("Time Stepping"); q.set<int>("Initial Num. Pseudo Time Steps", steps); q.set<int>("Maximum Num. Pseudo Time Steps", most); if (T != 1 || s.flag()) q.set<double>("End Time", T); if (s.flag()) q.set<double>("Expansion Multiplier", 2.0); auto& n = o.pl.sublist("Newton-Raphson"); n.set<double>("Stopping Tolerance", 1e-14); n.set<double>("Current Residual Norm Stopping Tolerance", what ? 1e-12 : 1e-10); n.set<int>("Maximum Number Iterations", what ? 40 : s.pick<int>({1, 3, 40, 40})); o.pl.sublist("Linear Solver"); }
    auto& cr = o.pl.sublist("Criteria"); int nf = s.intIn(1, 2); Teuchos::Array<std::string> fn; Teuchos::Array<double> fw; std::string nm;
    for (int i = 0; i < nf; ++i) { nm = "C" + std::to_string(i); auto& c = cr.sublist(nm); c.set<std::string>("Type", "Scalar Function"); bool pw = s.flag(); c.set<std::string>("Scalar Function Type", pw ? "Plastic Work" : "Elastic Work"); if (s.flag()) c.set<double>("Multiplier", s.sreal(2)); auto& q = c.sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); q.set<double>("Exponent", s.real(1, 3)); q.set<double>("Minimum Value", s.pick<double>({1e-9, 0.1})); fn.push_back(nm); fw.push_back(s.sreal(2)); s.tag(pw ? "plastic work" : "elastic work"); }
    if (nf > 1) { nm = "W"; auto& c = cr.sublist(nm); c.set<std::string>("Type", "Weighted Sum"); c.set("Functions", fn); c.set("Weights", fw); }
    dmat dx(m.nv(), dvec(d)); for (auto& a : dx) for (double& b : a) b = s.sreal(0.5) * m.hmin;
    s.desc << describe(m) << "; " << upd << " updates; " << describe(o.pl);
    auto om = omesh(m); PL pl = o.pl; auto mc = machine(); Pb pb(om->mesh, om->sets, pl, mc); pb.readEssentialBoundaryConditions(pl); std::vector<char> fixed(m.nv() * nd, 0); for (auto& b : bc) fixed[b.dof] = 1;
    { Plato::ScalarMultiVector U("U", 1, m.nv() * nd); for (int i = 0; i < upd; ++i) pb.updateProblem(view(z), Plato::Solution(U)); }
    auto solve = [&](const dvec& a) { try { return pb.solution(view(a)).State; } catch (const std::exception& e) { if (std::string(e.what()).find("finite number") != std::string::npos) throw pbt::Discard(); throw; } };
    auto U = solve(z); int N = U.extent(0); bool conv = true; double f0 = 0; try { f0 = pb.criterionValue(view(z), nm); } catch (const std::exception& e) { conv = false; REQ(std::string(e.what()).find("failed to converge") != std::string::npos, "criterion of a solved problem: " << e.what()); }
    { std::vector<int> seq{steps}; while (seq.back() < most) seq.push_back(std::min(2 * seq.back(), most)); REQ(std::find(seq.begin(), seq.end(), N) != seq.end(), N << " steps after starting with " << steps << " of at most " << most); if (N > steps) s.tag("more steps"); if (!conv) { REQ(N == most, "gave up after " << N << " steps of at most " << most); s.tag("gave up"); THROWS(pb.criterionGradient(view(z), nm), "gradient of an unsolved problem"); THROWS(pb.criterionGradientX(view(z), nm), "gradient of an unsolved problem"); THROWS(pb.criterionValue(view(z), Plato::Solution(U), nm), "criterion of an unsolved problem"); return; } }
    auto C = pb.getLocalState(); REQ((int)C.extent(0) == N && (int)U.extent(1) == m.nv() * nd && (int)C.extent(1) == m.ne() * nl, "shape of the states");
    dmat us(N, dvec(m.nv() * nd)), cs(N, dvec(m.ne() * nl)); for (int k = 0; k < N; ++k) { for (size_t i = 0; i < us[k].size(); ++i) { us[k][i] = U(k, i); REQ(std::isfinite(us[k][i]), "state is not finite"); } for (size_t i = 0; i < cs[k].size(); ++i) cs[k][i] = C(k, i); } DISCARD_IF(maxabs(us) > 1e3);
    bool yielded = false, back = false; PState q; q.z = z; q.u = dvec(m.nv() * nd, 0.0); q.c = dvec(m.ne() * nl, 0.0); double rp = grow(o.rp, o.ra, o.ru, upd), pp = grow(pj.p, pj.a, pj.u, upd), tol = 1e-7; dmat force(N, dvec(m.nv(), 0.0));
    for (int k = 0; k < N; ++k) { double t = T * (k + 1) / N; q.up = q.u; q.cp = q.c; q.u = us[k]; q.c = cs[k]; q.n.assign(m.nv() * d, 0.0);
        if (k) { dvec den(m.nv(), 0.0); for (int e = 0; e < m.ne(); ++e) { Cell c = cellOf<P>(m, o, e, q.up, z, {}); double g = (pj.on ? msimp(pp, pj.mn, c.rho) : 1.0) * c.vol; for (int v : m.ev[e]) { den[v] += g; for (int j = 0; j < d; ++j) q.n[v * d + j] += g * o.ps * c.gp[j]; } } for (int v = 0; v < m.nv(); ++v) for (int j = 0; j < d; ++j) q.n[v * d + j] /= den[v]; }
        for (auto& b : bc) REQ(std::fabs(us[k][b.dof] - at(b, t)) <= tol, "step " << k << " of " << N << ": dof " << b.dof << " is " << us[k][b.dof] << ", prescribed " << at(b, t)); radialReturn<P>(m, o, upd, k, q, z, tol, yielded, back);
        dvec r = refGlobal<P>(m, o, q, t, rp); double sc = 1 + maxabs(us); for (size_t i = 0; i < r.size(); ++i) if (!fixed[i]) REQ(std::fabs(r[i]) <= tol * sc, "step " << k << " of " << N << ": free equation " << i << " is out of balance by " << r[i]); dvec r0 = refGlobal<P>(m, o, q, 0, rp); for (int v = 0; v < m.nv(); ++v) for (int j = 0; j < d; ++j) force[k][v] += r0[v * nd + j]; }
    if (yielded) s.nontrivial(); if (back) s.tag("elastic after yielding"); s.tag(N == 1 ? "one step" : "several steps");
    // criterion: sum over the steps
    struct Inst { PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::shared_ptr<Plato::LocalScalarFunctionInc> f; Inst(OMesh& om, const PL& p, const std::string& n) : pl(p), sm(om.mesh, om.sets, pl) { f = Plato::PathDependentScalarFunctionFactory<P>().create(sm, dm, pl, n); } };
    { Inst in(*om, o.pl, nm); Plato::ScalarMultiVector U1("U", 1, m.nv() * nd), C1("C", 1, m.ne() * nl); for (int i = 0; i < upd; ++i) in.f->updateProblem(U1, C1, view(z)); double v = 0, sc = 1e-6; dvec u0(m.nv() * nd, 0.0), c0(m.ne() * nl, 0.0); for (int k = 0; k < N; ++k) { double x = in.f->value(view(us[k]), view(k ? us[k - 1] : u0), view(cs[k]), view(k ? cs[k - 1] : c0), view(z), k); v += x; sc += std::fabs(x); } REQ(std::fabs(v - f0) <= 1e-10 * sc, "criterion " << f0 << ", sum over the steps " << v); REQ(pb.criterionValue(view(z), Plato::Solution(U), nm) == f0, "value with and without the solution given"); THROWS(pb.criterionValue(view(z), "nothing"), "criterion that does not exist"); THROWS(pb.criterionGradient(view(z), "nothing"), "gradient of a criterion that does not exist"); THROWS(pb.criterionGradientX(view(z), "nothing"), "gradient of a criterion that does not exist"); }
    auto F = [&](const dvec& a) { auto V = solve(a); DISCARD_IF((int)V.extent(0) != N); double f; try { f = pb.criterionValue(view(a), nm); } catch (const std::exception&) { throw pbt::Discard(); } return f; };
    if (what == 0) { // solved again after another design, the same is found and written
        solve(z2); bool same = (int)pb.getGlobalSolution().State.extent(0) == N; try { pb.criterionValue(view(z2), nm); } catch (const std::exception&) { same = false; } if (!same) return; double f2 = F(z); REQ(std::fabs(f2 - f0) <= 1e-7 * (std::fabs(f0) + 1), "solved again after another design: " << f2 << " instead of " << f0);
        auto& log = Omega_h::vtk::written(); log.clear(); pb.saveStates("out"); auto out = log; log.clear(); REQ((int)out.size() == N, out.size() << " snapshots of " << N << " steps"); auto V = pb.getGlobalSolution().State;
        for (int k = 0; k < N; ++k) { REQ(out[k].step == k && std::fabs(out[k].time - T * (k + 1) / N) < 1e-12, "snapshot " << k << " has number " << out[k].step << " and time " << out[k].time); auto get = [&](const char* n, int c) -> const std::vector<double>& { auto it = out[k].data.find({0, n}); REQ(it != out[k].data.end() && (int)it->second.size() == c * m.nv(), "nothing or not enough written for " << n); return it->second; };
            auto &D = get("Displacements", d), &Q = get("Pressure", 1), &R = get("Reaction Force", 1); for (int v = 0; v < m.nv(); ++v) { for (int j = 0; j < d; ++j) REQ(D[v * d + j] == V(k, v * nd + j), "step " << k << " node " << v << ": written displacement"); REQ(std::fabs(Q[v] - o.ps * V(k, v * nd + po)) <= 1e-14 + 1e-14 * std::fabs(Q[v]), "step " << k << " node " << v << ": written pressure " << Q[v] << ", solution " << o.ps * V(k, v * nd + po)); REQ(std::fabs(R[v] - force[k][v]) <= 1e-6, "step " << k << " node " << v << ": written reaction force " << R[v] << ", internal force " << force[k][v]); }
            if (th) { auto& H = get("Temperature", 1); for (int v = 0; v < m.nv(); ++v) REQ(std::fabs(H[v] - o.ts * V(k, v * nd + d)) <= 1e-14 + 1e-14 * std::fabs(H[v]), "step " << k << " node " << v << ": written temperature " << H[v]); } }
        return; }
    bool ok; double err; dvec g; DISCARD_IF(std::fabs(f0) > 1e6);
    // the gradient is projected with a lumped mass but differentiated with the consistent one: recorded as projection-lumping, it shows where the weights of the projection change and its result is not uniform
    bool lump = N > 1 && !one && (what == 2 || (pj.on && pj.mn != 1)); F(z); g = vec(what == 1 ? pb.criterionGradient(view(z), nm) : pb.criterionGradientX(view(z), nm)); dvec dir = what == 1 ? w : flat(dx), D = what == 1 ? ddx([&](double e) { return dvec{F(axpy(z, e, w))}; }, 1e-3, ok, 1e-5, &err) : ddx([&](double e) { Moved mv(*om, axpy(m.x, e, dx)); return dvec{F(z)}; }, 1e-3, ok, 1e-5, &err);
    try { sameDeriv(g, dir, D, std::fabs(f0) + 1e-3, ok, err, what == 1 ? "total derivative by control" : "total derivative by node coordinates"); } catch (const pbt::Failure& e) { if (!lump || g.size() != dir.size()) throw; s.known("projection-lumping", e.what()); return; }
    if (ok) s.tag("compared with difference quotient");
}
} // namespace hm
