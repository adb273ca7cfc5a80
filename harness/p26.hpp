// Assembled residuals as physics: loads are worth their integral, rigid motion costs nothing, uniform states balance, and
// neither numbering, nor blocks, nor the frame of reference matter.
#pragma once
#include "p20.hpp"
#include "elliptic/VectorFunction.hpp"
namespace hm {
template<class P> struct Pde { std::shared_ptr<OMesh> om; PL pl; Plato::SpatialModel sm; Plato::DataMap dm; std::string name; Plato::Elliptic::VectorFunction<P> f; Pde(const RMesh& m, const PL& p) : om(omesh(m)), pl(p), sm(om->mesh, om->sets, pl), name("Elliptic"), f(sm, dm, pl, name) {} dvec R(const dvec& u, const dvec& z) { return vec(f.value(view(u), view(z))); } };
inline void expectLoad(const RMesh& m, dvec& f, int nd, int off, const PL& q, int n) {
    auto& sides = m.ssets.at(q.get<std::string>("Sides")); std::string t = q.get<std::string>("Type");
    for (auto& sd : sides) for (int v : sd) for (int k = 0; k < n; ++k) { double a = sideArea(m, m.x, sd) / m.d, val = 0;
        if (t == "Uniform Pressure") val = q.get<double>("Value") * areaVector(m, m.x, sd)[k] / m.d;
        else if (t == "Uniform Component") val = a * (q.get<std::string>("Component")[0] % 32 - 'X' % 32 == k ? q.get<double>("Value") : 0);
        else if (q.isParameter("Values")) val = a * (q.isType<Teuchos::Array<double>>("Values") ? q.get<Teuchos::Array<double>>("Values")[k] : std::stod(q.get<Teuchos::Array<std::string>>("Values")[k]));
        else val = a * ((q.isParameter("Index") ? q.get<int>("Index") : 0) == k ? (q.isType<double>("Value") ? q.get<double>("Value") : std::stod(q.get<std::string>("Value"))) : 0);
        f[v * nd + off + k] += val; }
}
struct Body { const char* f; double (*v)(const dvec&); };
inline const Body& bodyFn(int i) { static const Body b[] = {{"1.5", [](const dvec&) { return 1.5; }}, {"x", [](const dvec& x) { return x[0]; }}, {"1+2*x-y", [](const dvec& x) { return 1 + 2 * x[0] - x[1]; }}, {"x*y", [](const dvec& x) { return x[0] * x[1]; }}, {"-3*y", [](const dvec& x) { return -3 * x[1]; }}}; return b[i]; }
inline void someLoads(Src& s, PL& p, const RMesh& m, const std::string& list, int n, dvec& f, int nd, int off, bool pressure) {
    auto& q = p.sublist(list); int k = s.intIn(1, 3); std::vector<std::string> sides; for (auto& a : m.ssets) if (!a.second.empty()) sides.push_back(a.first);
    for (int i = 0; i < k; ++i) { auto& l = q.sublist("Load " + std::to_string(i)); l.set<std::string>("Sides", sides[s.intIn(0, (int)sides.size() - 1)]); int t = s.intIn(0, pressure ? 5 : 4); auto str = [&] { std::ostringstream o; o.precision(17); o << s.sreal(2); return o.str(); };
        l.set<std::string>("Type", t < 4 ? "Uniform" : t == 4 ? "Uniform Component" : "Uniform Pressure");
        if (t == 0) { Teuchos::Array<double> v(n); for (auto& x : v) x = s.sreal(2); l.set("Values", v); } if (t == 1) { Teuchos::Array<std::string> v(n); for (auto& x : v) x = str(); l.set("Values", v); }
        if (t == 2) l.set<double>("Value", s.sreal(2)); if (t == 3) l.set<std::string>("Value", str()); if ((t == 2 || t == 3) && (n > 1 || s.flag())) { int ix = s.intIn(0, n - 1); if (ix || s.flag()) l.set<int>("Index", ix); }
        if (t == 4) { l.set<double>("Value", s.sreal(2)); static const char* c[] = {"X", "Y", "Z", "x", "y", "z"}; l.set<std::string>("Component", c[s.intIn(0, n - 1) + (s.flag() ? 3 : 0)]); } if (t == 5) l.set<double>("Value", s.sreal(2));
        s.tag(l.get<std::string>("Type")); expectLoad(m, f, nd, off, l, n); }
}
// what the loads add to the residual
template<class P> void loadsValue(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); ModelOpt mo; mo.loads = mo.body = false; PL p = baseList(s, m, ph, mo), q = p; dvec u = rvec(s, m.nv() * nd, 1.0), z = density(s, m.nv()), f(m.nv() * nd, 0.0);
    int which = s.intIn(1, 7); bool any = false; std::string second = ph == TMECH ? "Thermal Natural Boundary Conditions" : "Electrical Natural Boundary Conditions";
    if (which & 1) { any = true; if (ph == MECH) someLoads(s, q, m, "Natural Boundary Conditions", d, f, nd, 0, true); else if (ph == THERM) someLoads(s, q, m, "Natural Boundary Conditions", 1, f, nd, 0, false); else someLoads(s, q, m, "Mechanical Natural Boundary Conditions", d, f, nd, 0, true); }
    if ((which & 2) && ph >= TMECH) { any = true; someLoads(s, q, m, second, 1, f, nd, d, false); }
    if ((which & 4) || !any) { int k = s.intIn(1, 2); for (int i = 0; i < k; ++i) { auto& l = q.sublist("Body Loads").sublist("B" + std::to_string(i)); l.set<std::string>("Type", "Uniform"); int ix = s.intIn(0, nd - 1); if (ix || s.flag()) l.set<int>("Index", ix); auto& b = bodyFn(s.intIn(0, 4)); l.set<std::string>("Function", b.f); s.tag("body load");
        for (int e = 0; e < m.ne(); ++e) { dvec c(d, 0.0); double rho = 0; for (int v : m.ev[e]) { rho += z[v] / (d + 1); for (int j = 0; j < d; ++j) c[j] += m.x[v][j] / (d + 1); } for (int v : m.ev[e]) f[v * nd + ix] += b.v(c) * rho * volOf(m, e) / (d + 1); } } }
    s.desc << describe(m) << "; " << describe(q); if (m.ne() > 1 && maxabs(f) > 0) s.nontrivial();
    if (ph == THERM && q.isSublist("Natural Boundary Conditions")) { dvec b(f.size(), 0.0); auto& l = q.sublist("Natural Boundary Conditions"); for (auto i = l.begin(); i != l.end(); ++i) expectLoad(m, b, nd, 0, l.sublist(l.name(i)), 1); f = axpy(f, -2, b); } // heat conduction: boundary values are heat that leaves
    Pde<P> a(m, p), b(m, q); dvec r0 = a.R(u, z), r1 = b.R(u, z); double sc = std::max(maxabs(r0), maxabs(f)); for (size_t i = 0; i < f.size(); ++i) REQ(std::fabs(r1[i] - (r0[i] - f[i])) <= 1e-10 * sc, "load on dof " << i << ": residual changes by " << r1[i] - r0[i] << ", load " << f[i]);
    dmat J0 = dense(a.f.gradient_u(view(u), view(z))), J1 = dense(b.f.gradient_u(view(u), view(z))); double js = maxabs(J0); for (size_t i = 0; i < J0.size(); ++i) for (size_t j = 0; j < J0.size(); ++j) REQ(std::fabs(J0[i][j] - J1[i][j]) <= 1e-12 * js, "dead loads change the stiffness");
    dvec r2 = b.R(u, z); for (size_t i = 0; i < f.size(); ++i) REQ(r2[i] == r1[i], "second evaluation differs at dof " << i);
}
// faulty load lists are refused
template<class P> void loadsFaulty(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims; RMesh m = randomMesh(s, d); ModelOpt mo; mo.loads = mo.body = false; PL p = baseList(s, m, ph, mo); std::string list = ph <= THERM ? "Natural Boundary Conditions" : s.flag() ? "Mechanical Natural Boundary Conditions" : ph == TMECH ? "Thermal Natural Boundary Conditions" : "Electrical Natural Boundary Conditions"; int n = ph == THERM ? 1 : list[0] == 'T' || list[0] == 'E' ? 1 : d;
    auto& q = p.sublist(list); auto& l = q.sublist("Load"); l.set<std::string>("Sides", "x0"); l.set<std::string>("Type", "Uniform"); l.set<double>("Value", 1.0); int k = s.intIn(0, 8); std::string what;
    if (k == 0) { what = "unknown type"; l.set<std::string>("Type", "Uniformly"); } if (k == 1) { what = "no type"; l.remove("Type"); } if (k == 2) { what = "no value"; l.remove("Value"); } if (k == 3) { what = "value and values"; l.set("Values", Teuchos::Array<double>(n, 1.0)); }
    if (k == 4) { what = "component the field does not have"; l.set<std::string>("Type", "Uniform Component"); static const char* c[] = {"y", "z", "w"}; l.set<std::string>("Component", n == 1 ? c[s.intIn(0, 2)] : n == 2 ? c[s.intIn(1, 2)] : c[2]); }
    if (k == 5) { what = "component missing"; l.set<std::string>("Type", "Uniform Component"); } if (k == 6) { what = "parameter beside the loads"; q.set<double>("Value", 1.0); }
    if (k == 7) { what = "index the field does not have"; l.set<int>("Index", s.pick<int>({n, n + 1, -1})); } if (k == 8) { what = "too few values"; l.remove("Value"); if (s.flag()) l.set("Values", Teuchos::Array<double>(n - 1, 1.0)); else l.set("Values", Teuchos::Array<std::string>(n - 1, "1.0")); }
    s.desc << what << "; " << list; s.tag(what); s.nontrivial(); THROWS((Pde<P>(m, p)), what);
}
// mesh with nodes and elements renumbered; np: new number of each node
inline RMesh renumbered(Src& s, const RMesh& m, std::vector<int>& np) {
    RMesh r = m; int nv = m.nv(), ne = m.ne(); np.resize(nv); std::vector<int> ep(ne); for (int i = 0; i < nv; ++i) np[i] = i; for (int i = 0; i < ne; ++i) ep[i] = i; for (int i = 0; i + 1 < nv; ++i) std::swap(np[i], np[i + s.intIn(0, nv - 1 - i)]); for (int i = 0; i + 1 < ne; ++i) std::swap(ep[i], ep[i + s.intIn(0, ne - 1 - i)]);
    for (int i = 0; i < nv; ++i) r.x[np[i]] = m.x[i]; for (int e = 0; e < ne; ++e) { auto t = m.ev[e]; for (int& v : t) v = np[v]; int k = s.intIn(0, 2); std::rotate(t.begin(), t.begin() + k, t.begin() + 3); r.ev[ep[e]] = t; } for (auto& b : r.blocks) for (int& e : b) e = ep[e]; for (auto& q : r.nsets) for (int& v : q.second) v = np[v]; for (auto& q : r.ssets) for (auto& a : q.second) for (int& v : a) v = np[v]; return r;
}
inline dvec scatter(const dvec& a, const std::vector<int>& np, int nd) { dvec r(a.size()); for (size_t i = 0; i < np.size(); ++i) for (int k = 0; k < nd; ++k) r[np[i] * nd + k] = a[i * nd + k]; return r; }
// numbering and blocks do not matter, for residual, derivatives and criteria
template<class P> void numbering(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); PL p = baseList(s, m, ph), q = p; std::vector<int> np; RMesh r = renumbered(s, m, np); Crits c; CritOpt co; std::string nm = criterion(s, p, m, ph, c, co, 1); q.sublist("Criteria") = p.sublist("Criteria"); if (p.isSublist("Cell Problem Forcing")) q.sublist("Cell Problem Forcing") = p.sublist("Cell Problem Forcing");
    if (s.flag()) { // split one block into two of the same material, or turn the order of the blocks
        int b = s.intIn(0, (int)m.blocks.size() - 1); auto& dom = q.sublist("Spatial Model").sublist("Domains"); std::vector<int> a, o; for (int e : r.blocks[b]) (s.flag() ? a : o).push_back(e); if (!a.empty() && !o.empty()) { int nb = r.blocks.size(); r.blocks[b] = a; r.blocks.push_back(o); auto& l = dom.sublist("Split"); l.set("Element Block", "block_" + std::to_string(nb)); l.set("Material Model", dom.sublist("Domain " + std::to_string(b)).get<std::string>("Material Model")); s.tag("block split"); } }
    dvec u = rvec(s, m.nv() * nd, 1.0), z = density(s, m.nv()); s.desc << describe(m) << " renumbered as"; for (int i : np) s.desc << " " << i; s.desc << "; " << nm << "; " << describe(q); if (m.ne() > 1) s.nontrivial();
    dvec ru = scatter(u, np, nd), rz = scatter(z, np, 1); Pde<P> a(m, p), b(r, q); dvec fa = a.R(u, z), fb = b.R(ru, rz); sameVec(fb, scatter(fa, np, nd), maxabs(fa), 1e-10, "residual after renumbering");
    auto same = [&](const dmat& A, const dmat& B, int rd, int cd, const char* what) { double sc = maxabs(A); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A[0].size(); ++j) { double w = B[np[i / rd] * rd + i % rd][np[j / cd] * cd + j % cd]; REQ(std::fabs(w - A[i][j]) <= 1e-10 * sc, what << " after renumbering, entry " << i << "," << j << ": " << w << " instead of " << A[i][j]); } };
    same(dense(a.f.gradient_u(view(u), view(z))), dense(b.f.gradient_u(view(ru), view(rz))), nd, nd, "derivative by state"); same(dense(a.f.gradient_z(view(u), view(z))), dense(b.f.gradient_z(view(ru), view(rz))), 1, nd, "derivative by control"); same(dense(a.f.gradient_x(view(u), view(z))), dense(b.f.gradient_x(view(ru), view(rz))), d, nd, "derivative by coordinates");
    if (c[nm].auglag) return; // its mass normalization is taken over blocks
    PL p2 = p, q2 = q; std::string n1 = nm, n2 = nm; auto g = Plato::Elliptic::ScalarFunctionBaseFactory<P>().create(a.sm, a.dm, p2, n1), h = Plato::Elliptic::ScalarFunctionBaseFactory<P>().create(b.sm, b.dm, q2, n2); double ga = g->value(solution({u}), view(z)), gb = h->value(solution({ru}), view(rz)); DISCARD_IF(!(std::fabs(ga) < 1e8)); REQ(std::fabs(ga - gb) <= 1e-7 * (std::fabs(ga) + 1e-3), "criterion " << c[nm].type << " after renumbering: " << gb << " instead of " << ga);
    dvec za = vec(g->gradient_z(solution({u}), view(z))), zb = vec(h->gradient_z(solution({ru}), view(rz))); sameVec(zb, scatter(za, np, 1), maxabs(za) + std::fabs(ga), 1e-7, "derivative of the criterion by control after renumbering");
}
// rigid motions, constant states, and uniform gradients
template<class P> void balance(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); ModelOpt mo; mo.loads = mo.body = mo.refStrain = false; mo.poly = ph == THERM; PL p = baseList(s, m, ph, mo); dvec z = density(s, m.nv()); int n = m.nv() * nd; dvec u = rvec(s, n, 1.0);
    s.desc << describe(m) << "; " << describe(p); if (m.ne() > 1) s.nontrivial(); Pde<P> a(m, p); dmat J = dense(a.f.gradient_u(view(u), view(z))); double js = maxabs(J);
    // forces and heat add up to nothing
    dvec r = a.R(u, z); double sc = maxabs(r); dvec tot(nd, 0.0); for (int i = 0; i < n; ++i) tot[i % nd] += r[i]; for (int k = 0; k < nd; ++k) REQ(std::fabs(tot[k]) <= 1e-10 * sc * m.nv(), "sum over the nodes of component " << k << " is " << tot[k] << " of " << sc);
    if (ph != THERM) { double mz = 0; for (int i = 0; i < m.nv(); ++i) for (int k = 0; k + 1 < d; ++k) { if (k == 0) mz += m.x[i][0] * r[i * nd + 1] - m.x[i][1] * r[i * nd]; } REQ(std::fabs(mz) <= 1e-9 * sc * m.nv() * 4, "moment of the internal forces is " << mz << " of " << sc); }
    // a rigid motion, or a constant temperature or potential, does no work
    double t0 = 0; if (ph == TMECH) { auto& mm = p.sublist("Material Models"); bool same = true, first = true; for (auto i = mm.begin(); i != mm.end(); ++i) { auto& q = mm.sublist(mm.name(i)).sublist("Thermoelastic"); double v = q.isParameter("Reference Temperature") ? q.get<double>("Reference Temperature") : 23.0; if (!first && v != t0) same = false; t0 = v; first = false; } if (!same) return; }
    dmat W = zeros(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) { W[i][j] = s.sreal(1); W[j][i] = -W[i][j]; } dvec c = rvec(s, nd, 1.0), g(n, 0.0); for (int i = 0; i < m.nv(); ++i) for (int k = 0; k < nd; ++k) { double v = c[k]; if (ph != THERM && k < d) for (int j = 0; j < d; ++j) v += W[k][j] * m.x[i][j]; if (ph == TMECH && k == d) v = t0; g[i * nd + k] = v; }
    dvec r1 = a.R(g, z); for (int i = 0; i < n; ++i) REQ(std::fabs(r1[i]) <= 1e-9 * js * (1 + maxabs(g)), "rigid motion gives the residual " << r1[i] << " at dof " << i);
    // uniform gradients balance at inner nodes, where material and density are uniform
    bool uni = p.sublist("Material Models").numParams() == 1 && ph != TMECH; if (ph == THERM) { auto& q = p.sublist("Material Models").sublist("Mat 0").sublist("Thermal Conduction"); uni = uni && !q.isParameter("Temperature Dependent"); }
    if (uni) { dvec one(m.nv(), s.real(0.3, 1)); dmat A(nd, dvec(d)); for (auto& w : A) for (double& x : w) x = s.sreal(1); dvec l(n); for (int i = 0; i < m.nv(); ++i) for (int k = 0; k < nd; ++k) { l[i * nd + k] = c[k]; for (int j = 0; j < d; ++j) l[i * nd + k] += A[k][j] * m.x[i][j]; } dvec q = a.R(l, one); for (int v : m.nsets["inner"]) for (int k = 0; k < nd; ++k) REQ(std::fabs(q[v * nd + k]) <= 1e-9 * js * (1 + maxabs(l)), "uniform gradient is out of balance by " << q[v * nd + k] << " at inner node " << v); if (!m.nsets["inner"].empty()) s.tag("patch"); }
}
// the frame of reference does not matter: moved and, where the material has no directions, turned bodies
template<class P> void frame(Src& s, Phys ph) {
    constexpr int d = P::SimplexT::mNumSpatialDims, nd = P::SimplexT::mNumDofsPerNode; RMesh m = randomMesh(s, d); ModelOpt mo; mo.body = false; mo.loads = true; PL p = baseList(s, m, ph, mo); dvec z = density(s, m.nv()), u = rvec(s, m.nv() * nd, 1.0), t = rvec(s, d, 3.0);
    bool iso = true; auto& mm = p.sublist("Material Models"); for (auto i = mm.begin(); i != mm.end(); ++i) { auto& q = mm.sublist(mm.name(i)); if (ph == MECH) iso = iso && q.isSublist("Isotropic Linear Elastic") && !q.sublist("Isotropic Linear Elastic").isParameter("e11"); else if (ph == THERM) iso = iso && q.sublist("Thermal Conduction").isParameter("Thermal Conductivity") && !q.sublist("Thermal Conduction").isSublist("Thermal Conductivity"); else if (ph == TMECH) { auto& e = q.sublist("Thermoelastic"); iso = iso && !e.isSublist("Thermal Conductivity") && !e.isSublist("Thermal Expansivity"); } else iso = false; }
    for (const char* l : {"Natural Boundary Conditions", "Mechanical Natural Boundary Conditions"}) if (ph != THERM && p.isSublist(l)) { auto& q = p.sublist(l); for (auto i = q.begin(); i != q.end(); ++i) if (q.sublist(q.name(i)).get<std::string>("Type") != "Uniform Pressure") iso = false; }
    dmat Q = zeros(d, d); for (int i = 0; i < d; ++i) Q[i][i] = 1; if (iso && s.chance(5, 6)) { int k = d == 2 ? 1 : 3; for (int a = 0; a < k; ++a) { double w = s.real(0, 6.2); int i = a == 2 ? 1 : 0, j = a == 0 ? 1 : 2; dmat G = zeros(d, d); for (int b = 0; b < d; ++b) G[b][b] = 1; G[i][i] = G[j][j] = std::cos(w); G[i][j] = -std::sin(w); G[j][i] = std::sin(w); Q = matmul(G, Q); } s.tag("turned"); }
    RMesh r = m; for (int v = 0; v < m.nv(); ++v) { r.x[v] = mul(Q, m.x[v]); for (int k = 0; k < d; ++k) r.x[v][k] += t[k]; } auto turn = [&](const dvec& a) { dvec o = a; if (ph != THERM) for (int v = 0; v < m.nv(); ++v) { dvec w(a.begin() + v * nd, a.begin() + v * nd + d), y = mul(Q, w); for (int k = 0; k < d; ++k) o[v * nd + k] = y[k]; } return o; };
    s.desc << describe(m) << "; moved by"; for (double x : t) s.desc << " " << x; s.desc << "; " << describe(p); if (m.ne() > 1) s.nontrivial();
    Pde<P> a(m, p), b(r, p); dvec fa = a.R(u, z), fb = b.R(turn(u), z); sameVec(fb, turn(fa), maxabs(fa), 1e-9, "residual of the moved body");
}
} // namespace hm
