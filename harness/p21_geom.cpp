// Volume, mass, center of gravity and inertia of a design, their combinations and derivatives.
#include "p20.hpp"
#include "Geometrical.hpp"
#include "Mechanics.hpp"
#include "geometric/ScalarFunctionBaseFactory.hpp"
namespace {
using namespace hm;
struct Props { double mass = 0; double cg[3] = {0, 0, 0}, I[3][3] = {{0}}, len = 0, vol = 0; };
// cell masses at cell centroids (the one-point rule the criteria are defined with)
Props massProps(const RMesh& m, const dmat& x, const dvec& z, const dvec& rho) {
    Props p; dvec f(3, 0.0); double S[3][3] = {{0}};
    for (size_t b = 0; b < m.blocks.size(); ++b) for (int e : m.blocks[b]) { double zb = 0, c[3] = {0, 0, 0}; for (int v : m.ev[e]) { zb += z[v] / (m.d + 1); for (int k = 0; k < m.d; ++k) c[k] += x[v][k] / (m.d + 1); }
        double v = volOf(m, x, e), w = rho[b] * v * zb; p.vol += v; p.mass += w; for (int i = 0; i < 3; ++i) { f[i] += w * c[i]; for (int j = 0; j < 3; ++j) S[i][j] += w * c[i] * c[j]; } }
    double t = S[0][0] + S[1][1] + S[2][2]; for (int i = 0; i < 3; ++i) { p.cg[i] = f[i] / p.mass; for (int j = 0; j < 3; ++j) p.I[i][j] = (i == j ? t : 0) - S[i][j]; } return p;
}
// eigenvalues and eigenvectors of a symmetric 3x3 matrix (columns of q)
void eigen3(double a[3][3], double l[3], double q[3][3]) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = i == j;
    for (int it = 0; it < 60; ++it) for (int p = 0; p < 2; ++p) for (int r = p + 1; r < 3; ++r) { if (a[p][r] == 0) continue; double th = 0.5 * std::atan2(2 * a[p][r], a[r][r] - a[p][p]), c = std::cos(th), s = std::sin(th);
        for (int k = 0; k < 3; ++k) { double u = a[k][p], v = a[k][r]; a[k][p] = c * u - s * v; a[k][r] = s * u + c * v; } for (int k = 0; k < 3; ++k) { double u = a[p][k], v = a[r][k]; a[p][k] = c * u - s * v; a[r][k] = s * u + c * v; }
        for (int k = 0; k < 3; ++k) { double u = q[k][p], v = q[k][r]; q[k][p] = c * u - s * v; q[k][r] = s * u + c * v; } }
    for (int i = 0; i < 3; ++i) l[i] = a[i][i];
}
double cut(double g) { return std::fabs(g) > 0.1 ? std::fabs(g) : 1; }
double ext(double g) { return std::max(std::fabs(g), 0.1); }
const char* NAMES[10] = {"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"};
double prop(const Props& p, int k) { static const int ij[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}}; return k == 0 ? p.mass : k < 4 ? p.cg[k - 1] : p.I[ij[k - 4][0]][ij[k - 4][1]]; }
struct MassCase { std::vector<int> which; dvec w, gold; bool all = false, eigenOk = true; };
// the least-squares value by its definition
double massValue(const Props& p, const MassCase& c, const double extent[3]) {
    double r = 0;
    if (!c.all) { for (size_t i = 0; i < c.which.size(); ++i) { int k = c.which[i]; double sc = k >= 1 && k <= 3 ? ext(extent[k - 1]) : cut(c.gold[i]), t = (prop(p, k) - c.gold[i]) / sc; r += c.w[i] * t * t; } return r; }
    double g[10], w[10]; for (size_t i = 0; i < 10; ++i) { g[c.which[i]] = c.gold[i]; w[c.which[i]] = c.w[i]; }
    double n2 = g[1] * g[1] + g[2] * g[2] + g[3] * g[3], PA[3][3], G[3][3] = {{g[4], g[7], g[8]}, {g[7], g[5], g[9]}, {g[8], g[9], g[6]}}, l[3], q[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { PA[i][j] = (i == j ? n2 : 0) - g[1 + i] * g[1 + j]; G[i][j] -= g[0] * PA[i][j]; } eigen3(G, l, q);
    double J[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { J[i][j] = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J[i][j] += q[a][i] * (p.I[a][b] - p.mass * PA[a][b]) * q[b][j]; }
    for (int k = 0; k < 4; ++k) { double t = (prop(p, k) - g[k]) / (k ? ext(extent[k - 1]) : cut(g[0])); r += w[k] * t * t; }
    double lm = std::min(l[0], std::min(l[1], l[2])); for (int i = 0; i < 3; ++i) { double t = (J[i][i] - l[i]) / cut(l[i]); r += w[4] * t * t; for (int j = i + 1; j < 3; ++j) { double u = J[i][j] / ext(lm); r += w[7] * u * u; } } return r;
}
// eigenvalues apart, so that the principal axes are determined
bool axesDetermined(const MassCase& c) { if (!c.all) return true; double g[10]; for (size_t i = 0; i < 10; ++i) g[c.which[i]] = c.gold[i]; double n2 = g[1] * g[1] + g[2] * g[2] + g[3] * g[3], G[3][3] = {{g[4], g[7], g[8]}, {g[7], g[5], g[9]}, {g[8], g[9], g[6]}}, l[3], q[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) G[i][j] -= g[0] * ((i == j ? n2 : 0) - g[1 + i] * g[1 + j]); eigen3(G, l, q); double mx = std::max(std::fabs(l[0]), std::max(std::fabs(l[1]), std::fabs(l[2]))); for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (std::fabs(l[i] - l[j]) < 1e-3 * mx) return false; return true; }
MassCase massCase(Src& s, const Props& p) {
    MassCase c; std::vector<int> o(10); for (int i = 0; i < 10; ++i) o[i] = i; for (int i = 0; i < 9; ++i) std::swap(o[i], o[i + s.intIn(0, 9 - i)]);
    c.all = s.flag(); int n = c.all ? 10 : s.intIn(1, 9); double dev = s.pick<double>({0.3, 0.0, 0.05, 2.0}), wd = s.real(0.2, 2), wo = s.real(0.2, 2); for (int i = 0; i < n; ++i) { int k = o[i]; c.which.push_back(k); double v = prop(p, k); c.gold.push_back(c.all ? v * (1 + 0.2 * dev * (k < 4 || k >= 7 ? s.real(-1, 1) : s.real(0, 1))) : v + dev * s.real(-1, 1)); c.w.push_back(c.all ? (k < 4 ? s.real(0.1, 2) : k < 7 ? wd : wo) : s.real(-1, 2)); } return c;
}
template<class F> void derivatives(Src& s, F f, OMesh& om, const RMesh& m, const dvec& z, const dvec& w, const dmat& dx, double scale) {
    bool ok; double err; dvec q; double f0 = f->value(view(z));
    q = ddx([&](double e) { return dvec{f->value(view(axpy(z, e, w)))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(vec(f->gradient_z(view(z))), w, q, scale + std::fabs(f0), ok, err, "derivative by control");
    dvec gx = vec(f->gradient_x(view(z))); q = ddx([&](double e) { Moved mv(om, axpy(m.x, e, dx)); return dvec{f->value(view(z))}; }, 1e-3, ok, 1e-5, &err); sameDeriv(gx, flat(dx), q, scale + std::fabs(f0), ok, err, "derivative by node coordinates");
    double f1 = f->value(view(z)); REQ(std::fabs(f1 - f0) <= 1e-12 * std::fabs(f0), "value changed by evaluating derivatives");
}
void densities(Src& s, PL& p, const RMesh& m, dvec& rho) { int nm = s.intIn(1, (int)m.blocks.size()); std::vector<std::string> names; dvec r; for (int i = 0; i < nm; ++i) { names.push_back("Mat " + std::to_string(i)); auto& q = p.sublist("Material Models").sublist(names.back()); r.push_back(1.0); if (s.chance(3, 4)) q.set<double>("Density", r.back() = s.real(0.3, 4)); auto& e = q.sublist("Isotropic Linear Elastic"); e.set<double>("Poissons Ratio", 0.3); e.set<double>("Youngs Modulus", 2.0); } spatialModel(p, m, names); for (size_t b = 0; b < m.blocks.size(); ++b) rho.push_back(r[b % nm]); }
dmat moves(Src& s, const RMesh& m) { dmat dx(m.nv(), dvec(m.d)); for (auto& a : dx) for (double& b : a) b = s.sreal(1) * m.hmin; return dx; }

void massProperties(Src& s, bool elliptic) {
    RMesh m = randomMesh(s, 3); if (s.flag()) { dvec sh = {s.sreal(2), s.sreal(2), s.sreal(2)}; for (auto& a : m.x) for (int k = 0; k < 3; ++k) a[k] += sh[k]; } PL p("Plato Problem"); dvec rho; densities(s, p, m, rho); dvec z = density(s, m.nv()), w = rvec(s, m.nv(), 1.0); dmat dx = moves(s, m); Props pr = massProps(m, m.x, z, rho); MassCase c = massCase(s, pr);
    int bad = s.chance(1, 12) ? s.intIn(1, 4) : 0; auto& q = p.sublist("Criteria").sublist("mp"); q.set<std::string>("Type", "Mass Properties"); strArray n; numArray ww, g; for (size_t i = 0; i < c.which.size(); ++i) { n.push_back(NAMES[c.which[i]]); ww.push_back(c.w[i]); g.push_back(c.gold[i]); }
    if (bad == 1) ww.push_back(1.0); if (bad == 2) g.push_back(1.0); if (bad == 3) { n[0] = "Iww"; } if (bad == 4) { n.push_back(n[0]); ww.push_back(1); g.push_back(1); } q.set("Properties", n); q.set("Weights", ww); q.set("Gold Values", g);
    s.desc << describe(m) << "; " << (elliptic ? "with state; " : "") << "fault " << bad << "; " << describe(p); s.tag(c.all ? "all ten properties" : "some properties"); s.nontrivial(m.ne() > 1 && !bad);
    auto om = omesh(m); PL pl = p; Plato::SpatialModel sm(om->mesh, om->sets, pl); Plato::DataMap dm; std::string nm = "mp"; double extent[3]; for (int k = 0; k < 3; ++k) { double lo = 1e9, hi = -1e9; for (auto& a : m.x) { lo = std::min(lo, a[k]); hi = std::max(hi, a[k]); } extent[k] = hi - lo; }
    if (bad) { if (elliptic) THROWS(Plato::Elliptic::ScalarFunctionBaseFactory<Plato::Mechanics<3>>().create(sm, dm, p, nm), "faulty mass properties input"); else THROWS(Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<3>>().create(sm, dm, p, nm), "faulty mass properties input"); return; }
    double want = massValue(pr, c, extent), sc = 0; for (double x : c.w) sc += std::fabs(x) * 3; bool det = axesDetermined(c);
    auto check = [&](double got) { REQ(std::isfinite(got), "value is not finite"); if (det) NEAR(got, want, sc + std::fabs(want), "mass properties misfit"); };
    if (elliptic) { auto f = Plato::Elliptic::ScalarFunctionBaseFactory<Plato::Mechanics<3>>().create(sm, dm, p, nm); dmat u = {rvec(s, m.nv() * 3, 1.0)}; auto U = solution(u);
        struct A { std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> f; Plato::Solution U; double value(Plato::ScalarVector z) { return f->value(U, z); } Plato::ScalarVector gradient_z(Plato::ScalarVector z) { return f->gradient_z(U, z, 0); } Plato::ScalarVector gradient_x(Plato::ScalarVector z) { return f->gradient_x(U, z, 0); } }; A a{f, U};
        check(a.value(view(z))); for (double x : vec(f->gradient_u(U, view(z), 0))) REQ(x == 0, "mass depends on the state"); derivatives(s, &a, *om, m, z, w, dx, sc); }
    else { auto f = Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<3>>().create(sm, dm, p, nm); check(f->value(view(z))); derivatives(s, f, *om, m, z, w, dx, sc); }
}
double pen(const PL& q, double z) { auto t = q.get<std::string>("Type"); if (t == "NoPenalty") return z; double p = q.get<double>("Exponent"), mn = q.get<double>("Minimum Value"); if (t == "SIMP") return mn + (1 - mn) * std::pow(z, p); if (t == "RAMP") return mn + (1 - mn) * z / (1 + p * (1 - z)); double L = q.get<double>("Regularization Length"); (void)L; return NAN; }
// volume (penalized like the density) and combinations of it
template<int D> void volume(Src& s) {
    RMesh m = randomMesh(s, D); PL p("Plato Problem"); dvec rho; densities(s, p, m, rho); dvec z = s.chance(1, 3) ? dvec(m.nv(), 1.0) : density(s, m.nv()), w = rvec(s, m.nv(), 1.0); dmat dx = moves(s, m); Crits c;
    std::function<std::string(int)> gen = [&](int depth) { int k = depth ? s.intIn(0, 5) : 0; std::vector<std::string> kids; if (k >= 3) { int n = k == 4 ? 2 : s.intIn(1, 3); for (int i = 0; i < n; ++i) kids.push_back(gen(depth - 1)); }
        std::string nm = "f" + std::to_string(c.size()); auto& f = c[nm]; auto& q = p.sublist("Criteria").sublist(nm); f.kids = kids; if (k < 3) { f.type = "Volume"; q.set<std::string>("Type", "Scalar Function"); q.set<std::string>("Scalar Function Type", "Volume"); penalty(s, q, false); return nm; }
        f.type = k == 3 ? "Weighted Sum" : k == 4 ? "Division" : "Least Squares"; q.set("Type", f.type); s.tag(f.type); if (k == 4) { q.set("Numerator", kids[0]); q.set("Denominator", kids[1]); return nm; }
        int n = kids.size(); numArray ww(n), g(n); for (int i = 0; i < n; ++i) { ww[i] = s.sreal(2); g[i] = s.pick<double>({0.0, 0.5, -1.5, 3.0}); } f.w = ww.toVector(); f.gold = g.toVector(); q.set("Functions", strArray(kids)); q.set("Weights", ww); if (k == 5) q.set("Gold Values", g); return nm; };
    std::string nm = gen(2); s.desc << describe(m) << "; " << nm << "; " << describe(p); s.nontrivial(m.ne() > 1);
    auto om = omesh(m); PL pl = p; Plato::SpatialModel sm(om->mesh, om->sets, pl); Plato::DataMap dm; std::map<std::string, double> lv; double sc = 1;
    for (auto& k : c) if (k.second.kids.empty()) { double v = 0, one = 0; const PL& q = p.sublist("Criteria").sublist(k.first).sublist("Penalty Function"); for (int e = 0; e < m.ne(); ++e) { double zb = 0; for (int n : m.ev[e]) zb += z[n] / (D + 1); v += volOf(m, e) * pen(q, zb); one += volOf(m, e); }
        std::string a = k.first; PL l = p; auto f = Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<D>>().create(sm, dm, l, a); double got = f->value(view(z)); if (!std::isnan(v)) NEAR(got, v, one, "volume"); double full = f->value(view(dvec(m.nv(), 1.0))); if (!std::isnan(v)) NEAR(full, one, one, "volume of the full design"); lv[k.first] = got; sc = std::max(sc, std::fabs(got)); }
    for (auto& k : c) if (k.second.type == "Division") DISCARD_IF(std::fabs(combine(c, k.second.kids[1], lv)) < 1e-3);
    PL l = p; auto f = Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<D>>().create(sm, dm, l, nm); double want = combine(c, nm, lv); double big = std::fabs(want); for (auto& k : c) big = std::max(big, std::fabs(combine(c, k.first, lv))); NEAR(f->value(view(z)), want, 10 * big, "combined value"); derivatives(s, f, *om, m, z, w, dx, big);
}
}
PBT("mass_properties", 2, "more than one element, well-formed input") { massProperties(s, false); }
PBT("mass_properties_state", 1, "more than one element, well-formed input") { massProperties(s, true); }
PBT("volume_2d", 2, "more than one element") { volume<2>(s); }
PBT("volume_3d", 1, "more than one element") { volume<3>(s); }
