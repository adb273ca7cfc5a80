// Random finite-element models: meshes with numbering, shape, blocks, node sets and side sets drawn at random, input
// lists, a dense linear solver, and difference quotients.
#pragma once
#include "crs.hpp"
#include "Omega_h_shim.hpp"
#include "alg/ParallelComm.hpp"
#include "Teuchos_ParameterList.hpp"
#include <functional>
#include <memory>
namespace hm {
using namespace h;
using pbt::Src;
using PL = Teuchos::ParameterList;
// the mesh as plain data: coordinates, elements and named sets, independent of the Omega_h stand-in
struct RMesh {
    int d = 0; dmat x; std::vector<std::vector<int>> ev;
    std::vector<std::vector<int>> blocks;                       // element ids per block
    std::map<std::string, std::vector<int>> nsets;              // node ids
    std::map<std::string, std::vector<std::vector<int>>> ssets; // sides by their vertices
    double hmin = 0;
    int nv() const { return x.size(); } int ne() const { return ev.size(); }
};
inline double detOf(const dmat& a) { int n = a.size(); if (n == 1) return a[0][0]; if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
inline double volOf(const RMesh& m, const dmat& x, int e) { dmat j = zeros(m.d, m.d); for (int i = 0; i < m.d; ++i) for (int k = 0; k < m.d; ++k) j[i][k] = x[m.ev[e][i + 1]][k] - x[m.ev[e][0]][k]; return detOf(j) / (m.d == 3 ? 6 : m.d == 2 ? 2 : 1); }
inline double volOf(const RMesh& m, int e) { return volOf(m, m.x, e); }
inline double sideArea(const RMesh& m, const dmat& x, const std::vector<int>& s) {
    if (m.d == 1) return 1; dvec a(3, 0), b(3, 0); for (int k = 0; k < m.d; ++k) { a[k] = x[s[1]][k] - x[s[0]][k]; if (m.d == 3) b[k] = x[s[2]][k] - x[s[0]][k]; }
    if (m.d == 2) return std::hypot(a[0], a[1]);
    dvec c = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; return 0.5 * std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
}
// the element that has a side, and the side's outward area vector
inline int ownerOf(const RMesh& m, const std::vector<int>& s) { for (int e = 0; e < m.ne(); ++e) { int c = 0; for (int v : s) for (int w : m.ev[e]) c += v == w; if (c == (int)s.size()) return e; } return -1; }
inline dvec areaVector(const RMesh& m, const dmat& x, const std::vector<int>& s) {
    int e = ownerOf(m, s); dvec n(m.d, 0.0); if (m.d == 2) { n[0] = x[s[1]][1] - x[s[0]][1]; n[1] = -(x[s[1]][0] - x[s[0]][0]); }
    else { dvec a(3), b(3); for (int k = 0; k < 3; ++k) { a[k] = x[s[1]][k] - x[s[0]][k]; b[k] = x[s[2]][k] - x[s[0]][k]; } n = {(a[1] * b[2] - a[2] * b[1]) / 2, (a[2] * b[0] - a[0] * b[2]) / 2, (a[0] * b[1] - a[1] * b[0]) / 2}; }
    double dot = 0; for (int k = 0; k < m.d; ++k) { double c = 0; for (int v : m.ev[e]) c += x[v][k] / m.ev[e].size(); dot += n[k] * (x[s[0]][k] - c); }
    if (dot < 0) for (double& q : n) q = -q; return n;
}
struct MeshOpt { int max2 = 3, max3 = 2, maxBlocks = 3; bool renumber = true, distort = true; };
inline RMesh randomMesh(Src& s, int d, MeshOpt o = {}) {
    RMesh m; m.d = d; int mx = d == 3 ? o.max3 : o.max2; int n[3] = {s.intIn(1, mx), s.intIn(1, mx), d == 3 ? s.intIn(1, mx) : 0};
    double L[3]; for (int k = 0; k < 3; ++k) L[k] = s.real(0.6, 1.8);
    auto b = Omega_h::build_box(nullptr, OMEGA_H_SIMPLEX, L[0], L[1], d == 3 ? L[2] : 0, n[0], n[1], n[2]);
    auto bx = b.coords(); auto be = b.ask_elem_verts(); int nv = b.nverts(), ne = b.nelems();
    std::vector<int> vp(nv), ep(ne); for (int i = 0; i < nv; ++i) vp[i] = i; for (int i = 0; i < ne; ++i) ep[i] = i;
    if (o.renumber && s.flag()) { for (int i = 0; i + 1 < nv; ++i) std::swap(vp[i], vp[i + s.intIn(0, nv - 1 - i)]); for (int i = 0; i + 1 < ne; ++i) std::swap(ep[i], ep[i + s.intIn(0, ne - 1 - i)]); }
    m.x.assign(nv, dvec(d)); std::vector<unsigned> face(nv, 0);
    dmat A = zeros(d, d); for (int i = 0; i < d; ++i) A[i][i] = 1; bool dist = o.distort && s.chance(3, 4);
    if (dist) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) if (i != j) A[i][j] = s.sreal(0.2);
    for (int v = 0; v < nv; ++v) {
        dvec p(d); for (int k = 0; k < d; ++k) { p[k] = bx[v * d + k]; if (p[k] < 1e-9) face[vp[v]] |= 1u << (2 * k); if (p[k] > L[k] - 1e-9) face[vp[v]] |= 2u << (2 * k); if (dist) p[k] += 0.12 * L[k] / n[k] * s.real(-1, 1); }
        for (int i = 0; i < d; ++i) { double c = 0; for (int j = 0; j < d; ++j) c += A[i][j] * p[j]; m.x[vp[v]][i] = c; }
    }
    m.ev.assign(ne, {}); bool rot = s.flag();
    for (int e = 0; e < ne; ++e) { std::vector<int> t; for (int i = 0; i <= d; ++i) t.push_back(vp[be[e * (d + 1) + i]]);
        if (rot) { int r = s.intIn(0, 2); std::rotate(t.begin(), t.begin() + r, t.begin() + 3); if (d == 3 && s.flag()) { std::swap(t[0], t[1]); std::swap(t[2], t[3]); } } m.ev[ep[e]] = t; }
    int nb = s.intIn(1, std::min(o.maxBlocks, ne)); m.blocks.assign(nb, {}); for (int e = 0; e < ne; ++e) m.blocks[e < nb ? e : s.intIn(0, nb - 1)].push_back(e);
    if (nb > 1 && s.flag()) for (auto& bl : m.blocks) for (int i = 0; i + 1 < (int)bl.size(); ++i) std::swap(bl[i], bl[i + s.intIn(0, (int)bl.size() - 1 - i)]);
    // box faces as node and side sets, and a random boundary side set
    std::map<std::vector<int>, std::pair<int, std::vector<int>>> cnt;
    for (auto& t : m.ev) for (int k = 0; k <= d; ++k) { std::vector<int> q; for (int i = 0; i < d; ++i) q.push_back(t[Omega_h::simplex_down_template(d, k, i)]); auto key = q; std::sort(key.begin(), key.end()); auto& c = cnt[key]; c.first++; if (c.first == 1) c.second = q; }
    static const char* nm[6] = {"x0", "x1", "y0", "y1", "z0", "z1"};
    for (int f = 0; f < 2 * d; ++f) { for (int v = 0; v < nv; ++v) if (face[v] >> f & 1) m.nsets[nm[f]].push_back(v); for (auto& c : cnt) { bool in = true; for (int v : c.first) in = in && (face[v] >> f & 1); if (in && c.second.first == 1) m.ssets[nm[f]].push_back(c.second.second); } }
    for (auto& c : cnt) if (c.second.first == 1) { if (s.flag()) m.ssets["rnd"].push_back(c.second.second); m.ssets["all"].push_back(c.second.second); }
    if (m.ssets["rnd"].empty()) m.ssets["rnd"] = m.ssets["x0"];
    for (int v = 0; v < nv; ++v) { if (face[v]) m.nsets["all"].push_back(v); else m.nsets["inner"].push_back(v); if (s.chance(1, 3)) m.nsets["rnd"].push_back(v); }
    if (m.nsets["rnd"].empty()) m.nsets["rnd"].push_back(0);
    double vmin = 1e9; for (int e = 0; e < ne; ++e) vmin = std::min(vmin, volOf(m, e)); REQ(vmin > 0, "generator: inverted element");
    m.hmin = d == 2 ? std::sqrt(vmin) : std::cbrt(vmin);
    return m;
}
inline std::string describe(const RMesh& m) { std::ostringstream o; o << m.d << "D " << m.nv() << " nodes " << m.ne() << " cells " << m.blocks.size() << " blocks"; return o.str(); }
inline std::string describe(const PL& p) { std::ostringstream o; p.print(o, PL::PrintOptions().showTypes(false).showFlags(false).indent(1)); std::string r, t = o.str(); for (char c : t) { if (c == '\n') r += "; "; else if (!(c == ' ' && (r.empty() || r.back() == ' '))) r += c; } return r; }
// Omega_h view of the mesh
struct OMesh { Omega_h::Mesh mesh; Omega_h::MeshSets sets; };
inline std::shared_ptr<OMesh> omesh(const RMesh& m, const dmat& x) {
    auto o = std::make_shared<OMesh>(); Omega_h::Write<double> c(m.nv() * m.d); for (int v = 0; v < m.nv(); ++v) for (int k = 0; k < m.d; ++k) c[v * m.d + k] = x[v][k];
    std::vector<int> ev; for (auto& t : m.ev) ev.insert(ev.end(), t.begin(), t.end()); o->mesh.build(m.d, ev, c);
    for (size_t b = 0; b < m.blocks.size(); ++b) o->sets[Omega_h::ELEM_SET]["block_" + std::to_string(b)] = Omega_h::toLOs(m.blocks[b]);
    for (auto& n : m.nsets) o->sets[Omega_h::NODE_SET][n.first] = Omega_h::toLOs(n.second);
    std::map<std::vector<int>, int> id; auto sv = o->mesh.ask_verts_of(m.d - 1); for (int i = 0; i < sv.size() / m.d; ++i) { std::vector<int> q; for (int k = 0; k < m.d; ++k) q.push_back(sv[i * m.d + k]); std::sort(q.begin(), q.end()); id[q] = i; }
    for (auto& s : m.ssets) { std::vector<int> l; for (auto q : s.second) { std::sort(q.begin(), q.end()); l.push_back(id.at(q)); } o->sets[Omega_h::SIDE_SET][s.first] = Omega_h::toLOs(l); }
    o->mesh.d->sets = o->sets; return o;
}
inline std::shared_ptr<OMesh> omesh(const RMesh& m) { return omesh(m, m.x); }
// ---- input lists
inline void spatialModel(PL& p, const RMesh& m, const std::vector<std::string>& mats) { auto& d = p.sublist("Spatial Model").sublist("Domains"); for (size_t b = 0; b < m.blocks.size(); ++b) { auto& q = d.sublist("Domain " + std::to_string(b)); q.set("Element Block", "block_" + std::to_string(b)); q.set("Material Model", mats[b % mats.size()]); } }
inline void penalty(Src& s, PL& p, bool linearOk = true) {
    auto& q = p.sublist("Penalty Function"); int k = s.intIn(0, linearOk ? 3 : 2); static const char* nm[] = {"SIMP", "RAMP", "Heaviside", "NoPenalty"}; q.set<std::string>("Type", nm[k]);
    if (k == 0) { q.set<double>("Exponent", s.pick<double>({1.0, 2.0, 3.0, 4.0})); q.set<double>("Minimum Value", s.pick<double>({1e-3, 1e-2, 0.1})); }
    if (k == 1) { q.set<double>("Exponent", s.real(0.5, 4)); q.set<double>("Minimum Value", s.pick<double>({1e-3, 1e-2, 0.1})); }
    if (k == 2) { q.set<double>("Exponent", s.real(1, 4)); q.set<double>("Regularization Length", s.real(0.5, 2)); q.set<double>("Minimum Value", s.pick<double>({1e-3, 1e-2})); }
}
// ---- difference quotients
// derivative of a vector function of one variable at 0, with a fourth-order stencil at two steps; ok=false where the two
// disagree (the function is not smooth there)
inline dvec ddx(const std::function<dvec(double)>& f, double h, bool& ok, double rtol = 1e-5, double* err = nullptr) {
    auto q = [&](double t) { dvec a = f(t), b = f(-t), c = f(2 * t), e = f(-2 * t); dvec r(a.size()); for (size_t i = 0; i < r.size(); ++i) r[i] = (8 * (a[i] - b[i]) - (c[i] - e[i])) / (12 * t); return r; };
    // three step lengths: two can agree by chance across a kink of a penalty function
    dvec g = q(h), k = q(h / 2), l = q(h / 8); double sc = std::max(maxabs(g), maxabs(k)), df = 0; for (size_t i = 0; i < g.size(); ++i) df = std::max({df, std::fabs(g[i] - k[i]), std::fabs(l[i] - k[i])});
    if (err) *err = 2 * df; ok = df <= rtol * sc + 8e-12 / h; return k;
}
// dense solve after equilibrating rows and columns: mixed physics have very different scales
inline bool eqSolve(dmat d, dvec rhs, dvec& x) {
    size_t n = d.size(); dvec c(n, 0.0);
    for (size_t i = 0; i < n; ++i) { double r = 1 / std::max(1e-300, h::maxabs(d[i])); for (auto& v : d[i]) v *= r; rhs[i] *= r; }
    for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < n; ++i) c[j] = std::max(c[j], std::fabs(d[i][j])); c[j] = 1 / std::max(1e-300, c[j]); for (size_t i = 0; i < n; ++i) d[i][j] *= c[j]; }
    if (!h::solve(d, rhs, x)) return false; for (size_t i = 0; i < n; ++i) x[i] *= c[i]; return true;
}
inline dvec axpy(dvec a, double t, const dvec& v) { for (size_t i = 0; i < a.size(); ++i) a[i] += t * v[i]; return a; }
inline dmat axpy(dmat a, double t, const dmat& v) { for (size_t i = 0; i < a.size(); ++i) a[i] = axpy(a[i], t, v[i]); return a; }
inline double dot(const dvec& a, const dvec& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline dvec mul(const dmat& a, const dvec& v) { dvec r(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) r[i] = dot(a[i], v); return r; }
inline dvec tmul(const dmat& a, const dvec& v) { dvec r(a.empty() ? 0 : a[0].size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < r.size(); ++j) r[j] += a[i][j] * v[i]; return r; }
inline dvec rvec(Src& s, int n, double m) { dvec v(n); for (double& x : v) x = s.sreal(m); return v; }
inline dvec density(Src& s, int n) { dvec v(n); bool u = s.chance(1, 4); double c = s.real(0.3, 1.0); for (double& x : v) x = u ? c : s.real(0.2, 1.0); return v; }
inline dvec flat(const dmat& m) { dvec r; for (auto& a : m) r.insert(r.end(), a.begin(), a.end()); return r; }
inline void sameVec(const dvec& got, const dvec& want, double scale, double tol, const std::string& what) {
    REQ(got.size() == want.size(), what << ": length " << got.size() << " instead of " << want.size());
    for (size_t i = 0; i < want.size(); ++i) { REQ(std::isfinite(got[i]), what << " [" << i << "] is not finite"); REQ(std::fabs(got[i] - want[i]) <= tol * (scale + 1e-300), what << " [" << i << "]: got " << got[i] << ", expected " << want[i] << " (scale " << scale << ")"); }
}
inline bool near(const dvec& a, const dvec& b, double tol) { for (size_t i = 0; i < b.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= tol)) return false; return a.size() == b.size(); }
inline Plato::Comm::Machine machine() { static MPI_Comm c = MPI_COMM_WORLD; static Plato::Comm::Machine* mc = new Plato::Comm::Machine(c); return *mc; }
} // namespace hm
