// Stand-in for the part of Omega_h that platoanalyze uses: serial simplex meshes in 1-3 dimensions, shared arrays,
// small vectors and matrices, sets, tags.  Only what the sources call is here; the semantics are those of Omega_h
// (column-major matrices, sorted stars without the diagonal, canonical simplex side templates).
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_any.hpp>
#include <mpi.h>
#ifndef OMEGA_H_INLINE
#define OMEGA_H_INLINE inline
#define OMEGA_H_DEVICE inline
#endif
enum Omega_h_Family { OMEGA_H_SIMPLEX, OMEGA_H_HYPERCUBE };
enum Omega_h_Parting { OMEGA_H_ELEM_BASED, OMEGA_H_GHOSTED, OMEGA_H_VERT_BASED };
namespace Omega_h {
using Int = int; using LO = int; using Real = double; using I8 = signed char; using GO = long long;
constexpr Int VERT = 0, EDGE = 1, FACE = 2, REGION = 3;
constexpr Real PI = 3.14159265358979323846;
template <class T> inline T max2(T a, T b) { return a < b ? b : a; }
template <class T> inline T min2(T a, T b) { return b < a ? b : a; }
// ---- arrays
template <class T> class Write {
 public:
  using View = Kokkos::View<T*, Kokkos::LayoutRight, Kokkos::DefaultExecutionSpace::memory_space>;
  Write() {}
  Write(LO n, std::string const& name = "") : v(name, n) {}
  Write(LO n, T val, std::string const& name = "") : v(name, n) { Kokkos::deep_copy(v, val); }
  template <class... P> Write(Kokkos::View<T*, P...> w) : v("copy", w.extent(0)) { shared(w); }
  LO size() const { return v.extent(0); }
  bool exists() const { return v.data() != nullptr; }
  T& operator[](LO i) const { return v(i); }
  T* data() const { return v.data(); }
  View view() const { return v; }
  T get(LO i) const { return v(i); }
  void set(LO i, T x) const { v(i) = x; }
 private:
  template <class V> void shared(V const& w) {
    if (w.extent(0) == 0 || w.span_is_contiguous()) { hold = std::make_shared<V>(w); v = View(w.data(), w.extent(0)); }
    else for (size_t i = 0; i < w.extent(0); ++i) v(i) = w(i);
  }
  View v; std::shared_ptr<void> hold;
};
template <class T> class Read {
 public:
  Read() {}
  Read(Write<T> w) : w(w) {}
  Read(std::initializer_list<T> l) : w(LO(l.size())) { LO i = 0; for (auto x : l) w[i++] = x; }
  LO size() const { return w.size(); }
  bool exists() const { return w.exists(); }
  T const& operator[](LO i) const { return w[i]; }
  T const* data() const { return w.data(); }
  Kokkos::View<const T*, Kokkos::LayoutRight, Kokkos::DefaultExecutionSpace::memory_space> view() const { return w.view(); }
  T get(LO i) const { return w.get(i); }
 private:
  Write<T> w;
};
using LOs = Read<LO>; using Reals = Read<Real>;
template <class T> class HostWrite {
 public:
  HostWrite() {}
  HostWrite(LO n, std::string const& name = "") : w(n, name) {}
  HostWrite(Write<T> x) : w(x) {}
  LO size() const { return w.size(); }
  T& operator[](LO i) const { return w[i]; }
  T* data() const { return w.data(); }
  Write<T> write() const { return w; }
  void set(LO i, T x) const { w[i] = x; }
  T get(LO i) const { return w[i]; }
 private:
  Write<T> w;
};
template <class T> class HostRead {
 public:
  HostRead() {}
  HostRead(Read<T> x) : r(x) {}
  LO size() const { return r.size(); }
  T const& operator[](LO i) const { return r[i]; }
  T const* data() const { return r.data(); }
 private:
  Read<T> r;
};
// ---- small algebra
template <class T, Int n> class Few {
  T a[n];
 public:
  enum { size = n };
  Few() : a() {}
  Few(std::initializer_list<T> l) : a() { Int i = 0; for (auto x : l) a[i++] = x; }
  T& operator[](Int i) { return a[i]; }
  T const& operator[](Int i) const { return a[i]; }
  T* data() { return a; }
  T const* data() const { return a; }
};
template <Int n> class Vector : public Few<Real, n> {
 public:
  Vector() {}
  Vector(std::initializer_list<Real> l) : Few<Real, n>(l) {}
  Real& operator()(Int i) { return (*this)[i]; }
  Real const& operator()(Int i) const { return (*this)[i]; }
};
template <Int m, Int n> class Matrix : public Few<Vector<m>, n> {
 public:
  Matrix() {}
  Matrix(std::initializer_list<Vector<m>> l) : Few<Vector<m>, n>(l) {}
  // like Omega_h's constructor from a flat list: row by row
  Matrix(std::initializer_list<Real> l);
  Real& operator()(Int i, Int j) { return (*this)[j][i]; }
  Real const& operator()(Int i, Int j) const { return (*this)[j][i]; }
};
template <Int m, Int n> inline Matrix<m, n>::Matrix(std::initializer_list<Real> l) { Int k = 0; for (auto v : l) { (*this)[k % n][k / n] = v; ++k; } }
template <Int n> using Tensor = Matrix<n, n>;
template <Int n> inline Vector<n> operator+(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; ++i) a[i] += b[i]; return a; }
template <Int n> inline Vector<n> operator-(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; ++i) a[i] -= b[i]; return a; }
template <Int n> inline Vector<n> operator-(Vector<n> a) { for (Int i = 0; i < n; ++i) a[i] = -a[i]; return a; }
template <Int n> inline Vector<n> operator*(Vector<n> a, Real s) { for (Int i = 0; i < n; ++i) a[i] *= s; return a; }
template <Int n> inline Vector<n> operator*(Real s, Vector<n> a) { return a * s; }
template <Int n> inline Vector<n> operator/(Vector<n> a, Real s) { for (Int i = 0; i < n; ++i) a[i] /= s; return a; }
template <Int n> inline Real operator*(Vector<n> a, Vector<n> b) { Real s = 0; for (Int i = 0; i < n; ++i) s += a[i] * b[i]; return s; }
template <Int m, Int n> inline Matrix<m, n> operator+(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; ++j) a[j] = a[j] + b[j]; return a; }
template <Int m, Int n> inline Matrix<m, n> operator-(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; ++j) a[j] = a[j] - b[j]; return a; }
template <Int m, Int n> inline Matrix<m, n> operator*(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; ++j) a[j] = a[j] * s; return a; }
template <Int m, Int n> inline Matrix<m, n> operator*(Real s, Matrix<m, n> a) { return a * s; }
template <Int m, Int n> inline Matrix<m, n> operator/(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; ++j) a[j] = a[j] / s; return a; }
template <Int m, Int n> inline Vector<m> operator*(Matrix<m, n> a, Vector<n> b) { Vector<m> r; for (Int i = 0; i < m; ++i) { r[i] = 0; for (Int j = 0; j < n; ++j) r[i] += a(i, j) * b[j]; } return r; }
template <Int m, Int k, Int n> inline Matrix<m, n> operator*(Matrix<m, k> a, Matrix<k, n> b) { Matrix<m, n> r; for (Int j = 0; j < n; ++j) r[j] = a * b[j]; return r; }
template <Int m, Int n> inline Matrix<n, m> transpose(Matrix<m, n> a) { Matrix<n, m> r; for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) r(j, i) = a(i, j); return r; }
template <Int m, Int n> inline Matrix<m, n> outer_product(Vector<m> a, Vector<n> b) { Matrix<m, n> r; for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) r(i, j) = a[i] * b[j]; return r; }
template <Int n> inline Tensor<n> identity_tensor() { Tensor<n> r; for (Int i = 0; i < n; ++i) for (Int j = 0; j < n; ++j) r(i, j) = i == j; return r; }
template <Int m, Int n> inline Matrix<m, n> identity_matrix() { Matrix<m, n> r; for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) r(i, j) = i == j; return r; }
inline Vector<1> vector_1(Real a) { Vector<1> v; v[0] = a; return v; }
inline Vector<2> vector_2(Real a, Real b) { Vector<2> v; v[0] = a; v[1] = b; return v; }
inline Vector<3> vector_3(Real a, Real b, Real c) { Vector<3> v; v[0] = a; v[1] = b; v[2] = c; return v; }
inline Tensor<3> tensor_3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i) { Tensor<3> m; m(0,0)=a; m(0,1)=b; m(0,2)=c; m(1,0)=d; m(1,1)=e; m(1,2)=f; m(2,0)=g; m(2,1)=h; m(2,2)=i; return m; }
inline Real determinant(Tensor<1> m) { return m(0, 0); }
inline Real determinant(Tensor<2> m) { return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); }
inline Real determinant(Tensor<3> m) { return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1)) - m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0)) + m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0)); }
inline Tensor<1> invert(Tensor<1> m) { Tensor<1> r; r(0, 0) = 1.0 / m(0, 0); return r; }
inline Tensor<2> invert(Tensor<2> m) { Real d = determinant(m); Tensor<2> r; r(0,0)=m(1,1)/d; r(1,1)=m(0,0)/d; r(0,1)=-m(0,1)/d; r(1,0)=-m(1,0)/d; return r; }
inline Tensor<3> invert(Tensor<3> m) { Real d = determinant(m); Tensor<3> r; for (Int i = 0; i < 3; ++i) for (Int j = 0; j < 3; ++j) { Int a=(j+1)%3,b=(j+2)%3,c=(i+1)%3,e=(i+2)%3; r(i,j) = (m(a,c)*m(b,e)-m(a,e)*m(b,c))/d; } return r; }
inline Vector<3> cross(Vector<3> a, Vector<3> b) { return vector_3(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]); }
template <Int n> inline Real norm(Vector<n> v) { return std::sqrt(v * v); }
template <Int n> struct DiagDecomp { Tensor<n> q; Vector<n> l; };
template <Int n> inline DiagDecomp<n> decompose_eigen_jacobi(Tensor<n> a, Real eps = 1e-14, Int maxIters = 200) {
  Tensor<n> q = identity_tensor<n>();
  for (Int it = 0; it < maxIters; ++it) {
    Real off = 0, tot = 0; for (Int i = 0; i < n; ++i) for (Int j = 0; j < n; ++j) { (i == j ? tot : off) += a(i, j) * a(i, j); }
    if (off <= eps * eps * tot || off == 0) break;
    for (Int p = 0; p < n; ++p) for (Int r = p + 1; r < n; ++r) {
      if (a(p, r) == 0) continue;
      Real th = (a(r, r) - a(p, p)) / (2 * a(p, r)), t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      Tensor<n> g = identity_tensor<n>(); g(p, p) = c; g(r, r) = c; g(p, r) = s; g(r, p) = -s;
      a = transpose(g) * a * g; q = q * g;
    }
  }
  DiagDecomp<n> d; d.q = q; for (Int i = 0; i < n; ++i) d.l[i] = a(i, i); return d;
}
inline Int simplex_down_template(Int dim, Int side, Int v) {
  static const Int tri[3][2] = {{0,1},{1,2},{2,0}}, tet[4][3] = {{0,2,1},{0,1,3},{1,2,3},{2,0,3}};
  return dim == 1 ? side : dim == 2 ? tri[side][v] : tet[side][v];
}
inline Vector<1> get_side_vector(Few<Vector<1>, 2>, Int i) { return vector_1(i == 1 ? 1.0 : -1.0); }
inline Vector<2> get_side_vector(Few<Vector<2>, 3> p, Int i) { auto d = p[simplex_down_template(2, i, 1)] - p[simplex_down_template(2, i, 0)]; return vector_2(d[1], -d[0]); }
inline Vector<3> get_side_vector(Few<Vector<3>, 4> p, Int i) { auto a = p[simplex_down_template(3, i, 0)], b = p[simplex_down_template(3, i, 1)], c = p[simplex_down_template(3, i, 2)]; return 0.5 * cross(b - a, c - a); }
// ---- library, sets
class Comm {}; using CommPtr = std::shared_ptr<Comm>;
class Library { public: Library() {} template <class... A> Library(A...) {} CommPtr world() { return std::make_shared<Comm>(); } };
struct ClassPair { Int dim; LO id; };
using ClassSets = std::map<std::string, std::vector<ClassPair>>;
enum SetType { ELEM_SET = 0, SIDE_SET = 1, NODE_SET = 2, NSET_TYPES = 3 };
using Assoc = std::array<ClassSets, 3>;
using MeshSet = std::map<std::string, LOs>;
using MeshSets = std::array<MeshSet, 3>;
struct Graph { LOs a2ab, ab2b; };
struct Adj : Graph {};
using TagSet = std::array<std::set<std::string>, 4>;
inline LOs toLOs(std::vector<LO> const& v) { Write<LO> w(LO(v.size())); for (size_t i = 0; i < v.size(); ++i) w[LO(i)] = v[i]; return w; }
class Mesh {
 public:
  struct Data {
    Int dim = 0; std::vector<LO> ev, sv, es, nbrStart, nbr, upStart, up; Reals xyz; LOs evl; MeshSets sets;
    std::map<std::pair<Int, std::string>, Reals> tags; std::map<std::pair<Int, std::string>, Int> ncomps;
  };
  std::shared_ptr<Data> d; ClassSets class_sets;
  Mesh() : d(std::make_shared<Data>()) {}
  Mesh(Library*) : Mesh() {}
  void build(Int dim, std::vector<LO> const& ev, Reals xyz) {
    d->dim = dim; d->ev = ev; d->evl = toLOs(ev); d->xyz = xyz; LO ne = ev.size() / (dim + 1), nv = xyz.size() / dim;
    std::vector<std::set<LO>> star(nv); for (LO e = 0; e < ne; ++e) for (Int i = 0; i <= dim; ++i) for (Int j = 0; j <= dim; ++j) if (i != j) star[ev[e*(dim+1)+i]].insert(ev[e*(dim+1)+j]);
    d->nbrStart.assign(1, 0); d->nbr.clear(); for (auto& s : star) { for (auto k : s) d->nbr.push_back(k); d->nbrStart.push_back(d->nbr.size()); }
    // sides, numbered by their sorted vertices; vertex order is the one of the first element that has them
    std::map<std::vector<LO>, LO> id; std::vector<std::vector<LO>> own, elems; d->es.resize(ne * (dim + 1));
    if (dim == 1) for (LO v = 0; v < nv; ++v) { id[{v}] = v; own.push_back({v}); elems.emplace_back(); }
    for (LO e = 0; e < ne; ++e) for (Int s = 0; s <= dim; ++s) {
      std::vector<LO> vs; for (Int k = 0; k < dim; ++k) vs.push_back(ev[e*(dim+1)+simplex_down_template(dim, s, k)]); auto key = vs; std::sort(key.begin(), key.end());
      auto it = id.find(key); if (it == id.end()) { it = id.emplace(key, LO(own.size())).first; own.push_back(vs); elems.emplace_back(); }
      elems[it->second].push_back(e); d->es[e*(dim+1)+s] = it->second;
    }
    d->sv.clear(); for (auto& o : own) for (auto v : o) d->sv.push_back(v);
    d->upStart.assign(1, 0); d->up.clear(); for (auto& l : elems) { for (auto e : l) d->up.push_back(e); d->upStart.push_back(d->up.size()); }
  }
  Int dim() const { return d->dim; }
  LO nverts() const { return d->xyz.size() / (d->dim ? d->dim : 1); }
  LO nelems() const { return d->ev.size() / (d->dim + 1); }
  LO nents(Int k) const { return k == 0 ? nverts() : k == d->dim ? nelems() : LO(d->upStart.size()) - 1; }
  Reals coords() const { return d->xyz; }
  void set_coords(Reals x) { d->xyz = x; }
  LOs ask_elem_verts() const { return d->evl; }
  LOs ask_verts_of(Int k) const { return k == d->dim ? d->evl : toLOs(d->sv); }
  Graph ask_star(Int) const { return {toLOs(d->nbrStart), toLOs(d->nbr)}; }
  Adj ask_up(Int, Int) const { Adj a; a.a2ab = toLOs(d->upStart); a.ab2b = toLOs(d->up); return a; }
  Adj ask_down(Int, Int) const { Adj a; a.ab2b = toLOs(d->es); return a; }
  void set_parting(Omega_h_Parting) {}
  bool has_tag(Int k, std::string const& n) const { return d->tags.count({k, n}); }
  template <class T> void add_tag(Int k, std::string const& n, Int nc, Read<T> a) { d->tags[{k, n}] = a; d->ncomps[{k, n}] = nc; }
  template <class T> void add_tag(Int k, std::string const& n, Int nc) { d->tags[{k, n}] = Write<T>(nents(k) * nc); d->ncomps[{k, n}] = nc; }
  template <class T> void set_tag(Int k, std::string const& n, Read<T> a) { d->tags[{k, n}] = a; }
  void remove_tag(Int k, std::string const& n) { d->tags.erase({k, n}); }
  template <class T> Read<T> get_array(Int k, std::string const& n) const { return d->tags.at({k, n}); }
};
// the sets are registered on the mesh itself
inline MeshSets invert(Mesh* m, Assoc const&) { return m->d->sets; }
inline void update_assoc(Assoc*, Teuchos::ParameterList const&) {}
inline Mesh read_mesh_file(std::string const&, CommPtr) { throw std::runtime_error("shim: no mesh files"); }
inline void build_from_elems_and_coords(Mesh* m, Omega_h_Family, Int dim, LOs ev, Write<Real> xyz) { std::vector<LO> e(ev.size()); for (LO i = 0; i < ev.size(); ++i) e[i] = ev[i]; m->build(dim, e, xyz); }
inline void classify_by_angles(Mesh*, Real) {}
inline Mesh build_box(CommPtr, Omega_h_Family, Real lx, Real ly, Real lz, LO nx, LO ny, LO nz, bool = false) {
  Int dim = nz ? 3 : ny ? 2 : 1; LO mx = nx + 1, my = dim > 1 ? ny + 1 : 1, mz = dim > 2 ? nz + 1 : 1; Write<Real> x(mx * my * mz * dim);
  for (LO k = 0; k < mz; ++k) for (LO j = 0; j < my; ++j) for (LO i = 0; i < mx; ++i) { LO v = (k * my + j) * mx + i; x[v*dim] = lx * i / nx; if (dim > 1) x[v*dim+1] = ly * j / ny; if (dim > 2) x[v*dim+2] = lz * k / nz; }
  std::vector<LO> ev; auto V = [&](LO i, LO j, LO k) { return (k * my + j) * mx + i; };
  if (dim == 1) for (LO i = 0; i < nx; ++i) { ev.push_back(i); ev.push_back(i + 1); }
  if (dim == 2) for (LO j = 0; j < ny; ++j) for (LO i = 0; i < nx; ++i) { LO a=V(i,j,0), b=V(i+1,j,0), c=V(i+1,j+1,0), e=V(i,j+1,0); for (LO q : {a,b,c, c,e,a}) ev.push_back(q); }
  if (dim == 3) for (LO k = 0; k < nz; ++k) for (LO j = 0; j < ny; ++j) for (LO i = 0; i < nx; ++i) {
    static const Int perm[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}};
    for (Int p = 0; p < 6; ++p) { LO c[3] = {i, j, k}, t[4]; t[0] = V(c[0], c[1], c[2]); for (Int q = 0; q < 3; ++q) { c[perm[p][q]]++; t[q+1] = V(c[0], c[1], c[2]); } if (p >= 3) std::swap(t[1], t[2]); for (LO q : t) ev.push_back(q); }
  }
  Mesh m; m.build(dim, ev, x); return m;
}
namespace vtk {
inline TagSet get_all_vtk_tags(Mesh*, Int) { return {}; }
// what was written, for checks of output; values are copied because tags share memory with what they were made of
struct Snapshot { Int step; Real time; std::map<std::pair<Int, std::string>, std::vector<Real>> data; };
inline std::vector<Snapshot>& written() { static std::vector<Snapshot> w; return w; }
class Writer { Mesh* m = nullptr; public: Writer() {} Writer(std::string const&, Mesh* mesh, Int = -1, Real = 0) : m(mesh) {} void write(Int k, Real t, TagSet const&) { if (!m) return; Snapshot s{k, t, {}}; for (auto& a : m->d->tags) { auto& v = s.data[a.first]; for (LO i = 0; i < a.second.size(); ++i) v.push_back(a.second[i]); } if (written().size() < 4096) written().push_back(s); } void write(Real t, TagSet const& g) { write(-1, t, g); } void write(Real t) { write(-1, t, {}); } void write() { write(-1, -1, {}); } };
}
namespace exodus { inline void write(std::string const&, Mesh*) {} }
inline void update_parameters_from_file(std::string const&, Teuchos::ParameterList*, Teuchos::Comm<int> const&) {}
inline void write_parameters(std::string const&, Teuchos::ParameterList const&) {}
// ---- expressions of x, y, z over arrays
using Teuchos::any; using Teuchos::any_cast;
class ExprReader {
  LO n; std::map<std::string, Reals> vars; const char* p = nullptr; LO at = 0;
  void ws() { while (std::isspace((unsigned char)*p)) ++p; }
  bool eat(char c) { ws(); if (*p == c) { ++p; return true; } return false; }
  [[noreturn]] void bad() { throw std::runtime_error(std::string("shim: cannot read expression near: ") + p); }
  Real sum() { Real v = prod(); for (;;) { if (eat('+')) v += prod(); else if (eat('-')) v -= prod(); else return v; } }
  Real prod() { Real v = unary(); for (;;) { if (eat('*')) v *= unary(); else if (eat('/')) v /= unary(); else return v; } }
  Real unary() { if (eat('-')) return -unary(); if (eat('+')) return unary(); Real b = prim(); if (eat('^')) return std::pow(b, unary()); return b; }
  Real prim() {
    ws(); if (eat('(')) { Real v = sum(); if (!eat(')')) bad(); return v; }
    if (std::isdigit((unsigned char)*p) || *p == '.') { char* e; Real v = std::strtod(p, &e); p = e; return v; }
    std::string id; while (std::isalnum((unsigned char)*p) || *p == '_') id += *p++;
    if (id.empty()) bad();
    if (eat('(')) { Real v = sum(); if (!eat(')')) bad(); if (id == "sin") return std::sin(v); if (id == "cos") return std::cos(v); if (id == "exp") return std::exp(v); if (id == "sqrt") return std::sqrt(v); if (id == "abs") return std::fabs(v); if (id == "log") return std::log(v); bad(); }
    if (id == "pi") return PI; auto it = vars.find(id); if (it == vars.end()) bad(); return it->second[at];
  }
 public:
  ExprReader(LO count, Int) : n(count) {}
  void register_variable(std::string const& name, any const& v) { vars[name] = any_cast<Reals>(v); }
  any read_string(std::string const& s, std::string const&) { Write<Real> r(n); for (at = 0; at < n; ++at) { p = s.c_str(); r[at] = sum(); ws(); if (*p) bad(); } return any(Reals(r)); }
  void repeat(any&) {}
};
}  // namespace Omega_h
