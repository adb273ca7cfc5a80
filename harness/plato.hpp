// Helpers between std::vector data and the Kokkos views that Plato uses (Serial backend: views are host accessible).
#pragma once
#include "pbt.hpp"
#include "PlatoTypes.hpp"
#include "PlatoStaticsTypes.hpp"
#include <vector>

namespace h {
using Ord = Plato::OrdinalType;
using V1  = Plato::ScalarVector;
using V2  = Plato::ScalarMultiVector;
using V3  = Plato::ScalarArray3D;
using dvec = std::vector<double>;
using dmat = std::vector<std::vector<double>>;

inline V1 view(const dvec& v, const std::string& n = "v") { V1 r(n, v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
inline dvec vec(const V1& v) { dvec r(v.extent(0)); for (size_t i = 0; i < r.size(); ++i) r[i] = v(i); return r; }
inline V2 view2(const dmat& m, size_t cols, const std::string& n = "m") { V2 r(n, m.size(), cols); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < cols; ++j) r(i, j) = m[i][j]; return r; }
inline dmat randMat(pbt::Src& s, int r, int c, double m) { dmat a(r, dvec(c)); for (auto& x : a) x = s.vec(c, m); return a; }
inline dmat zeros(int r, int c) { return dmat(r, dvec(c, 0.0)); }
inline dmat matmul(const dmat& a, const dmat& b) { int n = a.size(), k = b.size(), m = k ? b[0].size() : 0; dmat c = zeros(n, m); for (int i = 0; i < n; ++i) for (int l = 0; l < k; ++l) for (int j = 0; j < m; ++j) c[i][j] += a[i][l] * b[l][j]; return c; }
inline double maxabs(const dvec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
inline double maxabs(const dmat& v) { double m = 0; for (auto& x : v) m = std::max(m, maxabs(x)); return m; }
inline std::string str(const dvec& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size() && i < 12; ++i) o << (i ? " " : "") << v[i]; if (v.size() > 12) o << " .."; o << "]"; return o.str(); }

// deterministic orthogonal matrix from draws
inline dmat rotation(pbt::Src& s, int d) {
    dmat q = zeros(d, d); for (int i = 0; i < d; ++i) q[i][i] = 1;
    for (int i = 0; i < d; ++i) for (int j = i + 1; j < d; ++j) {
        double t = s.real(-3.141592653589793, 3.141592653589793), c = std::cos(t), sn = std::sin(t);
        for (int k = 0; k < d; ++k) { double a = q[k][i], b = q[k][j]; q[k][i] = c * a - sn * b; q[k][j] = sn * a + c * b; }
    }
    return q;
}
inline dmat transpose(const dmat& a) { if (a.empty()) return a; dmat t = zeros(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) t[j][i] = a[i][j]; return t; }
// dense solve with partial pivoting; returns false when (near) singular
inline bool solve(dmat a, dvec b, dvec& x) {
    int n = a.size();
    for (int c = 0; c < n; ++c) {
        int p = c; for (int r = c + 1; r < n; ++r) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
        if (std::fabs(a[p][c]) < 1e-12 * (1e-300 + maxabs(a))) return false;
        std::swap(a[p], a[c]); std::swap(b[p], b[c]);
        for (int r = c + 1; r < n; ++r) { double f = a[r][c] / a[c][c]; if (f == 0) continue; for (int k = c; k < n; ++k) a[r][k] -= f * a[c][k]; b[r] -= f * b[c]; }
    }
    x.assign(n, 0);
    for (int r = n - 1; r >= 0; --r) { double t = b[r]; for (int k = r + 1; k < n; ++k) t -= a[r][k] * x[k]; x[r] = t / a[r][r]; }
    return true;
}
} // namespace h
