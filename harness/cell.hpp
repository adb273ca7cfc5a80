// Batches of random non-degenerate simplices with the exact gradients of their linear shape functions.
#pragma once
#include "plato.hpp"
namespace h {
template<int D> struct Cells {
    int n; std::vector<dmat> x;      // x[c][node][dim]
    V3 grad; V1 vol; std::vector<dmat> g; dvec v;
    static double det(const dmat& a) { if (D == 1) return a[0][0]; if (D == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
        return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
    Cells(pbt::Src& s, int maxCells = 3) : n(s.len(1, maxCells, 10)), grad("grad", n, D + 1, D), vol("vol", n) {
        for (int c = 0; c < n; ++c) {
            // identity + strictly smaller perturbation, scaled and rotated: never degenerate
            dmat j = zeros(D, D); double sc = s.draw(24) == 24 ? (s.flag() ? s.logreal(1e3, 1e6) : s.logreal(1e-7, 1e-3)) : s.logreal(0.05, 20.0);
            for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) j[a][b] = sc * ((a == b ? 1.0 : 0.0) + s.real(-0.3, 0.3) * (D > 2 ? 0.9 : 1.0));
            dmat q = rotation(s, D); j = matmul(q, j);      // columns: edge vectors
            dvec o = s.vec(D, sc < 1e-2 ? 5 * sc : 5.0);
            dmat xc = zeros(D + 1, D);
            for (int a = 0; a < D; ++a) { xc[0][a] = o[a]; for (int k = 0; k < D; ++k) xc[k + 1][a] = o[a] + j[a][k]; }
            double f = 1; for (int k = 2; k <= D; ++k) f *= k;
            double vv = std::fabs(det(j)) / f;
            dmat gc = zeros(D + 1, D);
            dmat jt = transpose(j);
            for (int k = 0; k < D; ++k) { dvec e(D, 0.0), r; e[k] = 1; if (!solve(jt, e, r)) throw pbt::Discard(); for (int a = 0; a < D; ++a) { gc[k + 1][a] = r[a]; gc[0][a] -= r[a]; } }
            x.push_back(xc); g.push_back(gc); v.push_back(vv); vol(c) = vv;
            for (int k = 0; k <= D; ++k) for (int a = 0; a < D; ++a) grad(c, k, a) = gc[k][a];
        }
    }
};
// Voigt position of the (i,j) tensor entry: 11,22,33,23,13,12 / 11,22,12 / 11
inline int voigt(int d, int i, int j) { if (i == j) return i; if (d == 2) return 2; return 6 - i - j; }
constexpr int nvoigt_c(int d) { return d == 3 ? 6 : d == 2 ? 3 : 1; }
inline int nvoigt(int d) { return d == 3 ? 6 : d == 2 ? 3 : 1; }
template<class V> inline dmat mat(const V& v) { dmat r(v.extent(0), dvec(v.extent(1))); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[0].size(); ++j) r[i][j] = v(i, j); return r; }
} // namespace h
