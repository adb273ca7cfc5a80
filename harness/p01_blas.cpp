// P01: vector / multivector / batched-matrix kernels against plain loops over std::vector.
#include "plato.hpp"
#include "BLAS1.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
#include "DotProduct.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include <Teuchos_RCPDecl.hpp>
#include "alg/CrsMatrix.hpp"
#include "PlatoMathHelpers.hpp"
using namespace h;
namespace b1 = Plato::blas1; namespace b2 = Plato::blas2; namespace b3 = Plato::blas3;

static void same(const V1& a, const dvec& w, const char* what) {
    REQ(a.extent(0) == w.size(), what << " changed length");
    for (size_t i = 0; i < w.size(); ++i) REQ(a(i) == w[i], what << "[" << i << "]: " << a(i) << " vs " << w[i]);
}
static void near(const V1& a, const dvec& w, double scale, const char* what) {
    for (size_t i = 0; i < w.size(); ++i) NEAR(a(i), w[i], scale, what << " entry " << i << " of " << w.size());
}
static int size(pbt::Src& s, int hi = 40) { int k = s.intIn(0, 3); return k == 0 ? s.intIn(1, 3) : s.len(1, hi, 60); }

PBT("blas1_reductions", 1200, "length >= 2 and entries of both signs") {
    int n = size(s); double m = s.logreal(1e-3, 1e6);
    dvec x = s.vec(n, m), y = s.vec(n, m);
    int mode = s.intIn(0, 3); // all positive / all negative vectors matter for max and min
    if (mode == 1) for (auto& v : x) v = std::fabs(v);
    if (mode == 2) for (auto& v : x) v = -std::fabs(v);
    if (mode == 3 && n > 1) x[s.intIn(0, n - 1)] = 0;
    s.desc << "n=" << n << " x=" << str(x) << " y=" << str(y); s.nontrivial(n >= 2); s.tag(mode == 1 ? "x>0" : mode == 2 ? "x<0" : "mixed");
    V1 vx = view(x), vy = view(y);
    double d = 0, sc = 0, nn = 0, sum = 0, sa = 0, mx = x[0], mn = x[0];
    for (int i = 0; i < n; ++i) { d += x[i] * y[i]; sc += std::fabs(x[i] * y[i]); nn += x[i] * x[i]; sum += x[i]; sa += std::fabs(x[i]); mx = std::max(mx, x[i]); mn = std::min(mn, x[i]); }
    NEAR(b1::dot(vx, vy), d, sc, "dot");
    NEAR(b1::norm(vx), std::sqrt(nn), std::sqrt(nn), "norm");
    double r = 123; b1::local_sum(vx, r); NEAR(r, sum, sa, "local_sum");
    r = 123; b1::max(vx, r); REQ(r == mx, "max " << r << " want " << mx);
    r = 123; b1::min(vx, r); REQ(r == mn, "min " << r << " want " << mn);
    same(vx, x, "input x"); same(vy, y, "input y");
}
PBT("blas1_updates", 1200, "length >= 2") {
    int n = size(s); dvec x = s.vec(n, 100), y = s.vec(n, 100);
    double a = s.chance(1, 8) ? 0.0 : s.chance(1, 8) ? 1.0 : s.sreal(10), b = s.chance(1, 8) ? 0.0 : s.chance(1, 8) ? 1.0 : s.sreal(10);
    s.desc << "n=" << n << " a=" << a << " b=" << b << " x=" << str(x) << " y=" << str(y); s.nontrivial(n >= 2);
    V1 vx = view(x), vy = view(y); dvec w(n);
    for (int i = 0; i < n; ++i) w[i] = a * x[i] + b * y[i];
    b1::update(a, vx, b, vy); near(vy, w, 2000, "update"); same(vx, x, "update input");
    vy = view(y); b1::axpy(a, vx, vy); for (int i = 0; i < n; ++i) w[i] = y[i] + a * x[i]; near(vy, w, 2000, "axpy"); same(vx, x, "axpy input");
    vy = view(y); b1::scale(a, vy); for (int i = 0; i < n; ++i) w[i] = a * y[i]; near(vy, w, 0, "scale");
    vy = view(y); b1::copy(vx, vy); same(vy, x, "copy output"); same(vx, x, "copy input");
    vx(0) = x[0] + 1; REQ(vy(0) == x[0], "copy aliases its input"); vx(0) = x[0];
    vy = view(y); b1::fill(a, vy); same(vy, dvec(n, a), "fill");
    // aliased update
    vy = view(y); b1::update(a, vy, b, vy); for (int i = 0; i < n; ++i) w[i] = (a + b) * y[i]; near(vy, w, 2000, "aliased update");
    vy = view(y); b1::axpy(a, vy, vy); for (int i = 0; i < n; ++i) w[i] = (1 + a) * y[i]; near(vy, w, 2000, "aliased axpy");
}
PBT("blas1_fill_ordinals", 1200, "at least two ordinals, not the identity numbering") {
    int n = size(s), k = s.chance(1, 3) ? n : s.intIn(1, n); // distinct ordinals into an output of length n
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
    for (int i = 0; i < n - 1; ++i) std::swap(perm[i], perm[i + s.intIn(0, n - 1 - i)]);
    dvec vals = s.vec(k, 10), out = s.vec(n, 10); double a = s.sreal(5);
    Plato::LocalOrdinalVector ord("o", k); for (int i = 0; i < k; ++i) ord(i) = perm[i];
    s.desc << "n=" << n << " ordinals=" << k << " first=" << perm[0] << " mult=" << a; s.tag(k == n ? "full" : "subset");
    bool id = true; for (int i = 0; i < k; ++i) id = id && perm[i] == i; s.nontrivial(k >= 2 && !id);
    V1 vo = view(out), vv = view(vals);
    b1::fill(a, ord, vv, vo);
    dvec w = out; for (int i = 0; i < k; ++i) w[perm[i]] = a * vals[i];
    near(vo, w, 0, "fill(ordinals)"); same(vv, vals, "fill(ordinals) values");
}
template<int ST, int OF> static void extractCase(pbt::Src& s) {
    int n = s.len(1, 12); dvec f = s.vec(n * ST, 10); V1 vf = view(f), vt("t", n);
    b1::extract<ST, OF>(vf, vt); dvec w(n); for (int i = 0; i < n; ++i) w[i] = f[i * ST + OF];
    same(vt, w, "extract"); same(vf, f, "extract input");
    int c = s.len(1, 4); dmat F = randMat(s, c, n * ST, 10), T = randMat(s, c, n, 10); V2 mf = view2(F, n * ST), mt = view2(T, n);
    b2::extract<ST, OF>(mf, mt);
    for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) REQ(mt(i, j) == F[i][j * ST + OF], "blas2 extract row " << i << " col " << j);
    s.desc << "stride=" << ST << " offset=" << OF << " n=" << n << " rows=" << c; s.nontrivial(n >= 2 && ST >= 2);
}
template<int ST, int ND, int OF> static void extractDimCase(pbt::Src& s) {
    int n = s.len(1, 10), c = s.len(1, 4); dmat F = randMat(s, c, n * ST, 10), T = randMat(s, c, n * ND, 10);
    V2 mf = view2(F, n * ST), mt = view2(T, n * ND);
    b2::extract<ST, ND, OF>(n, mf, mt);
    for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) for (int d = 0; d < ND; ++d)
        REQ(mt(i, j * ND + d) == F[i][j * ST + d + OF], "blas2 extract(dim) row " << i << " node " << j << " dim " << d);
    s.desc << "stride=" << ST << " dims=" << ND << " offset=" << OF << " n=" << n << " rows=" << c; s.nontrivial(n >= 2);
}
PBT("extract", 800, "two or more strided entries") {
    switch (s.intIn(0, 7)) {
        case 0: extractCase<1, 0>(s); break; case 1: extractCase<2, 0>(s); break; case 2: extractCase<2, 1>(s); break;
        case 3: extractCase<3, 2>(s); break; case 4: extractCase<4, 3>(s); break; case 5: extractDimCase<4, 3, 0>(s); break;
        case 6: extractDimCase<3, 2, 1>(s); break; default: extractDimCase<4, 2, 2>(s); break;
    }
}
template<int ND, int OF> static void axpy2(pbt::Src& s) {
    int c = s.len(1, 5), n = s.len(1, 5); double a = s.chance(1, 6) ? 1.0 : s.sreal(4);
    dmat I = randMat(s, c, n, 10), O = randMat(s, c, n * ND, 10); V2 vi = view2(I, n), vo = view2(O, n * ND);
    b2::axpy<ND, OF>(a, vi, vo);
    for (int i = 0; i < c; ++i) for (int j = 0; j < n * ND; ++j) {
        double w = j % ND == OF ? a * O[i][j] + I[i][j / ND] : O[i][j];
        NEAR(vo(i, j), w, 50, "blas2::axpy cell " << i << " col " << j);
    }
    for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) REQ(vi(i, j) == I[i][j], "axpy input changed");
    s.desc << "cells=" << c << " in=" << n << " dofs/node=" << ND << " offset=" << OF << " alpha=" << a; s.nontrivial(c >= 2 && n >= 2);
}
PBT("blas2_updates", 1000, "two or more cells and columns") {
    int c = s.len(1, 6), n = s.len(1, 6); dmat X = randMat(s, c, n, 10), Y = randMat(s, c, n, 10); double a = s.sreal(4), b = s.chance(1, 5) ? 0.0 : s.sreal(4);
    V2 x = view2(X, n), y = view2(Y, n);
    switch (s.intIn(0, 5)) {
        case 0: axpy2<1, 0>(s); return; case 1: axpy2<2, 1>(s); return; case 2: axpy2<4, 3>(s); return;
        case 3: b2::update(a, x, b, y); for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) { NEAR(y(i, j), a * X[i][j] + b * Y[i][j], 80, "blas2::update"); REQ(x(i, j) == X[i][j], "input changed"); } break;
        case 4: b2::scale(a, x); for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) NEAR(x(i, j), a * X[i][j], 0, "blas2::scale"); break;
        default: b2::fill(a, x); for (int i = 0; i < c; ++i) for (int j = 0; j < n; ++j) REQ(x(i, j) == a, "blas2::fill"); break;
    }
    s.desc << "cells=" << c << " cols=" << n << " a=" << a << " b=" << b; s.nontrivial(c >= 2 && n >= 2);
}
PBT("batched_matvec", 1200, "rectangular or several cells, with a nonzero beta") {
    int c = s.len(1, 4), r = s.len(1, 6), k = s.len(1, 6); bool tr = s.flag(), lower = s.flag();
    double a = s.sreal(3), b = s.chance(1, 4) ? 0.0 : s.chance(1, 4) ? 1.0 : s.sreal(3);
    V3 A("A", c, r, k); int nx = tr ? r : k, ny = tr ? k : r;
    dmat X = randMat(s, c, nx, 5), Y = randMat(s, c, ny, 5); V2 x = view2(X, nx), y = view2(Y, ny);
    std::vector<dmat> AA; for (int e = 0; e < c; ++e) { AA.push_back(randMat(s, r, k, 5)); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) A(e, i, j) = AA[e][i][j]; }
    s.desc << "cells=" << c << " A=" << r << "x" << k << (tr ? " T" : " N") << " a=" << a << " b=" << b; s.nontrivial((c > 1 || r != k) && b != 0); s.tag(tr ? "T" : "N");
    b2::matrix_times_vector(tr ? (lower ? "t" : "T") : (lower ? "n" : "N"), a, A, x, b, y);
    for (int e = 0; e < c; ++e) for (int i = 0; i < ny; ++i) {
        double w = b * Y[e][i]; for (int j = 0; j < nx; ++j) w += a * (tr ? AA[e][j][i] : AA[e][i][j]) * X[e][j];
        NEAR(y(e, i), w, 500, "matrix_times_vector cell " << e << " row " << i);
    }
    for (int e = 0; e < c; ++e) for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) REQ(A(e, i, j) == AA[e][i][j], "matrix changed");
    for (int e = 0; e < c; ++e) for (int j = 0; j < nx; ++j) REQ(x(e, j) == X[e][j], "x changed");
}
PBT("batched_matmul", 1200, "non-square product over several cells") {
    int c = s.len(1, 4), r = s.len(1, 5), k = s.len(1, 5), m = s.len(1, 5); double a = s.sreal(3), b = s.chance(1, 4) ? 0.0 : s.sreal(3);
    V3 A("A", c, r, k), B("B", c, k, m), C("C", c, r, m); std::vector<dmat> AA, BB, CC;
    for (int e = 0; e < c; ++e) {
        AA.push_back(randMat(s, r, k, 5)); BB.push_back(randMat(s, k, m, 5)); CC.push_back(randMat(s, r, m, 5));
        for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) A(e, i, j) = AA[e][i][j];
        for (int i = 0; i < k; ++i) for (int j = 0; j < m; ++j) B(e, i, j) = BB[e][i][j];
        for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) C(e, i, j) = CC[e][i][j];
    }
    s.desc << "cells=" << c << " (" << r << "x" << k << ")(" << k << "x" << m << ") a=" << a << " b=" << b; s.nontrivial(c > 1 && (r != k || k != m));
    b3::multiply(c, a, A, B, b, C);
    for (int e = 0; e < c; ++e) { auto P = matmul(AA[e], BB[e]); for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) NEAR(C(e, i, j), a * P[i][j] + b * CC[e][i][j], 500, "multiply cell " << e << " (" << i << "," << j << ")"); }
    for (int e = 0; e < c; ++e) { for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) REQ(A(e, i, j) == AA[e][i][j], "A changed"); for (int i = 0; i < k; ++i) for (int j = 0; j < m; ++j) REQ(B(e, i, j) == BB[e][i][j], "B changed"); }
    // update
    V3 D("D", c, r, k); auto D0 = AA; for (int e = 0; e < c; ++e) { D0[e] = randMat(s, r, k, 5); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) D(e, i, j) = D0[e][i][j]; }
    int nc = s.intIn(1, c); b3::update(nc, a, A, b, D);
    for (int e = 0; e < c; ++e) for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) NEAR(D(e, i, j), e < nc ? a * AA[e][i][j] + b * D0[e][i][j] : D0[e][i][j], 60, "blas3::update cell " << e);
}
template<int N> static void inverseCase(pbt::Src& s) {
    int c = s.len(1, 4); V3 A("A", c, N, N), I("I", c, N, N); std::vector<dmat> AA;
    for (int e = 0; e < c; ++e) { // row-diagonally dominant: every leading block is invertible
        auto m = randMat(s, N, N, 3); for (int i = 0; i < N; ++i) { double t = 0; for (int j = 0; j < N; ++j) t += std::fabs(m[i][j]); m[i][i] = (s.flag() ? -1 : 1) * (t + 1); }
        AA.push_back(m); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { A(e, i, j) = m[i][j]; I(e, i, j) = 7; }
    }
    b3::inverse<N, N>(c, A, I);
    for (int e = 0; e < c; ++e) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        double t = 0; for (int k = 0; k < N; ++k) t += AA[e][i][k] * I(e, k, j);
        NEAR(t, i == j ? 1.0 : 0.0, 10, "A*inv(A) cell " << e << " (" << i << "," << j << ")");
    }
    V3 Id("id", c, N, N), F("f", c, N, N); b3::identity<N, N>(c, Id); double al = s.sreal(4); b3::fill<N, N>(c, al, F);
    for (int e = 0; e < c; ++e) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { REQ(Id(e, i, j) == (i == j ? 1.0 : 0.0), "identity"); REQ(F(e, i, j) == al, "fill"); }
    s.desc << "cells=" << c << " N=" << N; s.nontrivial(N >= 2);
}
PBT("batched_inverse", 800, "matrices of order 2 or more") {
    switch (s.intIn(0, 4)) { case 0: inverseCase<1>(s); break; case 1: inverseCase<2>(s); break; case 2: inverseCase<6>(s); break; case 3: inverseCase<10>(s); break; default: inverseCase<14>(s); }
}
PBT("contractions", 800, "all components nonzero, several cells") {
    int c = s.len(1, 4), cell = s.intIn(0, c - 1); dmat A = randMat(s, c, 6, 5), B = randMat(s, c, 6, 5); V2 a = view2(A, 6), b = view2(B, 6);
    V1 o("o", c); for (int i = 0; i < c; ++i) o(i) = 55;
    int k = s.intIn(0, 5); double w = 0; auto& x = A[cell]; auto& y = B[cell];
    switch (k) {
        case 0: Plato::DotProduct<6>()(cell, a, b, o); for (int i = 0; i < 6; ++i) w += x[i] * y[i]; break;
        case 1: Plato::DotProduct<3>()(cell, a, b, o); for (int i = 0; i < 3; ++i) w += x[i] * y[i]; break;
        case 2: Plato::DotProduct<1>()(cell, a, b, o); w = x[0] * y[0]; break;
        case 3: { // full 3x3 contraction, Voigt order 11 22 33 23 13 12
            Plato::DoubleDotProduct2ndOrderTensor<3>()(cell, a, b, o); int vi[3][3] = {{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w += x[vi[i][j]] * y[vi[i][j]]; break; }
        case 4: { // 11 22 12 33
            Plato::DoubleDotProduct2ndOrderTensor<2>()(cell, a, b, o); int vi[2][2] = {{0, 2}, {2, 1}}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) w += x[vi[i][j]] * y[vi[i][j]]; w += x[3] * y[3]; break; }
        default: Plato::DoubleDotProduct2ndOrderTensor<1>()(cell, a, b, o); w = x[0] * y[0];
    }
    s.desc << "kind=" << k << " cell=" << cell << "/" << c << " a=" << str(x) << " b=" << str(y); s.nontrivial(c > 1); s.tag("kind" + std::to_string(k));
    for (int i = 0; i < c; ++i) NEAR(o(i), i == cell ? w : 55.0, 200, "contraction cell " << i);
}
PBT("shape_errors", 500, "mismatched or empty operands") {
    int n = s.len(1, 6), m = n + s.intIn(1, 3); if (s.flag()) std::swap(n, m);
    V1 x("x", n), y("y", m), z("z", 0); double inf = s.flag() ? INFINITY : NAN; double r;
    s.desc << "n=" << n << " m=" << m; s.nontrivial();
    int k = s.intIn(0, 21); s.tag("err" + std::to_string(k));
    int c1 = s.intIn(1, 3), c2 = c1 + 1, e = 0, q = s.intIn(1, 3);
    V2 X("X", c1, q), Y("Y", c2, q), W("W", c1, q + 1), Z("Z", 0, 0);
    V3 A("A", c1, 2, 3), B("B", c1, 3, 2), C("C", c1, 2, 2), A2("A2", c2, 2, 3), Bad("Bad", c1, 2, 2), E("E", 0, 0, 0);
    switch (k) {
        case 0: THROWS(b1::dot(x, y), "dot of different lengths"); break;
        case 1: THROWS(b1::norm(z), "norm of empty"); break;
        case 2: THROWS(b1::fill(1.0, z), "fill of empty"); THROWS(b1::fill(inf, x), "fill with non-finite"); break;
        case 3: THROWS(b1::copy(x, y), "copy of different lengths"); break;
        case 4: THROWS(b1::scale(inf, x), "scale by non-finite"); THROWS(b1::scale(1.0, z), "scale of empty"); break;
        case 5: THROWS(b1::axpy(1.0, x, y), "axpy of different lengths"); break;
        case 6: THROWS(b1::update(1.0, x, 1.0, y), "update of different lengths"); break;
        case 7: THROWS(b1::update(inf, x, 1.0, x), "update non-finite alpha"); THROWS(b1::update(1.0, x, inf, x), "update non-finite beta"); break;
        case 8: THROWS(b1::local_sum(z, r), "sum of empty"); THROWS(b1::max(z, r), "max of empty"); THROWS(b1::min(z, r), "min of empty"); break;
        case 9: THROWS(b2::update(1.0, X, 1.0, Y), "update of different cell counts"); THROWS(b2::update(1.0, X, 1.0, W), "update of different columns"); break;
        case 10: THROWS(b2::matrix_times_vector("X", 1.0, A, V2("", c1, 3), 0.0, X), "unknown transpose flag"); break;
        case 11: { V2 xx("x", c2, 3), yy("y", c1, 2); THROWS(b2::matrix_times_vector("N", 1.0, A, xx, 0.0, yy), "cells of A and x differ"); V2 x3("x", c1, 3), y2("y", c2, 2); THROWS(b2::matrix_times_vector("N", 1.0, A, x3, 0.0, y2), "cells of A and y differ"); break; }
        case 12: THROWS(b3::multiply(c1, 1.0, A, Bad, 0.0, C), "inner dimension mismatch"); break;
        case 13: THROWS(b3::multiply(c1, 1.0, A2, B, 0.0, C), "cells mismatch"); THROWS(b3::multiply(c2, 1.0, A, B, 0.0, C), "cells mismatch"); break;
        case 14: THROWS(b3::update(c1, 1.0, A, 1.0, B), "shape mismatch"); THROWS((b3::identity<2, 2>(c2, C)), "cells mismatch"); THROWS((b3::inverse<2, 2>(c1, C, E)), "empty inverse"); break;
        case 15: { V2 o("o", c2, 2 * n), i1("i", c1, n); THROWS((b2::axpy<2, 0>(1.0, i1, o)), "component update with different row counts"); THROWS((b2::axpy<2, 0>(1.0, i1, Z)), "component update of empty"); THROWS((b2::axpy<2, 1>(1.0, Z, o)), "component update from empty"); break; }
        case 16: { V2 x3("x", c1, 3), y2("y", c1, 2); THROWS(b2::matrix_times_vector("N", 1.0, E, x3, 0.0, y2), "empty A"); THROWS(b2::matrix_times_vector("N", 1.0, A, Z, 0.0, y2), "empty x"); THROWS(b2::matrix_times_vector("N", 1.0, A, x3, 0.0, Z), "empty y"); break; }
        case 17: { V3 C1("C", c1, 3, 2), C2("C", c1, 2, 3), C3("C", c2, 2, 2), B2("B", c2, 3, 2); THROWS(b3::multiply(c1, 1.0, A, B, 0.0, C1), "rows of the result differ"); THROWS(b3::multiply(c1, 1.0, A, B, 0.0, C2), "columns of the result differ"); THROWS(b3::multiply(c1, 1.0, A, B, 0.0, C3), "cells of the result differ"); THROWS(b3::multiply(c1, 1.0, A, B2, 0.0, C), "cells of B differ"); break; }
        case 18: THROWS(b3::multiply(c1, 1.0, E, B, 0.0, C), "empty A"); THROWS(b3::multiply(c1, 1.0, A, E, 0.0, C), "empty B"); THROWS(b3::multiply(c1, 1.0, A, B, 0.0, E), "empty C"); break;
        case 19: { V3 A1("A", c1, 3, 3), A3("A", c1, 2, 4); THROWS(b3::update(c1, 1.0, A, 1.0, A1), "rows differ"); THROWS(b3::update(c1, 1.0, A, 1.0, A3), "columns differ"); THROWS(b3::update(c1, 1.0, E, 1.0, A), "empty A"); THROWS(b3::update(c1, 1.0, A, 1.0, E), "empty B"); THROWS(b3::update(0, 1.0, A, 1.0, A), "no cells"); break; }
        case 20: { V3 I1("I", c1, 2, 2); THROWS((b3::fill<2, 2>(c1, 1.0, E)), "fill of empty"); THROWS((b3::fill<2, 3>(0, 1.0, A)), "fill of no cells"); THROWS((b3::identity<2, 2>(c1, E)), "identity in empty"); THROWS((b3::inverse<2, 2>(c1, E, C)), "inverse of empty"); THROWS((b3::inverse<2, 2>(c1, C, A)), "inverse into another shape"); break; }
        default: THROWS(b2::fill(1.0, Z), "fill of empty"); THROWS(b2::scale(1.0, Z), "scale of empty"); break;
    }
}

// if(X > Y) A = B, for any distance between X and Y
PBT("conditional_value", 300, "X and Y differ by less than one") {
    double m = s.logreal(1e-6, 1e3), y = s.sreal(m), x = s.chance(1, 5) ? y : s.flag() ? y + s.sreal(s.logreal(1e-6, 10)) : s.sreal(m), a = s.sreal(10), b = s.sreal(10); s.desc << "conditional X=" << x << " Y=" << y; s.nontrivial(std::fabs(x - y) < 1 && x != y);
    double r = Plato::conditional_expression(x, y, a, b); REQ(r == (x > y ? b : a), "X=" << x << " Y=" << y << " A=" << a << " B=" << b << " gives " << r);
}
// Powers of two carry through products and sums without rounding: the kernels must give the exactly scaled result, however small, large or graded the operands.
static double p2(int e) { return std::ldexp(1.0, e); }
static int expo(pbt::Src& s) { return s.intIn(0, 160) - 80; }
PBT("graded_operands", 1500, "operands of different magnitudes") {
    int kind = s.intIn(0, 5), k = expo(s); s.desc << "graded operands, kind " << kind << " 2^" << k; s.nontrivial(k != 0); s.tag("kind" + std::to_string(kind));
    if (kind == 0) { // reductions
        int n = size(s); dvec x = s.vec(n, 10), y = s.vec(n, 10), gx(n), gy(n), ux(n); for (int i = 0; i < n; ++i) { int e = expo(s); gx[i] = x[i] * p2(e); gy[i] = y[i] * p2(k - e); ux[i] = x[i] * p2(k); }
        double d = b1::dot(view(x), view(y)), g = b1::dot(view(gx), view(gy)); REQ(g == d * p2(k), "dot of graded vectors: " << g << " instead of " << d * p2(k));
        d = b1::norm(view(x)), g = b1::norm(view(ux)); NEAR(g, d * p2(k), 0, "norm of scaled vector"); double a = 0, b = 0; b1::local_sum(view(x), a); b1::local_sum(view(ux), b); REQ(b == a * p2(k), "sum of scaled vector: " << b << " instead of " << a * p2(k));
        b1::max(view(x), a); b1::max(view(ux), b); REQ(b == a * p2(k), "max of scaled vector"); b1::min(view(x), a); b1::min(view(ux), b); REQ(b == a * p2(k), "min of scaled vector"); return; }
    if (kind == 1) { // entrywise updates
        int n = size(s); dvec x = s.vec(n, 10), y = s.vec(n, 10), gx = x, gy = y; std::vector<int> e(n); for (int i = 0; i < n; ++i) { e[i] = expo(s); gx[i] *= p2(e[i]); gy[i] *= p2(e[i]); } double a = s.sreal(4), b = s.sreal(4);
        auto cmp = [&](const V1& v, const V1& w, const char* what) { for (int i = 0; i < n; ++i) REQ(w(i) == v(i) * p2(e[i]), what << " of graded vectors, entry " << i << ": " << w(i) << " instead of " << v(i) * p2(e[i])); };
        V1 v = view(y), w = view(gy); b1::update(a, view(x), b, v); b1::update(a, view(gx), b, w); cmp(v, w, "update"); v = view(y); w = view(gy); b1::axpy(a, view(x), v); b1::axpy(a, view(gx), w); cmp(v, w, "axpy"); v = view(y); w = view(gy); b1::scale(a, v); b1::scale(a, w); cmp(v, w, "scale"); b1::copy(view(x), v); b1::copy(view(gx), w); cmp(v, w, "copy"); return; }
    int c = s.len(1, 3), r = s.len(1, 5), q = s.len(1, 5), m = s.len(1, 4); double a = s.sreal(3), b = s.sreal(3);
    auto rnd = [&](int x, int y) { V3 t("t", c, x, y); for (int e = 0; e < c; ++e) for (int i = 0; i < x; ++i) for (int j = 0; j < y; ++j) t(e, i, j) = s.sreal(5); return t; };
    auto ex = [&](int n) { std::vector<int> v(n); for (auto& x : v) x = expo(s); return v; };
    auto grade = [&](const V3& t, const std::vector<int>& l, const std::vector<int>& u) { V3 g("g", t.extent(0), t.extent(1), t.extent(2)); for (size_t e = 0; e < t.extent(0); ++e) for (size_t i = 0; i < t.extent(1); ++i) for (size_t j = 0; j < t.extent(2); ++j) g(e, i, j) = t(e, i, j) * p2(l[i] - u[j]); return g; };
    auto same3 = [&](const V3& t, const V3& g, const char* what) { for (size_t e = 0; e < t.extent(0); ++e) for (size_t i = 0; i < t.extent(1); ++i) for (size_t j = 0; j < t.extent(2); ++j) REQ(g(e, i, j) == t(e, i, j), what << " of graded operands, cell " << e << " (" << i << "," << j << "): " << g(e, i, j) << " instead of " << t(e, i, j)); };
    auto el = ex(r), ei = ex(q), er = ex(m);
    if (kind == 2) { V3 A = rnd(r, q); bool tr = s.flag(); int nx = tr ? r : q, ny = tr ? q : r; dmat X = randMat(s, c, nx, 5), Y = randMat(s, c, ny, 5); V2 x = view2(X, nx), y = view2(Y, ny); auto GX = X, GY = Y; for (auto& v : GX) for (int i = 0; i < nx; ++i) v[i] *= p2(tr ? -el[i] : ei[i]); for (auto& v : GY) for (int i = 0; i < ny; ++i) v[i] *= p2(tr ? -ei[i] : el[i]);
        V2 gx = view2(GX, nx), gy = view2(GY, ny); b2::matrix_times_vector(tr ? "T" : "N", a, A, x, b, y); b2::matrix_times_vector(tr ? "T" : "N", a, grade(A, el, ei), gx, b, gy); for (int e = 0; e < c; ++e) for (int i = 0; i < ny; ++i) REQ(gy(e, i) == y(e, i) * p2(tr ? -ei[i] : el[i]), "matrix_times_vector of graded operands, cell " << e << " row " << i); return; }
    if (kind == 3) { V3 A = rnd(r, q), B = rnd(q, m), C = rnd(r, m), G = grade(C, el, er); b3::multiply(c, a, A, B, b, C); b3::multiply(c, a, grade(A, el, ei), grade(B, ei, er), b, G); same3(grade(C, el, er), G, "multiply"); return; }
    if (kind == 4) { V3 A = rnd(r, q), C = rnd(r, q), G = grade(C, el, ei); b3::update(c, a, A, b, C); b3::update(c, a, grade(A, el, ei), b, G); same3(grade(C, el, ei), G, "update"); return; }
    const int N = 6; V3 A = rnd(N, N), I("i", c, N, N), J("j", c, N, N); for (int e = 0; e < c; ++e) for (int i = 0; i < N; ++i) A(e, i, i) = 40; std::vector<int> z(N, 0), l(N, k / 4); V3 G = grade(A, l, z); b3::inverse<N, N>(c, A, I); b3::inverse<N, N>(c, G, J); V3 W = grade(I, z, l);
    for (int e = 0; e < c; ++e) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) NEAR(J(e, i, j), W(e, i, j), std::fabs(W(e, i, i)), "inverse of a scaled matrix");
}
