// P02: block sparse algebra against dense algebra.
#include "crs.hpp"
#include "PlatoMathHelpers.hpp"
#include "PlatoMathFunctors.hpp"
#include "Plato_Solve.hpp"
using namespace h;
static int bsz(pbt::Src& s) { static const int b[] = {1, 2, 3, 4}; return b[s.intIn(0, 3)]; }

PBT("matvec", 900, "block matrix or rectangular, more than one block row") {
    int br = bsz(s), bc = s.flag() ? br : bsz(s), n = s.len(1, 8, 12), m = s.len(1, 8, 12);
    auto p = pattern(s, n, m, false, false, s.flag()); auto D = randDense(s, p, br, bc, 5); auto A = crs(p, br, bc, D);
    dvec x = s.vec(m * bc, 5), y = s.vec(n * br, 5); V1 vx = view(x), vy = view(y);
    s.desc << n << "x" << m << " nodes, blocks " << br << "x" << bc; s.nontrivial(n > 1 && (br * bc > 1 || n != m)); s.tag(br * bc > 1 ? "block" : "scalar");
    REQ(A->isBlockMatrix() == (br * bc > 1), "isBlockMatrix"); REQ(A->numRows() == n * br && A->numCols() == m * bc, "shape");
    Plato::MatrixTimesVectorPlusVector(A, vx, vy);
    for (int i = 0; i < n * br; ++i) { double w = y[i]; for (int j = 0; j < m * bc; ++j) w += D[i][j] * x[j]; NEAR(vy(i), w, 300, "y += A x row " << i); }
    for (int j = 0; j < m * bc; ++j) REQ(vx(j) == x[j], "x changed");
    sameDense(dense(A), D, 0, "A after matvec");
    V1 bad("bad", m * bc + 1), badY("bad", n * br + 1);
    THROWS(Plato::MatrixTimesVectorPlusVector(A, bad, vy), "input length mismatch"); THROWS(Plato::MatrixTimesVectorPlusVector(A, vx, badY), "output length mismatch");
}
PBT("nonblock_roundtrip", 900, "block size > 1 and several block rows") {
    int br = bsz(s), bc = bsz(s), n = s.len(1, 7, 12), m = s.len(1, 7, 12);
    auto p = pattern(s, n, m, false, false, s.flag()); auto D = randDense(s, p, br, bc, 5); auto A = crs(p, br, bc, D);
    s.desc << n << "x" << m << " blocks " << br << "x" << bc; s.nontrivial(br * bc > 1 && n > 1);
    Plato::ScalarVectorT<Plato::OrdinalType> rm, cm; Plato::ScalarVectorT<Plato::Scalar> va;
    Plato::getDataAsNonBlock(A, rm, cm, va);
    REQ((int)rm.extent(0) == n * br + 1, "row map length"); REQ((int)cm.extent(0) == rm(n * br) && va.extent(0) == cm.extent(0), "entry count " << cm.extent(0) << " vs " << rm(n * br));
    dmat E = zeros(n * br, m * bc); for (int i = 0; i < n * br; ++i) for (int k = rm(i); k < rm(i + 1); ++k) { REQ(cm(k) >= 0 && cm(k) < m * bc, "col"); E[i][cm(k)] += va(k); }
    sameDense(E, D, 0, "non-block data");
    // shuffle the entries of each row before handing them back: order inside a row carries no meaning
    for (int i = 0; i < n * br; ++i) for (int k = rm(i); k + 1 < rm(i + 1); ++k) { int l = s.intIn(k, rm(i + 1) - 1); std::swap(cm(k), cm(l)); std::swap(va(k), va(l)); }
    auto B = Teuchos::rcp(new Plato::CrsMatrixType(n * br, m * bc, br, bc)); REQ(B->isBlockMatrix() == (br * bc > 1), "isBlockMatrix of a matrix without data"); { Plato::CrsMatrixType U; REQ(!U.isBlockMatrix() && U.numRowsPerBlock() == 1 && U.numColsPerBlock() == 1, "block shape of a matrix without a shape"); THROWS(U.numRows(), "number of rows of a matrix without a shape"); THROWS(U.numCols(), "number of columns of a matrix without a shape"); } REQ(B->numRows() == n * br && B->numCols() == m * bc && B->numRowsPerBlock() == br && B->numColsPerBlock() == bc, "shape of a matrix without data");
    Plato::setDataFromNonBlock(B, rm, cm, va);
    sameDense(dense(B), D, 0, "block matrix rebuilt from non-block data"); sameDense(dense(A), D, 0, "source matrix");
}
PBT("sort_columns", 900, "an unsorted row of three or more entries") {
    int n = s.len(1, 6, 12), m = s.len(1, 12, 12); auto p = pattern(s, n, m, false, false, true, 2); auto D = randDense(s, p, 1, 1, 5); auto A = crs(p, 1, 1, D);
    auto rm = A->rowMap(); auto cm = A->columnIndices(); auto va = A->entries(); bool nt = false; for (auto& a : p.adj) nt = nt || (a.size() > 2 && !std::is_sorted(a.begin(), a.end()));
    s.desc << n << "x" << m << " row0 has " << p.adj[0].size(); s.nontrivial(nt);
    Plato::sortColumnEntries(rm, cm, va);
    for (int i = 0; i < n; ++i) for (int k = rm(i); k + 1 < rm(i + 1); ++k) REQ(cm(k) < cm(k + 1), "row " << i << " not sorted");
    sameDense(dense(A), D, 0, "matrix after sorting");
}
PBT("matmul", 700, "block product with a non-empty result") {
    int ba = bsz(s), bb = bsz(s), bd = bsz(s), n = s.len(1, 6, 12), k = s.len(1, 6, 12), m = s.len(1, 6, 12);
    auto pa = pattern(s, n, k, false, false, s.flag(), 2), pb = pattern(s, k, m, false, false, s.flag(), 2);
    auto DA = randDense(s, pa, ba, bb, 5), DB = randDense(s, pb, bb, bd, 5); auto A = crs(pa, ba, bb, DA), B = crs(pb, bb, bd, DB);
    auto W = matmul(DA, DB); s.desc << n << "x" << k << "x" << m << " blocks " << ba << "," << bb << "," << bd; s.nontrivial(maxabs(W) > 0 && ba * bb * bd > 1);
    auto C = Teuchos::rcp(new Plato::CrsMatrixType(n * ba, m * bd, ba, bd));
    Plato::MatrixMatrixMultiply(A, B, C);
    sameDense(dense(C), W, 500, "A*B"); sameDense(dense(A), DA, 0, "A"); sameDense(dense(B), DB, 0, "B");
    auto Bad = Teuchos::rcp(new Plato::CrsMatrixType(n * ba + ba, m * bd, ba, bd)); THROWS(Plato::MatrixMatrixMultiply(A, B, Bad), "output with wrong rows");
    auto Bad2 = Teuchos::rcp(new Plato::CrsMatrixType(n * ba, m * bd + bd, ba, bd)); THROWS(Plato::MatrixMatrixMultiply(A, B, Bad2), "output with wrong columns");
}
PBT("subtract_rows", 700, "several rows per block, with an offset") {
    int br = bsz(s), bc = bsz(s), n = s.len(1, 6, 12), m = s.len(1, 6, 12), off = s.intIn(0, br - 1);
    auto pa = pattern(s, n, m, false, false, s.flag(), 2), pb = pattern(s, n, m, false, false, s.flag(), 2);
    auto DA = randDense(s, pa, br, bc, 5), DB = randDense(s, pb, 1, bc, 5); auto A = crs(pa, br, bc, DA), B = crs(pb, 1, bc, DB);
    s.desc << n << "x" << m << " A blocks " << br << "x" << bc << " offset " << off; s.nontrivial(br > 1 && n > 1);
    Plato::MatrixMinusMatrix(A, B, off);
    auto W = DA; for (int i = 0; i < n; ++i) for (int j = 0; j < m * bc; ++j) W[i * br + off][j] -= DB[i][j];
    sameDense(dense(A), W, 20, "A - B in one dof of every block row"); sameDense(dense(B), DB, 0, "B");
}
template<int B> static void lumped(pbt::Src& s, int n) {
    auto p = pattern(s, n, n, true, false, s.flag()); auto D = randDense(s, p, B, B, 3);
    for (int i = 0; i < n * B; ++i) { double t = 0; for (double v : D[i]) t += v; if (std::fabs(t) < 0.5) D[i][i] += 2; }
    auto A = crs(p, B, B, D); dvec b = s.vec(n * B, 5), x = s.vec(n * B, 5); V1 vb = view(b), vx = view(x);
    Plato::Solve::RowSummed<B>(A, vx, vb);
    for (int i = 0; i < n * B; ++i) { double t = 0; for (double v : D[i]) t += v; NEAR(vx(i) * t, b[i], 50, "row-summed solve row " << i); REQ(vb(i) == b[i], "right-hand side changed"); }
    sameDense(dense(A), D, 0, "A");
}
PBT("lumped_solve", 500, "block matrix with several rows") {
    int n = s.len(1, 7, 12), k = s.intIn(0, 3); s.desc << "n=" << n << " block=" << k + 1; s.nontrivial(n > 1 && k > 0);
    switch (k) { case 0: lumped<1>(s, n); break; case 1: lumped<2>(s, n); break; case 2: lumped<3>(s, n); break; default: lumped<4>(s, n); }
}
static dmat lumpable(pbt::Src& s, const Pattern& p, int b) {
    auto D = randDense(s, p, b, b, 3); for (size_t i = 0; i < D.size(); ++i) { double t = 0; for (double v : D[i]) t += v; if (std::fabs(t) < 0.5) D[i][i] += 2; } return D;
}
PBT("condense", 600, "several block rows and a rectangular inner block") {
    // A - B * rowsum(C)^-1 * D, written into one dof of every block row of A
    int n = s.len(1, 5, 12), k = s.len(1, 5, 12), br = bsz(s), bc = bsz(s), q = bsz(s), off = s.intIn(0, br - 1);
    auto pA = pattern(s, n, n, true, false, s.flag(), 2), pB = pattern(s, n, k, false, false, s.flag(), 2), pC = pattern(s, k, k, true, false, s.flag(), 2), pD = pattern(s, k, n, false, false, s.flag(), 2);
    auto DA = randDense(s, pA, br, bc, 3), DB = randDense(s, pB, 1, q, 3), DC = lumpable(s, pC, q), DD = randDense(s, pD, q, bc, 3);
    auto A = crs(pA, br, bc, DA), B = crs(pB, 1, q, DB), C = crs(pC, q, q, DC), D = crs(pD, q, bc, DD);
    s.desc << "n=" << n << " k=" << k << " A blocks " << br << "x" << bc << " inner " << q << " offset " << off; s.nontrivial(n > 1 && q > 1);
    auto LD = DD; for (int i = 0; i < k * q; ++i) { double t = 0; for (double v : DC[i]) t += v; for (auto& v : LD[i]) v /= t; }
    auto P = matmul(DB, LD); auto W = DA; for (int i = 0; i < n; ++i) for (int j = 0; j < n * bc; ++j) W[i * br + off][j] -= P[i][j];
    bool only = s.flag();
    if (only) { Plato::RowSummedInverseMultiply(C, D); sameDense(dense(D), LD, 50, "rowsum(C)^-1 D"); }
    else { Plato::Condense(A, B, C, D, off); sameDense(dense(A), W, 500, "A - B C^-1 D"); }
    sameDense(dense(C), DC, 0, "C"); sameDense(dense(B), DB, 0, "B");
}
PBT("row_functors", 600, "block matrix") {
    int br = bsz(s), bc = bsz(s), n = s.len(1, 6, 12), m = s.len(1, 6, 12); auto p = pattern(s, n, m, false, false, s.flag()); auto D = randDense(s, p, br, bc, 5); auto A = crs(p, br, bc, D);
    dvec base = s.vec(n * br, 5); V1 r = view(base); int row = s.intIn(0, n - 1); s.desc << n << "x" << m << " blocks " << br << "x" << bc << " row " << row; s.nontrivial(br * bc > 1);
    Plato::RowSum f(A); f(row, r);
    for (int i = 0; i < n * br; ++i) { double w = base[i]; if (i / br == row) for (double v : D[i]) w += v; NEAR(r(i), w, 100, "row sum " << i); }
    dvec dg = s.vec(n * br, 5); for (auto& v : dg) v += v > 0 ? 0.5 : -0.5; V1 vd = view(dg); Plato::DiagonalInverseMultiply g(A); g(row, vd);
    auto W = D; for (int i = 0; i < n * br; ++i) if (i / br == row) for (auto& v : W[i]) v /= dg[i]; sameDense(dense(A), W, 20, "diag^-1 A");
    Plato::InverseWeight<3> iw; int nn = s.len(1, 4, 12), rr = s.intIn(0, nn - 1); dvec rs = s.vec(3 * nn, 4), rhs = s.vec(3 * nn, 4), lhs = s.vec(3 * nn, 4); for (auto& v : rs) v += v > 0 ? 0.5 : -0.5; double sc = s.sreal(3);
    V1 a = view(rs), b = view(rhs), c = view(lhs); iw(rr, a, b, c, sc); for (int i = 0; i < 3 * nn; ++i) NEAR(c(i), i / 3 == rr ? rhs[i] / rs[i] * sc : lhs[i], 50, "inverse weight " << i);
}
// Rows and columns scaled by powers of two: every product and sum scales without rounding, so results must be exactly the scaled ones, however small or large the entries.
static double p2(int e) { return std::ldexp(1.0, e); }
static std::vector<int> expos(pbt::Src& s, int n) { std::vector<int> v(n); for (auto& x : v) x = s.intIn(0, 160) - 80; return v; }
static dmat graded(const dmat& d, const std::vector<int>& l, const std::vector<int>& u) { auto g = d; for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g[i].size(); ++j) g[i][j] *= p2(l[i] - u[j]); return g; }
static void exact(const dmat& got, const dmat& want, const char* what) { for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < want[i].size(); ++j) REQ(got[i][j] == want[i][j], what << " of graded matrices (" << i << "," << j << "): " << got[i][j] << " instead of " << want[i][j]); }
PBT("graded_matrices", 900, "several block rows of different magnitudes") {
    int kind = s.intIn(0, 4), ba = bsz(s), bb = bsz(s), bd = bsz(s), n = s.len(1, 6, 6), k = s.len(1, 6, 6), m = s.len(1, 6, 6); s.desc << "graded " << n << "x" << k << "x" << m << " blocks " << ba << "," << bb << "," << bd << " kind " << kind; s.nontrivial(n > 1 && k > 1); s.tag("kind" + std::to_string(kind));
    auto pa = pattern(s, n, k, false, false, s.flag(), 2); auto DA = randDense(s, pa, ba, bb, 5); auto el = expos(s, n * ba), ei = expos(s, k * bb), er = expos(s, m * bd); auto GA = graded(DA, el, ei); auto A = crs(pa, ba, bb, DA), G = crs(pa, ba, bb, GA);
    if (kind == 0) { dvec x = s.vec(k * bb, 5), y = s.vec(n * ba, 5), gx = x, gy = y; for (int i = 0; i < k * bb; ++i) gx[i] *= p2(ei[i]); for (int i = 0; i < n * ba; ++i) gy[i] *= p2(el[i]); V1 vy = view(y), vg = view(gy); Plato::MatrixTimesVectorPlusVector(A, view(x), vy); Plato::MatrixTimesVectorPlusVector(G, view(gx), vg); for (int i = 0; i < n * ba; ++i) REQ(vg(i) == vy(i) * p2(el[i]), "y += A x of graded operands, row " << i << ": " << vg(i) << " instead of " << vy(i) * p2(el[i])); }
    else if (kind == 1) { auto pb = pattern(s, k, m, false, false, s.flag(), 2); auto DB = randDense(s, pb, bb, bd, 5); auto B = crs(pb, bb, bd, DB), H = crs(pb, bb, bd, graded(DB, ei, er)); auto C = Teuchos::rcp(new Plato::CrsMatrixType(n * ba, m * bd, ba, bd)), Q = Teuchos::rcp(new Plato::CrsMatrixType(n * ba, m * bd, ba, bd)); Plato::MatrixMatrixMultiply(A, B, C); Plato::MatrixMatrixMultiply(G, H, Q); exact(dense(Q), graded(dense(C), el, er), "A*B"); }
    else if (kind == 2) { int off = s.intIn(0, ba - 1); auto pb = pattern(s, n, k, false, false, s.flag(), 2); auto DB = randDense(s, pb, 1, bb, 5); std::vector<int> eo(n); for (int i = 0; i < n; ++i) eo[i] = el[i * ba + off]; auto B = crs(pb, 1, bb, DB), H = crs(pb, 1, bb, graded(DB, eo, ei)); Plato::MatrixMinusMatrix(A, B, off); Plato::MatrixMinusMatrix(G, H, off); exact(dense(G), graded(dense(A), el, ei), "A-B"); }
    else if (kind == 3) { Plato::ScalarVectorT<Plato::OrdinalType> rm, cm; Plato::ScalarVectorT<Plato::Scalar> va; Plato::getDataAsNonBlock(G, rm, cm, va); auto B = Teuchos::rcp(new Plato::CrsMatrixType(n * ba, k * bb, ba, bb)); Plato::setDataFromNonBlock(B, rm, cm, va); exact(dense(B), GA, "storage round trip"); }
    else { auto pc = pattern(s, n, n, true, false, s.flag()); auto D = lumpable(s, pc, 2); auto e = expos(s, 2 * n), f = expos(s, 2 * n); std::vector<int> z(2 * n, 0); dvec b = s.vec(2 * n, 5), gb = b; for (int i = 0; i < 2 * n; ++i) gb[i] *= p2(f[i]); V1 x("x", 2 * n), gx("x", 2 * n); Plato::Solve::RowSummed<2>(crs(pc, 2, 2, D), x, view(b)); Plato::Solve::RowSummed<2>(crs(pc, 2, 2, graded(D, e, z)), gx, view(gb)); for (int i = 0; i < 2 * n; ++i) REQ(gx(i) == x(i) * p2(f[i] - e[i]), "row-summed solve of graded operands, row " << i); }
}
