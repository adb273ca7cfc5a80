// Random block-CRS matrices and their dense counterparts.
#pragma once
#include "plato.hpp"
#include "alg/CrsMatrix.hpp"
#include <algorithm>
namespace h {
using RCPMat = Teuchos::RCP<Plato::CrsMatrixType>;
struct Pattern { int rows, cols; std::vector<std::vector<int>> adj; }; // node level
inline Pattern pattern(pbt::Src& s, int rows, int cols, bool diag, bool sym, bool shuffle, int den = 3) {
    Pattern p{rows, cols, std::vector<std::vector<int>>(rows)};
    dmat on = zeros(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = sym ? i : 0; j < cols; ++j) { bool b = s.draw(den - 1) == 0; if (diag && i == j) b = true; if (b) { on[i][j] = 1; if (sym) on[j][i] = 1; } }
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) if (on[i][j]) p.adj[i].push_back(j);
    if (shuffle) for (auto& a : p.adj) for (int i = 0; i + 1 < (int)a.size(); ++i) std::swap(a[i], a[i + s.intIn(0, (int)a.size() - 1 - i)]);
    return p;
}
// dense holds the full scalar matrix; entries outside the pattern are ignored
inline RCPMat crs(const Pattern& p, int br, int bc, const dmat& dense) {
    int nnz = 0; for (auto& a : p.adj) nnz += a.size();
    Plato::CrsMatrixType::RowMapVector rm("rowmap", p.rows + 1); Plato::CrsMatrixType::OrdinalVector ci("cols", nnz); Plato::CrsMatrixType::ScalarVector en("entries", nnz * br * bc);
    int k = 0; for (int i = 0; i < p.rows; ++i) { rm(i) = k; for (int j : p.adj[i]) { ci(k) = j; for (int a = 0; a < br; ++a) for (int b = 0; b < bc; ++b) en(k * br * bc + a * bc + b) = dense[i * br + a][j * bc + b]; ++k; } } rm(p.rows) = k;
    return Teuchos::rcp(new Plato::CrsMatrixType(rm, ci, en, p.rows * br, p.cols * bc, br, bc));
}
inline dmat randDense(pbt::Src& s, const Pattern& p, int br, int bc, double m) {
    dmat d = zeros(p.rows * br, p.cols * bc);
    for (int i = 0; i < p.rows; ++i) for (int j : p.adj[i]) for (int a = 0; a < br; ++a) for (int b = 0; b < bc; ++b) d[i * br + a][j * bc + b] = s.sreal(m);
    return d;
}
// throws when the structure is not a valid block CRS matrix
inline dmat dense(const RCPMat& m) {
    int br = m->numRowsPerBlock(), bc = m->numColsPerBlock(), nr = m->numRows(), nc = m->numCols();
    auto rm = m->rowMap(); auto ci = m->columnIndices(); auto en = m->entries();
    REQ((int)rm.extent(0) == nr / br + 1, "row map length " << rm.extent(0) << " for " << nr / br << " block rows");
    REQ(rm(0) == 0, "row map starts at " << rm(0));
    int nnz = rm(nr / br);
    REQ((int)ci.extent(0) == nnz, "column index count " << ci.extent(0) << " vs " << nnz);
    REQ((int)en.extent(0) == nnz * br * bc, "entry count " << en.extent(0) << " vs " << nnz * br * bc);
    dmat d = zeros(nr, nc); std::vector<int> seen(nc / bc, -1);
    for (int i = 0; i < nr / br; ++i) { REQ(rm(i) <= rm(i + 1), "row map decreases"); for (int k = rm(i); k < rm(i + 1); ++k) { int j = ci(k); REQ(j >= 0 && j < nc / bc, "column " << j << " of " << nc / bc); REQ(seen[j] != i, "duplicate column " << j << " in row " << i); seen[j] = i;
        for (int a = 0; a < br; ++a) for (int b = 0; b < bc; ++b) d[i * br + a][j * bc + b] = en(k * br * bc + a * bc + b); } }
    return d;
}
inline void sameDense(const dmat& got, const dmat& want, double scale, const char* what) {
    REQ(got.size() == want.size(), what << " rows");
    for (size_t i = 0; i < want.size(); ++i) { REQ(got[i].size() == want[i].size(), what << " cols"); for (size_t j = 0; j < want[i].size(); ++j) NEAR(got[i][j], want[i][j], scale, what << " (" << i << "," << j << ")"); }
}
} // namespace h
