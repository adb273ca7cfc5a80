// P03: imposing essential boundary values on an assembled system.
#include <set>
#include "crs.hpp"
#include "ApplyConstraints.hpp"
using namespace h;
// structurally symmetric, diagonally dominant system; values symmetric or not
template<int B> static void run(pbt::Src& s, bool block, bool symValues) {
    int n = s.len(1, block ? 6 : 12, 4), N = n * B; auto p = pattern(s, n, n, true, true, s.flag()); auto D = randDense(s, p, B, B, 3);
    if (symValues) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) D[i][j] = D[j][i];
    for (int i = 0; i < N; ++i) { double t = 0; for (int j = 0; j < N; ++j) t += std::fabs(D[i][j]); D[i][i] = t + 1; }
    auto A = crs(p, B, B, D); dvec f = s.vec(N, 5); V1 vf = view(f);
    std::vector<int> dofs; for (int i = 0; i < N; ++i) if (s.chance(1, 3)) dofs.push_back(i);
    for (int i = 0; i + 1 < (int)dofs.size(); ++i) std::swap(dofs[i], dofs[i + s.intIn(0, (int)dofs.size() - 1 - i)]);
    int nb = dofs.size(); dvec val = s.vec(nb, 4); if (s.chance(1, 4)) for (auto& v : val) v = 0; bool twice = nb && s.chance(1, 6), again = s.chance(1, 8);
    if (twice) { for (int k = s.intIn(1, 3); k > 0; --k) { int i = s.intIn(0, nb - 1); dofs.push_back(dofs[i]); val.push_back(val[i]); } nb = dofs.size(); for (int i = 0; i + 1 < nb; ++i) { int j = i + s.intIn(0, nb - 1 - i); std::swap(dofs[i], dofs[j]); std::swap(val[i], val[j]); } s.tag("a dof listed twice"); } // shared by two boundary sets
    double scale = s.chance(1, 3) ? 1.0 : s.chance(1, 3) ? 0.0 : s.sreal(3);
    Plato::LocalOrdinalVector vd("d", nb); for (int i = 0; i < nb; ++i) vd(i) = dofs[i]; V1 vv = view(val);
    s.desc << N << " dofs (block " << B << "), " << nb << " constrained, scale " << scale << (symValues ? " symmetric" : " nonsymmetric"); s.tag(symValues ? "symmetric" : "nonsymmetric"); s.nontrivial(nb >= 1 && scale != 0 && std::set<int>(dofs.begin(), dofs.end()).size() < (size_t)N);
    if (block) Plato::applyBlockConstraints<B>(A, vf, vd, vv, scale); else Plato::applyConstraints<B>(A, vf, vd, vv, scale);
    if (again) { if (block) Plato::applyBlockConstraints<B>(A, vf, vd, vv, scale); else Plato::applyConstraints<B>(A, vf, vd, vv, scale); s.tag("imposed again"); } // imposing the same values once more changes nothing
    auto M = dense(A); std::vector<int> fixed(N, -1); for (int i = 0; i < nb; ++i) fixed[dofs[i]] = i;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        double w = (fixed[i] >= 0 || fixed[j] >= 0) ? (i == j ? 1.0 : 0.0) : D[i][j];
        NEAR(M[i][j], w, 0, "matrix (" << i << "," << j << ") fixed=" << (fixed[i] >= 0) << (fixed[j] >= 0));
    }
    for (int i = 0; i < N; ++i) {
        double w = f[i]; if (fixed[i] >= 0) w = scale * val[fixed[i]]; else for (int j = 0; j < N; ++j) if (fixed[j] >= 0) w -= D[i][j] * scale * val[fixed[j]];
        NEAR(vf(i), w, 300, "right-hand side " << i << (fixed[i] >= 0 ? " (constrained)" : " (free)"));
    }
    dvec x; REQ(solve(M, vec(vf), x), "constrained system singular"); // the solution honours the data and the free equations
    for (int i = 0; i < N; ++i) if (fixed[i] >= 0) NEAR(x[i], scale * val[fixed[i]], 10, "solution at constrained dof " << i);
        else { double r = -f[i]; for (int j = 0; j < N; ++j) r += D[i][j] * x[j]; NEAR(r, 0.0, 1e4, "free equation " << i << " residual"); }
    for (int i = 0; i < nb; ++i) { REQ(vd(i) == dofs[i], "dof list changed"); REQ(vv(i) == val[i], "value list changed"); }
}
PBT("block_symmetric", 1500, "some but not all dofs constrained, nonzero scale") { switch (s.intIn(0, 3)) { case 0: run<1>(s, true, true); break; case 1: run<2>(s, true, true); break; case 2: run<3>(s, true, true); break; default: run<4>(s, true, true); } }
PBT("block_nonsymmetric", 1500, "some but not all dofs constrained, nonzero scale") { switch (s.intIn(0, 3)) { case 0: run<1>(s, true, false); break; case 1: run<2>(s, true, false); break; case 2: run<3>(s, true, false); break; default: run<4>(s, true, false); } }
PBT("scalar_symmetric", 1500, "some but not all dofs constrained, nonzero scale") { run<1>(s, false, true); }
PBT("scalar_nonsymmetric", 1500, "some but not all dofs constrained, nonzero scale") { run<1>(s, false, false); }
// The same system in other units (rows and columns scaled by powers of two): exactly the scaled right-hand side and matrix.
PBT("graded_system", 1500, "some but not all dofs constrained") {
    const int B = 2; bool block = s.flag(); int n = s.len(1, 6, 4), N = block ? n * B : n; auto p = pattern(s, n, n, true, true, s.flag()); auto D = block ? randDense(s, p, B, B, 3) : randDense(s, p, 1, 1, 3); auto G = D; std::vector<int> l(N), u(N); auto p2 = [](int e) { return std::ldexp(1.0, e); };
    for (int i = 0; i < N; ++i) { l[i] = s.intIn(0, 120) - 60; u[i] = s.intIn(0, 120) - 60; } for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) G[i][j] = D[i][j] * p2(l[i] - u[j]);
    std::vector<int> dofs; for (int i = 0; i < N; ++i) if (s.chance(1, 3)) dofs.push_back(i); int nb = dofs.size(); dvec f = s.vec(N, 5), val = s.vec(nb, 4), gf = f, gv = val; double scale = s.flag() ? 1.0 : s.sreal(3); for (int i = 0; i < N; ++i) gf[i] *= p2(l[i]); for (int i = 0; i < nb; ++i) gv[i] *= p2(u[dofs[i]]);
    s.desc << "graded system of " << N << " dofs, " << nb << " constrained"; s.nontrivial(nb >= 1 && nb < N); Plato::LocalOrdinalVector vd("d", nb); for (int i = 0; i < nb; ++i) vd(i) = dofs[i];
    auto A = crs(p, block ? B : 1, block ? B : 1, D), H = crs(p, block ? B : 1, block ? B : 1, G); V1 vf = view(f), vg = view(gf); if (block) { Plato::applyBlockConstraints<B>(A, vf, vd, view(val), scale); Plato::applyBlockConstraints<B>(H, vg, vd, view(gv), scale); } else { Plato::applyConstraints<1>(A, vf, vd, view(val), scale); Plato::applyConstraints<1>(H, vg, vd, view(gv), scale); }
    auto M = dense(A), K = dense(H); std::vector<bool> fx(N, false); for (int d : dofs) fx[d] = true;
    for (int i = 0; i < N; ++i) { double w = vf(i) * p2(fx[i] ? u[i] : l[i]); REQ(vg(i) == w, "right-hand side " << i << ": " << vg(i) << " instead of " << w); for (int j = 0; j < N; ++j) { w = i == j && fx[i] ? 1.0 : M[i][j] * p2(l[i] - u[j]); REQ(K[i][j] == w, "matrix (" << i << "," << j << "): " << K[i][j] << " instead of " << w); } }
}
