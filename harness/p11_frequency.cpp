// Frequency domain: real and imaginary halves carried side by side behave as one complex field.
#include "cell.hpp"
#include <complex>
#include <Sacado.hpp>
#include <Teuchos_ParameterList.hpp>
#include "ComplexStrain.hpp"
#include "ComplexStressDivergence.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "DotProduct.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
using namespace h;
using C = std::complex<double>;
using PL = Teuchos::ParameterList;
#define DIMS(F) { switch (s.intIn(0, 2)) { case 0: F<2>(s); break; case 1: F<3>(s); break; default: F<1>(s); } }

template<int D> static void strain(pbt::Src& s) {
    const int N = 2 * D, nv = nvoigt(D); Cells<D> c(s); double m = s.mag(1e-3, 1e3); bool affine = s.flag();
    std::vector<std::vector<C>> G(D, std::vector<C>(D)); std::vector<C> b(D); for (auto& r : G) for (auto& x : r) x = C(s.sreal(m), s.sreal(m)); for (auto& x : b) x = C(s.sreal(m), s.sreal(m));
    V2 st("st", c.n, N * (D + 1)); V3 e3("e", c.n, 2, nv); double big = 0;
    for (int e = 0; e < c.n; ++e) for (int k = 0; k <= D; ++k) for (int i = 0; i < D; ++i) { C u = b[i]; if (affine) for (int a = 0; a < D; ++a) u += G[i][a] * c.x[e][k][a]; else u = C(s.sreal(m), s.sreal(m)); st(e, k * N + i) = u.real(); st(e, k * N + D + i) = u.imag(); big = std::max(big, std::abs(u)); }
    s.desc << "complex strain D=" << D << (affine ? " affine" : " arbitrary"); s.nontrivial(D > 1);
    Plato::ComplexStrain<D, N> f; for (int e = 0; e < c.n; ++e) f(e, st, c.grad, e3);
    for (int e = 0; e < c.n; ++e) { std::vector<std::vector<C>> g = G; if (!affine) for (int i = 0; i < D; ++i) for (int a = 0; a < D; ++a) { g[i][a] = 0; for (int k = 0; k <= D; ++k) g[i][a] += C(st(e, k * N + i), st(e, k * N + D + i)) * c.g[e][k][a]; }
        for (int i = 0; i < D; ++i) for (int j = i; j < D; ++j) { C w = i == j ? g[i][i] : g[i][j] + g[j][i]; double sc = big * maxabs(c.g[e]); NEAR(e3(e, 0, voigt(D, i, j)), w.real(), sc, "real strain " << i << j); NEAR(e3(e, 1, voigt(D, i, j)), w.imag(), sc, "imaginary strain " << i << j); } }
    // divergence of a complex stress and its work against that displacement
    V3 sg("sg", c.n, 2, nv); V2 fo("fo", c.n, N * (D + 1)); for (int e = 0; e < c.n; ++e) { for (int q = 0; q < nv; ++q) { sg(e, 0, q) = s.sreal(m); sg(e, 1, q) = s.sreal(m); } for (int q = 0; q < N * (D + 1); ++q) fo(e, q) = s.sreal(3); }
    Plato::ComplexStressDivergence<D, N> dv; for (int e = 0; e < c.n; ++e) dv(e, c.vol, c.grad, sg, fo);
    V1 en("en", c.n); Plato::ComplexElasticEnergy<nvoigt_c(D)> ee; for (int e = 0; e < c.n; ++e) { en(e) = 5; ee(e, sg, e3, en); }
    for (int e = 0; e < c.n; ++e) { double sc = c.v[e] * m * maxabs(c.g[e]);
        C work = 0, en2 = 0; for (int k = 0; k <= D; ++k) for (int i = 0; i < D; ++i) { C w = 0; for (int j = 0; j < D; ++j) w += c.v[e] * C(sg(e, 0, voigt(D, i, j)), sg(e, 1, voigt(D, i, j))) * c.g[e][k][j]; NEAR(fo(e, k * N + i), w.real(), sc, "real force, node " << k << " dim " << i); NEAR(fo(e, k * N + D + i), w.imag(), sc, "imaginary force, node " << k << " dim " << i);
            work += C(fo(e, k * N + i), fo(e, k * N + D + i)) * std::conj(C(st(e, k * N + i), st(e, k * N + D + i))); }
        for (int q = 0; q < nv; ++q) en2 += C(sg(e, 0, q), sg(e, 1, q)) * std::conj(C(e3(e, 0, q), e3(e, 1, q)));
        NEAR(en(e), en2.real(), m * big * maxabs(c.g[e]), "elastic energy"); NEAR(work.real(), c.v[e] * en(e), sc * big * 20, "work of the forces versus energy of the stress"); }
}
PBT("complex_strain_stress_energy", 900, "two or three dimensions") DIMS(strain)

template<int D> static void inertial(pbt::Src& s) {
    int n = s.len(1, 3); double m = s.mag(1e-2, 1e2), om = s.real(0, 50), rho = s.logreal(1e-2, 1e2); V2 u("u", n, 2 * D); V1 v("v", n), o("o", n); for (int e = 0; e < n; ++e) { v(e) = s.real(0.1, 3); o(e) = 9; for (int q = 0; q < 2 * D; ++q) u(e, q) = s.sreal(m); }
    s.desc << "inertial energy D=" << D << " omega " << om; s.nontrivial(om > 0); Plato::ComplexInertialEnergy<D> f(om, rho); for (int e = 0; e < n; ++e) f(e, v, u, o);
    for (int e = 0; e < n; ++e) { double w = 0; for (int i = 0; i < D; ++i) w -= om * om * rho * v(e) * std::norm(C(u(e, i), u(e, D + i))); NEAR(o(e), w, std::fabs(w), "cell " << e); }
}
PBT("inertial_energy", 300, "positive frequency") DIMS(inertial)

template<int D> static void damping(pbt::Src& s) {
    int n = s.len(1, 3), nodes = s.intIn(1, D + 1), N = 2 * D * nodes; double m = s.mag(1e-2, 1e2), am = s.sreal(2), ak = s.sreal(2); int how = s.intIn(0, 2); V2 K("K", n, N), M("M", n, N), a("a", n, N), b("b", n, N); for (int e = 0; e < n; ++e) for (int q = 0; q < N; ++q) { K(e, q) = s.sreal(m); M(e, q) = s.sreal(m); a(e, q) = 6; b(e, q) = 6; }
    PL p; if (how == 1) { if (s.flag()) p.set<double>("Rayleigh Mass Damping", am); else am = 0; if (s.flag()) p.set<double>("Rayleigh Stiffness Damping", ak); else ak = 0; } if (how == 2) { am = 0.025; ak = 0.023; }
    s.desc << "complex damping D=" << D << " nodes " << nodes << " mass " << am << " stiffness " << ak; s.nontrivial(nodes > 1);
    PL pAdj(p); auto f = how == 0 ? Plato::ComplexRayleighDamping<D>(am, ak) : how == 1 ? Plato::ComplexRayleighDamping<D>(p) : Plato::ComplexRayleighDamping<D>(); auto g = how == 0 ? Plato::AdjointComplexRayleighDamping<D>(am, ak) : how == 1 ? Plato::AdjointComplexRayleighDamping<D>(pAdj) : Plato::AdjointComplexRayleighDamping<D>();
    for (int e = 0; e < n; ++e) { f(e, K, M, a); g(e, K, M, b); }
    for (int e = 0; e < n; ++e) for (int k = 0; k < nodes; ++k) for (int i = 0; i < D; ++i) { int r = k * 2 * D + i, q = r + D; C z = C(0, -1) * (am * C(M(e, r), M(e, q)) + ak * C(K(e, r), K(e, q))); NEAR(a(e, r), z.real(), m, "real damping, node " << k); NEAR(a(e, q), z.imag(), m, "imaginary damping, node " << k); NEAR(b(e, r), -z.real(), m, "adjoint real damping, node " << k); NEAR(b(e, q), -z.imag(), m, "adjoint imaginary damping, node " << k); }
}
PBT("complex_damping", 600, "several nodes") DIMS(damping)

template<int D> static void misfit(pbt::Src& s) {
    const int N = 2 * D * (D + 1); int n = s.len(1, 3); double m = s.mag(1e-2, 1e2); dmat A = randMat(s, n, N, m), B = randMat(s, n, N, m); bool same = s.chance(1, 4); if (same) B = A; V2 a = view2(A, N), b = view2(B, N); V1 o("o", n); Plato::ComputeFrequencyResponseMisfit<D> f; s.desc << "misfit D=" << D << (same ? " equal states" : ""); s.nontrivial(!same);
    for (int e = 0; e < n; ++e) { o(e) = 3; f(e, a, b, o); double w = 0; for (int q = 0; q < N; ++q) w += 0.5 * (A[e][q] - B[e][q]) * (A[e][q] - B[e][q]); NEAR(o(e), w, m * m, "cell " << e); if (same) REQ(o(e) == 0, "misfit of equal states is " << o(e)); }
    using F = Sacado::Fad::SFad<double, N>; Plato::ScalarMultiVectorT<F> bf("bf", 1, N); Plato::ScalarVectorT<F> of("of", 1); for (int q = 0; q < N; ++q) bf(0, q) = F(N, q, B[0][q]); f(0, view2({A[0]}, N), bf, of); for (int q = 0; q < N; ++q) NEAR(of(0).dx(q), B[0][q] - A[0][q], m, "gradient " << q);
    // residual assembly over the dofs of the cell
    double w2 = s.real(0, 40); V2 el = view2(randMat(s, n, N, m), N), da = view2(randMat(s, n, N, m), N), in = view2(randMat(s, n, N, m), N); dmat P = randMat(s, n, N, m); V2 r = view2(P, N); for (int e = 0; e < n; ++e) Plato::structural_dynamics_cell_residual<N>(e, w2, el, da, in, r); for (int e = 0; e < n; ++e) for (int q = 0; q < N; ++q) NEAR(r(e, q), P[e][q] + el(e, q) + da(e, q) - w2 * in(e, q), m * (1 + w2), "dynamic residual dof " << q);
}
PBT("misfit_and_residual", 600, "unequal states") DIMS(misfit)

template<int N> static void dots(pbt::Src& s) { int n = s.len(1, 4); double m = s.mag(1e-3, 1e3); dmat A = randMat(s, n, N, m), B = randMat(s, n, N, m); V1 o("o", n); Plato::DotProduct<N> f; s.desc << "dot product of " << N; s.nontrivial(N > 1); for (int e = 0; e < n; ++e) { o(e) = 4; f(e, view2(A, N), view2(B, N), o); double w = 0; for (int q = 0; q < N; ++q) w += A[e][q] * B[e][q]; NEAR(o(e), w, m * m, "cell " << e); } }
PBT("dot_product", 200, "length above one") { switch (s.intIn(0, 3)) { case 0: dots<3>(s); break; case 1: dots<6>(s); break; case 2: dots<1>(s); break; default: dots<12>(s); } }
// full contraction of symmetric tensors, invariant under rotation (three dimensions, tensor shear components)
template<int D> static void ddot(pbt::Src& s) { const int n4 = D == 3 ? 6 : D == 2 ? 4 : 1; double m = s.mag(1e-3, 1e3); dmat A = randMat(s, 2, n4, m), B = randMat(s, 2, n4, m); V1 o("o", 2); Plato::DoubleDotProduct2ndOrderTensor<D> f; s.desc << "double dot D=" << D; s.nontrivial(D > 1);
    auto full = [&](const dvec& v) { dmat t = zeros(3, 3); if (D == 1) t[0][0] = v[0]; else if (D == 2) { t[0][0] = v[0]; t[1][1] = v[1]; t[0][1] = t[1][0] = v[2]; t[2][2] = v[3]; } else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t[i][j] = v[voigt(3, i, j)]; return t; };
    for (int e = 0; e < 2; ++e) { o(e) = 1; f(e, view2(A, n4), view2(B, n4), o); dmat a = full(A[e]), b = full(B[e]); double w = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w += a[i][j] * b[i][j]; NEAR(o(e), w, m * m * 9, "cell " << e); } }
PBT("double_dot", 300, "two or three dimensions") DIMS(ddot)
