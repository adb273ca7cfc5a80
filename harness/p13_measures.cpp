// Scalar measures of stress and strain: equivalent stresses, principal values, energies and p-norms.
#include "cell.hpp"
#include <Sacado.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_Array.hpp>
#include <Teuchos_RCP.hpp>
#include <sstream>
#include "SimplexMechanics.hpp"
#include "VonMisesYieldFunction.hpp"
#include "Eigenvalues.hpp"
#include "TensileEnergyDensity.hpp"
#include "VectorPNorm.hpp"
#include "TensorPNorm.hpp"
using namespace h;
using PL = Teuchos::ParameterList;
#define DIMS(F) { switch (s.intIn(0, 2)) { case 0: F<2>(s); break; case 1: F<3>(s); break; default: F<1>(s); } }

// the 3x3 tensor of Voigt components; eng: shear stored doubled
template<int D> static dmat ten(const dvec& v, bool eng = false) { dmat t = zeros(3, 3); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) t[i][j] = v[voigt(D, i, j)] * (eng && i != j ? .5 : 1); return t; }
template<int D> static dvec vgt(const dmat& t, bool eng = false) { dvec v(nvoigt(D)); for (int i = 0; i < D; ++i) for (int j = i; j < D; ++j) v[voigt(D, i, j)] = t[i][j] * (eng && i != j ? 2 : 1); return v; }
template<int D> static dmat rot(const dmat& t, const dmat& q) { dmat Q = zeros(3, 3); for (int i = 0; i < 3; ++i) Q[i][i] = 1; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) Q[i][j] = q[i][j]; return matmul(matmul(Q, t), transpose(Q)); }
// reference principal values: cyclic Jacobi to convergence, sorted
static dvec principal(dmat a) {
    for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < 2; ++p) for (int q = p + 1; q < 3; ++q) {
        if (a[p][q] == 0) continue; double th = 0.5 * std::atan2(2 * a[p][q], a[p][p] - a[q][q]), c = std::cos(th), sn = std::sin(th);
        for (int k = 0; k < 3; ++k) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x + sn * y; a[k][q] = -sn * x + c * y; }
        for (int k = 0; k < 3; ++k) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x + sn * y; a[q][k] = -sn * x + c * y; } }
    dvec r{a[0][0], a[1][1], a[2][2]}; std::sort(r.begin(), r.end()); return r;
}
// random symmetric tensor: generic, diagonal, uniaxial, hydrostatic, single shear, negative shears
template<int D> static dvec gen(pbt::Src& s, double m, std::string& kind) {
    int N = nvoigt(D); dvec v(N, 0.0); int k = s.intIn(0, 5); 
    if (k <= 1) { v = s.vec(N, m); kind = "generic"; } else if (k == 2) { for (int i = 0; i < D; ++i) v[i] = s.sreal(m); kind = "diagonal"; } else if (k == 3) { v[s.intIn(0, D - 1)] = s.sreal(m); kind = "uniaxial"; }
    else if (k == 4) { double p = s.sreal(m); for (int i = 0; i < D; ++i) v[i] = p; kind = "hydrostatic"; } else { v[N - 1 - (D == 3 ? s.intIn(0, 2) : 0)] = s.sreal(m); kind = "one shear"; }
    return v;
}

template<int D> static void vm(pbt::Src& s) {
    const int N = nvoigt_c(D); int n = s.len(1, 3), c = s.intIn(0, n - 1); double m = s.mag(1e-3, 1e5); std::string kind; dmat S(n); for (auto& r : S) r = gen<D>(s, m, kind); V2 a = view2(S, N); V1 o("o", n); for (int e = 0; e < n; ++e) o(e) = -3; Plato::VonMisesYieldFunction<D> f; f(c, a, o);
    s.desc << "von Mises D=" << D << " " << kind << " " << str(S[c]); s.nontrivial(D > 1 && kind == "generic");
    dmat t = ten<D>(S[c]); double tr = (t[0][0] + t[1][1] + t[2][2]) / 3, j = 0; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { double d = t[i][k] - (i == k ? tr : 0); j += d * d; }
    NEAR(o(c), std::sqrt(1.5 * j), m, "von Mises stress"); REQ(o(c) >= 0, "negative equivalent stress"); for (int e = 0; e < n; ++e) if (e != c) REQ(o(e) == -3, "another cell changed");
    dmat q = rotation(s, D); V2 b = view2({vgt<D>(rot<D>(t, q))}, N); V1 ob("ob", 1); f(0, b, ob); NEAR(ob(0), o(c), m, "rotated von Mises stress");
    if (D == 3) { double p = s.sreal(m); V2 h = view2({S[c]}, N); for (int i = 0; i < 3; ++i) h(0, i) += p; V1 oh("oh", 1); f(0, h, oh); NEARTOL(oh(0), o(c), m, 1e-7, "von Mises stress with added pressure"); }
    // derivative (away from zero): 3/2 dev / sigma_vm, for three dimensions
    if (D == 3 && o(c) > 1e-3 * m) { using F = Sacado::Fad::SFad<double, nvoigt_c(D)>; Plato::ScalarMultiVectorT<F> af("a", 1, N); Plato::ScalarVectorT<F> of("o", 1); for (int k = 0; k < N; ++k) af(0, k) = F(N, k, S[c][k]); f(0, af, of); for (int i = 0; i < 3; ++i) for (int k = i; k < 3; ++k) { double d = t[i][k] - (i == k ? tr : 0); NEARTOL(of(0).dx(voigt(3, i, k)), 1.5 * d / o(c) * (i != k ? 2 : 1), 1, 1e-8, "derivative " << i << k); } }
}
PBT("von_mises", 900, "generic stress in two or three dimensions") DIMS(vm)

template<int D> static void eig(pbt::Src& s) {
    const int N = nvoigt_c(D); int n = s.len(1, 3), c = s.intIn(0, n - 1); double m = s.mag(1e-3, 1e5); bool strain = s.flag(); std::string kind; dmat S(n); for (auto& r : S) r = gen<D>(s, m, kind); V2 a = view2(S, N), o("o", n, D); for (int e = 0; e < n; ++e) for (int k = 0; k < D; ++k) o(e, k) = 77;
    int how = s.intIn(0, 2); int it = s.intIn(12, 30); Plato::Eigenvalues<D> f = how == 1 ? Plato::Eigenvalues<D>(it) : Plato::Eigenvalues<D>(); if (how == 2) f.setNumFixedIterations(it); f(c, a, o, strain);
    s.desc << "principal values D=" << D << " " << kind << (strain ? " strain " : " stress ") << str(S[c]) << (how ? " iterations " : " default iterations ") << (how ? it : 6); s.nontrivial(D > 1 && kind == "generic");
    dmat t = ten<D>(S[c], strain); dvec w, g; if (D == 3) w = principal(t); else if (D == 2) { double h = (t[0][0] + t[1][1]) / 2, r = std::hypot((t[0][0] - t[1][1]) / 2, t[0][1]); w = {h - r, h + r}; } else w = {t[0][0]};
    for (int k = 0; k < D; ++k) { REQ(std::isfinite(o(c, k)), "principal value " << k << " is " << o(c, k)); g.push_back(o(c, k)); } std::sort(g.begin(), g.end());
    // the default of six rotations leaves at most a small off-diagonal remainder; more rotations leave none
    double tol = D == 3 && how == 0 ? 2e-2 : 1e-9; for (int k = 0; k < D; ++k) NEARTOL(g[k], w[k], 3 * m, tol, "principal value " << k);
    double t1 = 0, t2 = 0, g1 = 0, g2 = 0; for (int i = 0; i < 3; ++i) { t1 += t[i][i]; for (int j = 0; j < 3; ++j) t2 += t[i][j] * t[i][j]; } for (double x : g) { g1 += x; g2 += x * x; }
    NEAR(g1, t1, 3 * m, "sum of the principal values"); REQ(g2 <= t2 + 1e-9 * 9 * m * m, "principal values outgrow the tensor"); if (tol == 1e-9) NEAR(g2, t2, 9 * m * m, "sum of squares of the principal values");
    for (int e = 0; e < n; ++e) if (e != c) for (int k = 0; k < D; ++k) REQ(o(e, k) == 77, "another cell changed");
    if (kind == "generic" && D > 1 && how) { // derivative of the symmetric functions, whatever the order
        using F = Sacado::Fad::SFad<double, nvoigt_c(D)>; Plato::ScalarMultiVectorT<F> af("a", 1, N), of("o", 1, D); for (int k = 0; k < N; ++k) af(0, k) = F(N, k, S[c][k]); f(0, af, of, strain);
        F p1 = 0, p2 = 0; for (int k = 0; k < D; ++k) { p1 += of(0, k); p2 += of(0, k) * of(0, k); } for (int k = 0; k < N; ++k) { bool sh = k >= D; NEARTOL(p1.dx(k), sh ? 0 : 1, 1, 1e-6, "derivative of the trace " << k); NEARTOL(p2.dx(k), S[c][k] * (sh ? (strain ? 1 : 4) : 2), 4 * m, 1e-6, "derivative of the square " << k); } }
}
PBT("principal_values", 900, "generic tensor in two or three dimensions") DIMS(eig)

template<int D> static void tens(pbt::Src& s) {
    int n = s.len(1, 3), c = s.intIn(0, n - 1); double m = s.mag(1e-3, 1e2), la = s.logreal(1e-2, 1e2), mu = s.logreal(1e-2, 1e2); dmat P = randMat(s, n, D, m); if (s.chance(1, 4)) P[c][s.intIn(0, D - 1)] = 0; if (s.chance(1, 4)) for (auto& x : P[c]) x = -std::fabs(x); V2 p = view2(P, D); V1 o("o", n); for (int e = 0; e < n; ++e) o(e) = -1; Plato::TensileEnergyDensity<D> f; f(c, p, la, mu, o);
    double w = 0, t = 0; bool pos = false, neg = false; for (double x : P[c]) { t += x; if (x > 0) { w += mu * x * x; pos = true; } if (x < 0) neg = true; } if (t > 0) w += 0.5 * la * t * t; s.desc << "tensile energy D=" << D << " principal strains " << str(P[c]); s.nontrivial(pos && neg);
    NEAR(o(c), w, m * m * (la + mu), "tensile energy density"); REQ(o(c) >= 0, "negative energy"); if (!pos) REQ(o(c) == 0, "energy of a compressive state"); for (int e = 0; e < n; ++e) if (e != c) REQ(o(e) == -1, "another cell changed");
    using F = Sacado::Fad::SFad<double, D>; Plato::ScalarMultiVectorT<F> pf("p", 1, D); Plato::ScalarVectorT<F> of("o", 1); for (int k = 0; k < D; ++k) pf(0, k) = F(D, k, P[c][k]); f(0, pf, la, mu, of); for (int k = 0; k < D; ++k) NEAR(of(0).dx(k), 2 * mu * std::max(0., P[c][k]) + la * std::max(0., t), m * (la + mu), "derivative " << k);
}
PBT("tensile_energy", 500, "principal strains of both signs") { switch (s.intIn(0, 1)) { case 0: tens<2>(s); break; default: tens<3>(s); } }

template<int N> static void vecnorm(pbt::Src& s) { int n = s.len(1, 3), c = s.intIn(0, n - 1), p = s.intIn(1, 9); double m = s.mag(0.05, 20), v = s.logreal(1e-3, 1e3); dmat A = randMat(s, n, N, m); V1 o("o", n), vol("v", n); for (int e = 0; e < n; ++e) { o(e) = -2; vol(e) = v * (e + 1); } Plato::VectorPNorm<N> f; f(c, o, view2(A, N), p, vol); double q = 0; for (double x : A[c]) q += x * x; s.desc << "vector norm of " << N << " exponent " << p; s.nontrivial(p % 2 == 1); NEAR(o(c), vol(c) * std::pow(std::sqrt(q), p), 0, "vector p-norm"); for (int e = 0; e < n; ++e) if (e != c) REQ(o(e) == -2, "another cell changed"); }
PBT("vector_norm", 300, "odd exponent") { switch (s.intIn(0, 2)) { case 0: vecnorm<3>(s); break; case 1: vecnorm<2>(s); break; default: vecnorm<6>(s); } }

struct EvT { using ResultScalarType = double; using ControlScalarType = double; using ConfigScalarType = double; using StateScalarType = double; };
template<int N> struct EvF { using ResultScalarType = Sacado::Fad::SFad<double, N>; using ControlScalarType = double; using ConfigScalarType = double; using StateScalarType = ResultScalarType; };

template<int D> static void tnorm(pbt::Src& s) {
    const int N = nvoigt_c(D); int n = s.len(1, 4); double m = s.mag(0.1, 10); std::string kind = "generic"; dmat S(n); for (auto& r : S) r = gen<D>(s, m, kind); bool whole = s.flag(); double p = whole ? s.intIn(1, 8) : s.real(1.05, 9.95); int type = s.intIn(0, 3); dvec vol(n); for (auto& x : vol) x = s.logreal(1e-3, 1e3);
    PL l; l.set<double>("Exponent", p); double rw = 1, sw = 1; int be = 6; dmat T1 = zeros(6, 6), T2 = zeros(6, 6);
    if (type == 1) { auto& nl = l.sublist("Normalize"); nl.set<std::string>("Type", "Scalar"); auto& q = nl.sublist("Scalar"); if (s.flag()) q.set<double>("Reference Weight", rw = s.logreal(0.1, 10)); if (s.flag()) q.set<double>("Scalar Product Weight", sw = s.logreal(0.1, 10)); }
    if (type == 2) { auto& nl = l.sublist("Normalize"); nl.set<std::string>("Type", "Barlat"); auto& q = nl.sublist("Barlat"); if (s.flag()) q.set<double>("Reference Weight", rw = s.logreal(0.1, 10)); if (s.flag()) q.set<int>("Barlat Exponent", be = 2 * s.intIn(1, 4));
        bool id = s.chance(1, 3); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { T1[i][j] = id ? (i == j) : (i == j ? 1 : 0) + s.real(-.3, .3) * ((i < 3 && j < 3) || i == j); T2[i][j] = id ? (i == j) : (i == j ? 1 : 0) + s.real(-.3, .3) * ((i < 3 && j < 3) || i == j); }
        for (int i = 0; i < 6; ++i) { Teuchos::Array<double> a(T1[i].begin(), T1[i].end()), b(T2[i].begin(), T2[i].end()); q.set("T1" + std::to_string(i), a); q.set("T2" + std::to_string(i), b); } }
    if (type == 3) { auto& nl = l.sublist("Normalize"); nl.set<std::string>("Type", "None"); }
    s.desc << "tensor norm D=" << D << " type " << (type == 1 ? "scalar" : type == 2 ? "Barlat" : "plain") << " exponent " << p << " stress " << kind << " " << str(S[0]); s.nontrivial(!whole || type == 2); s.tag(type == 2 ? "barlat" : type == 1 ? "scalar" : "plain");
    auto eff = [&](const dvec& v) { if (type != 2) { double q = 0; for (double x : v) q += x * x; return type == 1 ? std::sqrt(sw * q) / rw : std::sqrt(q); }
        dvec s6(6, 0.0); if (D == 3) s6 = v; else if (D == 2) { s6[0] = v[0]; s6[1] = v[1]; s6[5] = v[2]; } else s6[0] = v[0]; double mean = (s6[0] + s6[1] + s6[2]) / 3; for (int i = 0; i < 3; ++i) s6[i] -= mean;
        dvec a(6, 0.0), b(6, 0.0); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { a[i] += T1[i][j] * s6[j]; b[i] += T2[i][j] * s6[j]; } dvec pa = principal(ten<3>(a)), pb = principal(ten<3>(b)); double phi = 0; for (double x : pa) for (double y : pb) phi += std::pow(std::fabs(x - y), be); return std::pow(phi / 4, 1.0 / be) / rw; };
    Plato::TensorNormFactory<N, EvT> fac; auto f = fac.create(l); V1 o("o", n); for (int e = 0; e < n; ++e) o(e) = 12; V2 ctl("c", n, D + 1); f->evaluate(o, view2(S, N), ctl, view(vol)); double sum = 0, want = 0;
    for (int e = 0; e < n; ++e) { double ef = eff(S[e]); if (type == 2) { REQ(std::isfinite(o(e)), "the Barlat norm is " << o(e)); double back = std::pow(o(e) / vol[e], 1 / p); NEARTOL(back, ef, 3 * m / rw, 1e-5, "effective stress of cell " << e); } else NEAR(o(e), vol[e] * std::pow(ef, p), 0, "cell " << e); sum += o(e); want += vol[e] * std::pow(ef, p); }
    double val = sum; f->postEvaluate(val); NEAR(val, std::pow(sum, 1 / p), 0, "p-th root"); if (type != 2) NEAR(val, std::pow(want, 1 / p), 0, "norm of the field");
    // scaling: the norm is homogeneous of degree one
    { double k = s.logreal(0.2, 5); dmat S2 = S; for (auto& r : S2) for (auto& x : r) x *= k; V1 o2("o", n); f->evaluate(o2, view2(S2, N), ctl, view(vol)); double v2 = 0; for (int e = 0; e < n; ++e) v2 += o2(e); if (sum > 0 && type != 2) { f->postEvaluate(v2); NEARTOL(v2, k * val, 0, 1e-8, "norm of the scaled field"); } }
    // gradient: derivative of the root of the sum, from the derivative of the sum
    if (sum > 1e-8) { dvec g = s.vec(3, 5); V1 gv = view(g); f->postEvaluate(gv, sum); for (int i = 0; i < 3; ++i) NEARTOL(gv(i), g[i] * std::pow(sum, 1 / p - 1) / p, 0, 1e-9, "chain rule entry " << i); }
    if (type != 2) { using F = EvF<N>; Plato::TensorNormFactory<N, F> ff; auto af = ff.create(l); Plato::ScalarVectorT<typename F::ResultScalarType> of("o", n); Plato::ScalarMultiVectorT<typename F::ResultScalarType> tf("t", n, N); for (int e = 0; e < n; ++e) for (int k = 0; k < N; ++k) tf(e, k) = typename F::ResultScalarType(N, k, S[e][k]); af->evaluate(of, tf, ctl, view(vol));
        for (int e = 0; e < n; ++e) { double ef = eff(S[e]); if (ef < 1e-3 * m) continue; double fac2 = type == 1 ? sw / (rw * rw) : 1; for (int k = 0; k < N; ++k) NEARTOL(of(e).dx(k), vol[e] * p * std::pow(ef, p - 2) * fac2 * S[e][k], vol[e] * p * std::pow(ef, p - 1), 1e-8, "derivative with respect to component " << k); } }
}
PBT("tensor_norm", 900, "non-integer exponent or Barlat criterion") DIMS(tnorm)
