// P07: material penalty and projection models used in topology optimization.
#include "plato.hpp"
#include <Teuchos_ParameterList.hpp>
#include <Sacado.hpp>
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyProjection.hpp"
#include "ApplyWeighting.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "Plato_TopOptFunctors.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace h;
using Fad = Sacado::Fad::SFad<double, 4>;
struct Quiet { int o; Quiet() { fflush(stdout); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { std::cout.flush(); fflush(stdout); dup2(o, 1); close(o); } };
// reference model: kind, exponent, floor, continuation step, bound, regularization length
struct Ref { int kind; double p, mn, step, bound, len;
    double val(double x) const { switch (kind) { case 0: return mn + (1 - mn) * std::pow(x, p); case 1: return mn + (1 - mn) * x / (1 + p * (1 - x)); case 2: if (x <= -len) return mn; if (x >= len) return 1; return mn + (1 - mn) * std::pow(0.5 * (1 + std::sin(M_PI * x / (2 * len))), p); default: return 1; } }
    double der(double x) const { switch (kind) { case 0: return x == 0 ? (p == 1 ? (1 - mn) : 0) : (1 - mn) * p * std::pow(x, p - 1); case 1: { double d = 1 + p * (1 - x); return (1 - mn) * (1 + p) / (d * d); } case 2: { if (x <= -len || x >= len) return 0; double t = M_PI / (2 * len), b = 0.5 * (1 + std::sin(t * x)); return (1 - mn) * p * std::pow(b, p - 1) * 0.5 * t * std::cos(t * x); } default: return 0; } }
    void update() { if (kind < 3) p = std::min(p + step, bound); } };
template<class M> static void eval(pbt::Src& s, const M& m, const Ref& r, const char* when) {
    for (int k = 0; k < 3; ++k) {
        double x = r.kind == 2 ? s.real(-1.5 * r.len, 1.5 * r.len) : s.real(0, 1); if (k == 1) x = r.kind == 2 ? -r.len : 0; if (k == 2 && s.flag()) x = r.kind == 2 ? r.len : 1;
        NEAR(m(x), r.val(x), 1, when << " value at " << x);
        if (r.kind == 0 && x == 0 && r.p < 1) continue;
        if (r.kind == 2 && std::fabs(std::fabs(x) - r.len) < 1e-6 * r.len) continue;
        Fad f(4, 2, x); f.fastAccessDx(0) = 0.5; Fad g = m(f); NEAR(g.val(), r.val(x), 1, when << " value with derivatives at " << x);
        for (int i = 0; i < 4; ++i) NEAR(g.dx(i), r.der(x) * f.dx(i), 10 * std::fabs(r.der(x)) + 1, when << " derivative component " << i << " at " << x);
    }
    if (r.kind < 2) { NEAR(m(1.0), 1.0, 1, when << " full material"); NEAR(m(0.0), r.mn, 1, when << " void material"); double a = s.real(0, 1), b = s.real(0, 1); if (a > b) std::swap(a, b); REQ(m(a) <= m(b) + 1e-14, when << " not monotone between " << a << " and " << b); REQ(m(a) >= r.mn - 1e-14 && m(b) <= 1 + 1e-14, when << " outside [floor,1]"); }
}
template<class M> static void history(pbt::Src& s, M& m, Ref& r) {
    int n = s.intIn(0, 12), moved = 0; s.desc << " start exponent " << r.p << " floor " << r.mn << " step " << r.step << " bound " << r.bound << ", " << n << " updates";
    eval(s, m, r, "initial"); for (int i = 0; i < n; ++i) { double b = r.p; { Quiet q; m.update(); } r.update(); if (r.p != b) ++moved; eval(s, m, r, "after update"); }
    s.nontrivial(moved >= 2 || r.kind == 3);
}
template<class M> static void setPar(pbt::Src& s, M& m, Ref& r, double dp, double dm) {
    std::map<std::string, Plato::Scalar> in; int k = s.intIn(0, 15); r.p = dp; r.mn = dm; r.step = 0.1; if (r.kind == 2) r.len = 1;
    if (k & 1) in["Exponent"] = r.p = s.real(1, 4); if (k & 2) in["Minimum Value"] = r.mn = s.real(0, 0.3); if (k & 4) in["Additive Continuation"] = r.step = s.real(0.01, 0.5); if (r.kind == 2 && (k & 8)) in["Regularization Length"] = r.len = s.real(0.5, 2);
    s.tag("set parameters"); s.desc << " set " << in.size() << " parameters"; m.setParameters(in);
}
static Ref ref(pbt::Src& s, int kind) { Ref r{kind, s.real(1, 4), s.real(0, 0.3), s.real(0.02, 0.7), s.real(2, 6), s.real(0.5, 2)}; return r; }
static void params(pbt::Src& s, Teuchos::ParameterList& p, Ref& r, double dp, double dm, double db) {
    if (s.chance(3, 4)) p.set<double>("Exponent", r.p); else r.p = dp; if (s.chance(3, 4)) p.set<double>("Minimum Value", r.mn); else r.mn = dm;
    if (s.chance(3, 4)) p.set<double>("Additive Continuation", r.step); else r.step = 0.1; if (s.chance(3, 4)) p.set<double>("Penalty Exponent Upper Bound", r.bound); else r.bound = db;
    if (r.kind == 2) { if (s.chance(3, 4)) p.set<double>("Regularization Length", r.len); else r.len = 1; }
}
PBT("simp", 1500, "the exponent moved at least twice") { Ref r = ref(s, 0); s.desc << "simp"; if (s.flag()) { Teuchos::ParameterList p; params(s, p, r, 3, 1e-9, 3); std::unique_ptr<Plato::MSIMP> m; { Quiet q; m.reset(new Plato::MSIMP(p)); } if (s.chance(1, 3)) setPar(s, *m, r, 3, 1e-9); history(s, *m, r); }
    else { Plato::MSIMP m(r.p, r.mn); r.step = 0.1; r.bound = 3; if (s.flag()) m.setPenalty(r.p = s.real(1, 2)); if (s.flag()) m.setMinimumErsatzMaterial(r.mn = s.real(0, 0.5)); if (s.flag()) m.setAdditiveContinuationValue(r.step = s.real(0.01, 0.4)); history(s, m, r); } }
PBT("ramp", 1500, "the exponent moved at least twice") { Ref r = ref(s, 1); s.desc << "ramp"; Teuchos::ParameterList p; params(s, p, r, 3, 0, 3); Plato::RAMP m(p); if (s.chance(1, 3)) setPar(s, m, r, 3, 1e-9); if (s.chance(1, 6)) { m = Plato::RAMP(); r.p = 3; r.mn = 0; r.step = 0.1; r.bound = 3; } history(s, m, r); }
PBT("heaviside", 1500, "the exponent moved at least twice") { Ref r = ref(s, 2); s.desc << "heaviside"; if (s.flag()) { Teuchos::ParameterList p; params(s, p, r, 1, 0, 1); Plato::Heaviside m(p); if (s.chance(1, 3)) setPar(s, m, r, 1, 1e-9); history(s, m, r); } else { Plato::Heaviside m(r.p, r.len, r.mn); r.step = 0.1; r.bound = 3; history(s, m, r); } }
PBT("no_penalty", 100, "always") { Ref r = ref(s, 3); Plato::NoPenalty m; s.desc << "none"; history(s, m, r); }

// applying a penalty to cell data: every entry of the cell, no other cell
template<int D, int T> static void weighting(pbt::Src& s) {
    int n = s.len(1, 4), c = s.intIn(0, n - 1); Ref r = ref(s, 0); Plato::MSIMP pen(r.p, r.mn); Plato::ApplyWeighting<D, T, Plato::MSIMP> w(pen); dmat z(n, dvec(D + 1)); double top = s.chance(1, 8) ? 1.8 : 1; for (auto& q : z) for (auto& x : q) x = s.real(0.05, top); V2 vz = view2(z, D + 1); double rho = 0; for (double x : z[c]) rho += x / (D + 1);
    double k = r.val(rho); dmat in = randMat(s, n, T, 3), out = randMat(s, n, T, 3); dvec in1 = s.vec(n, 3), out1 = s.vec(n, 3); s.desc << D << "D, cell " << c << " of " << n << ", density " << rho; s.nontrivial(n > 1);
    V2 a = view2(in, T); w(c, a, vz); for (int i = 0; i < n; ++i) for (int j = 0; j < T; ++j) NEAR(a(i, j), in[i][j] * (i == c ? k : 1), 3, "in-place weighting cell " << i << " term " << j);
    V2 b = view2(in, T), o = view2(out, T); w(c, b, o, vz); for (int i = 0; i < n; ++i) for (int j = 0; j < T; ++j) { NEAR(o(i, j), i == c ? k * in[i][j] : out[i][j], 3, "weighting cell " << i << " term " << j); REQ(b(i, j) == in[i][j], "input changed"); }
    V1 a1 = view(in1); w(c, a1, vz); for (int i = 0; i < n; ++i) NEAR(a1(i), in1[i] * (i == c ? k : 1), 3, "scalar weighting " << i);
    V1 b1 = view(in1), o1 = view(out1); w(c, b1, o1, vz); for (int i = 0; i < n; ++i) NEAR(o1(i), i == c ? k * in1[i] : out1[i], 3, "scalar weighting out " << i);
    // derivative with respect to the controls of the cell
    using CF = Sacado::Fad::SFad<double, D + 1>; Plato::ScalarMultiVectorT<CF> zf("z", n, D + 1), rf("r", n, T); for (int i = 0; i < n; ++i) for (int j = 0; j <= D; ++j) zf(i, j) = CF(D + 1, j, z[i][j]); Plato::ScalarMultiVectorT<double> inn = view2(in, T); w(c, inn, rf, zf);
    for (int j = 0; j < T; ++j) for (int d = 0; d <= D; ++d) NEAR(rf(c, j).dx(d), r.der(rho) / (D + 1) * in[c][j], 10, "derivative of weighted term " << j << " by control " << d);
    if (s.flag()) { { Quiet q; w.update(); } r.bound = 3; r.step = 0.1; r.update(); V2 e = view2(in, T); w(c, e, vz); for (int j = 0; j < T; ++j) NEAR(e(c, j), in[c][j] * r.val(rho), 3, "weighting after continuation"); }
}
PBT("weighting", 900, "more than one cell") { switch (s.intIn(0, 2)) { case 0: weighting<1, 1>(s); break; case 1: weighting<2, 3>(s); break; default: weighting<3, 6>(s); } }
PBT("apply_penalty", 900, "more than one cell") {
    int n = s.len(1, 4), c = s.intIn(0, n - 1), a = s.intIn(1, 6), b = s.intIn(1, 4); Ref r = ref(s, s.intIn(0, 1)); double rho = s.real(0.01, s.chance(1, 8) ? 1.8 : 1), k = r.val(rho); V3 v("v", n, a, b); std::vector<double> sv; for (int i = 0; i < n; ++i) for (int j = 0; j < a; ++j) for (int l = 0; l < b; ++l) { v(i, j, l) = s.sreal(3); sv.push_back(v(i, j, l)); } dmat m = randMat(s, n, a, 3); V2 vm = view2(m, a);
    s.desc << "cell " << c << " of " << n << " " << a << "x" << b; s.nontrivial(n > 1);
    if (r.kind == 0) { Plato::ApplyPenalty<Plato::MSIMP> p(Plato::MSIMP(r.p, r.mn)); p(c, rho, v); p(c, rho, vm); } else { Teuchos::ParameterList l; l.set<double>("Exponent", r.p); l.set<double>("Minimum Value", r.mn); Plato::ApplyPenalty<Plato::RAMP> p{Plato::RAMP(l)}; p(c, rho, v); p(c, rho, vm); }
    int q = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < a; ++j) { for (int l = 0; l < b; ++l) NEAR(v(i, j, l), sv[q++] * (i == c ? k : 1), 3, "penalised entry"); NEAR(vm(i, j), m[i][j] * (i == c ? k : 1), 3, "penalised row entry"); }
    V2 w = view2(m, a); if (a >= 3) { double f = s.sreal(2); Plato::apply_penalty<3>(c, f, w); for (int i = 0; i < n; ++i) for (int j = 0; j < a; ++j) NEAR(w(i, j), m[i][j] * (i == c && j < 3 ? f : 1), 6, "scaled entry " << i << "," << j); }
}
PBT("projections", 2500, "control values differ within a cell") {
    double beta = s.real(0.5, 30), eta = s.real(0.05, 0.95); int how = s.intIn(0, 5); Plato::HyperbolicTangentProjection t(beta, eta); Plato::HeavisideProjection hp(beta);
    if (how == 1) { Teuchos::ParameterList p; p.set<double>("Beta", beta); if (s.flag()) p.set<double>("Eta", eta); else eta = 0.5; t = Plato::HyperbolicTangentProjection(p); }
    if (how == 2) { t = Plato::HyperbolicTangentProjection(); t.setProjectionParameters(beta, eta); hp = Plato::HeavisideProjection(); hp.setCurvatureParameterBeta(beta); }
    if (how == 3) { t = Plato::HyperbolicTangentProjection(); if (s.flag()) { t.setCurvatureParameterBeta(beta); t.setTresholdLevelParameterEta(eta); } else { t.setTresholdLevelParameterEta(eta); t.setCurvatureParameterBeta(beta); } }
    if (how == 4) { t = Plato::HyperbolicTangentProjection(); eta = 0.5; if (s.flag()) { t.setCurvatureParameterBeta(beta); } else { beta = 10; hp = Plato::HeavisideProjection(); } }
    if (how == 5) for (int k = s.intIn(1, 5); k > 0; --k) { int op = s.intIn(0, 2); if (op != 1 && s.flag()) { beta = s.flag() ? beta * 2 : s.real(0.5, 30); if (beta > 60) beta = 1; } if (op != 0 && s.flag()) eta = s.real(0.05, 0.95); // any sequence of settings, some of them unchanged
        if (op == 0) { t.setCurvatureParameterBeta(beta); hp.setCurvatureParameterBeta(beta); } else if (op == 1) t.setTresholdLevelParameterEta(eta); else { t.setProjectionParameters(beta, eta); hp.setCurvatureParameterBeta(beta); } if (s.chance(1, 4)) { double y = s.real(0, 1); t.apply(y); hp.apply(y); } }
    auto f = [&](double x) { return (std::tanh(beta * eta) + std::tanh(beta * (x - eta))) / (std::tanh(beta * eta) + std::tanh(beta * (1 - eta))); }; auto fd = [&](double x) { double q = 1 / std::cosh(beta * (x - eta)); return beta * q * q / (std::tanh(beta * eta) + std::tanh(beta * (1 - eta))); };
    auto g = [&](double x) { return 1 - std::exp(-beta * (1 - x)) + (1 - x) * std::exp(-beta); }; auto gd = [&](double x) { return -beta * std::exp(-beta * (1 - x)) - std::exp(-beta); };
    double x = s.real(0, 1); s.desc << "beta " << beta << " eta " << eta << " x " << x << " how " << how; NEAR(t.apply(x), f(x), 1, "smooth threshold at " << x); NEAR(t.apply(0.0), 0.0, 1, "smooth threshold at 0"); NEAR(t.apply(1.0), 1.0, 1, "smooth threshold at 1"); NEAR(hp.apply(x), g(x), 1, "exponential threshold at " << x);
    Fad a(4, 1, x), b = t.apply(a), c = hp.apply(a); NEAR(b.dx(1), fd(x), 1 + beta, "smooth threshold slope"); NEAR(b.dx(0), 0.0, 1, "slope of others"); NEAR(c.dx(1), gd(x), 1 + beta, "exponential threshold slope");
    int n = s.len(1, 4), m = s.intIn(1, 4), k = s.intIn(0, n - 1); dmat z(n, dvec(m)); for (auto& r : z) for (auto& q : r) q = s.real(0, 1); V2 vz = view2(z, m); double rho = 0; for (double q : z[k]) rho += q / m; s.nontrivial(m > 1);
    NEAR((Plato::ApplyProjection<Plato::HyperbolicTangentProjection>(t)(k, vz)), f(rho), 1, "projected mean density"); NEAR((Plato::ApplyProjection<Plato::HeavisideProjection>(hp)(k, vz)), g(rho), 1, "projected mean density (exponential)");
    if (m == 4) { NEAR((Plato::cell_density<4>(k, vz)), rho, 1, "cell density"); dvec bf = s.vec(4, 1); V1 vb = view(bf); double tot = 0, mm = 0; for (int i = 0; i < 4; ++i) { tot += bf[i]; mm += bf[i] * z[k][i]; } NEAR((Plato::cell_mass<4>(k, vb, vz)), tot * mm, 16, "cell mass"); }
    if (m == 3) { NEAR((Plato::cell_density<3>(k, vz)), rho, 1, "cell density"); dvec bf = s.vec(3, 1); V1 vb = view(bf); double tot = 0, mm = 0; for (int i = 0; i < 3; ++i) { tot += bf[i]; mm += bf[i] * z[k][i]; } NEAR((Plato::cell_mass<3>(k, vb, vz)), tot * mm, 16, "cell mass"); }
}
