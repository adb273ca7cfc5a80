// Strains and gradients of nodal fields, and the virtual-work duality of the matching divergences.
#include "cell.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "EMKinematics.hpp"
#include "TMKinematics.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "PressureGradient.hpp"
#include "StrainDivergence.hpp"
using namespace h;

template<int D, class Fill> static V2 states(pbt::Src& s, const Cells<D>& c, int ndof, Fill fill) {
    V2 st("state", c.n, ndof * (D + 1)); (void)s;
    for (int e = 0; e < c.n; ++e) for (int k = 0; k <= D; ++k) for (int q = 0; q < ndof; ++q) st(e, k * ndof + q) = fill(e, k, q);
    return st;
}
// gradient of dof q of cell e, du_q/dx_a
template<int D> static dvec gradOf(const Cells<D>& c, const V2& st, int e, int ndof, int q) {
    dvec r(D, 0.0); for (int k = 0; k <= D; ++k) for (int a = 0; a < D; ++a) r[a] += st(e, k * ndof + q) * c.g[e][k][a]; return r;
}
struct Field { std::vector<dmat> G; std::vector<dvec> b; };   // affine field per cell: u = G x + b

template<int D, class K> static void run(pbt::Src& s, int ndof, std::vector<std::pair<int, double>> grads, const char* what,
                                          std::function<void(K&, int, V2, std::vector<V2>&, V2, V3)> call) {
    Cells<D> c(s);
    int mode = s.intIn(0, 2);   // 0 affine with random gradient, 1 rigid motion, 2 arbitrary nodal values
    s.desc << what << " D=" << D << " cells=" << c.n << " mode=" << mode;
    double m = s.mag(1e-3, 1e3);
    dmat G = randMat(s, ndof, D, m); dvec b = s.vec(ndof, m);
    if (mode == 1) for (int i = 0; i < D; ++i) for (int j = 0; j <= i; ++j) { if (i == j) G[i][i] = 0; else G[i][j] = -G[j][i]; }
    V2 st = states<D>(s, c, ndof, [&](int e, int k, int q) { if (mode == 2) return s.sreal(m); double r = b[q]; for (int a = 0; a < D; ++a) r += G[q][a] * c.x[e][k][a]; return r; });
    int nv = nvoigt(D);
    V2 strain("strain", c.n, nv); std::vector<V2> outs; for (size_t i = 0; i < grads.size(); ++i) { outs.push_back(V2("g", c.n, D)); for (int e = 0; e < c.n; ++e) for (int a = 0; a < D; ++a) outs.back()(e, a) = s.sreal(7.0); }
    K k;
    int only = s.chance(1, 3) ? s.intIn(0, c.n - 1) : -1;
    for (int e = 0; e < c.n; ++e) if (only < 0 || e == only) call(k, e, strain, outs, st, c.grad);
    s.nontrivial(D > 1 || mode != 1);
    for (int e = 0; e < c.n; ++e) {
        if (only >= 0 && e != only) { for (int q = 0; q < nv; ++q) NEAR(strain(e, q), 0.0, 0.0, what << ": the strain of a cell not asked for was written"); continue; }
        double gs = 0; for (auto& r : c.g[e]) gs = std::max(gs, maxabs(r));
        double sm = 0; for (int q = 0; q < ndof * (D + 1); ++q) sm = std::max(sm, std::fabs((double)st(e, q)));
        double scale = gs * sm;
        dmat gu; for (int q = 0; q < ndof; ++q) gu.push_back(mode == 2 ? gradOf<D>(c, st, e, ndof, q) : G[q]);
        for (int i = 0; i < D; ++i) for (int j = i; j < D; ++j) {
            double want = i == j ? gu[i][i] : gu[i][j] + gu[j][i];
            NEAR(strain(e, voigt(D, i, j)), want, scale, what << ": strain component (" << i << "," << j << ") of cell " << e);
        }
        for (size_t t = 0; t < grads.size(); ++t) for (int a = 0; a < D; ++a)
            NEAR(outs[t](e, a), grads[t].second * gu[grads[t].first][a], scale, what << ": gradient field " << t << " component " << a << " of cell " << e);
    }
}
template<int D> static void stabilized(pbt::Src& s) { run<D, Plato::StabilizedKinematics<D>>(s, D + 1, {{D, 1.0}}, "displacement-pressure", [](Plato::StabilizedKinematics<D>& k, int e, V2 st, std::vector<V2>& o, V2 x, V3 g) { k(e, st, o[0], x, g); }); }
template<int D> static void em(pbt::Src& s) { run<D, Plato::EMKinematics<D>>(s, D + 1, {{D, -1.0}}, "electromechanical", [](Plato::EMKinematics<D>& k, int e, V2 st, std::vector<V2>& o, V2 x, V3 g) { k(e, st, o[0], x, g); }); }
template<int D> static void tm(pbt::Src& s) { run<D, Plato::TMKinematics<D>>(s, D + 1, {{D, 1.0}}, "thermomechanical", [](Plato::TMKinematics<D>& k, int e, V2 st, std::vector<V2>& o, V2 x, V3 g) { k(e, st, o[0], x, g); }); }
template<int D> static void stm(pbt::Src& s) { run<D, Plato::StabilizedTMKinematics<D>>(s, D + 2, {{D, 1.0}, {D + 1, 1.0}}, "stabilized thermomechanical", [](Plato::StabilizedTMKinematics<D>& k, int e, V2 st, std::vector<V2>& o, V2 x, V3 g) { k(e, st, o[0], o[1], x, g); }); }
#define DIMS(F) { switch (s.intIn(0, 2)) { case 0: F<2>(s); break; case 1: F<3>(s); break; default: F<1>(s); } }
#define RULE "a field that is not a one-dimensional rigid motion"
PBT("stabilized-kinematics", 300, RULE) DIMS(stabilized)
PBT("electromechanical-kinematics", 300, RULE) DIMS(em)
PBT("thermomechanical-kinematics", 300, RULE) DIMS(tm)
PBT("stabilized-thermomechanical-kinematics", 300, RULE) DIMS(stm)

// <divergence(sigma), w> = scale * volume * sigma : eps(w) for every w, added onto what was there, other dofs untouched
template<int D, int N, int O> static void stressDiv(pbt::Src& s) {
    Cells<D> c(s); int nv = nvoigt(D); double m = s.mag(1e-3, 1e3);
    V2 sig("sig", c.n, nv), out("out", c.n, N * (D + 1)); dmat pre = randMat(s, c.n, N * (D + 1), m);
    for (int e = 0; e < c.n; ++e) { for (int q = 0; q < nv; ++q) sig(e, q) = s.sreal(m); for (int q = 0; q < N * (D + 1); ++q) out(e, q) = pre[e][q]; }
    bool def = s.flag(); double sc = def ? 1.0 : s.sreal(3.0);
    s.desc << "stress divergence D=" << D << " dofs/node=" << N << " offset=" << O << " scale=" << sc; s.nontrivial(D > 1 || !def);
    REQ((std::is_same<Plato::StressDivergence<D>, Plato::StressDivergence<D, D, 0>>::value), "default dofs per node and offset");
    Plato::StressDivergence<D, N, O> f;
    for (int e = 0; e < c.n; ++e) { if (def) f(e, out, sig, c.grad, c.vol); else f(e, out, sig, c.grad, c.vol, sc); }
    for (int e = 0; e < c.n; ++e) {
        double big = m + m * std::fabs(sc) * c.v[e] * maxabs(c.g[e]);
        for (int k = 0; k <= D; ++k) for (int q = 0; q < N; ++q) {
            double want = pre[e][k * N + q];
            if (q >= O && q < O + D) for (int j = 0; j < D; ++j) want += sc * c.v[e] * sig(e, voigt(D, q - O, j)) * c.g[e][k][j];
            NEAR(out(e, k * N + q), want, big, "node " << k << " dof " << q);
        }
        // work of a random virtual displacement, and of rigid motions
        bool rigid = s.flag(); dmat W = randMat(s, D, D, 1.0); dvec b = s.vec(D, 1.0);
        if (rigid) for (int i = 0; i < D; ++i) for (int j = 0; j <= i; ++j) { if (i == j) W[i][i] = 0; else W[i][j] = -W[j][i]; }
        double work = 0, want = 0, ws = 0;
        for (int k = 0; k <= D; ++k) for (int i = 0; i < D; ++i) { double w = b[i]; for (int a = 0; a < D; ++a) w += W[i][a] * c.x[e][k][a]; double t = w * (out(e, k * N + O + i) - pre[e][k * N + O + i]); work += t; ws += std::fabs(w) * big; }
        for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) want += sc * c.v[e] * sig(e, voigt(D, i, j)) * 0.5 * (W[i][j] + W[j][i]);
        if (rigid) want = 0;
        NEAR(work, want, ws, "virtual work" << (rigid ? " of a rigid motion" : ""));
    }
}
PBT("stress-divergence-duality", 500, "two or three dimensions, or an explicit scale") {
    switch (s.intIn(0, 8)) { case 0: stressDiv<2, 2, 0>(s); break; case 1: stressDiv<3, 3, 0>(s); break; case 2: stressDiv<3, 4, 0>(s); break; case 3: stressDiv<3, 5, 2>(s); break;
        case 4: stressDiv<2, 3, 0>(s); break; case 5: stressDiv<2, 4, 1>(s); break; case 6: stressDiv<1, 1, 0>(s); break; case 7: stressDiv<1, 2, 0>(s); break; default: stressDiv<3, 5, 0>(s); } }

template<int D, int N, int O> static void fluxDiv(pbt::Src& s) {
    Cells<D> c(s); double m = s.mag(1e-3, 1e3);
    V2 fl("fl", c.n, D), out("out", c.n, N * (D + 1)); dmat pre = randMat(s, c.n, N * (D + 1), m);
    for (int e = 0; e < c.n; ++e) { for (int q = 0; q < D; ++q) fl(e, q) = s.sreal(m); for (int q = 0; q < N * (D + 1); ++q) out(e, q) = pre[e][q]; }
    bool def = s.flag(); double sc = def ? 1.0 : s.sreal(3.0); s.desc << "flux divergence D=" << D << " dofs/node=" << N << " offset=" << O << " scale=" << sc; s.nontrivial(D > 1 || !def);
    REQ((std::is_same<Plato::FluxDivergence<D>, Plato::FluxDivergence<D, 1, 0>>::value), "default dofs per node and offset");
    Plato::FluxDivergence<D, N, O> f;
    for (int e = 0; e < c.n; ++e) { if (def) f(e, out, fl, c.grad, c.vol); else f(e, out, fl, c.grad, c.vol, sc); }
    for (int e = 0; e < c.n; ++e) {
        double big = m + m * std::fabs(sc) * c.v[e] * maxabs(c.g[e]), sum = 0;
        for (int k = 0; k <= D; ++k) for (int q = 0; q < N; ++q) { double want = pre[e][k * N + q]; if (q == O) for (int j = 0; j < D; ++j) want += sc * c.v[e] * fl(e, j) * c.g[e][k][j]; NEAR(out(e, k * N + q), want, big, "node " << k << " dof " << q); if (q == O) sum += out(e, k * N + q) - pre[e][k * N + q]; }
        NEAR(sum, 0.0, big * 4, "a constant test function must see no flux");
    }
}
PBT("flux-divergence-duality", 300, "two or three dimensions, or an explicit scale") {
    switch (s.intIn(0, 6)) { case 0: fluxDiv<2, 1, 0>(s); break; case 1: fluxDiv<3, 1, 0>(s); break; case 2: fluxDiv<3, 4, 3>(s); break; case 3: fluxDiv<3, 5, 4>(s); break; case 4: fluxDiv<2, 3, 2>(s); break; case 5: fluxDiv<1, 1, 0>(s); break; default: fluxDiv<2, 4, 3>(s); } }

template<int D, int N, int O> static void presDiv(pbt::Src& s) {
    Cells<D> c(s); double m = s.mag(1e-3, 1e3);
    V1 p("p", c.n); V2 out("out", c.n, N * (D + 1)); dmat pre = randMat(s, c.n, N * (D + 1), m);
    for (int e = 0; e < c.n; ++e) { p(e) = s.sreal(m); for (int q = 0; q < N * (D + 1); ++q) out(e, q) = pre[e][q]; }
    bool def = s.flag(); double sc = def ? 1.0 : s.sreal(3.0); s.desc << "pressure divergence D=" << D << " dofs/node=" << N << " offset=" << O << " scale=" << sc; s.nontrivial(D > 1 || !def);
    REQ((std::is_same<Plato::PressureDivergence<D>, Plato::PressureDivergence<D, D, 0>>::value), "default dofs per node and offset");
    Plato::PressureDivergence<D, N, O> f;
    for (int e = 0; e < c.n; ++e) { if (def) f(e, out, p, c.grad, c.vol); else f(e, out, p, c.grad, c.vol, sc); }
    // must equal the stress divergence of p*I
    V2 sig("sig", c.n, nvoigt(D)), ref("ref", c.n, N * (D + 1)); Plato::StressDivergence<D, N, O> sd;
    for (int e = 0; e < c.n; ++e) { for (int i = 0; i < D; ++i) sig(e, i) = p(e); sd(e, ref, sig, c.grad, c.vol, sc); }
    for (int e = 0; e < c.n; ++e) { double big = m + m * std::fabs(sc) * c.v[e] * maxabs(c.g[e]); for (int k = 0; k <= D; ++k) for (int q = 0; q < N; ++q) {
        double want = pre[e][k * N + q]; if (q >= O && q < O + D) want += sc * c.v[e] * p(e) * c.g[e][k][q - O];
        NEAR(out(e, k * N + q), want, big, "node " << k << " dof " << q); NEAR(out(e, k * N + q) - pre[e][k * N + q], ref(e, k * N + q), big, "pressure versus hydrostatic stress, node " << k << " dof " << q); } }
}
PBT("pressure-divergence-duality", 300, "two or three dimensions, or an explicit scale") {
    switch (s.intIn(0, 4)) { case 0: presDiv<2, 3, 0>(s); break; case 1: presDiv<3, 4, 0>(s); break; case 2: presDiv<3, 5, 1>(s); break; case 3: presDiv<2, 2, 0>(s); break; default: presDiv<1, 2, 1>(s); } }

template<int D> static void presGrad(pbt::Src& s) {
    Cells<D> c(s); double m = s.mag(1e-3, 1e3); bool def = s.chance(1, 4); double sc = def ? 1.0 : s.sreal(5.0);
    dmat P = randMat(s, c.n, D + 1, m); V2 pr = view2(P, D + 1), out("o", c.n, D); for (int e = 0; e < c.n; ++e) for (int a = 0; a < D; ++a) out(e, a) = s.sreal(9.0);
    Plato::PressureGradient<D> f0; Plato::PressureGradient<D> f1(sc); s.desc << "pressure gradient D=" << D << " scaling=" << sc; s.nontrivial(!def);
    for (int e = 0; e < c.n; ++e) { if (def) f0(e, out, pr, c.grad); else f1(e, out, pr, c.grad); }
    for (int e = 0; e < c.n; ++e) for (int a = 0; a < D; ++a) { double w = 0; for (int k = 0; k <= D; ++k) w += sc * P[e][k] * c.g[e][k][a]; NEAR(out(e, a), w, std::fabs(sc) * m * maxabs(c.g[e]), "component " << a); }
}
PBT("pressure-gradient", 200, "a scaling other than the default") DIMS(presGrad)
template<int D> static void strainDiv(pbt::Src& s) {
    int n = s.len(1, 4); int nv = nvoigt(D); double m = s.mag(1e-6, 1e6); dmat E = randMat(s, n, nv, m); V2 e = view2(E, nv); V1 o("o", n); for (int i = 0; i < n; ++i) o(i) = 5.0;
    s.desc << "strain divergence D=" << D << " " << str(E[0]); s.nontrivial();
    Plato::StrainDivergence<D> f; for (int i = 0; i < n; ++i) f(i, e, o);
    for (int i = 0; i < n; ++i) { double w = 0; for (int a = 0; a < D; ++a) w += E[i][a]; NEAR(o(i), w, m, "cell " << i); }
}
PBT("strain-divergence", 100, "every case") DIMS(strainDiv)

// position in the Voigt list <-> tensor entry
#include "VoigtMap.hpp"
template<int D> static void vmap(pbt::Src& s) { Plato::VoigtMap<D> m; int i = s.intIn(0, D - 1), j = s.intIn(0, D - 1), k = voigt(D, i, j); s.desc << "Voigt map D=" << D << " entry " << i << j; s.nontrivial(D > 1); int a = m.I[k], b = m.J[k]; REQ((a == i && b == j) || (a == j && b == i), "position " << k << " refers to entry " << a << b); REQ((int)(sizeof(m.I) / sizeof(m.I[0])) == nvoigt(D), "length"); }
PBT("voigt_map", 100, "two or three dimensions") { switch (s.intIn(0, 2)) { case 0: vmap<2>(s); break; case 1: vmap<3>(s); break; default: vmap<1>(s); } }
