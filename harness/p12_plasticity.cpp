// Elastic law, elastic strain and J2 flow of one cell, compared with full 3x3 tensor algebra.
#include "cell.hpp"
#include <Sacado.hpp>
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeElasticWork.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
using namespace h;
#define DIMS(F) { switch (s.intIn(0, 2)) { case 0: F<2>(s); break; case 1: F<3>(s); break; default: F<1>(s); } }
#define DIM23(F) { if (s.flag()) F<3>(s); else F<2>(s); }

// component order of the plasticity tensors: 11 / 11,22,12,33 / 11,22,33,23,13,12
constexpr int nc(int d) { return d == 3 ? 6 : d == 2 ? 4 : 1; }
static void ij(int d, int k, int& i, int& j) {
    static const int a3[6][2] = {{0,0},{1,1},{2,2},{1,2},{0,2},{0,1}}, a2[4][2] = {{0,0},{1,1},{0,1},{2,2}};
    if (d == 3) { i = a3[k][0]; j = a3[k][1]; } else if (d == 2) { i = a2[k][0]; j = a2[k][1]; } else i = j = 0;
}
static bool shear(int d, int k) { int i, j; ij(d, k, i, j); return i != j; }
// engineering: the stored shear is twice the tensor shear
static dmat tensor(int d, const dvec& v, bool engineering) { dmat t = zeros(3, 3); for (int k = 0; k < nc(d); ++k) { int i, j; ij(d, k, i, j); t[i][j] = t[j][i] = v[k] * (engineering && i != j ? 0.5 : 1.0); } return t; }
static double tr(const dmat& t) { return t[0][0] + t[1][1] + t[2][2]; }
static dmat dev(dmat t) { double m = tr(t) / 3; for (int i = 0; i < 3; ++i) t[i][i] -= m; return t; }
static double dot(const dmat& a, const dmat& b) { double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += a[i][j] * b[i][j]; return r; }
static dvec row(const V2& v, int c) { dvec r(v.extent(1)); for (size_t k = 0; k < r.size(); ++k) r[k] = v(c, k); return r; }

template<int D> static void elastic(pbt::Src& s) {
    const int N = nc(D); int n = s.len(1, 3); double m = s.mag(1e-4, 1e2), K = s.logreal(1e-2, 1e3), G = s.logreal(1e-2, 1e3);
    dmat E = randMat(s, n, N, m); if (s.chance(1, 4)) for (auto& r : E) for (int k = 0; k < N; ++k) r[k] = shear(D, k) ? 0 : r[0];
    V2 e = view2(E, N), sg("s", n, N), ds("ds", n, N), de("de", n, N); V1 w("w", n); int c = s.intIn(0, n - 1);
    for (int q = 0; q < n; ++q) { w(q) = 9; for (int k = 0; k < N; ++k) sg(q, k) = ds(q, k) = de(q, k) = 7; }
    s.desc << "elastic law D=" << D << " strain " << str(E[c]) << " bulk " << K << " shear " << G; s.nontrivial(D > 1);
    Plato::ComputeCauchyStress<D>()(c, K, G, e, sg); Plato::ComputeDeviatoricStress<D>()(c, G, e, ds); Plato::ComputeDeviatoricStrain<D>()(c, e, de); Plato::ComputeElasticWork<D>()(c, G, K, e, de, w);
    for (int q = 0; q < n; ++q) if (q != c) { REQ(w(q) == 9, "work of another cell changed"); for (int k = 0; k < N; ++k) REQ(sg(q, k) == 7 && ds(q, k) == 7 && de(q, k) == 7, "another cell changed"); }
    dmat t = tensor(D, E[c], true), d = dev(t); double sc = m * (K + G), trc = tr(t);
    for (int k = 0; k < N; ++k) { int i, j; ij(D, k, i, j);
        NEAR(ds(c, k), 2 * G * d[i][j], m * G, "deviatoric stress " << k);
        NEAR(de(c, k), d[i][j] * (i != j ? 2 : 1), m, "deviatoric strain " << k); }
    bool ok = true; for (int k = 0; k < N; ++k) { int i, j; ij(D, k, i, j); ok = ok && pbt::close(sg(c, k), 2 * G * d[i][j] + (i == j ? K * trc : 0), sc); }
    if (!ok) { // two recorded defects, identified by the exact law the code follows instead
        dvec wrong(N); double wt = D == 3 ? E[c][0] + E[c][1] + E[c][N > 3 ? 3 : 0] : E[c][0];
        for (int k = 0; k < N; ++k) { int i, j; ij(D, k, i, j); if (D == 3) wrong[k] = i == j ? 2 * G * (E[c][k] - wt / 3) + K * wt : G * E[c][k]; else wrong[k] = 2 * G * (E[c][0] - E[c][0] / 3) + K * E[c][0] / 3; }
        bool known = D != 2; for (int k = 0; k < N; ++k) known = known && pbt::close(sg(c, k), wrong[k], sc);
        std::ostringstream o; o << "Cauchy stress " << str(row(sg, c)) << " is not 2*shear*dev(strain)+bulk*trace(strain) of strain " << str(E[c]);
        if (known) s.known(D == 3 ? "cauchy-3d-trace" : "cauchy-1d-bulk", o.str()); else FAIL(o.str());
    }
    // stored energy: shear * |dev|^2 (as stored components) + bulk/2 trace^2
    dmat raw = tensor(D, row(de, c), false); if (D > 1) NEAR(w(c), G * dot(raw, raw) + 0.5 * K * trc * trc, m * m * (K + G), "elastic work");
    else NEAR(w(c), G * de(c, 0) * de(c, 0) + 0.5 * K * trc * trc, m * m * (K + G), "elastic work");
}
PBT("elastic_law", 900, "two or three dimensions") DIMS(elastic)

// the derivative of the stress is the elastic modulus, and the energy of a shear-free strain is the potential of that stress
template<int D> static void tangent(pbt::Src& s) {
    const int N = nc(D); using F = Sacado::Fad::SFad<double, nc(D)>; double m = s.mag(1e-3, 1e1), K = s.logreal(1e-2, 1e2), G = s.logreal(1e-2, 1e2);
    Plato::ScalarMultiVectorT<F> e("e", 1, N), sg("s", 1, N), de("d", 1, N), ds("ds", 1, N); Plato::ScalarVectorT<F> w("w", 1); dvec E(N);
    for (int k = 0; k < N; ++k) { E[k] = s.sreal(m); e(0, k) = F(N, k, E[k]); }
    s.desc << "elastic tangent D=" << D << " strain " << str(E); s.nontrivial(D > 1);
    Plato::ComputeCauchyStress<D>()(0, F(K), F(G), e, sg); Plato::ComputeDeviatoricStress<D>()(0, F(G), e, ds); Plato::ComputeDeviatoricStrain<D>()(0, e, de); Plato::ComputeElasticWork<D>()(0, G, K, e, de, w);
    for (int k = 0; k < N; ++k) for (int l = 0; l < N; ++l) { int i, j, a, b; ij(D, k, i, j); ij(D, l, a, b);
        double dd = shear(D, k) ? (k == l ? G : 0.0) : shear(D, l) ? 0.0 : 2 * G * ((k == l) - 1.0 / 3);
        NEAR(ds(0, k).dx(l), dd, G, "d dev stress " << k << " / d strain " << l);
        if (D == 2) { double cc = dd + (!shear(D, k) && !shear(D, l) ? K : 0.0); NEAR(sg(0, k).dx(l), cc, G + K, "d stress " << k << " / d strain " << l); } }
    for (int l = 0; l < N; ++l) if (!shear(D, l) && D > 1) NEAR(w(0).dx(l), 2 * G * (E[l] - (E[0] + E[1] + E[D == 3 ? 2 : 3]) / 3) + K * (E[0] + E[1] + E[D == 3 ? 2 : 3]), m * (G + K), "d work / d normal strain " << l);
}
PBT("elastic_tangent", 300, "two or three dimensions") DIMS(tangent)

template<int D, class Phys> static void thermal(pbt::Src& s, bool hasT) {
    const int N = nc(D), L = Phys::mNumLocalDofsPerCell, dof = Phys::mNumDofsPerNode, G = Phys::mNumDofsPerCell; int n = s.len(1, 3), c = s.intIn(0, n - 1);
    double m = s.mag(1e-3, 1e2), al = s.chance(1, 5) ? 0 : s.sreal(0.5), tref = s.sreal(50), sc = s.logreal(1e-2, 1e2); int how = s.intIn(0, 3);
    dmat E = randMat(s, n, N, m), S = randMat(s, n, L, m), U = randMat(s, n, G, 30); dvec bf(D + 1); double sum = 0; for (auto& b : bf) sum += b = s.real(0.01, 1); for (auto& b : bf) b /= sum;
    if (how == 1) sc = 1; if (how == 2) { sc = 1; tref = 0; } if (how == 3) { sc = 1; tref = 0; al = 0; }
    using TU = Plato::ThermoPlasticityUtilities<D, Phys>; TU tu = how == 0 ? TU(al, tref, sc) : how == 1 ? TU(al, tref) : how == 2 ? TU(al) : TU();
    V2 o("o", n, N); for (int q = 0; q < n; ++q) for (int k = 0; k < N; ++k) o(q, k) = 5; tu.computeElasticStrain(c, view2(U, G), view2(S, L), view(bf), view2(E, N), o);
    s.desc << "elastic strain D=" << D << (hasT ? " with temperature, expansion " : " isothermal, expansion ") << al << " reference " << tref << " scaling " << sc; s.nontrivial(hasT && al != 0);
    double T = 0; if (hasT) for (int k = 0; k <= D; ++k) T += bf[k] * U[c][k * dof + D]; double th = hasT ? al * (sc * T - tref) : 0;
    for (int k = 0; k < N; ++k) NEAR(o(c, k), E[c][k] - S[c][2 + k] - (shear(D, k) ? 0 : th), m + std::fabs(al) * (30 * sc + std::fabs(tref)), "elastic strain " << k);
    for (int q = 0; q < n; ++q) if (q != c) for (int k = 0; k < N; ++k) REQ(o(q, k) == 5, "another cell changed");
}
PBT("elastic_strain", 600, "thermal expansion is active") { switch (s.intIn(0, 3)) { case 0: thermal<2, Plato::SimplexThermoPlasticity<2>>(s, true); break; case 1: thermal<3, Plato::SimplexThermoPlasticity<3>>(s, true); break; case 2: thermal<2, Plato::SimplexPlasticity<2>>(s, false); break; default: thermal<3, Plato::SimplexPlasticity<3>>(s, false); } }

template<int D> struct Lay { static const int N = nc(D), L = 2 + 2 * nc(D), P = 2, B = 2 + nc(D); };

template<int D> static void flow(pbt::Src& s) {
    using Y = Lay<D>; const int N = Y::N, L = Y::L; int n = s.len(1, 3), c = s.intIn(0, n - 1); double m = s.mag(1e-3, 1e2), H = s.logreal(1e-2, 1e2); Plato::J2PlasticityUtilities<D> u;
    dmat S0 = randMat(s, n, L, m), S1 = randMat(s, n, L, m), DS = randMat(s, n, N, m); bool plastic = !s.chance(1, 4);
    for (auto& r : DS) { double t = 0; for (int k = 0; k < N; ++k) if (!shear(D, k)) t += r[k]; for (int k = 0; k < N; ++k) if (!shear(D, k)) r[k] -= t / 3; }
    V2 s0 = view2(S0, L), s1 = view2(S1, L), ds = view2(DS, N), nn("n", n, N); V1 nm("nm", n); for (int q = 0; q < n; ++q) { nm(q) = 8; for (int k = 0; k < N; ++k) nn(q, k) = 8; }
    u.computeDeviatoricStressMinusBackstressNormalized(c, ds, s0, nn, nm);
    dvec x(N); for (int k = 0; k < N; ++k) x[k] = DS[c][k] - S0[c][Y::B + k]; dmat xt = tensor(D, x, false); double nrm = std::sqrt(dot(xt, xt)); DISCARD_IF(nrm < 1e-6 * m);
    s.desc << "flow D=" << D << (plastic ? " plastic" : " elastic") << " step, multiplier " << S1[c][1] << " hardening " << H; s.nontrivial(plastic);
    NEAR(nm(c), nrm, m, "distance of the deviatoric stress from the backstress");
    for (int k = 0; k < N; ++k) NEAR(nn(c, k), x[k] / nrm, 1, "normal " << k);
    { dmat nt = tensor(D, row(nn, c), false); NEAR(dot(nt, nt), 1, 1, "length of the normal"); }
    V2 out = view2(S1, L); if (plastic) u.updatePlasticStrainAndBackstressPlasticStep(c, s0, nn, H, out); else u.updatePlasticStrainAndBackstressElasticStep(c, s0, out);
    double dg = plastic ? S1[c][1] : 0;
    REQ(out(c, 0) == S1[c][0] && out(c, 1) == S1[c][1], "the accumulated plastic strain and the multiplier are not the update's to change");
    for (int q = 0; q < n; ++q) if (q != c) { REQ(nm(q) == 8 && nn(q, 0) == 8, "another cell's normal changed"); for (int k = 0; k < L; ++k) REQ(out(q, k) == S1[q][k], "another cell changed"); }
    // plastic strain increment as a tensor: sqrt(3/2) dg n; backstress increment: sqrt(2/3) dg H n
    dvec ep(N), bs(N); for (int k = 0; k < N; ++k) { ep[k] = out(c, Y::P + k) - S0[c][Y::P + k]; bs[k] = out(c, Y::B + k) - S0[c][Y::B + k]; } dmat ept = tensor(D, ep, true), bst = tensor(D, bs, false), nt = tensor(D, row(nn, c), false);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { NEAR(ept[i][j], std::sqrt(1.5) * dg * nt[i][j], m, "plastic strain increment " << i << j); NEAR(bst[i][j], std::sqrt(2. / 3) * dg * H * nt[i][j], m * (1 + H), "backstress increment " << i << j); }
    // the residual of a perturbed updated state is the perturbation, in its own block only
    dmat pert = randMat(s, n, L, m); V2 ps = view2(S1, L), r("r", n, L), rb("rb", n, L); for (int k = 0; k < L; ++k) ps(c, k) = out(c, k) + (k > 1 ? pert[c][k] : 0); for (int q = 0; q < n; ++q) for (int k = 0; k < L; ++k) r(q, k) = rb(q, k) = 4;
    if (plastic) { u.fillPlasticStrainTensorResidualPlasticStep(c, ps, s0, nn, r); u.fillBackstressTensorResidualPlasticStep(c, H, ps, s0, nn, rb); } else { u.fillPlasticStrainTensorResidualElasticStep(c, ps, s0, r); u.fillBackstressTensorResidualElasticStep(c, ps, s0, rb); }
    for (int q = 0; q < n; ++q) for (int k = 0; k < L; ++k) { bool inP = q == c && k >= Y::P && k < Y::B, inB = q == c && k >= Y::B; double sc = m * (2 + H);
        if (inP) NEAR(r(q, k), pert[q][k], sc, "plastic strain residual " << k); else REQ(r(q, k) == 4, "residual entry " << k << " outside the plastic strain block changed");
        if (inB) NEAR(rb(q, k), pert[q][k], sc, "backstress residual " << k); else REQ(rb(q, k) == 4, "residual entry " << k << " outside the backstress block changed"); }
}
PBT("flow_and_residual", 900, "a plastic step") DIM23(flow)

// derivative of the norm with respect to the deviatoric stress is the normal (shear counts twice)
template<int D> static void dnormal(pbt::Src& s) {
    using Y = Lay<D>; const int N = Y::N; using F = Sacado::Fad::SFad<double, nc(D)>; double m = s.mag(1e-2, 1e2); Plato::J2PlasticityUtilities<D> u; Plato::ScalarMultiVectorT<F> d("d", 1, N), nn("n", 1, N); Plato::ScalarVectorT<F> nm("nm", 1); dmat S = randMat(s, 1, Y::L, m);
    for (int k = 0; k < N; ++k) d(0, k) = F(N, k, s.sreal(m)); u.computeDeviatoricStressMinusBackstressNormalized(0, d, view2(S, Y::L), nn, nm); s.desc << "normal derivative D=" << D; s.nontrivial();
    DISCARD_IF(nm(0).val() < 1e-4 * m);
    for (int k = 0; k < N; ++k) { NEAR(nm(0).dx(k), nn(0, k).val() * (shear(D, k) ? 2 : 1), 1, "d norm / d stress " << k);
        for (int l = 0; l < N; ++l) NEAR(nn(0, k).dx(l), ((k == l) - nn(0, k).val() * nn(0, l).val() * (shear(D, l) ? 2 : 1)) / nm(0).val(), 1 / nm(0).val(), "d normal " << k << " / d stress " << l); }
}
PBT("normal_derivative", 200, "always") DIM23(dnormal)

template<int D> static void access(pbt::Src& s) {
    using Y = Lay<D>; const int N = Y::N, L = Y::L; int n = s.len(1, 4), c = s.intIn(0, n - 1); double m = s.mag(1e-3, 1e3); dmat A = randMat(s, n, L, m), B = randMat(s, n, L, m); V2 a = view2(A, L), b = view2(B, L); Plato::J2PlasticityUtilities<D> u; s.desc << "local state access D=" << D << " cell " << c << " of " << n; s.nontrivial(n > 1);
    V1 o1("o", n), o2("o", n); V2 p("p", n, N), q("q", n, N), mf("m", n, N); for (int e = 0; e < n; ++e) { o1(e) = o2(e) = 2; for (int k = 0; k < N; ++k) p(e, k) = q(e, k) = mf(e, k) = 2; }
    u.getAccumulatedPlasticStrain(c, a, o1); u.getPlasticMultiplierIncrement(c, a, o2); u.getPlasticStrainTensor(c, a, p); u.getBackstressTensor(c, a, q); u.computePlasticStrainMisfit(c, a, b, mf);
    for (int e = 0; e < n; ++e) { REQ(o1(e) == (e == c ? A[e][0] : 2), "accumulated plastic strain"); REQ(o2(e) == (e == c ? A[e][1] : 2), "plastic multiplier"); for (int k = 0; k < N; ++k) { REQ(p(e, k) == (e == c ? A[e][2 + k] : 2), "plastic strain " << k); REQ(q(e, k) == (e == c ? A[e][2 + N + k] : 2), "backstress " << k); if (e == c) NEAR(mf(e, k), A[e][2 + k] - B[e][2 + k], m, "misfit " << k); else REQ(mf(e, k) == 2, "misfit of another cell"); } }
}
PBT("local_state_access", 300, "several cells") DIM23(access)

// a history of strain steps with radial return: the stress never leaves the yield surface, plastic strain stays
// isochoric, dissipation is nonnegative, and unloading is elastic
template<int D> static void history(pbt::Src& s) {
    using Y = Lay<D>; using TU = Plato::ThermoPlasticityUtilities<D, Plato::SimplexPlasticity<D>>; const int N = Y::N, L = Y::L; double G = s.logreal(1, 1e2), sy = s.logreal(0.1, 5), Hi = s.flag() ? s.logreal(1e-2, 10) : 0, Hk = s.flag() ? s.logreal(1e-2, 10) : 0; int steps = s.intIn(1, 8); Plato::J2PlasticityUtilities<D> u; TU tu; Plato::ComputeDeviatoricStress<D> cds;
    V2 prev("prev", 1, L), cur("cur", 1, L), e("e", 1, N), el("el", 1, N), d("d", 1, N), nn("n", 1, N), gs("gs", 1, Plato::SimplexPlasticity<D>::mNumDofsPerCell); V1 nm("nm", 1), bf("bf", D + 1); int plastic = 0, elasticSteps = 0; double amp = s.logreal(0.1, 5) * sy / G;
    for (int t = 0; t < steps; ++t) {
        if (s.chance(1, 3)) { double f = s.real(0, 1); for (int k = 0; k < N; ++k) e(0, k) *= f; } else for (int k = 0; k < N; ++k) e(0, k) += s.sreal(amp);
        tu.computeElasticStrain(0, gs, prev, bf, e, el); cds(0, G, el, d); u.computeDeviatoricStressMinusBackstressNormalized(0, d, prev, nn, nm);
        double eta = nm(0), f = std::sqrt(1.5) * eta - (sy + Hi * prev(0, 0)); double sc = sy + G * amp * steps * 10;
        if (f > 1e-10 * sc) { ++plastic; double dg = f / (3 * G + Hk + Hi); cur(0, 0) = prev(0, 0) + dg; cur(0, 1) = dg; u.updatePlasticStrainAndBackstressPlasticStep(0, prev, nn, Hk, cur); }
        else { ++elasticSteps; cur(0, 0) = prev(0, 0); cur(0, 1) = 0; u.updatePlasticStrainAndBackstressElasticStep(0, prev, cur); }
        dvec de(N); for (int k = 0; k < N; ++k) de[k] = cur(0, 2 + k) - prev(0, 2 + k);
        tu.computeElasticStrain(0, gs, cur, bf, e, el); cds(0, G, el, d); u.computeDeviatoricStressMinusBackstressNormalized(0, d, cur, nn, nm);
        double f1 = std::sqrt(1.5) * nm(0) - (sy + Hi * cur(0, 0)); REQ(f1 <= 1e-8 * sc, "after step " << t << " the stress is outside the yield surface by " << f1); if (cur(0, 1) > 0) NEAR(f1, 0, sc * 10, "after plastic step " << t << " the stress is on the yield surface");
        dmat pt = tensor(D, de, true), st = tensor(D, row(d, 0), false); NEAR(tr(pt), 0, amp * 10, "plastic strain changes volume");
        dvec bsv(N); for (int k = 0; k < N; ++k) bsv[k] = cur(0, Y::B + k); dmat bt = tensor(D, bsv, false); dmat xt = st; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) xt[i][j] -= bt[i][j];
        REQ(dot(xt, pt) >= -1e-9 * sc * amp, "plastic dissipation " << dot(xt, pt));
        // associated flow with this backstress law: equivalent plastic strain increment is the multiplier
        NEAR(std::sqrt(2. / 3 * dot(pt, pt)), cur(0, 1), amp * 10, "equivalent plastic strain increment");
        for (int k = 0; k < L; ++k) prev(0, k) = cur(0, k);
    }
    s.desc << "loading history D=" << D << " of " << steps << " steps, " << plastic << " plastic, hardening " << Hi << "/" << Hk; s.nontrivial(plastic > 0 && elasticSteps > 0);
}
PBT("loading_history", 400, "both plastic and elastic steps") DIM23(history)
