// Derivative bookkeeping: which argument an evaluation differentiates, how many derivatives it carries, and that residual
// pipelines evaluated with those types give the derivatives of the plain residual.
#include "cell.hpp"
#include <Sacado.hpp>
#include <type_traits>
#include "SimplexMechanics.hpp"
#include "SimplexThermal.hpp"
#include "SimplexElectromechanics.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexStructuralDynamics.hpp"
#include "SimplexProjection.hpp"
#include "SimplexFadTypes.hpp"
#include "elliptic/EllipticSimplexFadTypes.hpp"
#include "parabolic/ParabolicSimplexFadTypes.hpp"
#include "hyperbolic/HyperbolicSimplexFadTypes.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "InterpolateFromNodal.hpp"
#include "ProjectToNode.hpp"
#include "Simp.hpp"
#include "ApplyWeighting.hpp"
using namespace h;
// number of derivatives a scalar type carries; 0 for a plain number
template<class T> struct Nd { static int n() { return (int)T(1.0).size(); } };
template<> struct Nd<double> { static int n() { return 0; } };
template<class T> static int nd() { return Nd<T>::n(); }
template<class F> struct Id {}; template<class T> static int ndt(Id<void(T)>*) { return nd<T>(); }
struct Sizes { int nodes, dofs, local, nodeState, dim; };

#define PBTW(...) Id<void(__VA_ARGS__)>
#define ISF(T, want, what) REQ(ndt(static_cast<T*>(nullptr)) == (want), name << " " << D << "D, " << what << ": carries " << ndt(static_cast<T*>(nullptr)) << " derivatives, expected " << (want))
#define IS(T, want, what) REQ(ndt(static_cast<Id<void(T)>*>(nullptr)) == (want), name << " " << D << "D, " << what << ": carries " << ndt(static_cast<Id<void(T)>*>(nullptr)) << " derivatives, expected " << (want))
template<int D, class E> static void common(const std::string& name, const Sizes& z, int nctl, const char* ev) { REQ(E::NumNodesPerCell == z.nodes && E::SpatialDim == D && E::NumControls == nctl, name << " " << D << "D, " << ev << ": nodes, controls, dimension"); }
template<int D, class Ph> static void types(const std::string& name, int dofs, int nodeState, int local, int nctl = 1) {
    Sizes z{D + 1, dofs, local, nodeState, D}; int U = dofs * (D + 1), X = D * (D + 1), Z = D + 1, N = nodeState * (D + 1), L = local;
    REQ(Ph::mNumNodesPerCell == D + 1 && Ph::mNumSpatialDims == D && Ph::mNumDofsPerNode == dofs && Ph::mNumDofsPerCell == U && Ph::mNumControl == nctl && Ph::mNumNodeStatePerNode == nodeState && Ph::mNumLocalDofsPerCell == local, name << " " << D << "D: sizes of the layout");
    using F = Plato::SimplexFadTypes<Ph>; IS(typename F::StateFad, U, "state"); IS(typename F::ControlFad, Z, "control"); IS(typename F::ConfigFad, X, "configuration"); IS(typename F::NodeStateFad, N, "node state"); IS(typename F::LocalStateFad, L, "local state");
    { using E = typename Plato::Elliptic::Evaluation<Ph>; common<D, typename E::Residual>(name, z, nctl, "elliptic"); common<D, typename E::Jacobian>(name, z, nctl, "elliptic"); common<D, typename E::GradientX>(name, z, nctl, "elliptic"); common<D, typename E::GradientZ>(name, z, nctl, "elliptic");
      #define ROW(E_, u, z_, x, r) IS(typename E::E_::StateScalarType, u, #E_ " state"); IS(typename E::E_::ControlScalarType, z_, #E_ " control"); IS(typename E::E_::ConfigScalarType, x, #E_ " configuration"); IS(typename E::E_::ResultScalarType, r, #E_ " result");
      ROW(Residual, 0, 0, 0, 0) ROW(Jacobian, U, 0, 0, U) ROW(GradientX, 0, 0, X, X) ROW(GradientZ, 0, Z, 0, Z) }
    { using E = typename Plato::Parabolic::Evaluation<Ph>; common<D, typename E::Residual>(name, z, nctl, "parabolic"); common<D, typename E::GradientU>(name, z, nctl, "parabolic"); common<D, typename E::GradientV>(name, z, nctl, "parabolic");
      #define ROWP(E_, u, v, z_, x, r) ROW(E_, u, z_, x, r) IS(typename E::E_::StateDotScalarType, v, #E_ " rate");
      ROWP(Residual, 0, 0, 0, 0, 0) ROWP(GradientU, U, 0, 0, 0, U) ROWP(GradientV, 0, U, 0, 0, U) ROWP(GradientX, 0, 0, 0, X, X) ROWP(GradientZ, 0, 0, Z, 0, Z) }
    { using E = typename Plato::Hyperbolic::Evaluation<Ph>; common<D, typename E::Residual>(name, z, nctl, "hyperbolic"); common<D, typename E::GradientA>(name, z, nctl, "hyperbolic");
      #define ROWH(E_, u, v, a, z_, x, r) ROWP(E_, u, v, z_, x, r) IS(typename E::E_::StateDotDotScalarType, a, #E_ " acceleration");
      ROWH(Residual, 0, 0, 0, 0, 0, 0) ROWH(GradientU, U, 0, 0, 0, 0, U) ROWH(GradientV, 0, U, 0, 0, 0, U) ROWH(GradientA, 0, 0, U, 0, 0, U) ROWH(GradientX, 0, 0, 0, 0, X, X) ROWH(GradientZ, 0, 0, 0, Z, 0, Z) }
    { using E = typename Plato::Evaluation<Ph>; common<D, typename E::Residual>(name, z, nctl, "history-dependent"); common<D, typename E::LocalJacobian>(name, z, nctl, "history-dependent");
      #define ROWL(E_, u, up, l, lp, n, z_, x, r) ROW(E_, u, z_, x, r) IS(typename E::E_::PrevStateScalarType, up, #E_ " previous state"); IS(typename E::E_::LocalStateScalarType, l, #E_ " local state"); IS(typename E::E_::PrevLocalStateScalarType, lp, #E_ " previous local state"); IS(typename E::E_::NodeStateScalarType, n, #E_ " node state");
      ROWL(Residual, 0, 0, 0, 0, 0, 0, 0, 0) ROWL(Jacobian, U, 0, 0, 0, 0, 0, 0, U) ROWL(JacobianP, 0, U, 0, 0, 0, 0, 0, U) ROWL(JacobianN, 0, 0, 0, 0, N, 0, 0, N) ROWL(LocalJacobian, 0, 0, L, 0, 0, 0, 0, L) ROWL(LocalJacobianP, 0, 0, 0, L, 0, 0, 0, L) ROWL(GradientX, 0, 0, 0, 0, 0, 0, X, X) ROWL(GradientZ, 0, 0, 0, 0, 0, Z, 0, Z) }
    { using E = typename Plato::Geometric::Evaluation<Ph>; common<D, typename E::Residual>(name, z, nctl, "geometric"); common<D, typename E::GradientX>(name, z, nctl, "geometric");
      #define ROWG(E_, z_, x, r) IS(typename E::E_::ControlScalarType, z_, #E_ " control"); IS(typename E::E_::ConfigScalarType, x, #E_ " configuration"); IS(typename E::E_::ResultScalarType, r, #E_ " result");
      ROWG(Residual, 0, 0, 0) ROWG(GradientX, 0, X, X) ROWG(GradientZ, Z, 0, Z) }
    // a quantity that mixes plain and differentiated arguments is differentiated, in any order of the arguments
    #define MIX(T, want) IS(T, want, "mixed scalar")
    using namespace Plato; MIX(double, 0); using UF = typename F::StateFad; using XF = typename F::ConfigFad; using ZF = typename F::ControlFad;
    ISF(PBTW(fad_type_t<Ph, UF, double>), U, "state with plain"); ISF(PBTW(fad_type_t<Ph, double, UF>), U, "plain with state"); ISF(PBTW(fad_type_t<Ph, double, XF, double>), X, "configuration between plain"); ISF(PBTW(fad_type_t<Ph, double, double, ZF>), Z, "control last"); ISF(PBTW(fad_type_t<Ph, ZF, double, double>), Z, "control first"); ISF(PBTW(fad_type_t<Ph, double, double>), 0, "plain with plain"); ISF(PBTW(fad_type_t<Ph, double>), 0, "plain");
    if (N > 0) { ISF(PBTW(fad_type_t<Ph, double, typename F::NodeStateFad>), N, "node state"); } if (L > 0) { ISF(PBTW(fad_type_t<Ph, double, typename F::LocalStateFad, double>), L, "local state"); }
}
template<int D> static void layout(pbt::Src& s) {
    const int L = D == 3 ? 14 : D == 2 ? 10 : 4, nv = nvoigt_c(D), ns = D == 3 ? 6 : D == 2 ? 4 : 1; int k = s.intIn(0, 9); s.desc << "physics " << k << " in " << D << " dimensions"; s.nontrivial(true);
    switch (k) {
        case 0: types<D, Plato::SimplexMechanics<D>>("mechanics", D, 0, 0); REQ(Plato::SimplexMechanics<D>::mNumVoigtTerms == nv, "stress terms"); break;
        case 1: types<D, Plato::SimplexThermal<D>>("thermal", 1, 0, 0); break;
        case 2: types<D, Plato::SimplexElectromechanics<D>>("electromechanics", D + 1, 0, 0); REQ(Plato::SimplexElectromechanics<D>::mNumVoigtTerms == nv, "stress terms"); break;
        case 3: { using P = Plato::SimplexThermomechanics<D>; types<D, P>("thermomechanics", D + 1, 0, 0); REQ(P::mNumVoigtTerms == nv && P::mTDofOffset == D, "stress terms and temperature"); break; }
        case 4: { using P = Plato::SimplexStabilizedMechanics<D>; types<D, P>("stabilized mechanics", D + 1, D, 0); REQ(P::mNumVoigtTerms == nv && P::mPressureDofOffset == D && P::mNumNodeStatePerCell == D * (D + 1), "stress terms, pressure and node state"); break; }
        case 5: { using P = Plato::SimplexStabilizedThermomechanics<D>; types<D, P>("stabilized thermomechanics", D + 2, D, 0); REQ(P::mNumVoigtTerms == nv && P::mPressureDofOffset == D && P::mTDofOffset == D + 1 && P::mNumNodeStatePerCell == D * (D + 1), "stress terms, pressure, temperature and node state"); break; }
        case 6: { using P = Plato::SimplexPlasticity<D>; types<D, P>("plasticity", D + 1, D, L); REQ(P::mNumVoigtTerms == nv && P::mNumStressTerms == ns && P::mDisplacementDofOffset == 0 && P::mPressureDofOffset == D && P::mTemperatureDofOffset == -1 && P::mNumNodeStatePerCell == D * (D + 1), "dof layout"); break; }
        case 7: { using P = Plato::SimplexThermoPlasticity<D>; types<D, P>("thermoplasticity", D + 2, D, L); REQ(P::mNumVoigtTerms == nv && P::mNumStressTerms == ns && P::mDisplacementDofOffset == 0 && P::mPressureDofOffset == D + 1 && P::mTemperatureDofOffset == D && P::mNumNodeStatePerCell == D * (D + 1), "dof layout"); break; }
        case 8: { using P = Plato::SimplexStructuralDynamics<D>; types<D, P>("structural dynamics", 2 * D, 0, 0); REQ(P::mNumVoigtTerms == nv && P::mComplexSpaceDim == 2, "complex layout"); break; }
        default: { using P = Plato::SimplexProjection<D, D + 1, D>; types<D, P>("projection", D, 1, 0); REQ(P::mTotalDofs == D + 1 && P::mProjectionDof == D && P::mNumNodeStatePerCell == D + 1, "projection layout"); using Q = Plato::SimplexProjection<D, D + 2, D + 1, 2, 3>; types<D, Q>("projection of two fields", D, 2, 0, 3); REQ(Q::mTotalDofs == D + 2 && Q::mProjectionDof == D + 1, "projection layout"); using M = Plato::SimplexMechanics<D, 3>; types<D, M>("multi-material mechanics", D, 0, 0, 3); }
    }
}
PBT("layouts", 60, "always") { int d = s.intIn(1, 3); d == 1 ? layout<1>(s) : d == 2 ? layout<2>(s) : layout<3>(s); }

// ---- pipelines -------------------------------------------------------------------------------------------------
struct Data { std::vector<dmat> x; dmat u, z; dmat C, K; double p, zmin; int n; };
// shape-function gradients and volume of one cell in any scalar type
template<int D, class X> static void geometry(int c, const Plato::ScalarArray3DT<X>& x, const Plato::ScalarArray3DT<X>& g, const Plato::ScalarVectorT<X>& v) {
    X j[3][3], inv[3][3], det; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) j[a][b] = x(c, b + 1, a) - x(c, 0, a);
    if (D == 1) { det = j[0][0]; inv[0][0] = 1.0 / det; }
    else if (D == 2) { det = j[0][0] * j[1][1] - j[0][1] * j[1][0]; inv[0][0] = j[1][1] / det; inv[0][1] = -j[0][1] / det; inv[1][0] = -j[1][0] / det; inv[1][1] = j[0][0] / det; }
    else { det = j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { int p = (b + 1) % 3, q = (b + 2) % 3, r = (a + 1) % 3, t = (a + 2) % 3; inv[a][b] = (j[p][r] * j[q][t] - j[p][t] * j[q][r]) / det; } }
    for (int b = 0; b < D; ++b) { g(c, 0, b) = 0.0; for (int a = 0; a < D; ++a) { g(c, a + 1, b) = inv[a][b]; g(c, 0, b) -= inv[a][b]; } } double f = 1; for (int k = 2; k <= D; ++k) f *= k; v(c) = (det < 0 ? X(-det) : det) / f;
}
template<class T> static T seed(double v, int n, int i) { return T(n, i, v); }
template<> double seed<double>(double v, int, int) { return v; }
// residual of an evaluation: momentum (or momentum and energy) balance of the cells with densities
template<int D, int Kind, class Ph, class E> static Plato::ScalarMultiVectorT<typename E::ResultScalarType> residual(const Data& d) {
    using U = typename E::StateScalarType; using X = typename E::ConfigScalarType; using Z = typename E::ControlScalarType; using R = typename E::ResultScalarType; using G = typename Plato::fad_type_t<Ph, U, X>; const int nd_ = Ph::mNumDofsPerNode, nn = D + 1, nv = nvoigt_c(D);
    Plato::ScalarMultiVectorT<U> u("u", d.n, nd_ * nn); Plato::ScalarArray3DT<X> x("x", d.n, nn, D), g("g", d.n, nn, D); Plato::ScalarVectorT<X> v("v", d.n); Plato::ScalarMultiVectorT<Z> z("z", d.n, nn); Plato::ScalarMultiVectorT<G> e("e", d.n, nv), tg("tg", d.n, D); Plato::ScalarMultiVectorT<R> st("st", d.n, nv), fl("fl", d.n, D), r("r", d.n, nd_ * nn);
    Plato::MSIMP pen(d.p, d.zmin); Plato::ApplyWeighting<D, nvoigt_c(D), Plato::MSIMP> ws(pen); Plato::ApplyWeighting<D, D, Plato::MSIMP> wf(pen); Plato::StressDivergence<D, Ph::mNumDofsPerNode> sd; Plato::FluxDivergence<D, Ph::mNumDofsPerNode, D> fd;
    typename std::conditional<Kind == 0, Plato::StabilizedKinematics<D>, typename std::conditional<Kind == 1, Plato::TMKinematics<D>, Plato::EMKinematics<D>>::type>::type kin;
    for (int c = 0; c < d.n; ++c) {
        for (int k = 0; k < nd_ * nn; ++k) u(c, k) = seed<U>(d.u[c][k], nd_ * nn, k); for (int k = 0; k < nn; ++k) { z(c, k) = seed<Z>(d.z[c][k], nn, k); for (int a = 0; a < D; ++a) x(c, k, a) = seed<X>(d.x[c][k][a], nn * D, k * D + a); }
        geometry<D>(c, x, g, v); kin(c, e, tg, u, g); for (int i = 0; i < nv; ++i) { st(c, i) = 0.0; for (int j = 0; j < nv; ++j) st(c, i) += d.C[i][j] * e(c, j); } for (int i = 0; i < D; ++i) { fl(c, i) = 0.0; for (int j = 0; j < D; ++j) fl(c, i) += d.K[i][j] * tg(c, j); }
        ws(c, st, z); wf(c, fl, z); sd(c, r, st, g, v); fd(c, r, fl, g, v);
    }
    return r;
}
template<class T> struct Dx { static double at(const T& t, int k) { return t.dx(k); } static double val(const T& t) { return t.val(); } };
template<> struct Dx<double> { static double at(double, int) { return 0; } static double val(double t) { return t; } };
template<int D, int Kind, class Ph> static void pipeline(pbt::Src& s) {
    using E = typename Plato::Elliptic::Evaluation<Ph>; Cells<D> c(s, 2); const int nn = D + 1, ndof = Ph::mNumDofsPerNode * nn, nv = nvoigt_c(D); Data d; d.n = c.n; d.x = c.x; d.u = randMat(s, c.n, ndof, 1); d.z = randMat(s, c.n, nn, 1); for (auto& r : d.z) for (auto& q : r) q = 0.05 + 0.95 * std::fabs(q); d.C = randMat(s, nv, nv, 2); d.K = randMat(s, D, D, 2); d.p = s.real(1, 4); d.zmin = s.logreal(1e-9, 1e-1); s.desc << "pipeline " << Kind << " in " << D << " dimensions, " << c.n << " cells, penalty " << d.p; s.nontrivial(D > 1);
    auto r = residual<D, Kind, Ph, typename E::Residual>(d); auto plain = [&](const Data& q) { return mat(residual<D, Kind, Ph, typename E::Residual>(q)); }; double sc = 0; for (int e = 0; e < c.n; ++e) { double g = maxabs(c.g[e]); sc = std::max(sc, g * g * c.v[e]); } sc *= 50;
    auto check = [&](auto jac, const char* what, int n, std::function<double&(Data&, int, int)> at, double len) {
        using T = typename std::decay<decltype(jac(0, 0))>::type; REQ((int)jac.extent(0) == c.n && (int)jac.extent(1) == ndof, "shape"); int e = s.intIn(0, c.n - 1), k = s.intIn(0, n - 1); double hh = 1e-5 * len; Data a = d, b = d; at(a, e, k) += hh; at(b, e, k) -= hh; auto ra = plain(a), rb = plain(b);
        for (int q = 0; q < c.n; ++q) for (int i = 0; i < ndof; ++i) { NEAR(Dx<T>::val(jac(q, i)), r(q, i), sc, what << ": value of entry " << i << " of cell " << q); if (q == e) NEARTOL(Dx<T>::at(jac(q, i), k), (ra[q][i] - rb[q][i]) / (2 * hh), sc / len, 1e-6, what << ": derivative of entry " << i << " with respect to component " << k << " of cell " << q); } };
    check(residual<D, Kind, Ph, typename E::Jacobian>(d), "state derivative", ndof, [](Data& q, int e, int k) -> double& { return q.u[e][k]; }, 1.0);
    check(residual<D, Kind, Ph, typename E::GradientZ>(d), "control derivative", nn, [](Data& q, int e, int k) -> double& { return q.z[e][k]; }, 1.0);
    double len = 1e300; for (int e = 0; e < c.n; ++e) len = std::min(len, 1 / maxabs(c.g[e])); check(residual<D, Kind, Ph, typename E::GradientX>(d), "configuration derivative", nn * D, [](Data& q, int e, int k) -> double& { return q.x[e][k / D][k % D]; }, len);
}
template<int D> static void pipelines(pbt::Src& s) { int k = s.intIn(0, 2); k == 0 ? pipeline<D, 0, Plato::SimplexStabilizedMechanics<D>>(s) : k == 1 ? pipeline<D, 1, Plato::SimplexThermomechanics<D>>(s) : pipeline<D, 2, Plato::SimplexElectromechanics<D>>(s); }
PBT("residual_derivatives", 150, "more than one dimension") { int d = s.intIn(1, 3); d == 1 ? pipelines<1>(s) : d == 2 ? pipelines<2>(s) : pipelines<3>(s); }
