// Quadrature rules and the linear basis of the reference simplex.
#include "cell.hpp"
#include <stdexcept>
#include "alg/Cubature.hpp"
#include "alg/Basis.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
#include "InterpolateGradientFromScalarNodal.hpp"
using namespace h;
static double fact(int n) { double r = 1; for (int k = 2; k <= n; ++k) r *= k; return r; }
using PV = Kokkos::View<double**, Plato::Layout, Plato::MemSpace>;
using WV = Kokkos::View<double*, Plato::MemSpace>;

PBT("polynomials", 900, "degree above one") {
    int D = s.intIn(1, 3), deg = s.intIn(0, 3), np = Plato::Cubature::getNumCubaturePoints(D, deg); PV p("p", np, D); WV w("w", np); for (int q = 0; q < np; ++q) { w(q) = 5; for (int a = 0; a < D; ++a) p(q, a) = 5; }
    Plato::Cubature::getCubature(D, deg, p, w); s.desc << "quadrature D=" << D << " degree " << deg << " points " << np; s.nontrivial(deg > 1);
    double vol = 0; for (int q = 0; q < np; ++q) { vol += w(q); double last = 1; for (int a = 0; a < D; ++a) { REQ(p(q, a) > -1e-14 && p(q, a) < 1 + 1e-14, "point " << q << " outside"); last -= p(q, a); } REQ(last > -1e-14, "point " << q << " outside the simplex"); for (int r = 0; r < q; ++r) { double d = 0; for (int a = 0; a < D; ++a) d += std::fabs(p(q, a) - p(r, a)); REQ(d > 1e-6, "points " << q << " and " << r << " coincide"); } }
    NEAR(vol, 1 / fact(D), 1, "volume of the reference simplex");
    // random polynomial of total degree <= deg in an affine image of the simplex
    dmat A = randMat(s, D, D, 2); dvec o = s.vec(D, 1); std::vector<std::array<int, 3>> ex; for (int a = 0; a <= deg; ++a) for (int b = 0; b <= (D > 1 ? deg - a : 0); ++b) for (int c = 0; c <= (D > 2 ? deg - a - b : 0); ++c) ex.push_back({a, b, c});
    double got = 0, want = 0, sc = 0; for (auto& e : ex) { double cf = s.sreal(3); want += cf * fact(e[0]) * fact(e[1]) * fact(e[2]) / fact(e[0] + e[1] + e[2] + D); for (int q = 0; q < np; ++q) { double v = cf * w(q); for (int a = 0; a < D; ++a) v *= std::pow(p(q, a), e[a]); got += v; sc += std::fabs(v); } }
    NEAR(got, want, sc, "integral of a polynomial of degree " << deg);
    // a power of a random affine function: exact by the same degree
    dvec g = s.vec(D, 2); double g0 = s.sreal(2), i1 = 0; for (int q = 0; q < np; ++q) { double v = g0; for (int a = 0; a < D; ++a) v += g[a] * p(q, a); i1 += w(q) * std::pow(v, deg); }
    // exact: deg! / (deg+D)! * complete homogeneous polynomial of the vertex values
    dvec vv{g0}; for (int a = 0; a < D; ++a) vv.push_back(g0 + g[a]); dvec hh(deg + 1, 0.0); hh[0] = 1; for (double x : vv) for (int k = 1; k <= deg; ++k) hh[k] += x * hh[k - 1]; NEAR(i1, hh[deg] * fact(deg) / fact(deg + D), 100, "integral of a power of an affine function");
}
PBT("unsupported", 200, "always") {
    int D = s.intIn(1, 3), deg = s.intIn(0, 3), k = s.intIn(0, 4), np = Plato::Cubature::getNumCubaturePoints(D, deg); s.desc << "unsupported rule " << k << " D=" << D; s.nontrivial();
    if (k == 0) { int d = 4 + s.intIn(0, 20); THROWS(Plato::Cubature::getNumCubaturePoints(D, d), "degree " << d); PV p("p", 8, D); WV w("w", 8); THROWS(Plato::Cubature::getCubature(D, d, p, w), "degree " << d); }
    else if (k == 1) { int d = s.flag() ? 0 : 4 + s.intIn(0, 5); THROWS(Plato::Cubature::getNumCubaturePoints(d, deg), "dimension " << d); }
    else if (k == 2) { PV p("p", np + 1, D); WV w("w", np); THROWS(Plato::Cubature::getCubature(D, deg, p, w), "too many points"); }
    else if (k == 3) { PV p("p", np, D + 1); WV w("w", np); THROWS(Plato::Cubature::getCubature(D, deg, p, w), "wrong dimension"); }
    else { PV p("p", np, D); WV w("w", np + 1); THROWS(Plato::Cubature::getCubature(D, deg, p, w), "too many weights"); }
}
PBT("linear_basis", 500, "several points") {
    int D = s.intIn(1, 3), n = s.intIn(1, 5); Plato::Basis b(D); s.desc << "basis D=" << D << " at " << n << " points"; s.nontrivial(n > 1); REQ(b.basisCardinality() == D + 1, "number of functions " << b.basisCardinality());
    PV rc("rc", D + 1, D), x("x", n, D), val("v", D + 1, n), vr("vr", D + 1, D + 1), x2("x2", n, D), val2("v2", D + 1, n); Kokkos::View<double***, Plato::Layout, Plato::MemSpace> g("g", D + 1, n, D); for (int i = 0; i <= D; ++i) for (int a = 0; a < D; ++a) { rc(i, a) = 4; for (int q = 0; q < n; ++q) { g(i, q, a) = 4; val(i, q) = 4; } }
    b.getRefCoords(rc); b.getValues(rc, vr); for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) NEAR(vr(i, j), i == j, 1, "function " << i << " at vertex " << j);
    for (int q = 0; q < n; ++q) for (int a = 0; a < D; ++a) { x(q, a) = s.sreal(1); x2(q, a) = s.sreal(1); } b.getValues(x, val); b.getValues(x2, val2); b.getGradientValues(x, g);
    for (int q = 0; q < n; ++q) { double sum = 0; for (int i = 0; i <= D; ++i) sum += val(i, q); NEAR(sum, 1, 3, "partition of unity"); for (int a = 0; a < D; ++a) { double xi = 0; for (int i = 0; i <= D; ++i) xi += val(i, q) * rc(i, a); NEAR(xi, x(q, a), 3, "reproduction of coordinate " << a); } for (int i = 0; i <= D; ++i) { double d = 0; for (int a = 0; a < D; ++a) d += g(i, q, a) * (x2(q, a) - x(q, a)); NEAR(val2(i, q) - val(i, q), d, 5, "gradient of function " << i); } }
}
template<int D> static void tet(pbt::Src& s) {
    Plato::LinearTetCubRuleDegreeOne<D> r; Cells<D> c(s, 1); dvec g = s.vec(D, 3); double g0 = s.sreal(3); s.desc << "one-point rule D=" << D; s.nontrivial(); REQ(r.getNumCubPoints() == 1, "points"); auto bf = r.getBasisFunctions(); auto cp = r.getCubPointsCoords(); REQ((int)bf.extent(0) == D + 1 && (int)cp.extent(0) == D, "extents");
    // integral of an affine function over the cell: weight * |J| * value at the point given by the basis functions
    double J = c.v[0] * fact(D), at = g0, exact = 0; for (int a = 0; a < D; ++a) { double xq = 0; for (int k = 0; k <= D; ++k) xq += bf(k) * c.x[0][k][a]; at += g[a] * xq; double viaCoord = c.x[0][0][a]; for (int b = 0; b < D; ++b) viaCoord += cp(b) * (c.x[0][b + 1][a] - c.x[0][0][a]); NEAR(viaCoord, xq, 30, "point from coordinates and from basis functions"); } for (int k = 0; k <= D; ++k) { double v = g0; for (int a = 0; a < D; ++a) v += g[a] * c.x[0][k][a]; exact += v * c.v[0] / (D + 1); }
    NEAR(r.getCubWeight() * J * at, exact, c.v[0] * 200, "integral of an affine function");
}
PBT("one_point_rule", 300, "always") { switch (s.intIn(0, 2)) { case 0: tet<2>(s); break; case 1: tet<3>(s); break; default: tet<1>(s); } }
template<int D, int ND, int OFF> static void sgrad(pbt::Src& s) {
    Cells<D> c(s); const int N = ND * (D + 1); dvec g = s.vec(D, 3); double m = 10; dmat U = randMat(s, c.n, N, m); bool affine = s.flag(); if (affine) for (int e = 0; e < c.n; ++e) for (int k = 0; k <= D; ++k) { U[e][k * ND + OFF] = 1; for (int a = 0; a < D; ++a) U[e][k * ND + OFF] += g[a] * c.x[e][k][a]; } V2 o("o", c.n, D); Plato::InterpolateGradientFromScalarNodal<D, ND, OFF> f; int e = s.intIn(0, c.n - 1); for (int q = 0; q < c.n; ++q) for (int a = 0; a < D; ++a) o(q, a) = 6; f(e, c.grad, view2(U, N), o); s.desc << "scalar gradient D=" << D << " dofs " << ND << " offset " << OFF << (affine ? " affine" : ""); s.nontrivial();
    for (int a = 0; a < D; ++a) { double w = 0, sc = 0; for (int k = 0; k <= D; ++k) { w += U[e][k * ND + OFF] * c.g[e][k][a]; sc += std::fabs(U[e][k * ND + OFF] * c.g[e][k][a]); } NEAR(o(e, a), w, sc, "component " << a); if (affine) NEAR(o(e, a), g[a], sc * 10, "gradient of an affine field " << a); } for (int q = 0; q < c.n; ++q) if (q != e) for (int a = 0; a < D; ++a) REQ(o(q, a) == 6, "another cell changed");
}
PBT("scalar_gradient", 300, "always") { switch (s.intIn(0, 4)) { case 0: sgrad<2, 4, 2>(s); break; case 1: sgrad<3, 5, 3>(s); break; case 2: sgrad<3, 1, 0>(s); break; case 3: sgrad<2, 2, 1>(s); break; default: sgrad<1, 3, 1>(s); } }
