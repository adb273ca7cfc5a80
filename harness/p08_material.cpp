// P08: constitutive input - stiffness, conductivity and expansion tensors from user parameters.
#include "plato.hpp"
#include <Sacado.hpp>
#include <Teuchos_ParameterList.hpp>
#include "MaterialModel.hpp"
#include "ParseTools.hpp"
#include "IsotropicMaterialUtilities.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
using namespace h;
using PL = Teuchos::ParameterList;
using Fad = Sacado::Fad::SFad<double, 3>;
static constexpr int nv(int d) { return d == 3 ? 6 : d == 2 ? 3 : 1; }
// reference polynomial tensor
struct Poly { dmat c[3]; };
static std::string key(const std::string& p, int i, int j) { return p + std::to_string(i + 1) + std::to_string(j + 1); }
// symmetric second-order tensor: 11 required, other diagonals default to 11, off-diagonals to 0
static bool tensorList(pbt::Src& s, PL& p, const std::string& pre, int d, dmat& c, bool required) {
    c = zeros(d, d); bool full = true; int some = 0;
    for (int i = 0; i < d; ++i) for (int j = i; j < d; ++j) {
        bool give = (i == 0 && j == 0) ? !required || s.chance(9, 10) : s.flag(); double v = s.sreal(5);
        if (i == 0 && j == 0 && !required) give = s.flag();
        if (give) { p.set<double>(key(pre, i, j), v); c[i][j] = v; ++some; } else { if (i == 0 && j == 0 && required) full = false; c[i][j] = i == j ? c[0][0] : 0; }
        c[j][i] = c[i][j];
    }
    return full;
}
// Voigt stiffness: 11 and the first shear required; other diagonals default to the first of their kind; 12 to 0, 13 and 23 to 12
static bool voigtList(pbt::Src& s, PL& p, const std::string& pre, int d, dmat& c, bool required) {
    int n = nv(d); c = zeros(n, n); bool full = true;
    auto opt = [&](int i, int j, double def, bool req) { bool g = req ? s.chance(9, 10) : s.flag(); double v = s.sreal(5); if (g) { p.set<double>(key(pre, i, j), v); c[i][j] = v; } else { if (req) full = false; c[i][j] = def; } c[j][i] = c[i][j]; };
    opt(0, 0, 0, required); for (int i = 1; i < d; ++i) opt(i, i, c[0][0], false); if (d > 1) opt(0, 1, 0, false); if (d > 2) { opt(0, 2, c[0][1], false); opt(1, 2, c[0][1], false); }
    if (d > 1) opt(d, d, 0, required); for (int i = d + 1; i < n; ++i) opt(i, i, c[d][d], false);
    return full;
}
// temperatures: ordinary, zero, tiny and extreme ones
static double temp(pbt::Src& s, double m = 50) { switch (s.intIn(0, 9)) { case 9: return 0.0; case 8: return s.sreal(1e-9); case 7: return s.sreal(1e5); case 6: return s.logreal(200, 3000); default: return s.sreal(m); } }
template<class F> static void polyCheck(pbt::Src& s, const F& f, const Poly& p, int n, const char* what) {
    double t = temp(s); Fad ft(3, 1, t);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double a = p.c[0][i][j], b = p.c[1][i][j], c = p.c[2][i][j]; NEAR(f(t, i, j), a + b * t + c * t * t, std::fabs(a) + std::fabs(b * t) + std::fabs(c * t * t), what << " entry " << i << "," << j << " at " << t); Fad g = f(ft, i, j); NEAR(g.dx(1), b + 2 * c * t, std::fabs(b) + std::fabs(2 * c * t), what << " slope " << i << "," << j); NEAR(g.dx(0), 0.0, 1, what << " foreign slope"); }
}
template<int D> static void tensors(pbt::Src& s) {
    Poly p; PL l; bool ok = tensorList(s, l, "c0", D, p.c[0], true); tensorList(s, l, "c1", D, p.c[1], false); tensorList(s, l, "c2", D, p.c[2], false);
    s.desc << D << "D tensor, " << l.numParams() << " given"; s.nontrivial(l.numParams() >= 2); if (!ok) { THROWS(Plato::TensorFunctor<D>{l}, "missing required entry"); s.tag("missing"); } else polyCheck(s, Plato::TensorFunctor<D>(l), p, D, "temperature dependent tensor");
    PL k; dmat c; if (!tensorList(s, k, "c", D, c, true)) THROWS(Plato::TensorConstant<D>{k}, "missing required entry"); else { Plato::TensorConstant<D> t(k); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) REQ(t(i, j) == c[i][j], "constant tensor " << i << "," << j << " got " << t(i, j) << " want " << c[i][j]); }
    double v = s.sreal(4); Plato::TensorConstant<D> iso(v); Plato::TensorFunctor<D> isof(v); Plato::TensorConstant<D> z0; Plato::TensorFunctor<D> z1; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { REQ(iso(i, j) == (i == j ? v : 0), "isotropic tensor"); REQ(isof(s.sreal(9), i, j) == (i == j ? v : 0), "isotropic tensor functor"); REQ(z0(i, j) == 0 && z1(1.0, i, j) == 0, "default tensor not zero"); }
}
PBT("tensors", 2000, "at least two entries given") { switch (s.intIn(0, 2)) { case 0: tensors<1>(s); break; case 1: tensors<2>(s); break; default: tensors<3>(s); } }
template<int D> static void voigts(pbt::Src& s) {
    Poly p; PL l; bool ok = voigtList(s, l, "c0", D, p.c[0], true); voigtList(s, l, "c1", D, p.c[1], false); voigtList(s, l, "c2", D, p.c[2], false);
    s.desc << D << "D stiffness, " << l.numParams() << " given"; s.nontrivial(l.numParams() >= 3); if (!ok) { THROWS(Plato::Rank4VoigtFunctor<D>{l}, "missing required entry"); s.tag("missing"); } else polyCheck(s, Plato::Rank4VoigtFunctor<D>(l), p, nv(D), "temperature dependent stiffness");
    PL k; dmat c; if (!voigtList(s, k, "c", D, c, true)) THROWS(Plato::Rank4VoigtConstant<D>{k}, "missing required entry"); else { Plato::Rank4VoigtConstant<D> t(k); for (int i = 0; i < nv(D); ++i) for (int j = 0; j < nv(D); ++j) REQ(t(i, j) == c[i][j], "constant stiffness " << i << "," << j << " got " << t(i, j) << " want " << c[i][j]); }
}
PBT("stiffness_lists", 2000, "at least three entries given") { switch (s.intIn(0, 2)) { case 0: voigts<1>(s); break; case 1: voigts<2>(s); break; default: voigts<3>(s); } }
static dmat isoRef(int d, double E, double v) { double l = E * v / ((1 + v) * (1 - 2 * v)), m = E / (2 * (1 + v)); int n = nv(d); dmat c = zeros(n, n); for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) c[i][j] = l; c[i][i] += 2 * m; } for (int i = d; i < n; ++i) c[i][i] = m; return c; }
template<int D> static void iso(pbt::Src& s) {
    double v = s.chance(1, 12) ? 0.0 : s.chance(1, 10) ? s.real(0.45, 0.4999) : s.chance(1, 10) ? s.real(-0.95, -0.5) : s.real(-0.5, 0.45), nf = 1 / (1 - 2 * v) + 1 / (1 + v), E[3] = {s.logreal(1e-3, 1e12), s.sreal(10), s.sreal(1)}; PL l; bool hv = s.chance(9, 10), he = s.chance(9, 10); if (hv) l.set<double>("Poissons Ratio", v); if (he) l.set<double>("Youngs Modulus", E[0]); s.desc << D << "D E " << E[0] << " nu " << v; s.nontrivial(std::fabs(v) > 1e-3);
    if (!hv || !he) THROWS(Plato::IsotropicStiffnessConstant<D>{l}, "missing modulus or ratio"); else { Plato::IsotropicStiffnessConstant<D> c(l); auto w = isoRef(D, E[0], v); for (int i = 0; i < nv(D); ++i) for (int j = 0; j < nv(D); ++j) { NEAR(c(i, j), w[i][j], 10 * nf * E[0], "isotropic stiffness " << i << "," << j); REQ(c(i, j) == c(j, i), "not symmetric"); }
        if (D == 3) { dvec e = {1, -v, -v, 0, 0, 0}; for (int i = 0; i < 6; ++i) { double g = 0; for (int j = 0; j < 6; ++j) g += c(i, j) * e[j]; NEAR(g, i == 0 ? E[0] : 0, 30 * nf * E[0], "uniaxial stress state, component " << i); } } }
    if (hv) { PL f; f.set<double>("Poissons Ratio", v); auto& y = f.sublist("Youngs Modulus"); y.set<double>("c0", E[0]); bool h1 = s.flag(), h2 = s.flag(); if (h1) y.set<double>("c1", E[1]); else E[1] = 0; if (h2) y.set<double>("c2", E[2]); else E[2] = 0; Plato::IsotropicStiffnessFunctor<D> c(f); double t = temp(s, 30), Et = E[0] + E[1] * t + E[2] * t * t, sc = E[0] + std::fabs(E[1] * t) + std::fabs(E[2] * t * t); auto w = isoRef(D, Et, v), dw = isoRef(D, E[1] + 2 * E[2] * t, v); Fad ft(3, 2, t);
        for (int i = 0; i < nv(D); ++i) for (int j = 0; j < nv(D); ++j) { NEAR(c(t, i, j), w[i][j], 10 * sc * nf, "temperature dependent isotropic stiffness " << i << "," << j); NEAR(c(ft, i, j).dx(2), dw[i][j], 10 * nf * (std::fabs(E[1]) + std::fabs(2 * E[2] * t)), "temperature slope of stiffness " << i << "," << j); } }
    NEAR(Plato::compute_shear_modulus(E[0], v), E[0] / (2 * (1 + v)), nf * E[0], "shear modulus"); NEAR(Plato::compute_bulk_modulus(E[0], v), E[0] / (3 * (1 - 2 * v)), nf * E[0], "bulk modulus");
    PL in; PL& mm = in.sublist("Material Model"); if (s.chance(4, 5)) { PL& q = mm.sublist("Isotropic Linear Elastic"); if (hv) q.set<double>("Poissons Ratio", v); if (he) q.set<double>("Youngs Modulus", E[0]); if (hv && he) { NEAR(Plato::compute_shear_modulus(in), E[0] / (2 * (1 + v)), nf * E[0], "shear modulus from input"); NEAR(Plato::compute_bulk_modulus(in), E[0] / (3 * (1 - 2 * v)), nf * E[0], "bulk modulus from input"); } else { THROWS(Plato::compute_shear_modulus(in), "missing modulus or ratio"); THROWS(Plato::compute_bulk_modulus(in), "missing modulus or ratio"); } } else { THROWS(Plato::compute_shear_modulus(in), "missing material"); THROWS(Plato::compute_bulk_modulus(in), "missing material"); }
}
PBT("isotropic", 2000, "Poisson ratio away from zero") { switch (s.intIn(0, 2)) { case 0: iso<1>(s); break; case 1: iso<2>(s); break; default: iso<3>(s); } }
PBT("scalar_functor", 800, "quadratic and linear terms present") {
    PL l; double c[3]; bool g[3]; for (int k = 0; k < 3; ++k) { g[k] = k == 0 ? s.chance(9, 10) : s.chance(3, 4); c[k] = s.sreal(3); if (g[k]) l.set<double>("c" + std::to_string(k), c[k]); else c[k] = 0; } s.nontrivial(g[1] && g[2]); s.desc << l.numParams() << " coefficients"; if (!g[0]) { THROWS(Plato::ScalarFunctor{l}, "missing c0"); return; } Plato::ScalarFunctor f(l); double t = temp(s, 20); NEAR(f(t), c[0] + c[1] * t + c[2] * t * t, std::fabs(c[0]) + std::fabs(c[1] * t) + std::fabs(c[2] * t * t), "scalar law at " << t); Fad ft(3, 0, t); NEAR(f(ft).dx(0), c[1] + 2 * c[2] * t, std::fabs(c[1]) + std::fabs(2 * c[2] * t), "slope"); double v = s.sreal(4); NEAR(Plato::ScalarFunctor(v)(t), v, 0, "constant law"); NEAR(Plato::ScalarFunctor()(t), 0.0, 0, "default law"); }
// a material model as a store: random histories of set / parse / get against plain maps
template<int D> static void store(pbt::Src& s) {
    bool nonlin = s.flag(); PL ctor; if (nonlin || s.flag()) ctor.set<bool>("Temperature Dependent", nonlin); Plato::MaterialModel<D> m(ctor); REQ((m.type() == Plato::MaterialModelType::Nonlinear) == nonlin, "model type"); static const std::vector<std::string> names = {"k", "k2", "Mass Density", "rho", "K"};
    std::map<std::string, double> sc; std::map<std::string, dmat> tc, vc; std::map<std::string, Poly> sf, tf, vf; int n = s.len(1, 10), eff = 0;
    for (int i = 0; i < n; ++i) {
        auto nm = s.pick(names); PL l; dmat c; Poly p; double v = s.sreal(5); int form = s.intIn(0, 3); bool ok = true;
        switch (s.intIn(0, 5)) {
        case 0: m.setScalarConstant(nm, v); sc[nm] = v; ++eff; break;
        case 1: if (form == 0) { if (s.flag()) { THROWS(m.parseScalarConstant(nm, l), "missing required scalar"); } else { m.parseScalarConstant(nm, l, v); sc[nm] = v; ++eff; } } else { l.set<double>(nm, v); if (s.flag()) m.parseScalarConstant(nm, l); else m.parseScalarConstant(nm, l, v + 1); sc[nm] = v; ++eff; } break;
        case 2: // scalar, constant or temperature dependent
            if (form == 0) { THROWS(m.parseScalar(nm, l), "missing required scalar"); } else if (form == 1) { PL& q = l.sublist(nm); q.set<double>("c0", v); q.set<double>("c1", 2 * v); if (!nonlin) { THROWS(m.parseScalar(nm, l), "temperature dependence in a linear model"); } else { m.parseScalar(nm, l); Poly r; r.c[0] = {{v}}; r.c[1] = {{2 * v}}; r.c[2] = {{0}}; sf[nm] = r; ++eff; } }
            else { l.set<double>(nm, v); m.parseScalar(nm, l); if (nonlin) { Poly r; r.c[0] = {{v}}; r.c[1] = r.c[2] = {{0}}; sf[nm] = r; } else sc[nm] = v; ++eff; } break;
        case 3: case 4: // second-order tensor
            if (form == 0) { THROWS(m.parseTensor(nm, l), "missing required tensor"); } else if (form == 1) { l.set<double>(nm, v); m.parseTensor(nm, l); dmat id = zeros(D, D); for (int k = 0; k < D; ++k) id[k][k] = v; if (nonlin) { Poly r; r.c[0] = id; r.c[1] = r.c[2] = zeros(D, D); tf[nm] = r; } else tc[nm] = id; ++eff; }
            else { PL& q = l.sublist(nm); if (nonlin) { ok = tensorList(s, q, "c0", D, p.c[0], true); tensorList(s, q, "c1", D, p.c[1], false); tensorList(s, q, "c2", D, p.c[2], false); } else ok = tensorList(s, q, "c", D, c, true); if (!ok) { THROWS(m.parseTensor(nm, l), "incomplete tensor"); } else { m.parseTensor(nm, l); if (nonlin) tf[nm] = p; else tc[nm] = c; ++eff; } } break;
        default: if (form == 0) { THROWS(m.parseRank4Voigt(nm, l), "missing required stiffness"); } else { PL& q = l.sublist(nm); if (nonlin) { ok = voigtList(s, q, "c0", D, p.c[0], true); voigtList(s, q, "c1", D, p.c[1], false); voigtList(s, q, "c2", D, p.c[2], false); } else ok = voigtList(s, q, "c", D, c, true); if (!ok) { THROWS(m.parseRank4Voigt(nm, l), "incomplete stiffness"); } else { m.parseRank4Voigt(nm, l); if (nonlin) vf[nm] = p; else vc[nm] = c; ++eff; } }
        }
    }
    s.desc << D << "D " << (nonlin ? "nonlinear" : "linear") << ", " << n << " operations, " << eff << " effective"; s.nontrivial(eff >= 2);
    for (auto& nm : names) {
        REQ(m.getScalarConstant(nm) == (sc.count(nm) ? sc[nm] : 0), "scalar constant " << nm); auto t = m.getTensorConstant(nm); auto v = m.getRank4VoigtConstant(nm); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) REQ(t(i, j) == (tc.count(nm) ? tc[nm][i][j] : 0), "tensor constant " << nm << " " << i << j); for (int i = 0; i < nv(D); ++i) for (int j = 0; j < nv(D); ++j) REQ(v(i, j) == (vc.count(nm) ? vc[nm][i][j] : 0), "stiffness constant " << nm << " " << i << j);
        Poly z; z.c[0] = z.c[1] = z.c[2] = zeros(6, 6); polyCheck(s, m.getTensorFunctor(nm), tf.count(nm) ? tf[nm] : z, D, "stored tensor law"); polyCheck(s, m.getRank4VoigtFunctor(nm), vf.count(nm) ? vf[nm] : z, nv(D), "stored stiffness law"); double x = s.sreal(5); auto f = m.getScalarFunctor(nm); NEAR(f(x), sf.count(nm) ? sf[nm].c[0][0][0] + sf[nm].c[1][0][0] * x : 0, 100, "stored scalar law " << nm);
    }
}
PBT("model_store", 1200, "at least two effective operations") { switch (s.intIn(0, 2)) { case 0: store<1>(s); break; case 1: store<2>(s); break; default: store<3>(s); } }
// physics materials built by their factories
template<int D> static void factories(pbt::Src& s) {
    PL in; auto& ms = in.sublist("Material Models"); std::string name = s.pick(std::vector<std::string>{"Steel", "Al 6061"}); bool nonlin = s.flag(); int which = s.intIn(0, 2), bad = s.chance(1, 3) ? s.intIn(1, 3) : 0; s.desc << D << "D factory " << which << (nonlin ? " temperature dependent" : "") << " fault " << bad; s.nontrivial(bad == 0);
    const char* sub[] = {"Thermal Conduction", "Thermal Mass", "Thermoelastic"}; PL& ml = ms.sublist(bad == 1 ? "Other" : name); PL& l = ml.sublist(bad == 2 ? "Something" : sub[which]); if (nonlin) l.set<bool>("Temperature Dependent", true);
    double v = s.sreal(4), w = s.sreal(4), E = s.real(1, 100), nu = s.real(0.05, 0.4); int kind = s.intIn(0, 3); bool tref = s.flag(), tsc = s.flag(), expectThrow = bad != 0; Poly st; dmat stc;
    if (which == 0) { if (bad != 3) l.set<double>("Thermal Conductivity", v); } else if (which == 1) { l.set<double>("Mass Density", v); if (bad != 3) l.set<double>("Specific Heat", w); }
    else { if (bad != 3) l.set<double>("Thermal Expansivity", v); l.set<double>("Thermal Conductivity", w); if (tref) l.set<double>("Reference Temperature", 5.5); if (tsc) l.set<double>("Temperature Scaling", 0.25); PL& e = l.sublist("Elastic Stiffness");
        if (kind <= 1) { e.set<double>("Youngs Modulus", E); e.set<double>("Poissons Ratio", nu); stc = isoRef(D, E, nu); st.c[0] = stc; st.c[1] = st.c[2] = zeros(nv(D), nv(D)); } else if (kind == 2) { auto& y = e.sublist("Youngs Modulus"); y.set<double>("c0", E); y.set<double>("c1", 2.0); e.set<double>("Poissons Ratio", nu); st.c[0] = isoRef(D, E, nu); st.c[1] = isoRef(D, 2, nu); st.c[2] = zeros(nv(D), nv(D)); if (!nonlin) expectThrow = true; }
        else { if (nonlin) { if (!voigtList(s, e, "c0", D, st.c[0], true)) expectThrow = true; voigtList(s, e, "c1", D, st.c[1], false); voigtList(s, e, "c2", D, st.c[2], false); } else if (!voigtList(s, e, "c", D, stc, true)) expectThrow = true; } }
    Teuchos::RCP<Plato::MaterialModel<D>> m; bool threw = false; try { if (which == 0) m = Plato::ThermalConductionModelFactory<D>(in).create(name); else if (which == 1) m = Plato::ThermalMassModelFactory<D>(in).create(name); else m = Plato::ThermoelasticModelFactory<D>(in).create(name); } catch (const std::exception&) { threw = true; }
    if (expectThrow) { REQ(threw, "faulty material input accepted"); return; } REQ(!threw && !m.is_null(), "valid material input rejected");
    auto ten = [&](const std::string& n, double x) { for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { double g = nonlin ? m->getTensorFunctor(n)(s.sreal(3), i, j) : m->getTensorConstant(n)(i, j); NEAR(g, i == j ? x : 0, 1, n); } };
    if (which == 0) ten("Thermal Conductivity", v); else if (which == 1) { double a = nonlin ? m->getScalarFunctor("Mass Density")(2.0) : m->getScalarConstant("Mass Density"), b = nonlin ? m->getScalarFunctor("Specific Heat")(2.0) : m->getScalarConstant("Specific Heat"); NEAR(a, v, 0, "mass density"); NEAR(b, w, 0, "specific heat"); }
    else { ten("Thermal Expansivity", v); ten("Thermal Conductivity", w); NEAR(m->getScalarConstant("Reference Temperature"), tref ? 5.5 : 23.0, 0, "reference temperature"); NEAR(m->getScalarConstant("Temperature Scaling"), tsc ? 0.25 : 1.0, 0, "temperature scaling");
        if (nonlin) polyCheck(s, m->getRank4VoigtFunctor("Elastic Stiffness"), st, nv(D), "thermoelastic stiffness law"); else { auto c = m->getRank4VoigtConstant("Elastic Stiffness"); for (int i = 0; i < nv(D); ++i) for (int j = 0; j < nv(D); ++j) NEAR(c(i, j), stc[i][j], 300, "thermoelastic stiffness " << i << "," << j); } }
}
PBT("factories", 1200, "well-formed input") { switch (s.intIn(0, 2)) { case 0: factories<1>(s); break; case 1: factories<2>(s); break; default: factories<3>(s); } }
PBT("parse_tools", 600, "parameter present") { PL l; bool has = s.flag(), sub = s.flag(); double v = s.sreal(5), d = s.sreal(5); if (has) l.set<double>("a", v); if (sub) { auto& q = l.sublist("S"); if (has) q.set<double>("b", v); } s.desc << has << sub; s.nontrivial(has); NEAR(Plato::ParseTools::getParam<double>(l, "a", d), has ? v : d, 0, "optional"); NEAR(Plato::ParseTools::getSubParam<double>(l, "S", "b", d), has && sub ? v : d, 0, "optional in sublist"); if (has) NEAR(Plato::ParseTools::getParam<double>(l, "a"), v, 0, "required"); else THROWS(Plato::ParseTools::getParam<double>(l, "a"), "missing required parameter"); l.set<std::string>("txt", "x"); NEAR(Plato::ParseTools::getParam<double>(l, "txt", d), d, 0, "wrong type falls back"); THROWS(Plato::ParseTools::getParam<double>(l, "txt"), "wrong type"); }
