// Random input lists per physics (materials, penalties, loads).
#pragma once
#include "mesh.hpp"
namespace hm {
inline void loads(Src& s, PL& p, const RMesh& m, const std::string& list, int ndofs, bool pressureOk) {
    auto& n = p.sublist(list); int k = s.intIn(1, 2); std::vector<std::string> sides; for (auto& q : m.ssets) if (!q.second.empty()) sides.push_back(q.first);
    for (int i = 0; i < k; ++i) { auto& q = n.sublist("Load " + std::to_string(i)); q.set<std::string>("Sides", sides[s.intIn(0, (int)sides.size() - 1)]); int t = s.intIn(0, pressureOk ? 2 : 1);
        if (t == 0) { Teuchos::Array<double> v(ndofs); for (auto& x : v) x = s.sreal(2); q.set<std::string>("Type", "Uniform"); q.set("Values", v); }
        if (t == 1) { q.set<std::string>("Type", "Uniform"); q.set<double>("Value", s.sreal(2)); q.set<int>("Index", s.intIn(0, ndofs - 1)); }
        if (t == 2) { q.set<std::string>("Type", "Uniform Pressure"); q.set<double>("Value", s.sreal(2)); } }
}
inline void bodyLoad(Src& s, PL& p, int d, int ndofs) { static const char* f[] = {"1.5", "x", "1+2*x-y", "x*y", "-3"}; auto& q = p.sublist("Body Loads").sublist("B0"); q.set<std::string>("Type", "Uniform"); q.set<int>("Index", s.intIn(0, ndofs - 1)); q.set<std::string>("Function", f[s.intIn(0, 4)]); }
inline void elasticMaterial(Src& s, PL& q, int d, bool refStrain = true) {
    int k = s.intIn(0, 2);
    if (k == 0) { auto& e = q.sublist("Isotropic Linear Elastic"); e.set<double>("Poissons Ratio", s.real(0.0, 0.4)); e.set<double>("Youngs Modulus", s.logreal(0.5, 20)); if (s.flag()) e.set<double>("Mass Density", s.real(0.5, 3)); if (refStrain && s.flag()) { e.set<double>("e11", s.sreal(0.1)); e.set<double>("e12", s.sreal(0.1)); if (d == 3) e.set<double>("e23", s.sreal(0.1)); } }
    if (k == 1) { auto& e = q.sublist("Cubic Linear Elastic"); double a = s.real(0.5, 2); e.set<double>("C12", a); e.set<double>("C11", a * s.real(1.5, 3)); e.set<double>("C44", s.real(0.5, 2)); if (s.flag()) e.set<double>("Mass Density", s.real(0.5, 3)); if (refStrain && s.flag()) e.set<double>("e22", s.sreal(0.1)); }
    if (k == 2) { auto& e = q.sublist("Orthotropic Linear Elastic"); e.set<double>("Youngs Modulus X", s.real(1, 5)); e.set<double>("Youngs Modulus Y", s.real(1, 5)); e.set<double>("Youngs Modulus Z", s.real(1, 5)); e.set<double>("Shear Modulus XY", s.real(0.5, 2)); e.set<double>("Shear Modulus XZ", s.real(0.5, 2)); e.set<double>("Shear Modulus YZ", s.real(0.5, 2)); e.set<double>("Poissons Ratio XY", s.real(0.0, 0.3)); e.set<double>("Poissons Ratio XZ", s.real(0.0, 0.3)); e.set<double>("Poissons Ratio YZ", s.real(0.0, 0.3)); }
}
inline void polyOrConst(Src& s, PL& q, const std::string& name, double lo, double hi, bool poly) { if (poly) { auto& e = q.sublist(name); e.set<double>("c0", s.real(lo, hi)); e.set<double>("c1", s.sreal(0.02)); if (s.flag()) e.set<double>("c2", s.sreal(0.002)); } else q.set<double>(name, s.real(lo, hi)); }
inline void tensorOrConst(Src& s, PL& q, const std::string& name, double lo, double hi, bool poly) {
    if (!poly && s.flag()) { q.set<double>(name, s.real(lo, hi)); return; }
    auto& e = q.sublist(name); std::string p = poly ? "c0" : "c"; e.set<double>(p + "11", s.real(lo, hi)); if (s.flag()) e.set<double>(p + "22", s.real(lo, hi)); if (s.flag()) e.set<double>(p + "12", s.sreal(0.3 * lo));
    if (poly) { e.set<double>("c111", s.sreal(0.02)); if (s.flag()) e.set<double>("c122", s.sreal(0.02)); if (s.flag()) e.set<double>("c211", s.sreal(0.002)); }
}
inline void thermalMaterial(Src& s, PL& q, int d, bool poly) { auto& e = q.sublist("Thermal Conduction"); if (poly) e.set<bool>("Temperature Dependent", true); tensorOrConst(s, e, "Thermal Conductivity", 0.5, 4, poly); }
inline void thermoelasticMaterial(Src& s, PL& q, int d, bool poly) {
    auto& e = q.sublist("Thermoelastic"); if (poly) e.set<bool>("Temperature Dependent", true); auto& el = e.sublist("Elastic Stiffness"); el.set<double>("Poissons Ratio", s.real(0.0, 0.4)); polyOrConst(s, el, "Youngs Modulus", 1, 5, poly);
    tensorOrConst(s, e, "Thermal Expansivity", 0.01, 0.3, poly); tensorOrConst(s, e, "Thermal Conductivity", 0.5, 4, poly); if (s.flag()) e.set<double>("Reference Temperature", s.sreal(2)); if (s.flag()) e.set<double>("Temperature Scaling", s.real(0.5, 2));
}
inline void electroMaterial(Src& s, PL& q, int d) { auto& e = q.sublist("Isotropic Linear Electroelastic"); e.set<double>("Youngs Modulus", s.real(1, 5)); e.set<double>("Poissons Ratio", s.real(0.0, 0.4)); e.set<double>("e15", s.sreal(1)); e.set<double>("e31", s.sreal(1)); e.set<double>("e33", s.sreal(1)); e.set<double>("p11", s.real(0.5, 2)); e.set<double>("p33", s.real(0.5, 2)); if (s.flag()) e.set<double>("Alpha", s.real(0.5, 2)); }
enum Phys { MECH, THERM, TMECH, EMECH };
struct ModelOpt { bool loads = true, body = true, pressure = true, refStrain = true, poly = true; };
inline PL baseList(Src& s, const RMesh& m, Phys ph, ModelOpt o = {}) {
    PL p("Plato Problem"); p.set<std::string>("PDE Constraint", "Elliptic"); p.set<bool>("Self-Adjoint", false); penalty(s, p.sublist("Elliptic"), ph != THERM);
    int nm = s.intIn(1, (int)m.blocks.size()); std::vector<std::string> names; for (int i = 0; i < nm; ++i) { names.push_back("Mat " + std::to_string(i)); auto& q = p.sublist("Material Models").sublist(names.back()); bool poly = o.poly && s.flag();
        if (ph == MECH) elasticMaterial(s, q, m.d, o.refStrain); if (ph == THERM) thermalMaterial(s, q, m.d, poly); if (ph == TMECH) thermoelasticMaterial(s, q, m.d, poly); if (ph == EMECH) electroMaterial(s, q, m.d); }
    spatialModel(p, m, names); int nd = ph == MECH ? m.d : ph == THERM ? 1 : m.d + 1;
    if (o.loads && s.flag()) { if (ph == MECH) loads(s, p, m, "Natural Boundary Conditions", m.d, o.pressure); if (ph == THERM) loads(s, p, m, "Natural Boundary Conditions", 1, false);
        if (ph >= TMECH) { loads(s, p, m, "Mechanical Natural Boundary Conditions", m.d, o.pressure); loads(s, p, m, ph == TMECH ? "Thermal Natural Boundary Conditions" : "Electrical Natural Boundary Conditions", 1, false); } }
    if (o.body && s.chance(1, 3)) bodyLoad(s, p, m.d, nd);
    return p;
}
} // namespace hm
