// Rocket chamber: quasi-steady pressure balance, thrust, and the burning cylinder.
#include "pbt.hpp"
#include "PlatoTypes.hpp"
#include <memory>
#include <fstream>
#include <cassert>
#include <unistd.h>
#include <sys/stat.h>
#include "Plato_GeometryModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#include "Plato_RocketMocks.hpp"
using std::vector;
struct Case { double al, dt, pref, T, d, amb, cs, rate, L, R, rho, maxR; int steps; Plato::AlgebraicRocketInputs in; };
static double massRate(const Case& c, double R) { return c.rate * c.rho * 2 * M_PI * R * c.L; }
static double root(const Case& c, double R) { double At = M_PI * c.d * c.d / 4; return std::pow(massRate(c, R) * c.cs / (At * std::pow(c.pref, c.al)), 1 / (1 - c.al)); }
// Newton starts from the reference pressure, then from the previous pressure: it reaches the root only from a nearby start, so keep every start within a factor 2 below the root
static bool reachable(const Case& c, double R, double& Rend) { double p = c.pref; for (int i = 0; i < c.steps; ++i) { double q = root(c, R); if (q > 2.05 * p) return false; p = q; R += std::pow(q / c.pref, c.al) * c.rate * c.dt; } Rend = R; return true; }
static Case gen(pbt::Src& s) {
    Case c; c.al = s.real(0.1, 0.75); c.pref = s.logreal(1e5, 1e7); c.d = s.logreal(0.01, 0.2); c.amb = s.logreal(50, 1e5); c.cs = s.logreal(800, 2500); c.L = s.logreal(0.1, 3); c.R = s.logreal(0.02, 0.3); c.rho = s.flag() ? 1744 : s.logreal(500, 3000); c.maxR = c.R * 4;
    // choose the burn rate so that the first pressure is between 0.5 and 2 times the reference pressure (Newton starts there)
    double k = s.real(0.5, 2); c.rate = 1; double At = M_PI * c.d * c.d / 4; c.rate = std::pow(k * c.pref, 1 - c.al) * At * std::pow(c.pref, c.al) / (c.cs * c.rho * 2 * M_PI * c.R * c.L);
    // limit radius growth per step to 10%
    c.dt = s.real(0.1, 1) * 0.1 * c.R / (c.rate * std::pow(std::max(k, 1.0), c.al)); c.steps = s.chance(1, 12) ? s.intIn(13, 400) : s.intIn(1, 12); if (c.steps > 12) c.dt *= 12.0 / c.steps; { double e; for (int i = 0; i < 40 && !reachable(c, c.R, e); ++i) c.dt *= .5; } double fr = s.flag() ? 0 : s.real(0.1, 0.9); c.T = fr == 0 ? c.steps * c.dt : (c.steps - 1 + fr) * c.dt;
    c.in.mAlpha = c.al; c.in.mDeltaTime = c.dt; c.in.mRefPressure = c.pref; c.in.mTotalBurnTime = c.T; c.in.mThroatDiameter = c.d; c.in.mAmbientPressure = c.amb; c.in.mCharacteristicVelocity = c.cs; c.in.mNewtonTolerance = 1e-8; c.in.mMaxNumNewtonItr = 200; return c;
}
static Plato::ProblemParams par(pbt::Src& s, const Case& c, bool linear) { auto p = linear ? Plato::RocketMocks::set_linear_burn_rate_problem(c.maxR, c.L, c.R, c.rate, 0.0) : Plato::RocketMocks::set_constant_burn_rate_problem(c.maxR, c.L, c.R, c.rate); p.mPropellantDensity = c.rho; return p; }
static void compare(pbt::Src& s, const Case& c, Plato::AlgebraicRocketModel& m, double R0, double& Rend, const std::string& what) {
    auto t = m.getTimeProfile(), th = m.getThrustProfile(), pr = m.getPressuresProfile(); REQ(t.size() == th.size() && t.size() == pr.size(), what << ": profile lengths " << t.size() << " " << th.size() << " " << pr.size()); REQ((int)t.size() == c.steps, what << ": " << t.size() << " samples, expected " << c.steps);
    double R = R0, At = M_PI * c.d * c.d / 4; REQ(t[0] == 0 && th[0] == 0 && pr[0] == c.pref, what << ": first sample");
    for (int i = 0; i < c.steps; ++i) { NEAR(t[i], i * c.dt, 0, what << ": time " << i); if (i > 0) { NEARTOL(pr[i], root(c, R), 0, 1e-7, what << ": pressure " << i); NEARTOL(massRate(c, R) * std::pow(pr[i] / c.pref, c.al), At * pr[i] / c.cs, 0, 1e-7, what << ": mass balance " << i); NEARTOL(th[i], 269.0 * 9.8 * At * (pr[i] - c.amb) / c.cs, 269.0 * 9.8 * At * c.amb / c.cs, 1e-9, what << ": thrust " << i); R += std::pow(pr[i] / c.pref, c.al) * c.rate * c.dt; } }
    R += std::pow(root(c, R) / c.pref, c.al) * c.rate * c.dt; Rend = R;
}
PBT("burn", 500, "several samples") {
    Case c = gen(s); s.desc << "burn alpha " << c.al << " dt " << c.dt << " samples " << c.steps << " radius " << c.R << " throat " << c.d; s.nontrivial(c.steps > 2);
    auto cyl = std::make_shared<Plato::Cylinder>(); auto base = c.in; bool viaSetters = s.flag(); if (viaSetters) { Plato::AlgebraicRocketInputs d; c.in = d; }
    Plato::AlgebraicRocketModel m(c.in, cyl); m.disableOutput(); if (viaSetters) { m.setMaxNumIterations(200); m.setRefPressure(base.mRefPressure); m.setBurnRateExponent(base.mAlpha); m.setThroatDiameter(base.mThroatDiameter); m.setCharacteristicVelocity(base.mCharacteristicVelocity); m.setAmbientPressure(base.mAmbientPressure); m.setBurnTimeStep(base.mDeltaTime); m.setTotalBurnTime(base.mTotalBurnTime); }
    auto p = par(s, c, s.flag()); m.initialize(p); { double q = c.T / c.dt; int lo = (int)std::floor(q - 1e-6), hi = (int)std::floor(q + 1e-6); REQ(p.mNumTimeSteps == lo || p.mNumTimeSteps == hi, "time steps " << p.mNumTimeSteps); }
    NEAR(cyl->radius(), c.R, 0, "initial radius"); NEAR(cyl->length(), c.L, 0, "length"); double R1, R2; m.solve(); compare(s, c, m, c.R, R1, "first burn"); NEARTOL(cyl->radius(), R1, 0, 1e-7, "radius after the burn"); NEAR(cyl->length(), c.L, 0, "length after the burn");
    // burning on continues from the current radius; starting over repeats the first burn
    if (s.flag() && reachable(c, R1, R2)) { m.solve(); compare(s, c, m, R1, R2, "second burn"); }
    auto first = m.getThrustProfile(); m.initialize(p); m.solve(); compare(s, c, m, c.R, R2, "burn after starting over");
}
PBT("cylinder_history", 500, "a step after an update") {
    Plato::Cylinder cy; int n = s.len(1, 8); double R = 0, L = 0, rho = 0, rate = 0; bool evolved = false; s.desc << "cylinder history";
    for (int k = 0; k < n; ++k) { int op = k == 0 ? s.intIn(0, 1) : s.intIn(0, 4); if (op <= 1) { Plato::ProblemParams p = s.flag() ? Plato::RocketMocks::set_constant_burn_rate_problem(9, s.logreal(.1, 5), s.logreal(.01, 1), s.logreal(1e-4, 1e-1)) : Plato::RocketMocks::set_linear_burn_rate_problem(9, s.logreal(.1, 5), s.logreal(.01, 1), s.logreal(1e-4, 1e-1), s.sreal(1)); if (s.flag()) p.mPropellantDensity = s.logreal(100, 3000); L = p.mGeometry[1]; R = p.mGeometry[2]; rho = p.mPropellantDensity; rate = p.mRefBurnRate[0]; op ? cy.updateGeometry(p) : cy.initialize(p); s.desc << " set R=" << R << " L=" << L; }
        else { double dt = s.logreal(1e-3, 1), mu = s.logreal(.1, 10); double old = cy.radius(); cy.evolveGeometry(dt, mu); R += dt * mu * rate; evolved = true; REQ(cy.radius() > old, "burning shrinks the bore"); s.desc << " burn " << dt; }
        NEAR(cy.radius(), R, 0, "radius after operation " << k); NEAR(cy.length(), L, 0, "length after operation " << k); NEAR(cy.area(), 2 * M_PI * R * L, 0, "area after operation " << k); NEAR(cy.referenceMassProductionRate(), rate * rho * 2 * M_PI * R * L, 0, "mass rate after operation " << k); vector<double> g{7, 7}; cy.gradient(g); NEAR(g[0], 2 * M_PI * L, 0, "area derivative with respect to radius"); NEAR(g[1], 2 * M_PI * R, 0, "area derivative with respect to length"); }
    s.nontrivial(evolved);
}
PBT("thrust_file", 40, "several samples") {
    Case c = gen(s); auto cyl = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(c.in, cyl); m.disableOutput(); auto p = par(s, c, false); m.initialize(p); m.solve(); s.desc << "thrust file of " << c.steps; s.nontrivial(c.steps > 2);
    char d[] = "rkXXXXXX"; REQ(mkdtemp(d) && chdir(d) == 0, "scratch directory"); m.output(false); bool none = access("thrust_profile.txt", F_OK) != 0; m.output(true); vector<double> v; { std::ifstream f("thrust_profile.txt"); double x; while (f >> x) v.push_back(x); } unlink("thrust_profile.txt"); if (chdir("..") == 0) rmdir(d);
    REQ(none, "a file was written although output was off"); auto th = m.getThrustProfile(); REQ(v.size() == th.size(), "lines " << v.size() << " for " << th.size() << " samples"); for (size_t i = 0; i < v.size(); ++i) NEARTOL(v[i], th[i], 0, 1e-4, "line " << i);
}
