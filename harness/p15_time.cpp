// Time integrators: residuals vanish exactly on the scheme's own update, and the derivative coefficients are theirs.
#include "plato.hpp"
#include <Teuchos_ParameterList.hpp>
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
using namespace h;
using PL = Teuchos::ParameterList;
struct Ev {};

PBT("newmark_step", 900, "several entries") {
    int n = s.len(1, 6); double ga = s.real(0.05, 1), be = s.logreal(0.02, 1), dt = s.draw(9) == 9 ? s.logreal(1e-8, 1e5) : s.logreal(1e-4, 1e2), m = s.mag(1e-2, 1e2); PL p; p.set<double>("Newmark Gamma", ga); p.set<double>("Newmark Beta", be); Plato::NewmarkIntegrator<Ev> f(p); s.desc << "Newmark gamma " << ga << " beta " << be << " dt " << dt << " entries " << n; s.nontrivial(n > 1);
    dvec u0 = s.vec(n, m), v0 = s.vec(n, m), a0 = s.vec(n, m), a = s.vec(n, m), u(n), v(n); for (int i = 0; i < n; ++i) { v[i] = v0[i] + dt * ((1 - ga) * a0[i] + ga * a[i]); u[i] = u0[i] + dt * v0[i] + dt * dt / 2 * ((1 - 2 * be) * a0[i] + 2 * be * a[i]); }
    auto rv = vec(f.v_value(view(u), view(u0), view(v), view(v0), view(a), view(a0), dt)), ra = vec(f.a_value(view(u), view(u0), view(v), view(v0), view(a), view(a0), dt)); REQ((int)rv.size() == n && (int)ra.size() == n, "length"); double sa = m * (1 + 1 / (be * dt * dt) + 1 / (be * dt) + 1 / be), sv = m * (1 + dt + dt / be) + ga * dt * sa;
    for (int i = 0; i < n; ++i) { NEAR(rv[i], 0, sv, "velocity residual of the Newmark update, entry " << i); NEAR(ra[i], 0, sa, "acceleration residual of the Newmark update, entry " << i); }
    // linear: residual of a perturbed state is the perturbation weighted by the derivative coefficients
    dvec du = s.vec(n, m), du0 = s.vec(n, m), dv = s.vec(n, m), dv0 = s.vec(n, m), da = s.vec(n, m), da0 = s.vec(n, m); auto add = [&](dvec x, const dvec& y) { for (int i = 0; i < n; ++i) x[i] += y[i]; return view(x); };
    auto rv2 = vec(f.v_value(add(u, du), add(u0, du0), add(v, dv), add(v0, dv0), add(a, da), add(a0, da0), dt)), ra2 = vec(f.a_value(add(u, du), add(u0, du0), add(v, dv), add(v0, dv0), add(a, da), add(a0, da0), dt));
    for (int i = 0; i < n; ++i) { NEAR(rv2[i], dv[i] + f.v_grad_u(dt) * du[i] + f.v_grad_u_prev(dt) * du0[i] + f.v_grad_v_prev(dt) * dv0[i] + f.v_grad_a_prev(dt) * da0[i], sv * 3, "derivative of the velocity residual, entry " << i); NEAR(ra2[i], da[i] + f.a_grad_u(dt) * du[i] + f.a_grad_u_prev(dt) * du0[i] + f.a_grad_v_prev(dt) * dv0[i] + f.a_grad_a_prev(dt) * da0[i], sa * 3, "derivative of the acceleration residual, entry " << i); }
    // one coefficient at a time, so that no two errors can cancel
    int k = s.intIn(0, 5), i = s.intIn(0, n - 1); dvec z(n, 0.0); dvec x[6] = {z, z, z, z, z, z}; x[k][i] = 1; double wv[6] = {f.v_grad_u(dt), f.v_grad_u_prev(dt), 1, f.v_grad_v_prev(dt), 0, f.v_grad_a_prev(dt)}, wa[6] = {f.a_grad_u(dt), f.a_grad_u_prev(dt), 0, f.a_grad_v_prev(dt), 1, f.a_grad_a_prev(dt)};
    auto r1 = vec(f.v_value(view(x[0]), view(x[1]), view(x[2]), view(x[3]), view(x[4]), view(x[5]), dt)), r2 = vec(f.a_value(view(x[0]), view(x[1]), view(x[2]), view(x[3]), view(x[4]), view(x[5]), dt)); for (int j = 0; j < n; ++j) { NEAR(r1[j], j == i ? wv[k] : 0, dt / be + dt, "velocity coefficient " << k); NEAR(r2[j], j == i ? wa[k] : 0, 1 / be + 1, "acceleration coefficient " << k); }
}
PBT("trapezoid_step", 700, "several entries") {
    int n = s.len(1, 6); bool dflt = s.chance(1, 4); double al = dflt ? 0.5 : s.real(0.05, 1), dt = s.draw(9) == 9 ? s.logreal(1e-8, 1e5) : s.logreal(1e-4, 1e2), m = s.mag(1e-2, 1e2); PL p; if (!dflt) p.set<double>("Trapezoid Alpha", al); Plato::Parabolic::TrapezoidIntegrator<Ev> f(p); s.desc << "trapezoid alpha " << al << (dflt ? " (default)" : "") << " dt " << dt << " entries " << n; s.nontrivial(n > 1);
    dvec u0 = s.vec(n, m), v0 = s.vec(n, m), v = s.vec(n, m), u(n); for (int i = 0; i < n; ++i) u[i] = u0[i] + dt * ((1 - al) * v0[i] + al * v[i]); double sv = m * (2 + 1 / al + 1 / (al * dt));
    auto r = vec(f.v_value(view(u), view(u0), view(v), view(v0), dt)); REQ((int)r.size() == n, "length"); for (int i = 0; i < n; ++i) NEAR(r[i], 0, sv, "residual of the trapezoid update, entry " << i);
    int k = s.intIn(0, 3), i = s.intIn(0, n - 1); dvec z(n, 0.0); dvec x[4] = {z, z, z, z}; x[k][i] = 1; double w[4] = {f.v_grad_u(dt), f.v_grad_u_prev(dt), 1, f.v_grad_v_prev(dt)}; auto r1 = vec(f.v_value(view(x[0]), view(x[1]), view(x[2]), view(x[3]), dt)); for (int j = 0; j < n; ++j) NEAR(r1[j], j == i ? w[k] : 0, 1, "coefficient " << k);
}
// histories: solve the step equations with the integrator's own residuals and coefficients
PBT("oscillator_history", 300, "average acceleration") {
    bool avg = s.flag(); double ga = avg ? 0.5 : s.real(0.5, 1), be = avg ? 0.25 : 0.25 * (ga + 0.5) * (ga + 0.5) + s.real(0, 0.2), w2 = s.logreal(1e-2, 1e2), dt = s.logreal(1e-2, 1) / std::sqrt(w2); int steps = s.intIn(2, 30); PL p; p.set<double>("Newmark Gamma", ga); p.set<double>("Newmark Beta", be); Plato::NewmarkIntegrator<Ev> f(p); double u = s.sreal(2), v = s.sreal(2) * std::sqrt(w2), a = -w2 * u, E0 = v * v + w2 * u * u, emax = E0; s.desc << "oscillator, gamma " << ga << " beta " << be << " steps " << steps; s.nontrivial(avg);
    for (int t = 0; t < steps; ++t) { // unknowns (u1,v1,a1): a1 + w2 u1 = 0, velocity residual 0, acceleration residual 0
        dvec z{0.0}, U0{u}, V0{v}, A0{a}; double ra = f.a_value(view(z), view(U0), view(z), view(V0), view(z), view(A0), dt)(0), rv = f.v_value(view(z), view(U0), view(z), view(V0), view(z), view(A0), dt)(0); double u1 = -ra / (f.a_grad_u(dt) - w2); double v1 = -(rv + f.v_grad_u(dt) * u1), a1 = -w2 * u1; u = u1; v = v1; a = a1; double E = v * v + w2 * u * u; emax = std::max(emax, E); if (avg) NEARTOL(E, E0, 0, 1e-8, "energy after step " << t); }
    REQ(emax <= 4 * E0 * (1 + w2 * dt * dt), "energy of an unconditionally stable scheme grew from " << E0 << " to " << emax);
}
