// P04: value of well-formed material expressions.
#include "expr.hpp"
#include "PlatoMathExpr.hpp"
using namespace ex;
static double run(Plato::ExpressionEvaluator& ev, const std::string& t) {
    Exact x(t);
    try { ev.parse_expression(x.c); REQ(ev.validate_expression() == 0, "well-formed {" << show(t) << "} not validated"); return ev.evaluate_expression(); }
    catch (pbt::Failure&) { throw; } catch (const std::exception& e) { FAIL("well-formed {" << show(t) << "} rejected: " << std::string(e.what()).substr(0, 200)); }
}
static bool finiteTree(const P& p) { if (!p) return true; auto v = eval(p); return std::isfinite(v.v) && usable(v) && finiteTree(p->a) && finiteTree(p->b); }
PBT("random_trees", 12000, "at least three operations, every subterm finite and well-conditioned") {
    Env e = env(s); P p = gen(s, e, s.intIn(1, 5)); DISCARD_IF(!finiteTree(p)); auto v = eval(p);
    auto t = sp(s) + print(s, p, 0, false) + sp(s); s.desc << show(t); s.nontrivial(ops(p) >= 3);
    if (t.find("pow") != std::string::npos) s.tag("pow(,)"); if (t.find('|') != std::string::npos) s.tag("bars"); if (t.find('^') != std::string::npos) s.tag("^"); if (t.find('!') != std::string::npos) s.tag("factorial");
    Plato::ExpressionEvaluator ev(list(e)); double g = run(ev, t); same(g, v, t);
    REQ(ev.evaluate_expression() == g, "second evaluation of the same expression differs");
    std::ostringstream o; ev.print_expression(o); REQ(!o.str().empty(), "empty listing"); REQ(ev.evaluate_expression() == g, "printing changed the value");
}
PBT("histories", 1500, "at least three expressions evaluated on one object") { // one evaluator, many expressions, including failures in between
    Env e = env(s); Plato::ExpressionEvaluator ev(list(e)); int n = s.intIn(2, 6), ok = 0;
    for (int i = 0; i < n; ++i) {
        if (s.chance(1, 4)) { bool thrown = false; try { ev.parse_expression(s.flag() ? "(1+2" : "3*+"); ev.validate_expression(); } catch (const std::exception&) { thrown = true; } REQ(thrown, "malformed expression accepted"); continue; }
        if (s.chance(1, 6)) { ev.delete_expression(); continue; }
        P p = gen(s, e, s.intIn(0, 4)); if (!finiteTree(p)) continue; auto t = print(s, p, 0, false); s.desc << "{" << show(t) << "} "; same(run(ev, t), eval(p), t); ++ok;
    }
    s.nontrivial(ok >= 3);
}
// chains of equal-precedence operators: associativity
PBT("associativity", 3000, "chain of at least three operands") {
    Env e = env(s); int n = s.intIn(2, 6), fam = s.intIn(0, 2); std::vector<double> v; std::vector<char> op; std::string t;
    for (int i = 0; i < n; ++i) { double x = fam == 2 ? (i == 0 ? s.intIn(1, 3) : s.intIn(0, 2)) : s.intIn(1, 9); v.push_back(x); if (i) { char c = fam == 0 ? (s.flag() ? '+' : '-') : fam == 1 ? (s.flag() ? '*' : '/') : '^'; op.push_back(c); t += c; } t += std::to_string((int)x); }
    double w; if (fam == 2) { w = v.back(); for (int i = n - 2; i >= 0; --i) w = std::pow(v[i], w); } else { w = v[0]; for (int i = 1; i < n; ++i) switch (op[i - 1]) { case '+': w += v[i]; break; case '-': w -= v[i]; break; case '*': w *= v[i]; break; default: w /= v[i]; } }
    s.desc << t; s.nontrivial(n >= 3); DISCARD_IF(!std::isfinite(w)); Plato::ExpressionEvaluator ev(list(e)); same(run(ev, t), {w, 1e-12 * std::fabs(w)}, t);
}
// variables: the value of an expression is a function of the values in the list it was built with
PBT("variables", 2000, "at least two variables with different values") {
    Env e = env(s); Plato::ExpressionEvaluator ev(list(e)); s.desc << e.vars.size() << " variables"; bool diff = false;
    for (auto& v : e.vars) { if (v.second != e.vars[0].second) diff = true; REQ(run(ev, v.first) == v.second, "value of variable " << v.first); same(run(ev, "2*" + v.first + "+1"), {2 * v.second + 1, 1e-13 * (2 * std::fabs(v.second) + 1)}, v.first); }
    s.nontrivial(e.vars.size() >= 2 && diff);
}
// expressions of t used for boundary conditions
PBT("time_expressions", 1200, "t is not zero") {
    double t = s.chance(1, 8) ? 0 : s.sreal(s.pick(std::vector<double>{1, 10, 1000})), a = s.sreal(5), b = s.sreal(5); a = std::floor(a * 1000) / 1000; b = std::floor(b * 1000) / 1000; std::ostringstream o; o.precision(15); double w;
    auto num = [&](double x) { std::ostringstream q; q << std::fixed; q.precision(3); q << "(" << x << ")"; return q.str(); };
    switch (s.intIn(0, 6)) {
    case 0: o << num(a) << "*t+" << num(b); w = a * t + b; break;
    case 1: o << "a=" << num(a) << "; b=" << num(b) << "; a*t-b"; w = a * t - b; break;
    case 2: o << "sin(t)*" << num(a); w = std::sin(t) * a; break;
    case 3: o << "(t+" << num(a) << ")*(t-" << num(b) << ")"; w = (t + a) * (t - b); break;
    case 4: o << num(a) << "+t*" << num(b) << "/2.0"; w = a + t * b / 2; break;
    case 5: o << "exp(0.0-t*t)"; w = std::exp(-t * t); break;
    default: o << "t^2.0-" << num(b) << "*t"; w = t * t - b * t; break;
    }
    s.desc << o.str() << " at t=" << t; s.nontrivial(t != 0); Plato::MathExpr m(o.str());
    NEARTOL(m.value(t), w, (1 + std::fabs(t)) * (6 + std::fabs(t)) , 1e-11, o.str()); double t2 = s.sreal(2); m.value(t2); NEARTOL(m.value(t), w, (1 + std::fabs(t)) * (6 + std::fabs(t)), 1e-11, "after another evaluation: " << o.str());
}
