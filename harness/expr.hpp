// Random expression trees: printed in the documented grammar, evaluated on the tree.
#pragma once
#include "plato.hpp"
#include "ExpressionEvaluator.hpp"
#include <Teuchos_ParameterList.hpp>
#include <memory>
#include <cstring>
namespace ex {
enum Kind { NUM, VAR, PI, ADD, SUB, MUL, DIV, POW, NEG, POS, FACT, FUNC, POWF, BARS };
struct Ast { Kind k; double num = 0; std::string txt; std::shared_ptr<Ast> a, b; };
using P = std::shared_ptr<Ast>;
struct Env { std::vector<std::pair<std::string, double>> vars; };
inline P mk(Kind k, P a = nullptr, P b = nullptr) { auto p = std::make_shared<Ast>(); p->k = k; p->a = a; p->b = b; return p; }
inline int prec(const P& p) { switch (p->k) { case ADD: case SUB: return 2; case MUL: case DIV: return 3; case POW: return 4; case NEG: case POS: return 5; case FACT: return 6; default: return 7; } }

// names that share prefixes and suffixes, never starting with a reserved word
inline std::string unreserved(std::string q) { for (const char* w : {"sin", "cos", "tan", "exp", "log", "sqrt", "abs", "pow", "PI"}) if (q.compare(0, std::strlen(w), w) == 0) q[0] = 'z'; return q; }
inline std::string name(pbt::Src& s) {
    static const std::string first = "zabcdefghijklmnopqrstuvwxyZABCDEFGHIJKLMNOPQRSTUVWXY_", rest = first + "9012345678"; std::string q(1, first[s.intIn(0, (int)first.size() - 1)]);
    for (int i = s.intIn(0, s.chance(1, 10) ? 60 : 5); i > 0; --i) q += rest[s.intIn(0, (int)rest.size() - 1)];
    return unreserved(q);
}
inline Env env(pbt::Src& s) {
    static const std::vector<std::string> names = {"x", "y", "x1", "x10", "a_b", "a", "ab", "A", "_t", "E0", "nu", "P", "alpha", "s", "e", "ex", "lo"};
    Env e; int n = s.intIn(1, 5), at = s.intIn(0, (int)names.size() - 1);
    if (s.chance(1, 3)) { e.vars.push_back({name(s), s.sreal(4)}); if (s.flag()) { auto q = unreserved(e.vars[0].first + name(s)); if (q.size() < 100) e.vars.push_back({q, s.sreal(4)}); } }
    auto has = [&](const std::string& q) { for (auto& v : e.vars) if (v.first == q) return true; return false; };
    for (int i = 0; i < n; ++i) if (!has(names[(at + i * 3) % names.size()])) e.vars.push_back({names[(at + i * 3) % names.size()], s.chance(1, 8) ? 0.0 : s.flag() ? s.sreal(4) : (double)s.intIn(-6, 6)});
    return e;
}
inline Teuchos::ParameterList list(const Env& e) { Teuchos::ParameterList p("vars"); for (auto& v : e.vars) p.set<Plato::Scalar>(v.first, v.second); return p; }

inline P number(pbt::Src& s) {
    auto p = mk(NUM); std::ostringstream o;
    switch (s.intIn(0, 7)) {
    case 0: o << s.intIn(0, 9); break;
    case 6: o << s.intIn(1, 9) << (s.flag() ? "e" : s.flag() ? "e+" : "e-") << s.intIn(4, 29); break;
    case 7: { o << s.intIn(0, 9); for (int i = s.intIn(0, s.chance(1, 10) ? 90 : 12); i > 0; --i) o << s.intIn(0, 9); if (s.flag()) { o << "."; for (int i = s.intIn(0, 20); i > 0; --i) o << s.intIn(0, 9); } if (s.chance(1, 3)) o << (s.flag() ? "e" : s.flag() ? "e+" : "e-") << s.intIn(0, 12); break; }
    case 1: o << s.intIn(10, 999); break;
    case 2: o << s.intIn(0, 30) << "." << s.intIn(0, 999); break;
    case 3: o << s.intIn(1, 9) << "e" << s.intIn(0, 3); break;
    case 4: o << s.intIn(1, 9) << "." << s.intIn(0, 99) << "e-" << s.intIn(0, 4); break;
    default: o << s.intIn(1, 9) << "." << s.intIn(0, 9) << "e+" << s.intIn(0, 2);
    }
    p->txt = o.str(); p->num = std::strtod(p->txt.c_str(), nullptr); return p;
}
inline P gen(pbt::Src& s, const Env& e, int depth) {
    if (depth <= 0 || s.chance(1, 6)) { int c = s.intIn(0, 6); if (c < 3) return number(s); if (c < 6) { auto v = s.pick(e.vars); auto p = mk(VAR); p->txt = v.first; p->num = v.second; return p; } return mk(PI); }
    switch (s.intIn(0, 14)) {
    case 0: case 1: return mk(ADD, gen(s, e, depth - 1), gen(s, e, depth - 1));
    case 2: case 3: return mk(SUB, gen(s, e, depth - 1), gen(s, e, depth - 1));
    case 4: case 5: return mk(MUL, gen(s, e, depth - 1), gen(s, e, depth - 1));
    case 6: case 7: return mk(DIV, gen(s, e, depth - 1), gen(s, e, depth - 1));
    case 8: return mk(POW, gen(s, e, depth - 1), s.flag() ? mk(NEG, gen(s, e, 0)) : gen(s, e, s.flag() ? 0 : depth - 1));
    case 9: return mk(NEG, gen(s, e, depth - 1));
    case 10: return mk(POS, gen(s, e, depth - 1));
    case 11: { auto n = mk(NUM); n->num = s.chance(1, 8) ? s.intIn(21, 30) : s.intIn(0, 12); std::ostringstream o; o << (int)n->num; n->txt = o.str(); if (s.chance(1, 4)) { auto m = mk(NUM); m->num = s.intIn(0, 3); m->txt = std::to_string((int)m->num); return mk(FACT, mk(s.flag() ? ADD : MUL, n, m)); } return mk(FACT, n); }
    case 12: { auto f = mk(FUNC, gen(s, e, depth - 1)); static const std::vector<std::string> fs = {"sin", "cos", "tan", "exp", "log", "sqrt", "abs"}; f->txt = s.pick(fs); return f; }
    case 13: return mk(POWF, gen(s, e, depth - 1), gen(s, e, s.flag() ? 0 : depth - 1));
    default: return mk(BARS, gen(s, e, depth - 1));
    }
}
inline std::string sp(pbt::Src& s) { static const std::vector<std::string> w = {"", "", "", "", " ", "  ", "\t", "\n"}; return s.pick(w); }
// bars: an absolute value bar is open at this parenthesis level
inline std::string print(pbt::Src& s, const P& p, int minPrec, bool bars);
inline std::string paren(pbt::Src& s, const P& p) { return "(" + sp(s) + print(s, p, 0, false) + sp(s) + ")"; }
inline std::string print(pbt::Src& s, const P& p, int minPrec, bool bars) {
    if (prec(p) < minPrec || s.chance(1, 8) || (p->k == BARS && bars)) return paren(s, p);
    switch (p->k) {
    case NUM: case VAR: return p->txt;
    case PI: return "PI";
    case ADD: return print(s, p->a, 2, bars) + sp(s) + "+" + sp(s) + print(s, p->b, 3, bars);
    case SUB: return print(s, p->a, 2, bars) + sp(s) + "-" + sp(s) + print(s, p->b, 3, bars);
    case MUL: { auto l = print(s, p->a, 3, bars), r = print(s, p->b, 4, bars); if (l.back() == ')' && r[0] == '(' && s.flag()) return l + sp(s) + r; return l + sp(s) + "*" + sp(s) + r; }
    case DIV: return print(s, p->a, 3, bars) + sp(s) + "/" + sp(s) + print(s, p->b, 4, bars);
    case POW: return print(s, p->a, 5, bars) + sp(s) + "^" + sp(s) + print(s, p->b, 4, bars);
    case NEG: return "-" + sp(s) + print(s, p->a, 6, bars);
    case POS: return "+" + sp(s) + print(s, p->a, 6, bars);
    case FACT: return print(s, p->a, 6, bars) + sp(s) + "!";
    case FUNC: return p->txt + sp(s) + paren(s, p->a);
    case POWF: return "pow" + sp(s) + "(" + sp(s) + print(s, p->a, 0, false) + sp(s) + "," + sp(s) + print(s, p->b, 0, false) + sp(s) + ")";
    default: return "|" + sp(s) + print(s, p->a, 0, true) + sp(s) + "|";
    }
}
// value with a running bound on rounding error; e = inf when the value is too ill-conditioned to compare
struct Val { double v, e; };
inline Val eval(const P& p) {
    const double u = 1e-13;
    if (p->k == NUM || p->k == VAR) return {p->num, 0};
    if (p->k == PI) return {M_PI, 0};
    Val a = eval(p->a), b = p->b ? eval(p->b) : Val{0, 0}; double v = 0, e = 0; const double inf = std::numeric_limits<double>::infinity();
    switch (p->k) {
    case ADD: v = a.v + b.v; e = a.e + b.e; break;
    case SUB: v = a.v - b.v; e = a.e + b.e; break;
    case MUL: v = a.v * b.v; e = a.e * std::fabs(b.v) + b.e * std::fabs(a.v); break;
    case DIV: if (b.v == 0 && b.e == 0) return {0, 0}; v = a.v / b.v; e = b.e >= 0.5 * std::fabs(b.v) ? inf : (a.e + std::fabs(v) * b.e) / (0.5 * std::fabs(b.v)); break;
    case POW: case POWF: { v = std::pow(a.v, b.v);
        if (a.e > 0 || b.e > 0) { if (a.v <= 0 || a.e > 0.01 * a.v) e = inf; else { double rel = (std::fabs(b.v) + b.e) * a.e / a.v * 2 + std::fabs(std::log(a.v)) * b.e * 2; e = rel > 0.1 ? inf : std::fabs(v) * rel * 2; } } break; }
    case NEG: v = -a.v; e = a.e; break;
    case POS: v = a.v; e = a.e; break;
    case FACT: { v = 1; for (int i = 1; i <= (int)a.v; ++i) v *= i; break; }
    case BARS: v = std::fabs(a.v); e = a.e; break;
    default:
        if (p->txt == "sin") { v = std::sin(a.v); e = a.e; }
        else if (p->txt == "cos") { v = std::cos(a.v); e = a.e; }
        else if (p->txt == "tan") { v = std::tan(a.v); e = a.e * 4 * (1 + v * v); if (a.e * (1 + std::fabs(v)) > 0.1) e = inf; }
        else if (p->txt == "exp") { v = std::exp(a.v); e = a.e > 0.1 ? inf : 2 * a.e * v; }
        else if (p->txt == "log") { v = std::log(a.v); e = a.e == 0 ? 0 : a.v <= 2 * a.e ? inf : 2 * a.e / a.v; }
        else if (p->txt == "sqrt") { v = std::sqrt(a.v); e = a.e == 0 ? 0 : a.v <= 2 * a.e ? inf : a.e / v; }
        else { v = std::fabs(a.v); e = a.e; }
    }
    if (e == 0 && (v == std::floor(v)) && std::fabs(v) < 1e9 && (p->k == ADD || p->k == SUB || p->k == MUL || p->k == NEG || p->k == POS || p->k == FACT || p->k == BARS)) return {v, 0}; // exact
    if (e == 0 && (p->k == NEG || p->k == POS || p->k == BARS)) return {v, 0};
    return {v, e + u * std::fabs(v) + (p->k == FUNC ? 1e-15 : 0)};
}
inline int ops(const P& p) { if (!p) return 0; return (p->k > PI) + ops(p->a) + ops(p->b); }
// an expression held in a buffer of exactly its size, so that reading past its end is caught
struct Exact { char* c; explicit Exact(const std::string& t) : c(new char[t.size() + 1]) { std::memcpy(c, t.c_str(), t.size() + 1); } ~Exact() { delete[] c; } };
inline std::string show(const std::string& t) { std::string r; for (unsigned char ch : t) { if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; } return r; }
inline void same(double got, Val w, const std::string& t) {
    if (std::isnan(w.v)) { REQ(std::isnan(got), "expression {" << show(t) << "} = " << got << ", expected not-a-number"); return; }
    if (std::isinf(w.v)) { REQ(got == w.v, "expression {" << show(t) << "} = " << got << ", expected " << w.v); return; }
    REQ(std::isfinite(got) && std::fabs(got - w.v) <= w.e * 2 + 1e-300, "expression {" << show(t) << "} = " << got << ", expected " << w.v);
}
inline bool usable(const Val& v) { return std::isnan(v.v) || std::isinf(v.v) || (v.e <= 1e-6 * (std::fabs(v.v) + 1e-3)); }
// NaN or infinity anywhere inside can legitimately meet ill-conditioning; such cases are only kept when exact
} // namespace ex
