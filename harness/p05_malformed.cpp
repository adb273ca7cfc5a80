// P05: malformed material expressions are rejected, and rejecting one leaves the evaluator usable.
#include "expr.hpp"
using namespace ex;
// 0 accepted with value, 1 rejected by an error
static int outcome(Plato::ExpressionEvaluator& ev, const std::string& t, double& v) {
    Exact x(t);
    try { ev.parse_expression(x.c); if (ev.validate_expression() != 0) return 1; v = ev.evaluate_expression(); return 0; } catch (const std::exception&) { return 1; }
}
// independent recursive-descent reader of the same grammar over a token list
struct Reader {
    std::vector<std::string> tk; size_t i = 0; const Env& e; bool bad = false, undefinedVar = false, inBars = false;
    Reader(const Env& en) : e(en) {}
    std::string cur() const { return i < tk.size() ? tk[i] : ""; }
    bool startsPrimary(const std::string& c) const { return c == "(" || c == "|" || c == "PI" || (!c.empty() && (std::isalnum((unsigned char)c[0]) || c[0] == '_')); }
    Val die() { bad = true; return {0, 0}; }
    P add() { P l = mul(); while (!bad && (cur() == "+" || cur() == "-")) { auto o = cur(); ++i; P r = mul(); l = mk(o == "+" ? ADD : SUB, l, r); } return l; }
    P mul() { P l = pw(); while (!bad && (cur() == "*" || cur() == "/" || (cur() == "(" && i > 0 && tk[i - 1] == ")"))) { auto o = cur(); if (o != "(") ++i; P r = pw(); l = mk(o == "/" ? DIV : MUL, l, r); } return l; }
    P pw() { P l = un(); if (!bad && cur() == "^") { ++i; P r = pw(); return mk(POW, l, r); } return l; }
    P un() { if (cur() == "+" || cur() == "-") { auto o = cur(); ++i; if (cur() == "+" || cur() == "-") { bad = true; return nullptr; } return mk(o == "-" ? NEG : POS, post()); } return post(); }
    P post() { P a = prim(); while (!bad && cur() == "!") { ++i; a = mk(FACT, a); } return a; }
    P group() { bool sv = inBars; inBars = false; P a = add(); inBars = sv; return a; }
    P prim() {
        auto c = cur(); if (bad || c.empty()) { bad = true; return nullptr; }
        if (c == "(") { ++i; P a = group(); if (cur() != ")") { bad = true; return a; } ++i; return a; }
        if (c == "|") { if (inBars) { bad = true; return nullptr; } ++i; inBars = true; P a = add(); inBars = false; if (cur() != "|") { bad = true; return a; } ++i; return mk(BARS, a); }
        if (c == "pow(") { ++i; P a = group(); if (cur() != ",") { bad = true; return a; } ++i; P b = group(); if (cur() != ")") { bad = true; return b; } ++i; return mk(POWF, a, b); }
        if (c.size() > 3 && c.back() == '(') { ++i; P a = group(); if (cur() != ")") { bad = true; return a; } ++i; auto f = mk(FUNC, a); f->txt = c.substr(0, c.size() - 1); return f; }
        if (c == "PI") { ++i; return mk(PI); }
        if (std::isdigit((unsigned char)c[0])) { ++i; auto n = mk(NUM); n->num = std::strtod(c.c_str(), nullptr); return n; }
        if (std::isalpha((unsigned char)c[0]) || c[0] == '_') { ++i; auto n = mk(VAR); bool f = false; for (auto& v : e.vars) if (v.first == c) { n->num = v.second; f = true; } if (!f) undefinedVar = true; return n; }
        bad = true; return nullptr;
    }
};
static bool good(const P& p, bool& factOdd) { if (!p) return true; if (p->k == FACT) { auto v = eval(p->a); if (!(v.v >= 0 && v.v <= 25 && v.v == std::floor(v.v))) { factOdd = true; return false; } } if (!good(p->a, factOdd) || !good(p->b, factOdd)) return false; auto v = eval(p); return std::isfinite(v.v) && usable(v); }
PBT("token_strings", 20000, "at least four tokens and an outcome fixed by the reference reader") {
    static const std::vector<std::string> T = {"1", "2.5", "3", "+", "-", "*", "/", "^", "!", "(", ")", "(", ")", "|", "|", "x", "y", "sin(", "exp(", "sqrt(", "abs(", "pow(", ",", "PI", "q", "+", "-", "*"};
    Env e; e.vars = {{"x", 0.5}, {"y", -2}}; Reader r(e); int n = s.intIn(0, 9); std::string t; std::vector<char> open; bool grey = false;
    for (int i = 0; i < n; ++i) {
        auto k = s.pick(T);
        // after a binary operator or at the start, prefer operands, so that a good share is well-formed
        if (s.flag() && (i == 0 || std::string("+-*/^(,").find(r.tk.back().back()) != std::string::npos)) k = s.pick(std::vector<std::string>{"1", "2.5", "x", "y", "(", "sin(", "|", "-", "PI", "pow("});
        r.tk.push_back(k);
    }
    // close what is open, most of the time, in the right order
    std::string stk; for (auto& k : r.tk) { if (k.back() == '(') stk += (k == "pow(" ? 'p' : '('); else if (k == ")") { if (!stk.empty() && (stk.back() == '(' || stk.back() == 'p')) stk.pop_back(); } else if (k == ",") { if (stk.empty() || stk.back() != 'p') { if (stk.find('p') != std::string::npos) grey = true; else { for (auto& q : r.tk) if (q == "pow(") grey = true; } } else stk.back() = '('; } }
    if (s.chance(2, 3)) while (!stk.empty()) { if (stk.back() == 'p') { r.tk.push_back(","); r.tk.push_back("2"); } r.tk.push_back(")"); stk.pop_back(); }
    for (size_t i = 0; i < r.tk.size(); ++i) { t += r.tk[i]; if (i + 1 < r.tk.size()) { bool glue = (std::isalnum((unsigned char)r.tk[i].back()) && std::isalnum((unsigned char)r.tk[i + 1][0])); t += glue ? " " : sp(s); } }
    DISCARD_IF(grey); // a comma inside an inner parenthesis of pow: not covered by the grammar
    // a function right after a value without an operator is malformed; the reader rejects it by leftover tokens
    P p = r.add(); bool ok = !r.bad && r.i == r.tk.size(); s.desc << show(t) << (ok ? r.undefinedVar ? " (undefined variable)" : " (well-formed)" : " (malformed)");
    // (a)pow(b,c): read by the code as the implicit product of two parentheses
    for (size_t i = 0; i + 1 < r.tk.size(); ++i) DISCARD_IF(r.tk[i] == ")" && r.tk[i + 1] == "pow(");
    Plato::ExpressionEvaluator ev(list(e)); double v = 0;
    if (ok && !r.undefinedVar) { bool odd = false; if (!good(p, odd)) { DISCARD_IF(odd); outcome(ev, t, v); return; } }
    int g = outcome(ev, t, v); s.nontrivial(r.tk.size() >= 4); s.tag(ok ? r.undefinedVar ? "undefined variable" : "well-formed" : "malformed");
    if (!ok || r.undefinedVar) REQ(g == 1, (ok ? "undefined variable in {" : "malformed {") << show(t) << "} accepted with value " << v);
    else { REQ(g == 0, "well-formed {" << show(t) << "} rejected"); same(v, eval(p), t); }
    double w = 0; REQ(outcome(ev, "x*4-y", w) == 0 && w == 4.0, "evaluator unusable after {" << show(t) << "}");
}
// one definite damage to a well-formed expression
PBT("damaged", 8000, "the undamaged expression has at least two operations") {
    Env e = env(s); P p = gen(s, e, s.intIn(1, 4)); auto t = print(s, p, 0, false); int o = ops(p); s.nontrivial(o >= 2); std::string d; const char* what = "";
    Plato::ExpressionEvaluator ev(list(e)); double v = 0;
    switch (s.intIn(0, 11)) {
    case 0: what = "missing close"; d = "(" + t; break;
    case 1: what = "extra close"; d = t + ")"; break;
    case 2: { what = "illegal character"; static const std::string bad = "#$%&@~`\"';:?<>=[]{}\\"; size_t at = s.draw(t.size()); char c = s.chance(1, 6) ? (char)(128 + s.draw(127)) : bad[s.draw(bad.size() - 1)]; d = t.substr(0, at) + c + t.substr(at); break; }
    case 3: what = "missing right operand"; d = t + s.pick(std::vector<std::string>{"+", "-", "*", "/", "^"}); break;
    case 4: what = "missing left operand"; d = s.pick(std::vector<std::string>{"*", "/", "^", "!"}) + t; break;
    case 5: what = "two values in a row"; d = s.flag() ? "(" + t + ") 3" : "2 (" + t + ")"; break;
    case 6: what = "undefined variable"; d = "(" + t + ")*undefined_v"; break;
    case 7: what = "comma without function"; d = "(" + t + "),2"; DISCARD_IF(t.find("pow") != std::string::npos); break;
    case 8: what = "pow with one parameter"; d = "pow(" + t + ")"; break;
    case 9: what = "unclosed bar"; DISCARD_IF(t.find('|') != std::string::npos); d = "|" + t; break;
    case 10: what = "empty argument"; d = s.pick(std::vector<std::string>{"sin()", "()", "pow(,2)", "pow(2,)", "||", "abs()", "", "   ", "(()) ", "3+()"}); break;
    default: what = "malformed number"; d = "(" + t + ")+" + s.pick(std::vector<std::string>{"1.2.3", "1..2", "2e", "2e+", "3e5e2", "1e-", "1e2.5"}); break;
    }
    s.tag(what); s.desc << what << ": " << show(d); REQ(outcome(ev, d, v) == 1, what << ": {" << show(d) << "} accepted with value " << v);
    if (eval(p).e == 0 || usable(eval(p))) { double w = 0; bool odd = false; if (good(p, odd)) { REQ(outcome(ev, t, w) == 0, "evaluator unusable after {" << show(d) << "}"); same(w, eval(p), t); } }
}
// arbitrary bytes: any outcome but a memory error or a hang
PBT("raw_bytes", 6000, "at least two characters") {
    static const std::string A = "sincostanexplogsqrtabspowPI0123456789.e+-*/^!(),|| \txyzE_#";
    int n = s.intIn(0, 24); std::string t; for (int i = 0; i < n; ++i) { if (s.chance(1, 5)) t += s.pick(std::vector<std::string>{"sin", "sqr", "sqrt", "pow(", "exp(", "PI", "abs", "1e", "|", "si", "po", "P"}); else if (s.chance(1, 12)) t += (char)(1 + s.draw(254)); else t += A[s.draw(A.size() - 1)]; }
    // keep factorial arguments small: a digit run of more than two followed by ! costs time, not meaning
    for (size_t i = 0; i < t.size(); ++i) if (t[i] == '!') t[i] = s.chance(1, 4) && i == 1 && std::isdigit((unsigned char)t[0]) ? '!' : '+';
    Env e; e.vars = {{"x", 1.5}, {"y", 2}, {"z", -1}}; Plato::ExpressionEvaluator ev(list(e)); s.desc << show(t); s.nontrivial(t.size() >= 2); double v; outcome(ev, t, v);
    double w = 0; REQ(outcome(ev, "x*4-y", w) == 0 && w == 4.0, "evaluator unusable after {" << show(t) << "}");
    if (s.chance(1, 10)) { std::string big(s.intIn(100, 300), s.flag() ? 'v' : '7'); REQ(outcome(ev, big, v) == 1 || std::isdigit((unsigned char)big[0]) && big.size() < 127, "over-long name accepted"); }
}
