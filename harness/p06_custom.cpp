// P06: which equation a custom material uses.
#include "expr.hpp"
#include "CustomMaterial.hpp"
#include <fstream>
#include <unistd.h>
using namespace ex;
struct M : Plato::CustomMaterial { M() : Plato::CustomMaterial(Teuchos::ParameterList("m")) {} double byName(const Teuchos::ParameterList& p, const std::string& n) const { return GetCustomExpressionValue(p, n); } double byIndex(const Teuchos::ParameterList& p, int i, const std::string& n) const { return GetCustomExpressionValue(p, i, n); } };
struct File { std::string path; File(const std::string& txt) { const char* d = std::getenv("PBT_TMP"); char b[256]; snprintf(b, 256, "%s/bingo_%d.txt", d ? d : "/tmp", (int)getpid()); path = b; std::ofstream o(path); o << txt; } ~File() { std::remove(path.c_str()); } };
PBT("lookup", 3000, "file with at least two equations of different values") {
    Env e = env(s); auto pl = list(e); int n = s.chance(1, 6) ? s.intIn(6, 40) : s.intIn(0, 5); std::vector<P> eq; std::ostringstream f; int pre = s.intIn(0, 3); for (int i = 0; i < pre; ++i) f << (s.flag() ? "" : "some preamble line") << "\n";
    f << (s.flag() ? "FITNESS    COMPLEXITY    EQUATION" : "  FITNESS, COMPLEXITY, EQUATION ") << "\n"; bool diff = false;
    for (int i = 0; i < n; ++i) { P p; for (int tries = 0;; ++tries) { p = i >= 5 ? number(s) : gen(s, e, 2); auto t = print(s, p, 0, false); auto v = eval(p); p->txt.size(); if ((t.find(',') == std::string::npos && t.find('\n') == std::string::npos && std::isfinite(v.v) && usable(v)) || tries > 20) { if (tries > 20) { p = number(s); t = p->txt; } f << s.intIn(0, 9) << ".5e-3, " << s.intIn(1, 20) << "," << (s.flag() ? " " : "") << t << "\n"; break; } } eq.push_back(p); if (eval(p).v != eval(eq[0]).v) diff = true; }
    // nested non-finite subterms are excluded by the finite value and conditioning bound of the whole
    std::string ftxt = f.str(); int tail = s.intIn(0, 3); if (tail == 1 && n) ftxt.pop_back(); else if (tail == 2) ftxt += "\n"; File file(ftxt); M m; int how = s.intIn(0, 3); pl.set("BingoFile", file.path); int idx = 0; double got = 0; bool threw = false; std::string name = s.pick(std::vector<std::string>{"E11", "Youngs Modulus", "nu_expr"});
    bool viaList = false; P direct; if (s.chance(1, 4)) { direct = number(s); pl.set<std::string>(name, direct->txt + "*2"); }
    int nParam = s.intIn(0, n + 1); bool hasParam = s.flag(); if (hasParam) pl.set<Plato::OrdinalType>("BingoEquation", nParam);
    s.desc << n << " equations, ending " << tail << ", preamble " << pre << ", how " << how << ", default index " << (hasParam ? nParam : -1); s.nontrivial(n >= 2 && diff && !direct);
    try { if (how <= 1) { idx = hasParam ? nParam : 0; got = m.byName(pl, name); } else if (how == 2) { idx = s.intIn(0, n + 1); got = m.byIndex(pl, idx, name); } else { idx = hasParam ? nParam : 0; got = m.byIndex(pl, -1, name); } } catch (const std::exception& x) { threw = true; }
    if (direct) { REQ(!threw, "equation given by name rejected"); NEAR(got, 2 * direct->num, 0, "equation given by name must win over the file"); s.tag("by name"); return; }
    s.tag(idx < n ? "in range" : "out of range");
    if (idx >= n) { REQ(threw, "equation " << idx << " of " << n << " accepted with value " << got); return; }
    REQ(!threw, "equation " << idx << " of " << n << " rejected"); same(got, eval(eq[idx]), "file equation " + std::to_string(idx));
}
PBT("bad_sources", 800, "always") {
    Env e = env(s); auto pl = list(e); M m; s.nontrivial(); int k = s.intIn(0, 5); s.desc << "case " << k;
    if (k == 0) THROWS(m.byName(pl, "E11"), "no equation at all");
    else if (k == 1) { pl.set<std::string>("BingoFile", "/nonexistent/dir/file.txt"); THROWS(m.byName(pl, "E11"), "missing file"); }
    else if (k == 2) { File f("no header\n1,2,x\n"); pl.set("BingoFile", f.path); THROWS(m.byName(pl, "E11"), "file without header"); }
    else if (k == 3) { File f("FITNESS COMPLEXITY EQUATION\nno separators here\n"); pl.set("BingoFile", f.path); THROWS(m.byName(pl, "E11"), "line without separators"); }
    else if (k == 4) { pl.set<std::string>("E11", s.pick(std::vector<std::string>{"(1+2", "", "3*", "zz_undefined"})); THROWS(m.byName(pl, "E11"), "malformed equation"); }
    else { File f("FITNESS COMPLEXITY EQUATION\n1, 2, (3+\n"); pl.set("BingoFile", f.path); THROWS(m.byName(pl, "E11"), "malformed equation in file"); }
}
