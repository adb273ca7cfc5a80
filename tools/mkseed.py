#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from (file, old, new) edits and a demo body. Used while authoring planted changes; no check reads them."""
import difflib, json, os, shutil, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PRE = '''#include <cmath>
#include <cstdio>
#include <vector>
#include <Kokkos_Core.hpp>
%s
static int gBad = 0;
#define OK(c) do { if(!(c)) { std::printf("demo: line %%d: %%s\\n", __LINE__, #c); gBad = 1; } } while(0)
#define CLOSE(a,b) do { double A_=(a), B_=(b); if(!(std::fabs(A_-B_) <= 1e-9*(1.0+std::fabs(B_)))) { std::printf("demo: line %%d: %%s is %%.15g, expected %%.15g\\n", __LINE__, #a, A_, B_); gBad = 1; } } while(0)
static void demo()
{
%s
}
int main(int c, char** v)
{
    Kokkos::initialize();
    try { demo(); } catch(std::exception& e) { std::printf("demo: unexpected error %%s\\n", e.what()); gBad = 1; }
    Kokkos::finalize();
    if(!gBad) std::printf("demo: ok\\n");
    return gBad;
}
'''
SH = '''#!/bin/bash
# run in the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
src="$PWD/src"
cd "$work" || exit 2
mpicxx -std=c++14 -w -O1 -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY \\
  -include "$here/compat.hpp" -I"$src" -I/usr/include/trilinos "$here/demo.cpp" %s -o demo \\
  -ltrilinos_epetra -ltrilinos_kokkoskernels -ltrilinos_kokkosalgorithms -ltrilinos_kokkoscontainers -ltrilinos_kokkoscore -ltrilinos_sacado \\
  -ltrilinos_teuchoskokkoscomm -ltrilinos_teuchoskokkoscompat -ltrilinos_teuchosremainder -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm \\
  -ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser -ltrilinos_teuchoscore || exit 2
timeout 100 ./demo
'''


def seed(sid, prop, edits, inc, body, needs, breaks, srcs=()):
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    byfile = {}
    for f, old, new in edits:
        t = byfile.setdefault(f, [open("/repo/" + f).read()] * 2)
        assert t[1].count(old) == 1, (sid, f, old, t[1].count(old))
        byfile[f] = [t[0], t[1].replace(old, new)]
    out = ""
    for f, (a, b) in byfile.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            out += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(PRE % ("\n".join('#include "%s"' % i for i in inc), body))
    open(d + "/demo.sh", "w").write(SH % " ".join('"$src/%s"' % s for s in srcs))
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(os.path.join(ROOT, "harness", "compat.hpp"), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
