#!/usr/bin/env python3
"""Confirm planted changes: for each id (default all): demo on the clean tree, apply, build, stable tests, demo, the property's check; undo.
usage: seeded.py [--all-checks] [id...]"""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for i in ids:
    d = os.path.abspath(V + "/seeded/" + i)
    p = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    c = sh("bash %s/demo.sh" % d, cwd="/repo")
    clean = c.returncode
    if clean:
        print(c.stdout[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout)
            continue
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/o_seed.json")
        o = json.load(open("/tmp/o_seed.json"))
        m = sh("bash %s/demo.sh" % d, cwd="/repo")
        k = sh("VERIF_SEED=1 %s/run.py %s --tier quick" % (V, p))
        v = [l for l in k.stdout.splitlines() if l.startswith("violated by")]
        print("%s %s build=%d pass=%d fail=%s demo clean=%d patched=%d check=%d %s" % (i, p, b.returncode, len(o["passed"]), o["failed"][:3], clean, m.returncode, k.returncode, (v or [""])[0][:160]), flush=True)
        if b.returncode:
            print(b.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
