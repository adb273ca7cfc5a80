#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  run.py P01 [--tier quick|thorough]     decide the property (exit 0 held, 1 VIOLATION, 2 no answer)
  run.py P01 --replay FILE               run one recorded case again
  run.py --build-all                     compile every harness (used by setup)
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "OMPI_CXX": "g++", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self", "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm_rsh_agent": "true",
    "OMPI_MCA_btl_base_warn_component_unused": "0", "TZ": "UTC", "LANG": "C.UTF-8", "OMP_NUM_THREADS": "1",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78",
})
DEFS = ("-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC "
        "-DPLATO_STABILIZED -DPLATO_PLASTICITY").split()
LIBS = ["-ltrilinos_" + x for x in (
    "epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm "
    "teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser "
    "teuchoscore").split()]
JOBS = os.cpu_count() or 4


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def flags(cfg):
    san = cfg.get("san", "-fsanitize=address")
    # keep AddressSanitizer to real lifetimes of heap and stack: a reference to an expired temporary that the optimizer
    # keeps alive is not behaviour
    return (["-std=c++14", "-w", "-ftrivial-auto-var-init=pattern", cfg.get("opt", "-O1")] + ([san, "-fno-sanitize-address-use-after-scope"] if san else []) + DEFS + cfg.get("defs", []) +
            ["-include", os.path.join(HARN, "compat.hpp"), "-I" + HARN] + (["-I" + os.path.join(VERIF, "shim")] if cfg.get("shim") else []) + cfg.get("inc", []) +
            ["-I" + os.path.join(REPO, "src"), "-I/usr/include/trilinos"])


def compile_one(src, cfg):
    """Compile one TU; reuse the object only if the command and every file it read are byte-identical."""
    cmd = ["mpicxx"] + flags(cfg)
    key = hashlib.sha256((src + "\0" + "\0".join(cmd)).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "_" + key + ".o")
    stamp = obj + ".json"
    try:
        with open(stamp) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(os.path.exists(p) and sha(p) == v for p, v in deps.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        er = [l for l in p.stdout.splitlines() if "error" in l or "required from here" in l][:12]
        return None, "%s\n%s" % (src, "\n".join(er) or p.stdout[-2000:])
    with open(dep) as f:
        names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    with open(stamp, "w") as f:
        json.dump({n: sha(n) for n in sorted(set(names + [src]))}, f)
    os.remove(dep)
    return obj, None


def sources(cfg):
    main = [os.path.join(HARN, "pbt_main.cpp"), os.path.join(HARN, cfg.get("init", "pbt_kokkos.cpp"))]
    return main + [os.path.join(HARN, t) for t in cfg["tus"]] + [os.path.join(REPO, "src", r) for r in cfg.get("repo", [])]


def build(pid):
    cfg = PROPS[pid]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, cfg), sources(cfg)))
    errs = [e for _, e in res if e]
    if errs:
        return None, errs
    exe = os.path.join(BUILD, "bin", pid)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    san = cfg.get("san", "-fsanitize=address")
    cmd = ["mpicxx"] + ([san] if san else []) + [o for o, _ in res] + ["-o", exe + ".tmp"] + cfg.get("libs", []) + LIBS
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return None, ["link: " + p.stdout[-4000:]]
    os.replace(exe + ".tmp", exe)
    return exe, []


def write_replay(path, sub, choices, msg, desc):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("sub %s\nchoices %s\n" % (sub, " ".join(map(str, choices))))
        f.write("# %s\n# case: %s\n" % (msg.replace("\n", "\n# "), desc.replace("\n", "\n# ")))


def replay_once(exe, path, timeout=120):
    """-> (status, output): 'fail' the case violates the property, 'pass', or 'unknown'."""
    cwd = os.path.join(BUILD, "run", "replay")
    os.makedirs(cwd, exist_ok=True)
    try:
        p = subprocess.run([exe, "--replay", os.path.abspath(path)], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "fail", "the case did not finish within %d s" % timeout
    if p.returncode == 0:
        return "pass", p.stdout
    if p.returncode == 3:
        return "unknown", p.stdout
    return "fail", p.stdout[-3000:]


def rerun(exe, spec, timeout=200):
    """Repeat one worker's whole run of cases; spec = name seed units part parts only. For failures that need the cases before them."""
    name, seed, units, part, parts, only = spec
    cwd = os.path.join(BUILD, "run", "replay")
    os.makedirs(cwd, exist_ok=True)
    out = os.path.join(cwd, "rerun.out")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--out", out, "--cur", os.path.join(cwd, "rerun.cur"), "--seed", seed, "--units", units, "--tcap", "150", "--part", part, "--parts", parts]
    try:
        p = subprocess.run(cmd + (["--only", name] if only == "1" else []), cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "unknown", "did not finish within %d s" % timeout
    if os.path.exists(out):
        with open(out) as f:
            for s in json.load(f)["subs"]:
                if s["name"] == name and "fail" in s:
                    return "fail", s["fail"]["msg"] + "\n  case: " + s["fail"]["desc"]
        return "pass", ""
    return ("fail", p.stdout[-3000:]) if p.returncode not in (0, 3) else ("unknown", p.stdout[-1000:])


def history_failure(exe, rdir, pid, name, seed, units, part, parts):
    """A failure that its own case does not reproduce: does the history of cases reproduce it, twice?"""
    for only in ("1", "0"):
        spec = [name, str(seed), str(units), str(part), str(parts), only]
        st = rerun(exe, spec)
        if st[0] == "fail" and rerun(exe, spec)[0] == "fail":
            path = os.path.join(rdir, "%s_%s.replay" % (pid, name.replace("/", "_").replace(" ", "_")))
            with open(path, "w") as f:
                f.write("run %s\n# %s\n" % (" ".join(spec), st[1].replace("\n", "\n# ")))
            return path, name, "after other cases in the same process: " + st[1][:1500], ""
    return None


def shrink_out_of_process(exe, path, sub, choices, budget=45.0, timeout=120):
    """A case that kills or hangs the process is shrunk by running candidates in fresh processes."""
    t0 = time.time()
    tmp = path + ".try"
    best = list(choices)

    def bad(c):
        write_replay(tmp, sub, c, "", "")
        return replay_once(exe, tmp, timeout)[0] == "fail"
    n = max(1, len(best) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = 0
        while i + n <= len(best) and time.time() - t0 < budget:
            c = best[:i] + best[i + n:]
            if bad(c):
                best = c
            else:
                i += n
        n //= 2
    for i in range(len(best)):
        if time.time() - t0 > budget:
            break
        if best[i]:
            c = best[:]
            c[i] = 0
            if bad(c):
                best = c
    if os.path.exists(tmp):
        os.remove(tmp)
    return best


def known_findings(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            d = json.load(f)
    except OSError:
        return {}
    return {k["id"]: k["what"] for k in d.get("known", []) if k["property"] == pid}


def check(pid, tier, seed):
    t0 = time.time()
    cfg = PROPS[pid]
    exe, errs = build(pid)
    if exe is None:
        print("NO ANSWER property=%s: the harness does not build against this tree" % pid)
        for e in errs:
            print(e)
        return 2
    tb = time.time() - t0
    work = os.path.join(BUILD, "run", pid)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        f = os.path.join(work, f)
        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    known = known_findings(pid)
    ENV["PBT_KNOWN"] = ",".join(sorted(known))
    env = ENV
    units = cfg.get("quick_units", 60.0) if tier == "quick" else cfg.get("thorough_units", 6000.0)
    tcap = 150 if tier == "quick" else float(os.environ.get("VERIF_TCAP", cfg.get("thorough_cap", 600)))
    stall = 60 if tier == "quick" else 120
    parts = cfg.get("parts", JOBS)
    procs = []
    for i in range(parts):
        out, cur = os.path.join(work, "out%d" % i), os.path.join(work, "cur%d" % i)
        cmd = [exe, "--out", out, "--cur", cur, "--seed", str(seed), "--units", str(units), "--tcap", str(tcap),
               "--part", str(i), "--parts", str(parts)]
        log = open(os.path.join(work, "log%d" % i), "w")
        procs.append({"p": subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=work), "out": out,
                      "cur": cur, "log": log, "last": time.time(), "snap": None, "hang": False})
    while any(q["p"].poll() is None for q in procs):
        time.sleep(0.05)
        for q in procs:
            if q["p"].poll() is None:
                try:
                    with open(q["cur"], "rb") as f:
                        snap = hashlib.md5(f.read(128 + 8 + 8 * 64)).hexdigest() + str(os.stat(q["cur"]).st_mtime_ns)
                except OSError:
                    snap = None
                if snap != q["snap"]:
                    q["snap"], q["last"] = snap, time.time()
                elif time.time() - q["last"] > stall:
                    q["hang"] = True
                    q["p"].send_signal(signal.SIGKILL)
    subs, fails, crashes, khits = {}, [], [], set()
    for i, q in enumerate(procs):
        q["log"].close()
        if os.path.exists(q["out"]):
            with open(q["out"]) as f:
                d = json.load(f)
            khits.update(d["known"])
            for s in d["subs"]:
                a = subs.setdefault(s["name"], {"evals": 0, "nontrivial": 0, "discarded": 0, "rule": s["rule"],
                                                "samples": [], "tags": {}, "secs": 0.0})
                for k in ("evals", "nontrivial", "discarded", "secs"):
                    a[k] += s[k]
                for k, v in s["tags"].items():
                    a["tags"][k] = a["tags"].get(k, 0) + v
                if len(a["samples"]) < 2:
                    a["samples"] += s["samples"][:1]
                if "fail" in s:
                    fails.append((s["name"], s["fail"], i))
        else:
            with open(q["log"].name, errors="replace") as f:
                tail = f.read()
            try:
                with open(q["cur"], "rb") as f:
                    raw = f.read()
                name = raw[:128].split(b"\0", 1)[0].decode()
                n = struct.unpack_from("<Q", raw, 128)[0]
                ch = list(struct.unpack_from("<%dQ" % min(n, 1 << 18), raw, 136))
            except (OSError, struct.error):
                name, ch = "", []
            crashes.append((name, ch, q["hang"], q["p"].returncode, tail, i))
    viol = []
    rdir = os.path.join(VERIF, "replays")
    seen = set()
    flaky = []
    for name, f, part in fails:
        if name in seen:
            continue
        path = os.path.join(rdir, "%s_%s.replay" % (pid, name.replace("/", "_").replace(" ", "_")))
        write_replay(path, name, f["choices"], f["msg"], f["desc"])
        st = [replay_once(exe, path) for _ in range(3)]
        if all(s[0] == "fail" for s in st):
            seen.add(name)
            viol.append((path, name, f["msg"], f["desc"]))
        else:
            flaky.append((name, part, "failed (%s) but its replay gave %s" % (f["msg"][:300], [s[0] for s in st])))
    bad = False
    for name, ch, hang, rc, tail, part in crashes:
        if not name:
            print("NO ANSWER: a worker ended with code %s before its first case\n%s" % (rc, tail[-1500:]))
            bad = True
            continue
        if name in seen:
            continue
        path = os.path.join(rdir, "%s_%s.replay" % (pid, name.replace("/", "_").replace(" ", "_")))
        write_replay(path, name, ch, "crash", "")
        if viol and time.time() - t0 > 400:
            continue
        limit = 30 if hang else 60
        st = [replay_once(exe, path, limit) for _ in range(2)]
        if all(s[0] == "fail" for s in st):
            seen.add(name)
            what, o = "the process hung", st[1][1]
            if not hang:
                ch = shrink_out_of_process(exe, path, name, ch, timeout=60)
                what = "the process died (code %s)" % rc
                write_replay(path, name, ch, what, "")
                o = replay_once(exe, path, 60)[1]
            key = next((l for l in tail.splitlines() if "ERROR" in l or "terminate" in l or "rror" in l), "")
            write_replay(path, name, ch, what + " " + key, o)
            viol.append((path, name, what, key))
        else:
            flaky.append((name, part, "worker died (code %s, hang=%s) in %s but its replay passes\n%s" % (rc, hang, name, tail[-1500:])))
    for name, part, why in flaky:
        if viol:
            break
        v = history_failure(exe, rdir, pid, name, seed, units, part, parts)
        if v:
            viol.append(v)
        else:
            print("NO ANSWER: %s: %s" % (name, why) if why.startswith("worker") else "note: %s %s, and so did the whole run; not reported" % (name, why))
            bad = bad or why.startswith("worker")
    for k in sorted(khits):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known.get(k, "?")))
    ev = sum(s["evals"] for s in subs.values())
    nt = sum(s["nontrivial"] for s in subs.values())
    samples = []
    for n, s in sorted(subs.items()):
        for x in s["samples"][:2]:
            samples.append("%s: %s" % (n, x))
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": cfg["rule"] + " A case is distinct by its whole choice sequence. Non-trivial, per generator: " +
                    "; ".join("%s: %s" % (n, s["rule"]) for n, s in sorted(subs.items())),
            "samples": samples[:40],
            "per_generator": {n: {k: s[k] for k in ("evals", "nontrivial", "discarded", "tags")} for n, s in sorted(subs.items())},
            "build_s": round(tb, 2), "workers": parts, "sanitizer": cfg.get("san", "-fsanitize=address"),
        },
        "assumptions": cfg.get("assumptions", []),
        "known_findings_hit": sorted(khits),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for path, name, msg, desc in viol:
        print("violated by %s: %s\n  case: %s" % (name, msg[:1500], desc[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    empty = [n for n, s in subs.items() if s["nontrivial"] == 0]
    if bad or ev == 0 or empty:
        print("NO ANSWER property=%s evaluations=%d generators without a non-trivial case: %s" % (pid, ev, empty))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.1fs total=%.1fs" %
          (pid, tier, seed, ev, nt, tb, time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        rc = 0
        for pid in sorted(PROPS):
            exe, errs = build(pid)
            print(pid, "built" if exe else "FAILED")
            for e in errs:
                print(e)
                rc = 1
        return rc
    if a.replay:
        exe, errs = build(a.prop)
        if exe is None:
            print("\n".join(errs))
            return 2
        os.makedirs(os.path.join(BUILD, "run", "replay"), exist_ok=True)
        with open(a.replay) as f:
            first = f.readline().split()
        if first[:1] == ["run"]:
            ENV["PBT_KNOWN"] = ",".join(known_findings(a.prop))
            st = rerun(exe, first[1:7])
            print("REPLAY-%s\n%s" % (st[0].upper(), st[1]))
            return 0 if st[0] == "pass" else 1
        p = subprocess.run([exe, "--replay", os.path.abspath(a.replay)], cwd=os.path.join(BUILD, "run", "replay"), env=dict(ENV, PBT_KNOWN=",".join(known_findings(a.prop))))
        return 0 if p.returncode == 0 else 1
    return check(a.prop, "thorough" if a.tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
