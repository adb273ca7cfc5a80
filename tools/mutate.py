#!/usr/bin/env python3
"""Self-test of the checks: small random changes to /repo's sources, in scratch copies; lists those no check notices.

  mutate.py OUT.jsonl [--per-file N] [--seed S] [--files a.hpp,b.hpp] [--workers 8]
Works in /tmp/mut only; never touches /repo."""
import argparse, glob, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys

ROOT = "/tmp/mut"
PROPS = []
SKIP = {"AnalyzeMacros.hpp", "ExpInstMacros.hpp", "PlatoTypes.hpp", "alg/PlatoLambda.hpp", "Plato_RocketMocks.hpp"}


def strip(text):
    """Blank out comments and string literals, keep positions."""
    out = list(text)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', text, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n": out[i] = " "
    return "".join(out)


RULES = [
 (r"(?<=[\w\)\]] )\+(?= [\w\(])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w\(])", ["+"]), (r"(?<=[\w\)\]])( ?)\*(?= ?[\w\(])", ["/"]),
 (r"(?<=[\w\)\]] )/(?= [\w\(])", ["*"]), (r"\+=", ["=", "-="]), (r"-=", ["+="]), (r"\*=", ["/="]),
 (r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]), (r"(?<=[\w\)] )<(?= ?[\w\(])", ["<="]), (r"(?<=[\w\)])<(?= ?t?Num)", ["<="]), (r"(?<=[\w\)] )>(?= ?[\w\(])", [">="]),
 (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])[3-9](?![\w.])", ["2"]),
 (r"(?<![\w.])0\.0(?![\w.])", ["1.0"]), (r"(?<![\w.])1\.0(?![\w.])", ["0.0", "2.0"]), (r"(?<![\w.])(?!0\.0\b|1\.0\b)\d+\.\d+(?:[eE][-+]?\d+)?", ["0.7501"]),
 (r"(?<=[=(,]) ?-(?=[\w(])", [" "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]),
]


def mutants(path, rng, n):
    text = open(path, errors="replace").read(); code = strip(text); res = []
    pos = 0
    for line in code.split("\n"):
        s = line.strip(); a = pos; pos += len(line) + 1
        if not s or s.startswith(("#", "template", "using", "namespace", "friend", "class ", "struct ", "}", "extern")): continue
        for pat, subs in RULES:
            for m in re.finditer(pat, line):
                if re.search(r"<[^<>]*$", line[:m.start()]) and re.search(r"^[^<>]*>", line[m.end():]) and not re.search(r"for|while|if", line): continue
                for r in subs: res.append((a + m.start(), a + m.end(), r))
        if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r"(return|using|typedef|const|auto|Plato::\w+\s+\w|int |static|mutable|break|virtual|double )", s) and ("=" in s or "(" in s or "++" in s):
            res.append((a, a + len(line), ""))
        m = re.match(r"\s*(else )?if ?\((.*)\)\s*\{?$", line)
        if m: res.append((a + m.start(2), a + m.end(2), "!(" + text[a + m.start(2):a + m.end(2)] + ")"))
    rng.shuffle(res)
    return text, res[:n]


def worker(k, q, out):
    w = "%s/w%d" % (ROOT, k); os.environ["VERIF_REPO"] = w + "/repo"
    sys.path.insert(0, w + "/verif"); os.chdir(w + "/verif"); import run
    run.JOBS = 1
    if PROPS: run.PROPS = {k: v for k, v in run.PROPS.items() if k in PROPS}
    base, deps = {}, {}
    for pid, cfg in run.PROPS.items():
        for s in run.sources(cfg):
            obj, e = run.compile_one(s, cfg)
            if e: print(e, flush=True); continue
            base[obj] = run.sha(obj); deps[(pid, s)] = {os.path.normpath(x) for x in json.load(open(obj + ".json"))}
    while True:
        job = q.get()
        if job is None: return
        rel, a, b, r = job; p = w + "/repo/src/" + rel
        text = open(w + "/orig/" + rel, errors="replace").read()
        ln = text.count("\n", 0, a) + 1; new = text[:a] + r + text[b:]
        rec = {"file": rel, "line": ln, "old": text.split("\n")[ln - 1].strip(), "new": new.split("\n")[ln - 1].strip(), "tried": []}
        open(p, "w").write(new)
        pids = sorted({pid for (pid, s), d in deps.items() if p in d}, key=lambda i: (sum(p in d for (j, s), d in deps.items() if j == i), i))
        status = "nodep"; nochange = True
        for pid in pids:
            cfg = run.PROPS[pid]; same = True; err = None
            for s in run.sources(cfg):
                if p in deps[(pid, s)]:
                    obj, e = run.compile_one(s, cfg)
                    if e: err = e; break
                    if run.sha(obj) != base[obj]: same = False
            if err: status = "nocompile"; rec["err"] = err[-300:]; break
            if same: continue
            nochange = False
            try:
                pr = subprocess.run([sys.executable, "run.py", pid], cwd=w + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, env=dict(os.environ, VERIF_SEED="1"))
                rc = pr.returncode; tail = pr.stdout[-250:]
            except subprocess.TimeoutExpired: rc, tail = -9, "timeout"
            rec["tried"].append([pid, rc])
            if rc == 1: status = "killed"; break
            if rc != 0: status = "noanswer"; rec["tail"] = tail
            elif status != "noanswer": status = "survived"
        if nochange and status == "nodep" and pids: status = "noop"
        open(p, "w").write(text); rec["status"] = status
        with open(out, "a") as f: f.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--per-file", type=int, default=12); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=""); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--per-line", type=float, default=0.12); ap.add_argument("--props", default=""); A = ap.parse_args(); PROPS = A.props.split(",") if A.props else []
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for k in range(A.workers):
        w = "%s/w%d" % (ROOT, k); shutil.rmtree(w + "/repo", ignore_errors=True); os.makedirs(w + "/verif", exist_ok=True)
        for f in ("run.py", "props.py", "known_findings.json", "properties.jsonl"): shutil.copy(os.path.join(verif, f), w + "/verif/")
        shutil.rmtree(w + "/verif/harness", ignore_errors=True); shutil.copytree(verif + "/harness", w + "/verif/harness"); shutil.rmtree(w + "/verif/shim", ignore_errors=True); shutil.copytree(verif + "/shim", w + "/verif/shim")
        shutil.copytree("/repo/src", w + "/repo/src"); shutil.rmtree(w + "/orig", ignore_errors=True); shutil.copytree("/repo/src", w + "/orig")
    files = A.files.split(",") if A.files else sorted({os.path.normpath(n)[len("/repo/src/"):] for f in glob.glob(verif + "/.build/obj/*.json") if not PROPS or any(os.path.basename(f).startswith(x.lower() + "_") for x in PROPS) for n in json.load(open(f)) if os.path.normpath(n).startswith("/repo/src/")} - SKIP)
    rng = random.Random(A.seed); jobs = []
    for f in files:
        n = max(A.per_file, int(A.per_line * sum(1 for _ in open("/repo/src/" + f, errors="replace"))))
        for a, b, r in mutants("/repo/src/" + f, rng, n)[1]: jobs.append((f, a, b, r))
    rng.shuffle(jobs); print(len(jobs), "mutants", flush=True)
    q = mp.Queue(); [q.put(j) for j in jobs]; [q.put(None) for _ in range(A.workers)]
    ps = [mp.Process(target=worker, args=(k, q, A.out)) for k in range(A.workers)]
    [p.start() for p in ps]; [p.join() for p in ps]
