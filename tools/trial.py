#!/usr/bin/env python3
"""Apply small planted changes to scratch copies and run the named checks: trial.py DEFS.py OUT.jsonl WORKERS [id...]
DEFS.py: T = [(id, "C09 C10", [(file, old, new) or (patch,)]), ...]"""
import concurrent.futures as cf, importlib.util, json, os, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
spec = importlib.util.spec_from_file_location("d", sys.argv[1]); d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
out, W, want = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
ids = [t[0] for t in d.T]; assert len(ids) == len(set(ids)), "duplicate ids"
sel = [t for t in d.T if not want or t[0] in want]
lock = threading.Lock(); pool = []
BASE = os.environ.get("TRIAL_BASE", "/repo")
for w in range(W):
    p = f"/tmp/tr/w{os.getpid()}_{w}"; shutil.rmtree(p, ignore_errors=True); shutil.copytree(BASE, p, symlinks=True); pool.append(p)
REF = f"/tmp/tr/ref{os.getpid()}"; shutil.copytree(BASE + "/src", REF)
def one(t):
    i, checks, edits = t
    with lock: p = pool.pop()
    try:
        for f in os.listdir(REF):
            a, b = f"{REF}/{f}", f"{p}/src/{f}"
            if os.path.isfile(a) and open(a, "rb").read() != open(b, "rb").read(): shutil.copy(a, b)
        for f, *rep in edits:
            if not rep:  # a patch
                sh(f"cd {p} && git checkout -q -- . && git apply {f}"); continue
            old, new = rep
            q = f"{p}/src/{f}"; s = open(q).read()
            if s.count(old) != 1: print(i, "BAD", f, s.count(old), repr(old[:60]), flush=True); return
            open(q, "w").write(s.replace(old, new))
        r = sh(f"cd {p} && for s in src/*.cpp; do [ $s = src/navcmp.cpp ] || g++ -std=c++17 -w -fsyntax-only -include string -include utility -include limits -Isrc -I{VERIF}/harness/shim $s || exit 1; done")
        if r.returncode: print(i, "NOCOMPILE", r.stderr[:400], flush=True); return
        res = []
        for c in checks.split():
            r = sh(f"VP_REPO={p} VERIF_SEED=1 VERIF_TIER=quick VP_OUT=/tmp/tr/ev{os.path.basename(p)} timeout 900 python3 {VERIF}/run.py {c}")
            v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
            res.append((c, "caught " + v[0][10:90] if v else f"MISSED rc{r.returncode}"))
            if v and not os.environ.get("ALL"): break
        print(i, res, flush=True)
        with lock, open(out, "a") as o: o.write(json.dumps([i, res]) + "\n")
    finally:
        with lock: pool.append(p)
with cf.ThreadPoolExecutor(W) as ex: list(ex.map(one, sel))
for p in pool: shutil.rmtree(p, ignore_errors=True)
shutil.rmtree(REF, ignore_errors=True)
