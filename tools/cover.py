#!/usr/bin/env python3
"""Which lines of /repo/src do the monitors never execute?  cover.py [cases per monitor] [Cxx...]
(a development aid: g++ --coverage in a scratch directory, merged over all monitors)"""
import concurrent.futures as cf, glob, gzip, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import run
from props import PROPS
N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
want = sys.argv[2:] or [p for p in sorted(PROPS) if PROPS[p]["harness"].endswith(".cpp")]
hit, seen = {}, set()
def one(pid):
    p = PROPS[pid]; d = tempfile.mkdtemp(prefix="cov_")
    try:
        f = ["g++", "-O0", "--coverage"] + (["-DDEBUG"] if any("dbg" in c for c in p["configs"]) else []) + run.COMMON
        srcs = [os.path.join(run.SRC, x) for x in os.listdir(run.SRC) if x.endswith(".cpp") and x not in run.NOT_LIB] + [os.path.join(run.HAR, p["harness"])]
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = subprocess.run(f + ["-c", s, "-o", o], capture_output=True, text=True, cwd=d)
            if r.returncode == 0: objs.append(o)
        exe = os.path.join(d, "x")
        subprocess.run(["g++", "--coverage", "-o", exe] + objs, check=True, capture_output=True)
        sd = os.path.join(d, "s"); os.makedirs(sd)
        n = int(subprocess.run([exe, "--count", "--tier", "0"], capture_output=True, text=True).stdout)
        r = subprocess.run([exe, "--seed", "1", "--tier", "0", "--from", "0", "--to", str(n), "--stride", str(max(1, n // N)), "--log", d + "/log", "--cur", d + "/cur", "--scratch", sd, "--cpu", "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=sd)
        subprocess.run(["gcov", "-j"] + [x for x in glob.glob(d + "/*.gcda")], cwd=d, capture_output=True)
        res = []
        for g in glob.glob(d + "/*.gcov.json.gz"):
            j = json.load(gzip.open(g))
            for fl in j["files"]:
                q = os.path.realpath(os.path.join(j["current_working_directory"], fl["file"]))
                if q.startswith(os.path.realpath(run.SRC) + "/"):
                    for l in fl["lines"]: res.append((q, l["line_number"], l["count"]))
        return pid, r.returncode, res
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(4) as ex:
    for pid, rc, res in ex.map(one, want):
        print(pid, "rc", rc, len(res), flush=True)
        for f, l, c in res:
            seen.add((f, l))
            if c: hit.setdefault((f, l), set()).add(pid)
print("%d of %d lines executed" % (len(hit), len(seen)))
for f, l in sorted(seen - set(hit)):
    print("%s:%d: %s" % (os.path.basename(f), l, open(f).read().split("\n")[l - 1].strip()))
