#!/usr/bin/env python3
"""Run the monitor of one property:  run.py C07        (VERIF_SEED, VERIF_TIER)
   Re-run one reported case:         run.py --replay replay/C07_1.json
   Build everything once (setup):    run.py --warm"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HAR = os.path.join(HERE, "harness")
CACHE = os.path.join(HERE, "build")
JOBS = 8
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

COMMON = ["-std=c++17", "-w", "-g1", "-include", "string", "-include", "utility",
          "-include", "limits", "-I" + SRC, "-I" + os.path.join(HAR, "shim"),
          "-I" + HAR]
# san: every memory error, undefined behaviour or library assertion is fatal;
# automatic variables start as a pattern, so uninitialised reads show.
SAN = ["g++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
       "-ftrivial-auto-var-init=pattern"]
REL = ["g++", "-O2", "-ftrivial-auto-var-init=zero", "-DNDEBUG"]
CONFIGS = {
    "san": SAN + ["-DVP_SAN=1"],
    "sandbg": SAN + ["-DVP_SAN=1", "-DDEBUG"],
    "rel": REL,
    "reldbg": REL + ["-DDEBUG"],
    # every unordered pair of accesses to the same memory is fatal
    "tsan": ["g++", "-O1", "-fsanitize=thread", "-DNDEBUG", "-DVP_TSAN=1"],
    # automatic variables hold what the stack held before
    "raw": ["g++", "-O1", "-DNDEBUG"],
    "rawdbg": ["g++", "-O1", "-DDEBUG"],
    # coverage-guided, thorough tier only
    "fuzz": ["clang++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-Wno-everything", "-include", os.path.join(HAR, "fuzz_pre.hpp")],
}
FUZZ_S = int(os.environ.get("VP_FUZZ_S", "900"))  # seconds per property
# sources that are programs, not library
NOT_LIB = {"navcmp.cpp"}




def command(exe):
    return [sys.executable, "-B", exe] if exe.endswith(".py") else [exe]


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_key():
    hs = []
    for root in (SRC, os.path.join(HAR, "shim"), HAR):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc", ".tcc")):
                    p = os.path.join(d, f)
                    hs += [p, read(p)]
    return sha(*hs)


def compile_one(cfg, src, hkey):
    cmd = CONFIGS[cfg] + COMMON
    key = sha(" ".join(cmd), hkey, src, read(src))
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr[-3000:]
        os.rename(tmp, obj)
    return obj, ""


def build(jobs):
    """jobs: list of (cfg, harness).  Returns {(cfg, harness): executable}."""
    os.makedirs(CACHE, exist_ok=True)
    scripts = {j: os.path.join(HAR, j[1]) for j in jobs if j[0] == "py"}
    jobs = [j for j in jobs if j[0] != "py"]
    if not jobs:
        return scripts
    hkey = headers_key()
    libs = sorted(os.path.join(SRC, f) for f in os.listdir(SRC)
                  if f.endswith(".cpp") and f not in NOT_LIB)
    todo = []
    for cfg in sorted({c for c, _ in jobs}):
        todo += [(cfg, s) for s in libs]
    for cfg, h in jobs:
        todo.append((cfg, os.path.join(HAR, h)))
    todo = sorted(set(todo), key=lambda t: (t[1].startswith(SRC), t))
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, c, s, hkey): (c, s) for c, s in todo}
        for f in cf.as_completed(futs):
            res[futs[f]] = f.result()
    out = dict(scripts)
    for cfg, h in jobs:
        main, err = res[(cfg, os.path.join(HAR, h))]
        if not main:
            raise HarnessError("cannot compile %s (%s):\n%s" % (h, cfg, err))
        objs = [res[(cfg, s)][0] for s in libs if res[(cfg, s)][0]]
        failed = "\n".join("%s: %s" % (s, res[(cfg, s)][1][:600]) for s in libs
                           if not res[(cfg, s)][0])
        key = sha("link", *([main] + objs + CONFIGS[cfg]))
        exe = os.path.join(CACHE, key + ".exe")
        if not os.path.exists(exe):
            ar = os.path.join(CACHE, key + ".%d.a" % os.getpid())
            tmp = exe + ".%d.tmp" % os.getpid()
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.run(["ar", "rcs", ar] + objs, check=True)
            flags = [x for x in CONFIGS[cfg][1:] if x.startswith("-fsanitize")]
            r = subprocess.run([CONFIGS[cfg][0]] + flags + [main, ar, "-o", tmp],
                               capture_output=True, text=True)
            os.unlink(ar)
            if r.returncode:
                raise HarnessError("cannot link %s (%s):\n%s\n%s" %
                                   (h, cfg, r.stderr[-2000:], failed))
            os.rename(tmp, exe)
        out[(cfg, h)] = exe
    return out


def crash_key(rc, err):
    """a stable name for an abnormal end, and its report"""
    where = "?"
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:%s/)?src/([\w.]+):\d+" % re.escape(REPO), err)
    if not m:
        m = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) %s/([\w./]+):\d+" % re.escape(SRC), err)
    if m:
        fn = re.sub(r"\(.*", "", m.group(1))
        fn = re.sub(r"<.*>", "", fn)
        where = fn.strip() or m.group(2)
    m = re.search(r"([\w./-]+):\d+:\d+: runtime error: (.*)", err)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(2))
        if where == "?":
            where = os.path.basename(m.group(1))
        return "ubsan:%s@%s" % (kind[:80].strip(), where)
    m = re.search(r"ERROR: (?:Address|Leak)Sanitizer: ([\w-]+)", err)
    if m:
        if "LeakSanitizer" in err:
            return "leak@" + where
        return "asan:%s@%s" % (m.group(1), where)
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "terminate:%s" % m.group(1)
    if "terminate called" in err:
        return "terminate"
    m = re.search(r"(\w+\.(?:h|hpp|cpp)):\d+: .*Assertion '(.*?)' failed", err)
    if m:
        return "assert:%s" % m.group(2)[:60]
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m:
        return "assert:%s" % m.group(1)[:60]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        return "tsan:%s@%s" % (m.group(1), where)
    if "hard rss limit exhausted" in err:
        return "memory-exhausted@" + where
    if rc < 0:
        return "signal:" + signal.Signals(-rc).name
    return "exit:%d" % rc


class Runner:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.evals = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.viol = []       # dicts
        self.errors = []
        self.deadline = time.time() + (760 if tier == 0 else 13000)

    def env(self, leaks):
        e = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
        e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=%d:"
                             "hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                             "max_allocation_size_mb=1500:malloc_fill_byte=190:"
                             "max_malloc_fill_size=65536:detect_stack_use_after_return=0:"
                             "detect_invalid_pointer_pairs=0" % (1 if leaks else 0))
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["LC_ALL"] = "C"
        return e

    def one(self, exe, cfg, leaks, frm, to, stride, tag, cpu):
        log = os.path.join(self.scratch, "log_%s" % tag)
        cur = os.path.join(self.scratch, "cur_%s" % tag)
        err = os.path.join(self.scratch, "err_%s" % tag)
        sd = os.path.join(self.scratch, "s_%s" % tag)
        os.makedirs(sd, exist_ok=True)
        for p in (log, cur):
            if os.path.exists(p):
                os.unlink(p)
        with open(err, "wb") as ef:
            p = subprocess.Popen(
                command(exe) + ["--seed", str(self.seed), "--tier", str(self.tier), "--from",
                 str(frm), "--to", str(to), "--stride", str(stride), "--log", log,
                 "--cur", cur, "--scratch", sd, "--cpu", str(cpu)],
                stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                env=self.env(leaks), cwd=sd)
            try:
                rc = p.wait(timeout=max(5, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
        idx, state, what = -1, "?", ""
        if os.path.exists(cur):
            b = read(cur)
            t = b[:24].split(b"\0")[0]
            idx = int(t) if t else -1
            state = chr(b[24]) if b[24] else "?"
            what = b[32:].split(b"\0")[0].decode("latin1")
        etxt = read(err)[:200000].decode("latin1")
        lines = []
        if os.path.exists(log):
            lines = read(log).decode("latin1").split("\n")
        shutil.rmtree(sd, ignore_errors=True)
        return rc, idx, state, what, etxt, lines

    def absorb(self, lines, cfg, exe, finished, n_done):
        ev = None
        for ln in lines:
            f = ln.split("\t")
            if f[0] == "V" and len(f) >= 5:
                self.viol.append(dict(cfg=cfg, case=int(f[1]), key=f[2], detail=f[3],
                                      what=f[4]))
            elif f[0] == "X" and len(f) >= 3 and len(self.samples) < 4:
                self.samples.append({"case": int(f[1]), "config": cfg, "input": f[2][:1500]})
            elif f[0] == "E":
                ev = int(f[1])
            elif f[0] == "C":
                self.counters[f[1]] = self.counters.get(f[1], 0) + int(f[2])
            elif f[0] == "N":
                self.distinct.add(f[1])
        self.evals += ev if ev is not None else n_done

    def shard(self, exe, cfg, leaks, first, n, stride, tag, cpu):
        frm = first
        crashes = 0
        out = []
        while frm < n:
            rc, idx, state, what, err, lines = self.one(exe, cfg, leaks, frm, n, stride, tag, cpu)
            if rc is None:
                out.append(("err", "shard %s stopped by the wall-clock watchdog in case %d" % (tag, idx)))
                return out
            if rc == 0 and state == "D":
                out.append(("ok", lines, 0))
                return out
            if rc == 3:
                out.append(("err", "harness error in case %d: %s" % (idx, err[-500:])))
                return out
            if idx < 0:
                out.append(("err", "shard %s ended with %s before its first case: %s" % (tag, rc, err[-500:])))
                return out
            if state == "D":  # after the last case: leak report and the like
                out.append(("ok", lines, 0))
                out.append(("crash", idx, crash_key(rc, err), "at exit: " + err[-2500:], what))
                return out
            done = (idx - frm) // stride
            out.append(("ok", lines, done))
            if rc == 97:
                rc2, i2, s2, w2, e2, l2 = self.one(exe, cfg, leaks, idx, idx + 1, 1, tag + "r", cpu * 2)
                if rc2 == 97:
                    out.append(("crash", idx, "hang", "more than %d s of processor time, twice" % cpu, what))
                elif rc2 == 0:
                    out.append(("ok", l2, 1))
                    out.append(("slow", idx))
                else:
                    out.append(("crash", idx, crash_key(rc2 if rc2 is not None else -9, e2), e2[-2500:], w2))
            else:
                out.append(("crash", idx, crash_key(rc, err), err[:3500], what))
            crashes += 4 if rc == 97 and rc2 == 97 else 1
            if crashes >= 12:
                out.append(("cut", idx))
                return out
            frm = idx + stride
        return out

    def run(self, exe, cfg, leaks, cpu):
        r = subprocess.run(command(exe) + ["--count", "--tier", str(self.tier)], capture_output=True,
                           text=True, env=self.env(False))
        try:
            n = int(r.stdout.strip())
        except ValueError:
            raise HarnessError("cannot count the cases of %s: %s" % (exe, r.stderr[-800:]))
        k = min(JOBS, n)
        with cf.ThreadPoolExecutor(k) as ex:
            futs = [ex.submit(self.shard, exe, cfg, leaks, i, n, k, "%s_%d" % (cfg, i), cpu)
                    for i in range(k)]
            for f in futs:
                for o in f.result():
                    if o[0] == "ok":
                        self.absorb(o[1], cfg, exe, True, o[2])
                    elif o[0] == "err":
                        self.errors.append(o[1])
                    elif o[0] == "crash":
                        self.evals += 1
                        self.viol.append(dict(cfg=cfg, case=o[1], key=o[2], detail=o[3],
                                              what=o[4]))
                    elif o[0] == "slow":
                        self.counters["slow_cases_rerun"] = self.counters.get("slow_cases_rerun", 0) + 1
                    elif o[0] == "cut":
                        self.counters["shards_cut_after_12_crashes"] = \
                            self.counters.get("shards_cut_after_12_crashes", 0) + 1
        return n


def fuzz(run, exe, kinds):
    """libFuzzer on the text of the files, JOBS processes that share a corpus"""
    for kind in kinds:
        d = os.path.join(run.scratch, "fuzz_" + kind)
        corpus = os.path.join(d, "corpus")
        os.makedirs(corpus)
        env = run.env(False)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0"
        env.update(VP_FUZZ_KIND=kind, VP_FUZZ_SEED=str(run.seed))
        subprocess.run([exe], env=dict(env, VP_FUZZ_CORPUS=corpus), capture_output=True)
        n0 = len(os.listdir(corpus))
        procs = []
        secs = max(5, FUZZ_S // len(kinds))
        for j in range(JOBS):
            art = os.path.join(d, "art%d_" % j)
            log = open(os.path.join(d, "log%d" % j), "wb")
            procs.append((subprocess.Popen(
                [exe, corpus, "-seed=%d" % (run.seed * 100 + j), "-max_total_time=%d" % secs,
                 "-timeout=20", "-rss_limit_mb=3000", "-malloc_limit_mb=1500", "-max_len=12000",
                 "-reload=5", "-print_final_stats=1", "-verbosity=1", "-artifact_prefix=" + art],
                env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log), log, art))
        cov = 0
        for j, (p, log, art) in enumerate(procs):
            try:
                rc = p.wait(timeout=secs + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                run.errors.append("fuzzing %s, process %d: stopped by the wall-clock watchdog" % (kind, j))
                continue
            log.close()
            err = read(log.name).decode("latin1")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
            k = int(m.group(1)) if m else 0
            run.evals += k
            run.counters["fuzzed_" + kind] = run.counters.get("fuzzed_" + kind, 0) + k
            for m in re.finditer(r"cov: (\d+)", err):
                cov = max(cov, int(m.group(1)))
            arts = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("art%d_" % j) and
                    not os.path.basename(f)[len("art%d_" % j):].startswith("slow-unit")]
            if rc:
                m = re.search(r"VP-ORACLE: (.*)", err)
                key = "fuzz:" + ("oracle " + m.group(1) if m else
                                 "hang" if "libFuzzer: timeout" in err else
                                 "memory" if "libFuzzer: out-of-memory" in err else crash_key(rc, err))
                if not arts:
                    run.errors.append("fuzzing %s: no input for %s" % (kind, err[-400:]))
                    continue
                run.viol.append(dict(cfg="fuzz", case=-1, key=key, what=kind + ":" + read(arts[0]).hex(),
                                     detail=err[-3500:]))
        run.counters["fuzz_edges_" + kind] = cov
        run.counters["fuzz_corpus_" + kind] = len(os.listdir(corpus))
        if (n0 < 10 or not cov) and not run.viol:
            run.errors.append("fuzzing %s: no corpus" % kind)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])
            if k.get("property") == pid and k.get("status") == "known"]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--warm":
        build(sorted({(c, p["harness"]) for p in PROPS.values() for c in p["configs"]}))
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        p = PROPS[r["property"]]
        if r["config"] == "fuzz":
            exe = build([("fuzz", "fuzz.cpp")])[("fuzz", "fuzz.cpp")]
            kind, text = r["input"].split(":")
            with tempfile.TemporaryDirectory(prefix="vpr") as td:
                with open(os.path.join(td, "file"), "wb") as f:
                    f.write(bytes.fromhex(text))
                q = subprocess.run([exe, os.path.join(td, "file")], env=dict(os.environ, VP_FUZZ_KIND=kind),
                                   capture_output=True, text=True, errors="replace")
                print("exit", q.returncode)
                print(q.stderr[:6000])
            return 0
        exe = build([(r["config"], p["harness"])])[(r["config"], p["harness"])]
        with tempfile.TemporaryDirectory(prefix="vpr") as td:
            run = Runner(r["property"], r["tier"], r["seed"], td)
            rc, idx, st, what, err, lines = run.one(exe, r["config"], p.get("leaks", False),
                                                    r["case"], r["case"] + 1, 1, "x", 60)
            print("exit", rc)
            print(err[:6000])
            print("\n".join(x for x in lines if x[:1] == "V").replace("\\n", "\n"))
        return 0
    pid = sys.argv[1]
    prop = PROPS[pid]
    tier = 1 if os.environ.get("VERIF_TIER", "quick") == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    run = Runner(pid, tier, seed, scratch)
    ncases = {}
    try:
        jobs = [(c, prop["harness"]) for c in prop["configs"]]
        if tier and prop.get("fuzz"):
            jobs.append(("fuzz", "fuzz.cpp"))
        exes = build(jobs)
        tb = time.time() - t0
        for cfg in prop["configs"]:
            ncases[cfg] = run.run(exes[(cfg, prop["harness"])], cfg,
                                  prop.get("leaks", False) and cfg.startswith("san"),
                                  prop.get("cpu", 20))
        if tier and prop.get("fuzz"):
            fuzz(run, exes[("fuzz", "fuzz.cpp")], prop["fuzz"])
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # judge
    known = known_findings(pid)
    new, seen_known = {}, {}
    for v in run.viol:
        hit = None
        for k in known:
            if re.fullmatch(k["key"], v["key"]) and \
                    (not k.get("input") or re.search(k["input"], v["what"] + " " + v["detail"])):
                hit = k
                break
        if hit:
            seen_known.setdefault(hit["key"], hit)
        else:
            new.setdefault(v["key"], []).append(v)
    wall = time.time() - t0
    missing = [c for c in prop.get("need_events", []) if not run.counters.get(c)]
    ev = {
        "property": pid, "tier": "thorough" if tier else "quick", "seed": seed,
        "level": prop["level"],
        "coverage": {
            "evaluations": run.evals,
            "distinct_nontrivial": len(run.distinct),
            "rule": prop["rule"],
            "samples": run.samples[:4],
            "events_observed": run.counters,
            "cases_per_config": ncases,
            "build_s": round(tb, 1),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": sum(len(v) for v in new.values()),
    }
    if prop.get("exhaustive"):
        ev["coverage"]["exhaustive_part"] = prop["exhaustive"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what_fails"]))
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for i, (key, vs) in enumerate(sorted(new.items())):
            v = vs[0]
            rp = os.path.join(HERE, "replay", "%s_%d.json" % (pid, i + 1))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, config=v["cfg"], seed=seed, tier=tier,
                               case=v["case"], key=key, detail=v["detail"], input=v["what"],
                               occurrences=len(vs)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s (x%d, case %d, %s): %s" % (key, len(vs), v["case"], v["cfg"],
                                                  v["detail"][:600].replace("\n", " | ")))
        return 1
    if run.errors:
        print("HARNESS-ERROR property=%s inconclusive: %s" % (pid, "; ".join(run.errors[:5])))
        return 2
    if not run.evals or not run.distinct or missing:
        print("HARNESS-ERROR property=%s observed nothing (%s)" % (pid, missing))
        return 2
    print("OK property=%s %d executions, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (pid, run.evals, len(run.distinct), wall, tb))
    return 0


if __name__ == "__main__":
    sys.exit(main())
