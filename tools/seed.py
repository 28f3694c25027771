#!/usr/bin/env python3
"""Make and validate planted changes: seed.py DEFS.py [id ...]
DEFS.py defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo, debug=False)}.
Each is built in a scratch worktree; kept in /verif/seeded/<id>/ only if it
applies, builds, passes the stable tests, changes original lines, and its demo
tells the two trees apart. Then every check named in 'checks' (default: the
property's) is run on the changed tree."""
import json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = "f789483"
W = "/tmp/sd/w"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def worktree():
    if os.path.exists(W):
        shutil.rmtree(W)
    os.makedirs("/tmp/sd", exist_ok=True)
    sh("git -C /repo worktree prune")
    shutil.copytree("/repo", W, symlinks=True)
def main():
    spec = importlib.util.spec_from_file_location("d", sys.argv[1])
    d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
    want = sys.argv[2:] or list(d.SEEDS)
    worktree()
    for sid in want:
        s = d.SEEDS[sid]
        sh(f"git -C {W} checkout -q -- . && git -C {W} clean -fdq src var")
        bad = None
        for f, old, new in s["edits"]:
            p = f"{W}/{f}" if "/" in f else f"{W}/src/{f}"; t = open(p).read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} occurrences of {old!r}"; break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(sid, "BAD", bad); continue
        diff = sh(f"git -C {W} diff").stdout
        # removed lines must be original
        nonorig = 0; orig = 0; cur = None; ln = 0
        for l in sh(f"git -C {W} diff -U0").stdout.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a = int(m[1]); n = int(m[2] or 1)
                if n:
                    b = sh(f"git -C /repo blame -s -L {a},{a+n-1} HEAD -- {cur}").stdout
                    for x in b.strip().split("\n"):
                        if x.startswith("^") or x.startswith(BASE): orig += 1
                        else: nonorig += 1
        out = f"/tmp/sd/{sid}"
        if os.path.exists(out): shutil.rmtree(out)
        if "demo_sh" in s:  # not C++
            os.makedirs(out)
            open(f"{out}/demo.sh", "w").write(s["demo_sh"].strip() + "\n"); os.chmod(f"{out}/demo.sh", 0o755)
        else:
            shutil.copytree(f"{HERE}/seedcommon", out)
            shutil.copytree(f"{VERIF}/harness/shim/ggdatetime", f"{out}/ggdatetime")
            ds = open(f"{out}/demo.sh").read().replace("@FLAGS@", "-DDEBUG" if s.get("debug") else s.get("flags", ""))
            open(f"{out}/demo.sh", "w").write(ds); os.chmod(f"{out}/demo.sh", 0o755)
            open(f"{out}/demo.cpp", "w").write('#include "demo.hpp"\n' + s["demo"].strip() + "\n")
        open(f"{out}/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        r0 = sh(f"bash {out}/demo.sh", cwd="/repo")
        r1 = sh(f"bash {out}/demo.sh", cwd=W)
        # build and stable tests, in /repo as they name it
        a = sh(f"git -C /repo apply {out}/patch.diff")
        try:
            t = sh("bash /opt/vp/test.sh /tmp/sd/o.json")
            nfail = t.stdout.count("FAIL"); npass = t.stdout.count("PASS")
        finally:
            sh("git -C /repo checkout -- .")
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and npass >= 3 and not nfail and orig and not nonorig
        print(f"{sid} {s['prop']} demo {r0.returncode}/{r1.returncode} tests {npass}/{nfail} orig {orig} other {nonorig} {'OK' if ok else 'NOT OK'}", flush=True)
        if not ok:
            print(r0.stdout[-400:], "|", r1.stdout[-400:], a.stderr, t.stdout[-300:] if npass < 3 else "")
        if ok:
            k = f"{VERIF}/seeded/{sid}"
            if os.path.exists(k): shutil.rmtree(k)
            shutil.copytree(out, k)
        for c in s.get("checks", [s["prop"]]):
            r = sh(f"VP_REPO={W} VERIF_SEED=1 VERIF_TIER=quick VP_OUT=/tmp/sd/ev timeout 900 python3 {VERIF}/run.py {c}")
            v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
            print("   ", c, "rc", r.returncode, (v or ["missed"])[0], (r.stdout[-300:] if not v and r.returncode else ""), flush=True)
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    main()
