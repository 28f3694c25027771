#!/usr/bin/env python3
"""Systematic small changes to the sources, to find what the monitors miss.
mutate.py OUT.jsonl N SEED WORKERS [file...]   (scratch trees below /tmp/mut, removed afterwards)"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "satsys.cpp": "C01 C02", "satsys.hpp": "C01 C02 C19", "gnssobs.cpp": "C03", "gnssobs.hpp": "C03 C24",
 "gnssobsrv.cpp": "C04 C24", "gnssobsrv.hpp": "C04 C24", "antenna.cpp": "C05 C06 C09 C22", "antenna.hpp": "C05 C06 C09",
 "satellite.cpp": "C06", "satellite.hpp": "C06 C11", "nvarstr.cpp": "C07 C22", "nvarstr.hpp": "C07 C15 C14 C36",
 "gauss_newton.hpp": "C08 C32", "antex.cpp": "C10 C11 C09 C25 C29 C36", "antex.hpp": "C10 C11 C09 C25 C29 C36",
 "antenna_pcv.hpp": "C10 C11", "antenna_pcv.cpp": "C10", "bern_utils.cpp": "C12 C25 C29 C36", "bern_utils.hpp": "C12 C25 C29 C36",
 "sp3c.cpp": "C14 C13 C26 C29 C30 C36", "sp3c.hpp": "C14 C13 C26 C29 C30 C36", "navrnx.cpp": "C15 C16 C17 C21 C27 C29 C36", "navrnx.hpp": "C15 C16 C17 C18 C19 C21 C20 C27 C29 C36",
 "gpsnav.cpp": "C21 C18 C19 C15 C32", "galnav.cpp": "C21 C18 C19 C15 C32", "bdsnav.cpp": "C21 C18 C19 C15 C32", "glonav.cpp": "C20 C19 C21 C15 C32",
 "obsrnx.cpp": "C23 C24 C22 C28 C29 C36", "obsrnx.hpp": "C23 C22 C24 C28 C29 C36"}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]), (r"(?<=[\w)\]] )\*(?= [\w(])", ["/"]),
       (r"\+\+(?=\w)", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
       (r"!(?=[\w(])", [""]), (r"\+=", ["-=", "="]), (r"(?<![\w.'\"])(\d+)(?![\w.'\"])", ["+1", "-1"]), (r"(?<![\w.])(\d+\.\d*(?:e[-+]?\d+)?|\d+e[-+]?\d+)", ["*1.0001"])]
def mutants(f, src):
    lines = src.split("\n"); out = []; blk = False; dbg = 0
    for n, l in enumerate(lines):
        s = l.strip()
        if blk:
            if "*/" in s: blk = False
            continue
        if s.startswith("/*") and "*/" not in s: blk = True; continue
        if s.startswith("#ifdef DEBUG"): dbg = 1
        if s.startswith("#endif"): dbg = 0
        if dbg or s.startswith(("//", "#", "using", "namespace", "template", "std::cerr", "std::cout", "<<", "assert", "/*", "\"")) or not s or "static_assert" in s: continue
        code = l.split("//")[0]
        if code.rstrip().endswith("<<") or " << " in code: continue
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                q = code[:m.start()]
                if q.count('"') % 2 or q.count("'") % 2: continue
                if rx.startswith("(?<![<>=!+") or rx.startswith("(?<![<>=!\\"):
                    if re.search(r"(template|std::\w+|_cast|vector|array|map|pair|traits|datetime|Policy\w*|Matrix|factor|toe|toc|__|_ )\s*$", q) or not re.search(r"\s$", q): continue
                for r in reps:
                    t = m.group(0)
                    if r in ("+1", "-1"): rep = str(int(t) + int(r)) if int(t) + int(r) >= 0 else None
                    elif r == "*1.0001": rep = "(%s*1.0001)" % t
                    else: rep = r
                    if rep is None: continue
                    out.append((f, n, m.start(), code[:m.start()] + rep + code[m.end():]))
        if re.match(r"^\s+[\w_\[\]\.\(\)\->:*]+(\s*[-+]?=\s*[^=].*|\(.*\));\s*$", code) and "return" not in code and not re.match(r"^\s*(const|double|int|auto|std::|char|long|float|bool|constexpr)\b", code):
            out.append((f, n, -1, re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s+if \(.*\)( \{)?\s*$", code):
            out.append((f, n, -2, re.sub(r"if \(.*\)", "if (false)", code)))
    return out
def main():
    outf, N, seed, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or list(MAP)
    rnd = random.Random(seed)
    done = set()
    if os.path.exists(outf):
        done = {tuple(json.loads(x)["id"]) for x in open(outf)}
    allm = []
    SRC = {f: open(f"/repo/src/{f}").read() for f in files}
    for f in files:
        allm += mutants(f, SRC[f])
    # spread over lines: shuffle, at most two per line
    rnd.shuffle(allm)
    cnt = {}; sel = []
    for m in allm:
        k = (m[0], m[1]); cnt[k] = cnt.get(k, 0) + 1
        if cnt[k] <= 2 and (m[0], m[1], m[3]) not in done: sel.append(m)
    sel = sel[:N]
    print(len(allm), "possible,", len(sel), "chosen", flush=True)
    lock = threading.Lock(); pool = []
    for w in range(W):
        d = f"/tmp/mut/w{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree("/repo", d, symlinks=True); pool.append(d)
    def one(m):
        with lock: d = pool.pop()
        try:
            f, n, pos, new = m
            p = f"{d}/src/{f}"; src = SRC[f]; L = src.split("\n"); old = L[n]; L[n] = new
            open(p, "w").write("\n".join(L))
            # compile check
            r = sh(f"g++ -std=c++17 -w -fsyntax-only -DDEBUG -include string -include utility -include limits -I{d}/src -I{VERIF}/harness/shim " + (p if f.endswith(".cpp") else "-include cassert -include initializer_list -include vector -include iostream -x c++ " + p))
            res = "nocompile"
            if r.returncode == 0:
                res = "survived"
                for c in MAP[f].split():
                    r = sh(f"VP_REPO={d} VERIF_SEED=1 VERIF_TIER=quick VP_OUT=/tmp/mut/ev{os.path.basename(d)} timeout 900 python3 {VERIF}/run.py {c}")
                    if "VIOLATION" in r.stdout: res = c; break
                    if r.returncode != 0: res = f"{c}:rc{r.returncode} " + r.stdout[-200:]; break
            open(p, "w").write(src)
            with lock:
                with open(outf, "a") as o: o.write(json.dumps(dict(id=[f, n, new], old=old.strip(), new=new.strip(), res=res)) + "\n")
        finally:
            with lock: pool.append(d)
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(one, sel))
    shutil.rmtree("/tmp/mut", ignore_errors=True)
main()
