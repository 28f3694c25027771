"""C33: sp3py.py lists the records of a satellite in a precise-orbit file"""
import datetime
import os
import subprocess
import sys
import vp

TOOL = os.path.join(os.environ.get("VP_REPO", "/repo"), "var", "sp3py.py")


def run(*args):
    p = subprocess.run([sys.executable, "-X", "dev", "-B", TOOL] + list(args), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=15)
    return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")


def num(r):
    k = r.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return r.choice([-1, 1]) * r.randrange(3) * 1e-6
    if k == 2:
        return r.choice([-99999.999999, 999999.999999, -999999.999999])
    if k == 3:
        return round(r.uniform(-1, 1), 6)
    return round(r.uniform(-45000, 45000), 6)


def generate(r):
    ver = r.choice("cd")
    nsat = r.randint(1, 85) if ver == "c" or r.random() < .8 else r.randint(86, 999)
    if r.random() < .5:
        nsat = r.randint(1, 6)
    ids = ["%s%02d" % (r.choice("GRECJIS" if r.random() < .2 else "GREC"), r.randint(1, 99)) for _ in range(nsat)]
    ids = list(dict.fromkeys(ids))
    nsat = len(ids)
    t = datetime.datetime(r.randint(1990, 2060), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if r.random() < .3:
        t = t.replace(hour=0, minute=0, second=0)
    step = r.choice([900, 300, 30, 5, 1, 3600, r.randint(1, 100000)])
    ne = r.randint(1, 12)
    crd, tsys, agency = r.choice(["IGS14", "ITR97", "WGS84", "IGb08"]), r.choice(["GPS", "GLO", "GAL", "UTC", "TAI", "BDT"]), r.choice([" IGS", "ESOC", "COD "])
    vel = r.random() < .3

    def stamp(t):
        return "%4d %2d %2d %2d %2d %11.8f" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
    h = ["#%s%s%s %7d %5s %5s %3s %4s" % (ver, "V" if vel else "P", stamp(t), ne, "ORBIT", crd, "HLM", agency)]
    mjd = (t.date() - datetime.date(1858, 11, 17)).days
    sod = t.hour * 3600 + t.minute * 60 + t.second
    week = (mjd - 44244) // 7
    h.append("## %4d %15.8f %14.8f %5d %15.13f" % (week, (mjd - 44244 - 7 * week) * 86400 + sod, step, mjd, sod / 86400))
    rows = 5 if ver == "c" else max(5, (nsat + 16) // 17)
    for k in range(rows):
        s = ("+  %3d   " % nsat) if k == 0 else "+        "
        for i in range(17 * k, 17 * k + 17):
            s += ids[i] if i < nsat else "  0"
        h.append(s)
    for k in range(rows):
        h.append("++       " + "".join("%3d" % r.randint(0, 9) for _ in range(17)))
    h += ["%%c M  cc %3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc" % tsys,
          "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc",
          "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000",
          "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000",
          "%i    0    0    0    0      0      0      0      0         0",
          "%i    0    0    0    0      0      0      0      0         0"]
    nc = 4 if ver == "c" else r.choice([4, 5, 20, r.randint(4, 400)])
    h += [r.choice(["/*", "/* PCV:IGS14_2100 OL/AL:FES2004  NONE     YN CLK:CoN ORB:CoN", "/* * EOF P"]) for _ in range(nc)]
    body, recs, first = [], [], t
    for _ in range(ne):
        body.append("*  " + stamp(t))
        who = list(ids)
        if r.random() < .3:
            r.shuffle(who)
        if r.random() < .3:
            who = who[:r.randint(1, len(who))]
        ev = r.random() < .2
        for s in who:
            v = ["%14.6f" % num(r) for _ in range(4)]
            l = "P" + s + "".join(v)
            if r.random() < .4:
                l += " %2d %2d %2d %3d" % (r.randint(0, 99), r.randint(0, 99), r.randint(0, 99), r.randint(0, 999))
                l = l.ljust(74) + r.choice(["EP  MP", " P", "E", ""])
            body.append(l)
            recs.append((t, s, v))
            if ev:
                body.append("EP  55  55  55     222 1234567 -1234567  5999999      -30       21 -1230000")
            if vel:
                body.append("V" + s + "".join("%14.6f" % num(r) for _ in range(4)))
                if ev:
                    body.append("EV  22  22  22     111 1234567  1234567  1234567  1234567  1234567  1234567")
        t += datetime.timedelta(seconds=step if r.random() < .9 else r.randint(1, 400000))
    return h, body, recs, ids, dict(version=ver, start_date=first, num_epochs=ne, crd_sys=crd, interval=float(step), num_sats=nsat, time_sys=tsys)


def expected(recs, sat, meta):
    o = "## Ref System: %s, Time System %s\n" % (meta["crd_sys"], meta["time_sys"])
    for t, s, v in recs:
        if s == sat:
            o += '"%s"' % t.strftime("%Y-%m-%d %H:%M:%S") + "".join("%+15.6f" % float(x) for x in v) + "\n"
    return o


def case(c, scratch):
    r = c.rng
    h, body, recs, ids, meta = generate(r)
    end = ["EOF"] if r.random() < .9 else ["EOF   "]
    text = "\n".join(h + body + end) + ("\n" if r.random() < .9 else "")
    path = os.path.join(scratch, "orb.sp3")
    with open(path, "w") as f:
        f.write(text)
    here = [s for s in ids if s[0] in "GREC"]
    q = r.random()
    if here and q < .75:
        sat = r.choice(here)
    else:
        sat = "%s%02d" % (r.choice("GREC"), r.randint(1, 99))
    arg = sat if r.random() < .6 else sat[0] + str(int(sat[1:]))
    c.desc("-s %s\n%s" % (arg, text[:5000]))
    opt = ["-i", path, "-s", arg] if r.random() < .5 else ["--svn", arg, "--input", path]
    rc, out, err = run(*opt)
    want = expected(recs, sat, meta)
    c.check(rc == 0, "valid-file-refused", "exit %d: %s" % (rc, err[-600:]))
    c.check(out == want, "listing", "got\n%s\ninstead of\n%s" % (out[:1200], want[:1200]))
    c.check(err == "", "messages", err[-600:])
    c.event("listings_compared")
    c.event("records_compared", want.count("\n") - 1)
    if want.count("\n") == 1:
        c.event("satellites_absent")
    c.nontrivial(want)
    # the same through the module
    if r.random() < .3:
        code = ("import sys; sys.path.insert(0, %r); import sp3py; s = sp3py.Sp3(%r)\n"
                "print([s.version, str(s.start_date), s.num_epochs, s.crd_sys, s.interval, s.num_sats, s.time_sys])\n"
                "print(s.count_header_lines())\n"
                "for k in %r: s.read_satellite_records(k)\n") % (os.path.dirname(TOOL), path, [sat] + here[:3] + [sat])
        p = subprocess.run([sys.executable, "-B", "-c", code], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=15)
        got = p.stdout.decode("latin1")
        m = meta
        w = str([m["version"], str(m["start_date"]), m["num_epochs"], m["crd_sys"], m["interval"], m["num_sats"], m["time_sys"]]) + "\n%d\n" % len(h)
        for k in [sat] + here[:3] + [sat]:
            w += expected(recs, k, meta)
        c.check(p.returncode == 0 and got == w, "module", "exit %d, got\n%s\ninstead of\n%s\n%s" % (p.returncode, got[:900], w[:900], p.stderr.decode("latin1")[-500:]))
        c.event("modules_compared")
    # refused
    k = r.randrange(6)
    bad = None
    if k == 0:
        bad = ["-i", path, "-s", r.choice(["X01", "Q3", "1", "P07"])]
    elif k == 1:
        bad = ["-i", path, "-s", r.choice("GREC") + r.choice(["", "x", "1x", "-"])]
    elif k == 2:
        bad = ["-i", path + ".not", "-s", sat]
    elif k == 3:
        bad = r.choice([["-i", path], ["-s", sat], []])
    if bad:
        rc, out, err = run(*bad)
        c.check(rc != 0, "bad-request-accepted", "%s: exit %d: %s" % (bad, rc, out[:600]))
        c.check('"' not in out, "bad-request-answered", out[:600])
        c.event("requests_refused")
    else:  # a damaged file
        lines = h + body + end
        k = r.randrange(5)
        stop = None
        if k == 0:  # cut at a line before the end
            n = r.randrange(len(lines) - 1)
            lines = lines[:n]
            stop = max(0, n - len(h))
        elif k == 1:
            lines[0] = r.choice(["#a", "#b", "##", "%c", "*  ", ""]) + lines[0][2:]
            stop = 0
        elif k == 2:
            n = r.randrange(len(h), len(lines) - 1)
            col = 4 + 14 * r.randrange(4)
            while lines[n][0] != "P":
                n -= 1
                if n < len(h):
                    break
            if n >= len(h):
                lines[n] = lines[n][:col] + r.choice(["      ********", "    not.number", " " * 14]) + lines[n][col + 14:]
                stop = n - len(h)
        elif k == 3:
            n = r.randrange(len(h), len(lines) - 1)
            while lines[n][0] != "*":
                n -= 1
            bits = {0: lines[n][:3] + "20x0" + lines[n][7:], 1: lines[n][:8] + "13" + lines[n][10:], 2: lines[n][:11] + "32" + lines[n][13:],
                    3: lines[n][:20] + "  0.50000000", 4: lines[n][:14] + "24" + lines[n][16:]}
            lines[n] = bits[r.randrange(5)]
            stop = n - len(h)
        else:
            n = r.randrange(len(h), len(lines) - 1)
            if lines[n][0] != "*":
                lines[n] = r.choice("QX/%+#") + lines[n][1:]
                stop = n - len(h)
        if stop is not None:
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            c.desc("-s %s\n%s" % (arg, "\n".join(lines)[:5000]))
            rc, out, err = run("-i", path, "-s", arg)
            full = want.split("\n")
            got = out.split("\n")
            c.check(rc != 0, "damage-not-reported", "exit 0, %s" % out[:900])
            ok = got[-1] == "" and (not got[:-1] or got[0] == full[0] or stop == 0)
            gl = [x for x in got[1:] if x.startswith('"')]
            # what is listed comes from before the damage
            before = [ln for ln in body[:stop] if ln.startswith("P" + sat)]
            ok = ok and gl == full[1:1 + len(gl)] and len(gl) <= len(before)
            c.check(ok, "damaged-listing", "%d records before the damage, got\n%s" % (len(before), out[:900]))
            c.event("damage_reported")
    with open(path) as f:
        pass
    c.sample(want[:600])


if __name__ == "__main__":
    vp.main(lambda tier: 40000 if tier else 1600, case)
