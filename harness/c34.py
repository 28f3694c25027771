"""C34: pasteoncol.py joins the lines of two files that agree in their first value"""
import os
import subprocess
import sys
import vp

TOOL = os.path.join(os.environ.get("VP_REPO", "/repo"), "var", "pasteoncol.py")


def run(*args):
    p = subprocess.run([sys.executable, "-X", "dev", "-B", TOOL] + list(args), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=15)
    return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")


def key(r, kind):
    if kind == 0:
        return str(r.randint(0, 40))
    if kind == 1:  # as sp3py.py writes them
        return '"2020-01-%02d %02d:%02d:00"' % (r.randint(1, 3), r.randint(0, 3), 15 * r.randint(0, 3))
    if kind == 2:
        return r.choice(["'%s %s'", "'%s %s'", "'%s %s\"", "\"%s %s'"]) % (r.choice("ab"), r.choice("abc"))
    if kind == 5:  # no comment, if it is not the line's first character
        return r.choice(["#1", "#2", "#", "1"])
    if kind == 3:
        return r.choice(['"G01"', '"G02"', "'x'", "G01", "G1", "g01"])
    return "".join(r.choice("ab1.-_") for _ in range(r.randint(1, 3)))


def value(r):
    k = r.randrange(8)
    if k == 0:
        return '"%d %s"' % (r.randint(0, 9), r.choice("xyz"))
    if k == 1:
        return r.choice(['"one"', "'two'", "it's", 'a"', "#5"])
    return "%+.6f" % r.uniform(-1e5, 1e5)


def generate(r, kinds, many):
    """(text, [(key, values)]); blanks between the values vary"""
    rows, text = [], ""
    for _ in range(r.randint(500, 3000) if many else r.choice([0, 1, 2, 5, r.randint(0, 60)])):
        k = r.randrange(12)
        if k == 0:
            text += r.choice(["# comment %s\n" % key(r, 0), "## 5 6\n", "#\n"])
        elif k == 1:
            text += r.choice(["\n", "   \n", "\t\n"])
        else:
            vals = [key(r, r.choice(kinds))] + [value(r) for _ in range(r.choice([0, 1, 4, r.randint(0, 9)]))]
            if r.random() < .05:
                vals.append(r.choice(['"open', "'x", '"', "'"]))
            sep = [r.choice([" ", " ", "  ", "\t"]) for _ in vals]
            text += (r.choice([" ", "  ", "\t"]) if vals[0][0] == "#" else r.choice(["", "", " "])) + "".join(v + s for v, s in zip(vals, sep)).rstrip() + r.choice(["", "", "  "]) + "\n"
            rows.append(vals)
    if text and r.random() < .2 and not text.endswith("#\n"):
        text = text[:-1]
    return text, rows


def case(c, scratch):
    r = c.rng
    kinds = r.choice([[0], [1], [1], [2], [3], [4], [5], [0, 1, 2, 3, 4, 5]])
    long = r.random() < .02
    (ta, a), (tb, b) = generate(r, kinds, long and r.random() < .7), generate(r, kinds, long and r.random() < .7)
    pa, pb = os.path.join(scratch, "a"), os.path.join(scratch, "b")
    for p, t in ((pa, ta), (pb, tb)):
        with open(p, "w") as f:
            f.write(t)
    c.desc("%s\n--\n%s" % (ta[:2500], tb[:2500]))
    ref, other = (a, b) if len(a) > len(b) else (b, a)
    want = ""
    for x in ref:
        m = next((y for y in other if y[0] == x[0]), None)
        if m is not None:
            want += " ".join(x) + " " + " ".join(m) + "\n"
            c.event("lines_joined")
        else:
            c.event("lines_without_match")
    rc, out, err = run(pa, pb)
    c.check(rc == 0, "exit", "exit %d: %s" % (rc, err[-600:]))
    c.check(out == want, "joined", "got\n%s\ninstead of\n%s" % (out[:1200], want[:1200]))
    c.check(err == "", "messages", err[-600:])
    c.event("files_joined")
    c.nontrivial(want)
    for p, t in ((pa, ta), (pb, tb)):
        with open(p) as f:
            c.check(f.read() == t, "input-changed", p)
    if r.random() < .2:
        x = [(pa, pb + ".not"), (pa + ".not", pb), (pa, scratch)]
        rc, out, err = run(*r.choice(x))
        c.check(rc != 0 and out == "", "absent-file-accepted", "exit %d: %s" % (rc, out[:300]))
        c.event("absent_files_refused")
    c.sample(want[:500])


if __name__ == "__main__":
    vp.main(lambda tier: 60000 if tier else 3000, case)
