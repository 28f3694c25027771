"""The part of vp.hpp a monitor written in Python needs: same command line, same log."""
import mmap
import os
import random
import signal
import subprocess
import sys


class Case:
    def __init__(self, idx, tier, seed, log, cur):
        self.idx, self.tier, self.log, self.cur = idx, tier, log, cur
        self.rng = random.Random("%d/%d" % (seed, idx))
        self.what = ""
        self.keys = {}

    def desc(self, s):
        self.what = s
        if self.cur is not None:
            b = s.encode("latin1", "replace")[:65000]
            self.cur[32:32 + len(b) + 1] = b + b"\0"

    def event(self, name, n=1):
        self.log.counts[name] = self.log.counts.get(name, 0) + n

    def nontrivial(self, sig):
        h = 1469598103934665603
        for b in sig.encode():
            h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
        self.log.seen.add(h)

    def fail(self, key, detail):
        self.keys[key] = self.keys.get(key, 0) + 1
        if self.keys[key] > 2:
            return
        self.log.line("V", str(self.idx), key, esc(detail)[:3000], esc(self.what)[:6000])

    def check(self, ok, key, detail):
        if not ok:
            self.fail(key, detail)
        return ok

    def sample(self, s):
        if self.log.samples < 3:
            self.log.samples += 1
            self.log.line("X", str(self.idx), esc(s)[:1500])


def esc(s):
    return "".join("\\n" if c == "\n" else "\\\\" if c == "\\" else "\\t" if c == "\t"
                   else c if " " <= c <= "~" else "\\x%02x" % (ord(c) & 255) for c in s)


class Log:
    def __init__(self, path):
        self.f = open(path, "w") if path else sys.stdout
        self.counts, self.seen, self.samples = {}, set(), 0

    def line(self, *f):
        self.f.write("\t".join(f) + "\n")
        self.f.flush()


def main(cases, case):
    o = {"--seed": "1", "--tier": "0", "--from": "0", "--to": "-1", "--stride": "1", "--log": "", "--cur": "",
         "--scratch": ".", "--cpu": "20"}
    a = sys.argv[1:]
    count = "--count" in a
    a = [x for x in a if x != "--count"]
    o.update(zip(a[::2], a[1::2]))
    tier = int(o["--tier"])
    if count:
        print(cases(tier))
        return
    to = int(o["--to"])
    if to < 0:
        to = cases(tier)
    log = Log(o["--log"])
    cur = None
    if o["--cur"]:
        fd = os.open(o["--cur"], os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.ftruncate(fd, 1 << 16)
        cur = mmap.mmap(fd, 1 << 16)

    def alarm(*_):
        if cur is not None:
            cur[24:25] = b"H"
        os._exit(97)
    signal.signal(signal.SIGPROF, alarm)
    n = 0
    for i in range(int(o["--from"]), to, int(o["--stride"])):
        if cur is not None:
            cur[0:24] = ("%d" % i).encode().ljust(24, b"\0")
            cur[24:33] = b"R" + b"\0" * 8
        signal.setitimer(signal.ITIMER_PROF, float(o["--cpu"]))
        try:
            case(Case(i, tier, int(o["--seed"]), log, cur), o["--scratch"])
        except subprocess.TimeoutExpired:
            alarm()
        n += 1
    signal.setitimer(signal.ITIMER_PROF, 0)
    if cur is not None:
        cur[24:25] = b"D"
    log.line("E", str(n))
    for k, v in log.counts.items():
        log.line("C", k, str(v))
    for h in log.seen:
        log.line("N", "%016x" % h)
    log.f.flush()
