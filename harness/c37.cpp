// C37: failing reads are errors, not ends of files; short and interrupted ones change nothing
#include "readers.hpp"
#include <sys/syscall.h>
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 400000 : 15000; }

// ---- the file system, as the readers see it ------------------------------------
// (the C++ library reads through ::read)
static struct Faults {
  bool on = false;
  vp::Rng r{1};
  int kind = 0;      ///< 0 short, 1 short and interrupted, 2 the fails_at-th fails once, 3 from then on, 4 fails once at the byte fails_at
  long upto = 100;   ///< bytes at most
  long fails_at = -1, calls = 0;
  long shorts = 0, interrupts = 0, failures = 0;
  int err = EIO;
} F;
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  if (F.on && n > 0) {
    long k = F.calls;
    if (F.kind == 1 && F.r.chance(1, 3)) {
      F.interrupts++;
      errno = EINTR;
      return -1;
    }
    F.calls++;
    if (F.kind == 4 && F.fails_at >= 0) {
      const long at = ::lseek(fd, 0, SEEK_CUR);
      if (at == F.fails_at) {
        F.fails_at = -1;
        F.failures++;
        errno = F.err;
        return -1;
      }
      if (at < F.fails_at)
        n = std::min(n, static_cast<size_t>(F.fails_at - at));
    }
    if ((F.kind == 2 && k == F.fails_at) || (F.kind == 3 && k >= F.fails_at)) {
      F.failures++;
      errno = F.err;
      return -1;
    }
    size_t m = static_cast<size_t>(F.r.in(1, F.upto));
    if (m < n) {
      n = m;
      F.shorts++;
    }
  }
  return ::syscall(SYS_read, fd, buf, n);
}
struct Faulty {
  Faulty() { F.on = true; }
  ~Faulty() { F.on = false; }
};

/// the status in an answer
static long status(const std::string &a) {
  size_t i = a.find_first_of("-0123456789");
  return i == std::string::npos ? 0 : std::atol(a.c_str() + i);
}

template <typename K> static void failing(vp::Case &c) {
  using R = typename K::R;
  auto &r = c.rng;
  vp::Scratch p("f");
  K k;
  std::string text = k.file(r);
  p.write(text);
  F = Faults();
  F.r = vp::Rng(r.next());
  F.kind = static_cast<int>(r.in(0, 3));
  F.upto = r.chance(1, 3) ? r.in(1, 20) : r.in(20, 3000);
  static const int E[] = {EIO, EIO, EIO, ESTALE, ETIMEDOUT, ENXIO, EBADF};
  F.err = E[r.in(0, 6)];
  if (F.kind >= 2)
    F.fails_at = r.in(0, static_cast<long>(text.size()) * (K::stateless ? 4 : 2) / (F.upto / 2 + 1) + 2);
  if (F.kind >= 2 && r.chance(1, 3)) { // the last or first bytes of the header
    const Faults g = F;
    F.kind = 0;
    {
      Faulty f;
      R once(p.path.c_str());
    }
    const long n = F.calls;
    F = g;
    F.fails_at = std::max(0L, r.chance(1, 4) ? r.in(0, 3) : n - r.in(0, 4));
    c.event("failures_around_the_end_of_a_header");
  }
  if (F.kind == 2 && r.chance(1, 2)) { // somewhere in a record, rather than in a table
    F.kind = 4;
    std::vector<size_t> at;
    static const char *W[] = {"VALID ", "TYPE / SERIAL", "NORTH / EAST", "START OF ", "END OF ", "COMMENT", "> ", "*  2", "PG", "EOF", "MW"};
    for (const char *w : W)
      for (size_t i = text.find(w); i != std::string::npos; i = text.find(w, i + 1))
        at.push_back(i);
    if (at.empty() || r.chance(1, 3)) {
      F.fails_at = r.in(0, static_cast<long>(text.size()));
    } else {
      const long i = static_cast<long>(r.pick(at));
      F.fails_at = std::max(0L, i - r.in(-20, 60));
    }
    c.event("failures_inside_a_record");
  }
  long focus = -1;
  if constexpr (std::is_same_v<K, KAntex>)
    if (F.kind == 4 && r.chance(1, 2)) { // in the validity, of a satellite asked for then
      size_t from = text.size();
      for (auto &e : k.v)
        for (auto &l : e.lines)
          from -= l.size() + 1;
      std::vector<std::pair<long, long>> at;
      for (size_t i = 0; i < k.v.size(); i++)
        for (auto &l : k.v[i].lines) {
          if (k.v[i].sat && l.size() > 60 && !l.compare(60, 6, "VALID "))
            at.emplace_back(static_cast<long>(i), static_cast<long>(from));
          from += l.size() + 1;
        }
      if (!at.empty()) {
        auto &x = r.pick(at);
        focus = x.first;
        F.fails_at = x.second + r.in(0, 70);
      }
    }
  std::string log = std::string(K::name) + fmt(" kind %d up to %ld bytes, call %ld, error %d:", F.kind, F.upto, F.fails_at, F.err);
  c.desc(log);
  auto ref = std::make_unique<R>(p.path.c_str());
  std::unique_ptr<R> rd;
  try {
    Faulty f;
    rd = std::make_unique<R>(p.path.c_str());
  } catch (std::exception &x) {
    VP_CHECK(c, F.failures > 0, std::string("refused-without-failure:") + K::name, log + x.what());
    c.event("openings_failed");
    c.nontrivial(log);
    return;
  }
  VP_CHECK(c, k.members(*rd) == k.members(*ref), std::string("members:") + K::name, log);
  long failed = 0; ///< since the two were last known to be at the same place
  failed = F.failures;
  bool end = false;
  for (long n = r.in(3, 25); n > 0 && !end; n--) {
    Op o = k.op(r);
    if (r.chance(1, 2))
      o.k = K::stateless ? o.k : 0;
    if (focus >= 0) {
      o.a = focus;
      o.k = static_cast<int>(r.in(1, 2));
    }
    const uint64_t s = r.next();
    vp::Rng r1(s), r2(s);
    std::string want = k.run(*ref, o, r1), got;
    long before = F.failures;
    {
      Faulty f;
      got = k.run(*rd, o, r2);
    }
    bool now = F.failures > before;
    failed += now;
    log += fmt(" (%d,%ld,%ld,%ld)%s", o.k, o.a, o.b, o.c, now ? "!" : "");
    c.desc(log);
    c.nontrivial(log.substr(0, 40) + got.substr(0, 100) + want.substr(0, 40));
    if (got == want) {
      c.event(now ? "failures_without_effect" : "answers_equal");
      if (k.rewinds(o))
        failed = 0;
      continue;
    }
    const std::string d = log + "\ngot  " + got + "\nwant " + want;
    if (!failed) {
      c.fail(std::string("changed-without-failure:") + K::name, d);
      return;
    }
    if (status(got) <= 0) {
      c.fail(std::string("failure-not-reported:") + K::name, d);
      return;
    }
    c.event("failures_reported");
    // the device works again; so do the readers
    if (r.chance(1, 2))
      F.kind = 0;
    if (F.kind == 3) {
      end = true; // for good
      break;
    }
    failed = 0;
    if constexpr (!K::stateless) {
      rd->rewind();
      ref->rewind();
      got = k.run(*ref, Op(), r1);
      vp::Rng r3(s);
      r3.next();
      before = F.failures;
      {
        Faulty f;
        want = k.run(*rd, Op(), r3);
      }
      if (F.failures == before) {
        VP_CHECK(c, got == want, std::string("not-recovered:") + K::name, log + "\ngot  " + want + "\nwant " + got);
        c.event("recoveries");
      } else {
        failed = 1;
      }
    } else {
      c.event("recoveries");
    }
  }
  c.event("short_reads", F.shorts);
  c.event("interrupted_reads", F.interrupts);
  c.event("failing_reads", F.failures);
  c.sample(log);
}

void vp_case(vp::Case &c) {
  switch (c.idx % 5) {
  case 0: failing<KAntex>(c); break;
  case 1: failing<KBern>(c); break;
  case 2: failing<KSp3>(c); break;
  case 3: failing<KNav>(c); break;
  default: failing<KObs>(c); break;
  }
}
