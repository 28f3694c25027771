// C29: what a reader answers depends on its file and position only
#include "damage.hpp"
#include "readers.hpp"
#include <malloc.h>
#include <poll.h>
#include <sys/wait.h>
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 60000 : 3000; }

// ---- noise -----------------------------------------------------------------
/// leave another pattern where automatic variables will be
__attribute__((noinline, optimize("O0"))) static void smear(unsigned char b) {
  volatile char z[40000];
  for (size_t i = 0; i < sizeof z; i++)
    z[i] = static_cast<char>(b);
}
static void settle() {
  errno = 0;
  smear(0);
#ifndef VP_SAN
  mallopt(M_PERTURB, 0);
#endif
}
static void disturb(vp::Rng &r) {
  static const unsigned char B[] = {0, ' ', '1', '9', '*', 'G', 0xff, 0xaa, '\n', '-'};
  static const int E[] = {0, ERANGE, ERANGE, ERANGE, EINVAL, ENOENT, EINTR, 4711};
  smear(B[r.in(0, 9)]);
#ifndef VP_SAN
  mallopt(M_PERTURB, static_cast<int>(r.in(0, 255)));
#endif
  errno = E[r.in(0, 7)];
}

template <typename R> static std::unique_ptr<R> open(vp::Case &c, const std::string &path) {
  try {
    return std::make_unique<R>(path.c_str());
  } catch (std::exception &) {
    c.event("headers_refused");
    return nullptr;
  }
}
// Antex alone can be opened later and again
static std::unique_ptr<Antex> reopened(vp::Case &c, const std::string &path, const std::string &other) {
  auto a = std::make_unique<Antex>();
  try {
    if (c.rng.chance(1, 2))
      a->reset_to_file(other.c_str());
    else if (c.rng.chance(1, 2))
      a->reset_to_file("/nonexistent/file");
  } catch (std::exception &) {
  }
  disturb(c.rng);
  try {
    a->reset_to_file(path.c_str());
  } catch (std::exception &) {
    return nullptr;
  }
  c.event("files_replaced");
  return a;
}

// ---- a process in which nothing has been read yet ----------------------------
// A server, forked before the first case, forks a child for every question;
// the child opens the file and repeats the operations since the last start over.
struct Asked {
  int kind = 0;
  uint64_t gen = 0; ///< state the file was generated from
  char path[300] = "";
  long n = 0;
  struct O {
    int k;
    long a, b, c;
    uint64_t seed;
  } ops[64];
};
static int to_server = -1, from_server = -1;
template <typename K> static std::string repeat(const Asked &q) {
  vp::Rng g(0);
  g.s = q.gen;
  K k;
  k.file(g);
  typename K::R r(q.path);
  std::string w;
  for (long i = 0; i < q.n; i++) {
    Op o;
    o.k = q.ops[i].k, o.a = q.ops[i].a, o.b = q.ops[i].b, o.c = q.ops[i].c;
    vp::Rng s(q.ops[i].seed);
    if (k.rewinds(o) && !K::stateless)
      continue;
    w = k.run(r, o, s);
  }
  return w;
}
static bool all(int fd, void *p, size_t n, bool out) {
  char *b = static_cast<char *>(p);
  while (n) {
    ssize_t k = out ? ::write(fd, b, n) : ::read(fd, b, n);
    if (k <= 0) {
      if (k < 0 && errno == EINTR)
        continue;
      return false;
    }
    b += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
void vp_init() {
  int a[2], b[2];
  if (::pipe(a) || ::pipe(b))
    std::_Exit(3);
  pid_t p = ::fork();
  if (p < 0)
    std::_Exit(3);
  if (p) {
    ::close(a[0]);
    ::close(b[1]);
    to_server = a[1];
    from_server = b[0];
    return;
  }
  ::close(a[1]);
  ::close(b[0]);
  Asked q;
  while (all(a[0], &q, sizeof q, false)) {
    pid_t k = ::fork();
    if (!k) {
      ::alarm(30);
      std::string w;
      try {
        w = q.kind == 0 ? repeat<KAntex>(q) : q.kind == 1 ? repeat<KBern>(q) : q.kind == 2 ? repeat<KSp3>(q) : q.kind == 3 ? repeat<KNav>(q) : repeat<KObs>(q);
      } catch (std::exception &x) {
        w = std::string("exception ") + x.what();
      }
      long n = static_cast<long>(w.size());
      all(b[1], &n, sizeof n, true);
      all(b[1], w.data(), w.size(), true);
      _exit(0);
    }
    int st = 0;
    if (k < 0 || ::waitpid(k, &st, 0) < 0 || st) {
      long n = -1;
      all(b[1], &n, sizeof n, true);
    }
  }
  _exit(0);
}
static std::string untouched(Asked &q) {
  long n = 0;
  if (!all(to_server, &q, sizeof q, true) || !all(from_server, &n, sizeof n, false))
    std::_Exit(3);
  if (n < 0)
    return "died";
  std::string w(static_cast<size_t>(n), ' ');
  if (!all(from_server, w.data(), w.size(), false))
    std::_Exit(3);
  return w;
}

template <typename K> static void histories(vp::Case &c) {
  using R = typename K::R;
  auto &r = c.rng;
  vp::Scratch pa("a"), pb("b");
  K ka, kb;
  Asked q0;
  q0.kind = static_cast<int>(c.idx % 5);
  std::snprintf(q0.path, sizeof q0.path, "%s", pa.path.c_str());
  const bool elsewhere = r.chance(1, 3);
  q0.gen = r.s;
  std::string answer;
  std::string A = ka.file(r), B = kb.file(r), how = " undamaged";
  // under DEBUG assertions about the data are compiled into two of them
  const bool spoil = !(ASSERTS && (std::is_same_v<R, NavigationRnx> || std::is_same_v<R, ObservationRnx>)) && r.chance(1, 3);
  if (spoil) {
    how = "";
    A = dm::changes(r, A, how);
  }
  pa.write(A);
  pb.write(B);
  std::string log = std::string(K::name) + how + ":";
  c.desc(log);
  settle();
  auto fresh = open<R>(c, pa.path);
  disturb(r);
  auto main = open<R>(c, pa.path);
  VP_CHECK(c, !fresh == !main, "opening", log);
  if (!fresh || !main)
    return;
  auto other = open<R>(c, pb.path);
  settle();
  auto shadow_b = open<R>(c, pb.path);
  if (!other || !shadow_b) {
    c.fail("valid-file-refused", B.substr(0, 3000));
    return;
  }
  const std::string mem = ka.members(*fresh);
  // the reference: a reader opened at the last start over, under settled
  // conditions, that sees nothing but the operations since
  bool limit = false;
  auto step = [&](K &k, std::unique_ptr<R> &rd, std::unique_ptr<R> &ref, const std::string &path, const char *who) {
    Op o = k.op(r);
    if (k.rewinds(o)) {
      if (who[0] == 'a')
        q0.n = 0;
      settle();
      ref = std::make_unique<R>(path.c_str());
    }
    const uint64_t seed1 = r.next();
    vp::Rng r1(seed1), r2(r.next());
    std::string want = "rewound";
    if (!(k.rewinds(o) && !K::stateless)) {
      settle();
      want = k.run(*ref, o, r1);
    }
    disturb(r);
    std::string got = k.run(*rd, o, r2);
    if (who[0] == 'a' && q0.n < 64) {
      q0.ops[q0.n++] = {o.k, o.a, o.b, o.c, seed1};
      answer = got;
    }
    log += fmt(" %s(%d,%ld,%ld,%ld)", who, o.k, o.a, o.b, o.c);
    c.desc(log);
    if (!limit && got != want) {
      c.fail(std::string(K::name) + "-answer", log + "\ngot  " + got + "\nwant " + want + "\n" + (spoil ? A : ""));
      limit = true;
    }
    c.event(K::stateless ? "queries_compared" : (k.rewinds(o) ? "rewinds" : "reads_compared"));
    if (want[0] != '0')
      c.event("answers_without_result");
    c.nontrivial(std::string(who) + got);
  };
  for (long n = r.in(5, 40); n > 0 && !limit; n--) {
    switch (r.in(0, 11)) {
    default: step(ka, main, fresh, pa.path, "a"); break;
    case 0:
    case 1: step(kb, other, shadow_b, pb.path, "b"); break;
    case 2: { // elsewhere on the heap; what was moved from is destroyed
      disturb(r);
      auto t = std::make_unique<R>(std::move(*main));
      main = std::move(t);
      log += " moved";
      c.event("moves");
      VP_CHECK(c, ka.members(*main) == mem, "members-after-move", log + ka.members(*main) + " instead of " + mem);
      break;
    }
    case 3: { // over another open one
      auto t = open<R>(c, r.chance(1, 2) ? pb.path : pa.path);
      if (!t)
        break;
      disturb(r);
      if (r.chance(1, 2)) {
        vp::Rng q(r.next());
        K kt = kb;
        kt.run(*t, kt.op(q), q);
      }
      *t = std::move(*main);
      if (r.chance(1, 2)) {
        *main = std::move(*t); // back into the moved-from one
        log += " moved-over-and-back";
      } else {
        std::swap(main, t);
        log += " moved-over";
      }
      c.event("moves_over_another");
      VP_CHECK(c, ka.members(*main) == mem, "members-after-move", log + ka.members(*main) + " instead of " + mem);
      break;
    }
    case 4: { // exchanged with the other, twice
      std::swap(*main, *other);
      if (r.chance(1, 2)) {
        step(kb, main, shadow_b, pb.path, "b");
        step(ka, other, fresh, pa.path, "a");
      }
      std::swap(*main, *other);
      log += " exchanged";
      c.event("exchanges");
      break;
    }
    case 5: { // an unreadable file opened in between
      vp::Scratch pc("c");
      std::string h2;
      pc.write(r.chance(1, 3) ? dm::garbage(r) : dm::changes(r, B, h2));
      auto t = open<R>(c, r.chance(1, 3) ? "/nonexistent/file" : pc.path);
      if (t && !(ASSERTS && (std::is_same_v<R, NavigationRnx> || std::is_same_v<R, ObservationRnx>))) {
        vp::Rng q(r.next());
        K kt = kb;
        kt.run(*t, kt.op(q), q);
      }
      log += " another-opened";
      break;
    }
    case 6:
      if constexpr (std::is_same_v<R, Antex>) {
        auto t = reopened(c, pa.path, pb.path);
        if (!t) {
          c.fail("valid-file-refused-later", log);
          return;
        }
        main = std::move(t);
        log += " reset";
      } else {
        std::vector<R> v;
        v.push_back(std::move(*main));
        v.push_back(std::move(*other)); // reallocation moves the first
        *main = std::move(v[0]);
        *other = std::move(v[1]);
        log += " vector";
        c.event("moves");
      }
      break;
    }
  }
  if (elsewhere && !limit && !answer.empty() && answer != "rewound") {
    std::string want = untouched(q0);
    VP_CHECK(c, answer == want, std::string(K::name) + "-answer-in-another-process", log + "\ngot  " + answer + "\nwant " + want);
    c.event("answers_of_another_process");
  }
  c.sample(log);
}

void vp_case(vp::Case &c) {
  switch (c.idx % 5) {
  case 0: histories<KAntex>(c); break;
  case 1: histories<KBern>(c); break;
  case 2: histories<KSp3>(c); break;
  case 3: histories<KNav>(c); break;
  default: histories<KObs>(c); break;
  }
}
