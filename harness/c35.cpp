// C35: a reader costs one open file and a bounded amount of memory and reading,
// gives all of it back, and leaves the files as they are
#include "damage.hpp"
#include "readers.hpp"
#include <array>
#include <cassert>
#include <dirent.h>
#include <initializer_list>
#include "gauss_newton.hpp"
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 12000 : 480; }

// ---- every allocation of the process is counted (not under sanitizers) -------
#ifndef VP_SAN
#include <malloc.h>
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
static long g_live = 0, g_peak = 0;
static void *took(void *p) {
  if (p) {
    g_live += static_cast<long>(malloc_usable_size(p));
    if (g_live > g_peak)
      g_peak = g_live;
  }
  return p;
}
static void gave(void *p) {
  if (p)
    g_live -= static_cast<long>(malloc_usable_size(p));
}
extern "C" {
void *malloc(size_t n) { return took(__libc_malloc(n)); }
void free(void *p) {
  gave(p);
  __libc_free(p);
}
void *calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
  gave(p);
  void *q = __libc_realloc(p, n);
  if (!q && n) {
    took(p);
    return q;
  }
  return took(q);
}
void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = took(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
}
static long live() { return g_live; }
static void low() { g_peak = g_live; }
static long peak() { return g_peak; }
static const bool COUNTS = true;
#else
static long live() { return 0; }
static void low() {}
static long peak() { return 0; }
static const bool COUNTS = false;
#endif

// ---- what the process holds ----------------------------------------------------
struct Fds {
  int n = 0, writable = 0;
};
static Fds fds() {
  Fds f;
  int e = errno;
  for (int i = 3; i < 128; i++) {
    int m = ::fcntl(i, F_GETFL);
    if (m < 0)
      continue;
    // the sanitizers' own threads look into /proc now and then
    char l[300];
    long n = ::readlink(("/proc/self/fd/" + std::to_string(i)).c_str(), l, sizeof l - 1);
    if (n < 1 || l[0] != '/' || !std::strncmp(l, "/proc", 5) || !std::strncmp(l, "/dev", 4))
      continue;
    f.n++;
    f.writable += (m & O_ACCMODE) != O_RDONLY;
  }
  errno = e;
  return f;
}
/// bytes taken from files so far
static long taken() {
  char b[400];
  int fd = ::open("/proc/self/io", O_RDONLY);
  if (fd < 0)
    return -1;
  long n = ::read(fd, b, sizeof b - 1);
  ::close(fd);
  if (n <= 0)
    return -1;
  b[n] = 0;
  const char *p = std::strstr(b, "rchar:");
  return p ? std::atol(p + 6) : -1;
}
static std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
struct State {
  std::string text;
  struct stat st {};
  int files = 0;
  explicit State(const std::string &p) : text(slurp(p)) {
    ::stat(p.c_str(), &st);
    if (DIR *d = ::opendir(vp::scratch_dir().c_str())) {
      while (::readdir(d))
        files++;
      ::closedir(d);
    }
  }
  bool operator==(const State &o) const {
    return text == o.text && files == o.files && st.st_mode == o.st.st_mode && st.st_size == o.st.st_size && st.st_ino == o.st.st_ino && st.st_mtim.tv_sec == o.st.st_mtim.tv_sec &&
           st.st_mtim.tv_nsec == o.st.st_mtim.tv_nsec;
  }
};

/// where the part that can be repeated starts and ends
static void parts(const std::string &name, const std::string &t, std::string &head, std::string &body, std::string &tail) {
  size_t a = 0, b = t.size();
  if (name == "sp3") {
    a = t.find("\n*") + 1;
    b = t.rfind("EOF");
  } else if (name == "satellit") {
    a = t.find(bg::H2);
    a = t.find('\n', a) + 2;
    b = t.find("\n\n", a);
    size_t p = t.find("PART 3", a);
    b = b == std::string::npos ? (p == std::string::npos ? t.size() : p) : std::min(b + 1, p);
  } else {
    // not a comment that says so
    do {
      a = t.find("END OF HEADER", a + 1);
    } while (a < t.size() && (a < 60 || t.rfind('\n', a) != a - 61));
    a = t.find('\n', a) + 1;
  }
  head = t.substr(0, a);
  body = t.substr(a, b - a);
  tail = t.substr(b);
}

template <typename R> static std::unique_ptr<R> open(const std::string &path) {
  try {
    return std::make_unique<R>(path.c_str());
  } catch (std::exception &) {
    return nullptr;
  }
}

/// read it all (or ask for things) once; the number of answers
template <typename K> static long pass(K &k, typename K::R &rd, vp::Rng r, long &answers) {
  long n = 0;
  if constexpr (K::stateless) {
    for (; n < 6; n++) {
      Op o = k.op(r);
      answers += k.run(rd, o, r)[0] == '0';
    }
  } else if constexpr (std::is_same_v<typename K::R, NavigationRnx>) {
    rd.rewind();
    Op o;
    long kind = r.in(0, 4);
    for (;;) {
      o.k = kind == 0 ? 0 : kind == 1 ? static_cast<int>(n % 3) : kind == 2 ? 2 : kind == 3 ? 3 : 4;
      if (o.k >= 3) {
        o = k.op(r);
        o.k = static_cast<int>(kind);
        if (kind == 4)
          o.a = 'G';
        if (n > 6) // searches need not reach the end; each reads on
          break;
      }
      std::string w = k.run(rd, o, r);
      n++;
      if (w.find(" 0") == std::string::npos || n > 100000)
        break;
      answers++;
    }
  } else {
    rd.rewind();
    Op o;
    for (;;) {
      std::string w = k.run(rd, o, r);
      n++;
      if (w[0] != '0' || n > 100000)
        break;
      answers++;
    }
  }
  return n;
}

template <typename K> static void life(vp::Case &c) {
  using R = typename K::R;
  auto &r = c.rng;
  vp::Scratch ps("s"), pb("b"), pd("d");
  K k, kb;
  std::string text, head, body, tail;
  do {
    k = K();
    text = k.file(r);
    parts(K::name, text, head, body, tail);
  } while (text.size() > 200000 || body.empty());
  const size_t goal = r.chance(1, 4) ? 2000000 : 600000;
  std::string big = head;
  long times = 0;
  while (big.size() < goal && times < 20000) {
    big += body;
    times++;
  }
  big += tail;
  ps.write(text);
  pb.write(big);
  std::string how;
  pd.write(r.chance(1, 3) ? dm::garbage(r) : r.chance(1, 2) ? head.substr(0, static_cast<size_t>(r.in(0, static_cast<long>(head.size()) - 1))) : dm::changes(r, text, how));
  c.desc(fmt("%s: %zu bytes, %zu when its body is repeated %ld times", K::name, text.size(), big.size(), times));
  State s0(ps.path), s1(pb.path), s2(pd.path);
  const size_t size = big.size();
  const uint64_t sd = r.next();
  long answers = 0, failed = 0, moves = 0, worst = 0, ops_all = 0;
  long opened_extra = -1, opened_writable = 0, after_fds = 0, after_live = 0, growth = 0, peak_small = 0, peak_big = 0, io = -1, io_allowed = 0;
  std::string bad;
  static std::set<std::string> warm;
  for (int round = warm.count(K::name) ? 1 : 0; round < 2; round++) { // the first only settles one-time costs
    answers = failed = moves = ops_all = 0;
    const Fds f0 = fds();
    const long l0 = live();
    {
      low();
      const long b0 = live();
      K k1 = k;
      auto rd = open<R>(ps.path);
      if (!rd) {
        c.fail("valid-file-refused", text.substr(0, 3000));
        return;
      }
      opened_extra = fds().n - f0.n;
      opened_writable = fds().writable - f0.writable;
      for (int q = 0; q < 2; q++)
        pass(k1, *rd, vp::Rng(sd + static_cast<uint64_t>(q)), answers);
      const long l1 = live();
      for (int q = 0; q < 12; q++)
        pass(k1, *rd, vp::Rng(sd + 2 + static_cast<uint64_t>(q)), answers);
      growth = live() - l1;
      peak_small = peak() - b0;
    }
    {
      low();
      const long b0 = live();
      K k1 = k;
      auto rd = open<R>(pb.path);
      if (!rd) {
        c.fail("longer-file-refused", text.substr(0, 3000));
        return;
      }
      for (int q = 0; q < 2; q++) {
        const long t0 = taken();
        const long n = pass(k1, *rd, vp::Rng(sd + static_cast<uint64_t>(q)), answers);
        const long t1 = taken();
        ops_all += n;
        if (t0 >= 0) {
          // an operation may look at the whole file once or a few times when
          // it searches; reading on costs what is read, and a buffer each
          const long allowed = (K::stateless ? n * 8 : 24) * static_cast<long>(size) + 40000 * n + 200000;
          if (t1 - t0 - allowed > worst || io < 0) {
            io = t1 - t0;
            io_allowed = allowed;
            worst = std::max(worst, io - allowed);
          }
        }
      }
      peak_big = peak() - b0;
    }
    { // files that cannot be opened, and readers moved about
      vp::Rng q(sd);
      for (int i = 0; i < 3; i++) {
        auto x = open<R>(i == 1 ? std::string("/nonexistent/file") : i ? std::string("/") : pd.path);
        failed += !x;
        auto a = open<R>(ps.path), b = open<R>(pb.path);
        if (q.chance(1, 2)) {
          R t(std::move(*a));
          *a = std::move(*b);
          *b = std::move(t);
        } else {
          std::swap(*a, *b);
          *a = std::move(*b);
        }
        moves++;
        if (fds().n - f0.n > 2 + !!x)
          bad = fmt("%d files open for %d readers", fds().n - f0.n, 2 + !!x);
        if constexpr (std::is_same_v<R, Antex>) {
          for (int z = 0; z < 4; z++)
            try {
              a->reset_to_file(z == 1 ? "/nonexistent/file" : z == 3 ? pd.path.c_str() : (z ? ps.path : pb.path).c_str());
            } catch (std::exception &) {
              failed++;
            }
          if (fds().n - f0.n > 2 + !!x)
            bad = fmt("%d files open for %d readers", fds().n - f0.n, 2 + !!x);
        }
      }
    }
    after_fds = fds().n - f0.n;
    after_live = live() - l0;
  }
  warm.insert(K::name);
  const std::string who = std::string(K::name) + ": ";
  VP_CHECK(c, opened_extra == 1, "files-per-reader", who + fmt("%ld files opened by one reader", opened_extra));
  VP_CHECK(c, opened_writable == 0, "opened-for-writing", who + "the file is open for writing");
  VP_CHECK(c, bad.empty(), "files-held", who + bad);
  VP_CHECK(c, after_fds == 0, "files-left-open", who + fmt("%ld files open after the last reader has gone", after_fds));
  if (COUNTS) {
    VP_CHECK(c, after_live == 0, "memory-kept", who + fmt("%ld bytes held after the last reader has gone", after_live));
    VP_CHECK(c, growth <= 512, "memory-grows", who + fmt("twelve more passes hold %ld bytes more", growth));
    VP_CHECK(c, peak_big <= peak_small + 16384, "memory-of-long-file", who + fmt("%zu bytes of file take %ld bytes, %zu take %ld", text.size(), peak_small, size, peak_big));
    c.event("memory_balances");
  }
  if (io >= 0) {
    VP_CHECK(c, io <= io_allowed, "reads-too-much", who + fmt("%ld bytes read from a file of %zu in %ld operations", io, size, ops_all));
    c.event("megabytes_read", io / 1000000 + 1);
  }
  VP_CHECK(c, s0 == State(ps.path) && s1 == State(pb.path) && s2 == State(pd.path), "files-changed", who + "a file it read is no longer as it was, or there is another one");
  c.event("readers_followed", 8);
  c.event("operations_followed", ops_all);
  c.event("answers", answers);
  c.event("failed_openings", failed);
  c.event("moves", moves);
  c.event("files_compared", 3);
  c.nontrivial(fmt("%s %zu %zu %ld %ld", K::name, text.size(), size, ops_all, answers));
  c.sample(c.what + fmt(": at most %ld and %ld bytes in memory, %ld read in %ld operations", peak_small, peak_big, io, ops_all));
}

/// interpolators and filters used for long
static void longevity(vp::Case &c) {
  auto &r = c.rng;
  static bool warm = false;
  if (r.chance(1, 2)) {
    vp::Scratch p("o");
    KSp3 k;
    p.write(k.file(r));
    c.desc("an interpolator set up again and again over a generated orbit file");
    long left = 0, growth = 0, f = 0;
    for (int round = 0; round < 2; round++) {
      const long l0 = live(), f0 = fds().n;
      {
        Sp3c s(p.path.c_str());
        LagrangeSp3Interpolator<3600> l(s);
        for (int i = 0; i < 3; i++)
          l.initialize();
        {
          LagrangeSp3Interpolator<3600> m(std::move(l));
          l = m;
        }
        l.initialize();
        const long l1 = live();
        for (int i = 0; i < 40; i++) {
          l.initialize();
          if (i % 8 == 7) {
            LagrangeSp3Interpolator<3600> m(l), n(std::move(m));
            n.initialize();
          }
        }
        growth = live() - l1;
      }
      left = live() - l0;
      f = fds().n - f0;
    }
    if (COUNTS) {
      VP_CHECK(c, left == 0, "memory-kept", fmt("interpolator: %ld bytes held after it has gone", left));
      VP_CHECK(c, growth <= 512, "memory-grows", fmt("interpolator: forty set-ups hold %ld bytes more", growth));
    }
    VP_CHECK(c, f == 0, "files-left-open", fmt("interpolator: %ld files left open", f));
    c.event("set_ups", 40);
    return;
  }
  c.desc("a filter updated again and again");
  int n = static_cast<int>(r.in(4, 14));
  std::vector<double> obs(static_cast<size_t>(n)), w(obs);
  std::vector<std::array<double, 4>> sv(static_cast<size_t>(n));
  for (int i = 0; i < n; i++) {
    size_t q = static_cast<size_t>(i);
    sv[q] = {r.uni(1e7, 2e7), r.uni(-1.5e7, 1.5e7), r.uni(-1.5e7, 1.5e7), 0};
    w[q] = r.uni(1, 10);
    obs[q] = std::sqrt(std::pow(sv[q][0] - 6378000, 2) + sv[q][1] * sv[q][1] + sv[q][2] * sv[q][2]) + r.uni(-3, 3);
  }
  long left = 0, growth = 0;
  for (int round = warm ? 1 : 0; round < 2; round++) {
    const long l0 = live();
    {
      Kalman<5> k({6378000e0, 0e0, 0e0, 0e0, 0e0});
      for (int i = 0; i < 2; i++)
        k.update(n, &obs, &sv, 30e0, &w, false);
      const long l1 = live();
      for (int i = 0; i < 300; i++)
        k.update(n, &obs, &sv, 30e0, &w, false);
      growth = live() - l1;
    }
    left = live() - l0;
  }
  warm = true;
  if (COUNTS) {
    VP_CHECK(c, left == 0, "memory-kept", fmt("filter: %ld bytes held after it has gone", left));
    VP_CHECK(c, growth <= 512, "memory-grows", fmt("filter: 300 updates hold %ld bytes more", growth));
  }
  c.event("updates", 300);
}

void vp_case(vp::Case &c) {
  switch (c.idx % 6) {
  case 0: life<KAntex>(c); break;
  case 1: life<KBern>(c); break;
  case 2: life<KSp3>(c); break;
  case 3: life<KNav>(c); break;
  case 4: life<KObs>(c); break;
  default: longevity(c); break;
  }
}
