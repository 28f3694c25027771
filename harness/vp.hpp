// Common part of every monitor: deterministic cases, an observation log,
// violation reports, and the witness that survives a crash.
//
// A harness defines
//     long vp_cases(int tier);            number of cases (0 quick, 1 thorough)
//     void vp_case(vp::Case &c);          run one case under observation
// and is started by run.py as
//     prog --seed S --tier T --from A --to B --stride K --log FILE --cur FILE
#ifndef VP_HPP
#define VP_HPP

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <vector>

namespace vp {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  /// in [a,b]
  long in(long a, long b) {
    return a + static_cast<long>(next() % static_cast<uint64_t>(b - a + 1));
  }
  bool chance(int num, int den) { return in(1, den) <= num; }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[in(0, static_cast<long>(v.size()) - 1)];
  }
  char pickc(const char *s) { return s[in(0, static_cast<long>(std::strlen(s)) - 1)]; }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[in(0, static_cast<long>(i) - 1)]);
  }
};

inline std::string fmt(const char *f, ...) {
  va_list ap, ap2;
  va_start(ap, f);
  va_copy(ap2, ap);
  int n = std::vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  std::string s(n + 1, '\0');
  std::vsnprintf(&s[0], n + 1, f, ap2);
  va_end(ap2);
  s.resize(n);
  return s;
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '\\')
      o += "\\\\";
    else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else if (c < 32 || c > 126)
      o += fmt("\\x%02x", c);
    else
      o += static_cast<char>(c);
  }
  return o;
}

inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h ? h : 1;
}

struct Log {
  FILE *f = nullptr;
  std::set<uint64_t> seen;
  std::map<std::string, long> cnt;
  long evals = 0, viols = 0, samples = 0;
  char *cur = nullptr; ///< mmapped witness
  static constexpr size_t CUR = 1 << 16;
};
inline Log &L() {
  static Log l;
  return l;
}

struct Case {
  long idx;
  int tier;
  uint64_t seed;
  Rng rng;
  std::string what;
  std::map<std::string, int> per_key;

  /// describe the input under test; survives a crash of this process
  void desc(const std::string &s) {
    what = s;
    if (L().cur) {
      size_t n = std::min(s.size(), Log::CUR - 64);
      std::memcpy(L().cur + 32, s.data(), n);
      L().cur[32 + n] = 0;
    }
  }
  /// an operation observed by an oracle
  void event(const char *name, long n = 1) { L().cnt[name] += n; }
  /// a distinct, non-trivial case (by its signature)
  void nontrivial(const std::string &sig) { L().seen.insert(hash(sig)); }
  void nontrivial(uint64_t h) { L().seen.insert(h); }
  void sample(const std::string &s) {
    if (L().samples < 3) {
      ++L().samples;
      std::fprintf(L().f, "X\t%ld\t%s\n", idx, esc(s).substr(0, 1500).c_str());
    }
  }
  void fail(const std::string &key, const std::string &detail) {
    if (++per_key[key] > 2)
      return;
    ++L().viols;
    std::fprintf(L().f, "V\t%ld\t%s\t%s\t%s\n", idx, key.c_str(),
                 esc(detail).substr(0, 3000).c_str(),
                 esc(what).substr(0, 6000).c_str());
    std::fflush(L().f);
  }
  bool check(bool ok, const std::string &key, const std::string &detail) {
    if (!ok)
      fail(key, detail);
    return ok;
  }
};
#define VP_CHECK(c, cond, key, detail)                                         \
  do {                                                                         \
    if (!(cond))                                                               \
      (c).fail((key), (detail));                                               \
  } while (0)

/// capture what is written to a C++ stream
struct Capture {
  std::ostream &os;
  std::streambuf *old;
  std::ostringstream ss;
  explicit Capture(std::ostream &o) : os(o), old(o.rdbuf(nullptr)) {
    os.rdbuf(ss.rdbuf());
    os.clear();
  }
  ~Capture() { os.rdbuf(old); }
  std::string str() const { return ss.str(); }
};

/// scratch file of this process (removed at exit), rewritten by every use
struct Scratch {
  std::string path;
  explicit Scratch(const std::string &tag = "f");
  ~Scratch() { ::unlink(path.c_str()); }
  Scratch(const Scratch &) = delete;
  void write(const std::string &s) const {
    FILE *f = std::fopen(path.c_str(), "wb");
    if (!f) {
      std::perror("vp scratch");
      std::_Exit(3);
    }
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
  }
};
inline std::string &scratch_dir() {
  static std::string d;
  return d;
}
inline Scratch::Scratch(const std::string &tag) {
  static int n = 0;
  path = scratch_dir() + fmt("/%d_%d_%s", static_cast<int>(getpid()), n++ % 4,
                             tag.c_str());
  // same few names again and again; unique while alive because of the tag
}

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

/// a double printed as in a RINEX Dw.d field, e.g. " 1.234567890123D-05"
inline std::string dfield(double v, int w = 19, int d = 12, char e = 'D') {
  std::string s = fmt("%*.*e", w, d, v);
  // exponent of two digits
  for (auto &ch : s)
    if (ch == 'e')
      ch = e;
  return s;
}

inline bool same(double a, double b) {
  return (a == b) || (std::isnan(a) && std::isnan(b));
}

} // namespace vp

long vp_cases(int tier);
void vp_case(vp::Case &c);
/// called before the first case, before anything of the repository has run
__attribute__((weak)) void vp_init();

namespace vp {
inline void on_alarm(int) {
  // CPU time budget of one case exhausted: leave the mark for run.py
  if (L().cur)
    L().cur[24] = 'H';
  _exit(97);
}
} // namespace vp

#ifndef VP_NO_MAIN // libFuzzer brings its own
int main(int argc, char **argv) {
  uint64_t seed = 1;
  long from = 0, to = -1, stride = 1, cpu = 20;
  int tier = 0;
  bool count_only = false;
  std::string log, cur;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      seed = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--tier")
      tier = std::atoi(nxt().c_str());
    else if (a == "--from")
      from = std::atol(nxt().c_str());
    else if (a == "--to")
      to = std::atol(nxt().c_str());
    else if (a == "--stride")
      stride = std::atol(nxt().c_str());
    else if (a == "--log")
      log = nxt();
    else if (a == "--cur")
      cur = nxt();
    else if (a == "--scratch")
      vp::scratch_dir() = nxt();
    else if (a == "--cpu")
      cpu = std::atol(nxt().c_str());
    else if (a == "--count")
      count_only = true;
  }
  if (count_only) {
    std::printf("%ld\n", vp_cases(tier));
    return 0;
  }
  if (to < 0)
    to = vp_cases(tier);
  auto &L = vp::L();
  L.f = log.empty() ? stdout : std::fopen(log.c_str(), "w");
  if (!L.f)
    return 3;
  if (!cur.empty()) {
    int fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::ftruncate(fd, vp::Log::CUR))
      return 3;
    void *m = ::mmap(nullptr, vp::Log::CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED)
      return 3;
    L.cur = static_cast<char *>(m);
  }
  static vp::NullBuf nb;
  std::streambuf *co = std::cout.rdbuf(&nb), *ce = std::cerr.rdbuf(&nb);
  std::signal(SIGPROF, vp::on_alarm);
  if (vp_init)
    vp_init();
  for (long i = from; i < to; i += stride) {
    if (L.cur) {
      std::snprintf(L.cur, 24, "%ld", i);
      L.cur[24] = 'R';
      L.cur[32] = 0;
    }
    itimerval tv{};
    tv.it_value.tv_sec = cpu;
    ::setitimer(ITIMER_PROF, &tv, nullptr);
    errno = 0;
    vp::Case c{i, tier, seed,
               vp::Rng(seed * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull *
                                                          static_cast<uint64_t>(i + 1)),
               "", {}};
    c.rng.next();
    vp_case(c);
    ++L.evals;
  }
  itimerval off{};
  ::setitimer(ITIMER_PROF, &off, nullptr);
  if (L.cur)
    L.cur[24] = 'D';
  std::cout.rdbuf(co);
  std::cerr.rdbuf(ce);
  std::fprintf(L.f, "E\t%ld\n", L.evals);
  for (auto &k : L.cnt)
    std::fprintf(L.f, "C\t%s\t%ld\n", k.first.c_str(), k.second);
  for (auto h : L.seen)
    std::fprintf(L.f, "N\t%016llx\n", static_cast<unsigned long long>(h));
  std::fflush(L.f);
  return 0;
}
#endif
#endif
