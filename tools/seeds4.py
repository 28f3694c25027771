SEEDS = {}
def S(i, prop, edits, needs, breaks, demo=None, **k):
    SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

S("filter-shared-count", "C38",
  [("gauss_newton.hpp", "  int update_idx{0};", "  static inline int update_idx{0};")],
  "a second filter, updated after the first one", "only the first filter of a program gets its initial covariance",
  r'''
#include <array>
#include <cassert>
#include <initializer_list>
#include "gauss_newton.hpp"
#include <unistd.h>
static std::string shown(ngpt::Kalman<5> &k) {
  std::fflush(stdout);
  int keep = dup(1);
  FILE *f = tmpfile();
  dup2(fileno(f), 1);
  k.print_state();
  std::fflush(stdout);
  dup2(keep, 1);
  char b[400] = {0};
  if (pread(fileno(f), b, 399, 0) < 0) return "";
  return b;
}
int main() {
  ngpt::Kalman<5> a({4e6, 1e6, 4e6, 0., 0.}), b({4e6, 1e6, 4e6, 0., 0.});
  std::vector<double> o(5, 2.2e7), w(5, 1.);
  std::vector<std::array<double, 4>> s{{2.6e7, 0, 0, 0}, {0, 2.6e7, 0, 0}, {0, 0, 2.6e7, 0}, {1.8e7, 1.8e7, 0, 0}, {1.5e7, 1.5e7, 1.5e7, 0}};
  a.update(5, &o, &s, 1., &w);
  std::string x = shown(a);
  b.update(5, &o, &s, 1., &w);
  CHECK(shown(b) == x);
  CHECK(shown(a) == x);
  return finish();
}''')

S("satellite-assign-id", "C38",
  [("satellite.hpp", "  char *cospar() noexcept { return __cospar; }\n", """  Satellite(const Satellite &) = default;

  Satellite &operator=(const Satellite &o) noexcept {
    __system = o.__system;
    __prn = o.__prn;
    __svn = o.__svn;
    __antenna = o.__antenna;
    for (int i = 0; o.__cospar[i] && i < detail::COSPAR_ID_CHARS; i++)
      __cospar[i] = o.__cospar[i];
    return *this;
  }

  /// The COSPAR id, to be written to
  char *cospar() noexcept { return &__cospar[0]; }
""")],
  "a satellite without a COSPAR id assigned over one that has one", "the assigned satellite keeps the other's id",
  r'''
#include "satellite.hpp"
int main() {
  using namespace ngpt;
  Satellite a(SATELLITE_SYSTEM::gps, 5), b(SATELLITE_SYSTEM::gps, 6);
  a.svn() = 41;
  b.svn() = 42;
  strcpy(b.cospar(), "2010-02A");
  std::string want = a.to_string(false).c_str();
  Satellite c(b);
  CHECK(std::string(c.cospar()) == "2010-02A");
  c = a;
  CHECK(std::string(c.cospar()).empty());
  CHECK(std::string(c.to_string(false).c_str()) == want);
  return finish();
}''')

S("observable-self-assign", "C38",
  [("gnssobsrv.hpp", "  std::vector<__ObsPart> &underlying_vector() noexcept { return __vec; }\n", """  GnssObservable(const GnssObservable &) = default;

  /// keeps the memory of this instance
  GnssObservable &operator=(const GnssObservable &o) {
    __vec.clear();
    __vec.insert(__vec.end(), o.__vec.begin(), o.__vec.end());
    return *this;
  }

  /// The parts, to be changed
  std::vector<__ObsPart> &underlying_vector() noexcept { return this->__vec; }
""")],
  "an observable assigned to itself (e.g. by a sort or a remove)", "it loses all its parts",
  r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  GnssObservable a(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 2.5);
  a.add(SATELLITE_SYSTEM::gps, ObservationCode("C2W"), -1.5);
  std::string s = a.to_string();
  GnssObservable &b = a;
  a = b;
  CHECK(a.to_string() == s);
  CHECK(a.underlying_vector().size() == 2);
  return finish();
}''')

FAULT = r'''
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
static long allowed = 1 << 30, most = 1 << 30;
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (allowed <= 0) {
    errno = EIO;
    return -1;
  }
  n = std::min<size_t>(n, std::min(most, allowed));
  ssize_t k = syscall(SYS_read, fd, b, n);
  if (k > 0)
    allowed -= k;
  return k;
}
'''
S("nav-read-error-end", "C37",
  [("navrnx.cpp", "  if (__istream.eof())\n    return clear_stream(-1);\n  return 50;", "  return clear_stream(-1);")],
  "a read that fails between two messages", "a failed read is reported as the end of the file",
  FAULT + r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  std::string t = nav_header(), r = nav_record('G', 5, "2020 01 01 00 00 00", kepler(2086, 259200), 29);
  save("n", t + r + r + r);
  allowed = (t + r).size();
  NavigationRnx n("n");
  NavDataFrame f;
  CHECK(n.read_next_record(f) == 0);
  CHECK(n.read_next_record(f) > 0);
  allowed = 1 << 30;
  n.rewind();
  CHECK(n.read_next_record(f) == 0 && n.read_next_record(f) == 0 && n.read_next_record(f) == 0 && n.read_next_record(f) == -1);
  return finish();
}''')

S("bern-read-error-absent", "C37",
  [("bern_utils.cpp", "  return __istream.eof() ? (-1) : 5;", "  return -1; // not among the records")],
  "a read that fails during a query", "a vehicle whose record could not be read is reported as not found",
  FAULT + r'''
#include "bern_utils.hpp"
int main() {
  using namespace ngpt;
  std::string t = bern_head();
  for (int i = 0; i < 40; i++)
    t += bern_rec(1 + i % 24, 700 + i, "2000 01 01 00 00 00", "", i % 7);
  save("s", t);
  BernSatellit b("s");
  datetime<seconds> e(year(2010), month(1), day_of_month(1), seconds(0));
  int ch = 99, prn = 99;
  CHECK(b.get_frequency_channel(735, e, ch, prn) == 0 && ch == 35 % 7);
  allowed = t.size() / 4;
  CHECK(b.get_frequency_channel(735, e, ch, prn) > 0);
  allowed = 1 << 30;
  CHECK(b.get_frequency_channel(735, e, ch, prn) == 0);
  CHECK(b.get_frequency_channel(799, e, ch, prn) == -1);
  return finish();
}''')
