// C17: only healthy, in-interval messages are selected for an epoch
#include "navgen.hpp"
using namespace ngpt;
using namespace ng;

long vp_cases(int tier) { return tier ? 400000 : 10000; }

static std::string id(const NavDataFrame &f) {
  return fmt("%c%02d %ld %ld %.12e", satsys_to_char(f.system()), f.prn(), f.toc().mjd().as_underlying_type(), f.toc().sec().as_underlying_type(), f.data(0));
}
static std::string id(const Rec &x) { return fmt("%c%02d %ld %ld %.12e", x.sys, x.prn, x.mjd, x.sod, x.v[0]); }

static long fit(const Rec &x) { return x.sys == 'R' ? 900 : (x.sys == 'G' ? 3600 * static_cast<long>(x.v[28]) : 14400); }
static bool healthy(const Rec &x) { return static_cast<long>(x.v[x.sys == 'R' ? 6 : 24]) == 0; }
static __int128 us(long mjd, long sod) { return (static_cast<__int128>(mjd) * 86400 + sod) * 1000000; }

// index of the message to use, -1 if none
static long model(const std::vector<Rec> &v, size_t at, char sys, int prn, __int128 t) {
  for (size_t i = at; i < v.size(); i++) {
    auto &x = v[i];
    if (x.sys != sys || (prn != -1 && x.prn != prn))
      continue;
    __int128 toc = us(x.mjd, x.sod), toe = us(x.toe_mjd, x.toe_sod);
    if (toc - t > static_cast<__int128>(4 * 3600) * 1000000)
      return -1;
    if (!healthy(x))
      continue;
    __int128 F = static_cast<__int128>(fit(x)) * 1000000;
    if (sys == 'R' ? (t >= toe - F && t < toe + F) : (t >= toc && t < toc + F))
      return static_cast<long>(i);
  }
  return -1;
}

template <typename T> static int search(NavigationRnx &nav, __int128 t, NavigationRnx::pos_type &pos, NavDataFrame &f, char sys, int prn) {
  const __int128 day = static_cast<__int128>(86400) * 1000000;
  long mjd = static_cast<long>(t / day);
  long rest = static_cast<long>(t % day);
  datetime<T> d(modified_julian_day(mjd), T(rest / (1000000L / T::template sec_factor<long>())));
  return nav.find_next_valid(d, pos, f, char_to_satsys(sys), prn);
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("n");
  long base = anymjd(r, 'C') * 86400 + anysod(r);
  const char *sysset = r.chance(1, 2) ? "GREC" : (r.chance(1, 2) ? "RJ" : "GRECJSI");
  int nsat = static_cast<int>(r.in(1, 5));
  size_t n = static_cast<size_t>(r.chance(1, 3) ? r.in(1, 50) : r.in(1, 12));
  std::vector<Rec> v;
  long t = base;
  bool back = r.chance(1, 4);
  int sick = static_cast<int>(r.in(0, 2));
  std::string all = join(header(r)), order;
  // now and then, a file of days: thousands of messages which are not wanted before the varied ones
  size_t filler = 0;
  if (r.chance(1, 700)) {
    filler = static_cast<size_t>(r.chance(1, 2) ? r.in(4990, 5010) : r.in(900, 11000));
    Rec x = record(r, r.chance(1, 2) ? 'S' : r.pickc("JSI"), t / 86400, t % 86400, 'D');
    std::string b = join(lines(r, x, false));
    order = fmt("%zu x %c%02d\n", filler, x.sys, x.prn);
    for (size_t i = 0; i < filler; i++) {
      v.push_back(x);
      all += b;
    }
    c.event("huge_files");
  }
  n += filler;
  for (size_t i = filler; i < n; i++) {
    if (!r.chance(1, 3)) {
      static const long D[] = {900, 1800, 3600, 7200, 600, 14400, 16, 21600, 86400};
      t += D[r.in(0, r.chance(1, 6) ? 8 : 4)];
      if (back && r.chance(1, 3)) // not in order of time, e.g. satellite by satellite
        t -= D[r.in(0, 8)];
    }
    char sys = r.pickc(sysset);
    Rec x = record(r, sys, t / 86400, t % 86400, r.pickc("DE"));
    x.prn = static_cast<int>(r.in(1, nsat));
    if (std::strchr("GREC", sys)) {
      bool ill = r.chance(sick, 4);
      put(x, sys == 'R' ? 6 : 24, ill ? static_cast<double>(sys == 'R' ? r.in(1, 7) : r.in(1, 511)) : 0.);
      if (sys == 'G') {
        static const int F[] = {4, 4, 6, 2, 8, 14, 26, 0};
        put(x, 28, F[r.in(0, 7)]);
      }
      if (sys == 'R') { // frame time close to the clock epoch
        long e = t + (r.chance(1, 3) ? 0 : r.in(-1800, 900));
        set_toe(x, e / 86400, e % 86400);
      }
    }
    v.push_back(x);
  }
  for (size_t i = filler; i < n; i++) {
    auto &x = v[i];
    all += join(lines(r, x));
    order += fmt("%c%02d toc %ld %ld toe %ld %ld%s fit %ld\n", x.sys, x.prn, x.mjd, x.sod, x.toe_mjd, x.toe_sod, std::strchr("GREC", x.sys) && healthy(x) ? "" : " ill",
                 x.sys == 'G' ? fit(x) : 0L);
  }
  if (r.chance(1, 3))
    all.pop_back();
  p.write(all);
  try {
    NavigationRnx nav(p.path.c_str());
    NavDataFrame f;
    size_t at = 0;
    std::vector<std::pair<NavigationRnx::pos_type, size_t>> seen;
    long steps = filler ? r.in(4, 15) : r.in(5, 40);
    for (long k = 0; k < steps; k++) {
      if (r.chance(1, 4)) {
        nav.rewind();
        at = 0;
      } else if (!seen.empty() && r.chance(1, 4)) {
        auto &s = r.pick(seen);
        nav.rewind(s.first);
        at = s.second;
      }
      // an epoch at or around a boundary of some message
      const Rec &x = v[static_cast<size_t>(r.in(static_cast<long>(filler), static_cast<long>(n) - 1))];
      char sys = x.sys;
      if (!std::strchr("GREC", sys))
        sys = r.pickc("GREC");
      int prn = r.chance(5, 6) ? x.prn : (r.chance(1, 2) ? -1 : static_cast<int>(r.in(1, nsat + 1)));
      if (r.chance(1, 40)) // no such satellite
        prn = static_cast<int>(r.chance(1, 2) ? 0 : r.in(100, 127));
      int unit = static_cast<int>(r.in(0, 2));
      static const __int128 U[] = {1000000, 1000, 1};
      __int128 toc = us(x.mjd, x.sod), toe = std::strchr("GREC", x.sys) ? us(x.toe_mjd, x.toe_sod) : toc, F = static_cast<__int128>(std::strchr("GREC", x.sys) ? fit(x) : 900) * 1000000, e;
      switch (r.in(0, 7)) {
      case 0: e = toc; break;
      case 1: e = toc + F; break;
      case 2: e = toe - F; break;
      case 3: e = toe + F; break;
      case 4: e = toc - static_cast<__int128>(4 * 3600) * 1000000; break;
      case 5: e = us(base / 86400, base % 86400) + static_cast<__int128>(r.in(std::min(t - base, 0L) - 20000, std::max(t - base, 0L) + 20000)) * 1000000 + r.in(0, 999999); break;
      default: e = toc + static_cast<__int128>(r.in(0, static_cast<long>(F / 1000000) + 1)) * 1000000 + r.in(0, 999999);
      }
      if (r.chance(1, 2))
        e += U[unit] * r.in(-1, 1);
      e -= e % U[unit];
      std::string w = order.substr(0, 4000) + fmt("search %c%02d from record %zu at mjd %ld %.6f s (unit %d)", sys, prn, at, static_cast<long>(e / us(1, 0)),
                                    static_cast<double>(static_cast<long>(e % us(1, 0))) / 1e6, unit);
      c.desc(w);
      NavigationRnx::pos_type pos;
      if (r.chance(1, 12)) { // nothing is known about the validity of these
        char o = r.pickc("SJIM");
        int q = r.chance(1, 3) ? -1 : x.prn;
        int j = unit == 0 ? search<seconds>(nav, e, pos, f, o, q) : (unit == 1 ? search<milliseconds>(nav, e, pos, f, o, q) : search<microseconds>(nav, e, pos, f, o, q));
        VP_CHECK(c, j > 0, "system-without-validity", w + fmt(": for %c%02d status %d", o, q, j));
        c.event("unknown_validity");
        nav.rewind();
        at = 0;
      }
      int j = unit == 0 ? search<seconds>(nav, e, pos, f, sys, prn) : (unit == 1 ? search<milliseconds>(nav, e, pos, f, sys, prn) : search<microseconds>(nav, e, pos, f, sys, prn));
      seen.push_back({pos, at});
      long m = model(v, at, sys, prn, e);
      if (m < 0) {
        if (!(j < 0)) {
          c.fail(std::string("not-found-expected-") + sys, w + fmt(": status %d, got ", j) + id(f));
          return;
        }
        c.event("not_found");
        nav.rewind();
        at = 0;
      } else {
        if (j != 0 || id(f) != id(v[static_cast<size_t>(m)])) {
          c.fail(std::string("wrong-message-") + sys, w + fmt(": status %d, got ", j) + id(f) + " instead of " + id(v[static_cast<size_t>(m)]));
          return;
        }
        at = static_cast<size_t>(m) + 1;
        c.event("found");
        // reading goes on behind the message found
        if (r.chance(1, 3) && at < n) {
          NavDataFrame g;
          j = nav.read_next_record(g);
          if (j || id(g) != id(v[at])) {
            c.fail("position-after-search", w + fmt(": status %d, then ", j) + id(g) + " instead of " + id(v[at]));
            return;
          }
          at++;
        }
      }
      c.nontrivial(fmt("%zu ", at) + w.substr(w.size() - 60) + (m >= 0 ? id(v[static_cast<size_t>(m)]) : "none"));
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(order.substr(0, 600));
}
