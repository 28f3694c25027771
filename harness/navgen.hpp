// Generator of RINEX 3 navigation files and what is in them.
#ifndef VP_NAVGEN_HPP
#define VP_NAVGEN_HPP
#include "vp.hpp"
#include "navrnx.hpp"

namespace ng {
using vp::fmt;
struct Layout {
  int n;                  ///< fields up to and including the last mandatory one
  std::vector<int> spare; ///< positions that may be blank
};
inline const Layout &layout(char s) {
  static const Layout G{29, {}}, C{29, {20, 22}}, E{28, {22}}, I{28, {20, 22, 26}}, R{15, {}};
  switch (s) {
  case 'C': return C;
  case 'E': return E;
  case 'I': return I;
  case 'R':
  case 'S': return R;
  default: return G; // GPS, QZSS
  }
}
inline bool spare(char s, int i) {
  auto &v = layout(s).spare;
  return std::find(v.begin(), v.end(), i) != v.end();
}
struct Rec {
  char sys = 'G';
  int prn = 1;
  long mjd = 58849, sod = 0; ///< clock epoch
  std::string f[31];         ///< fields as written, 19 columns each
  double v[31]{};            ///< their values, as written
  long week = 0, sow = 0;    ///< ephemeris epoch, as generated (GREC)
  long toe_mjd = 0, toe_sod = 0;
  double scaled(int i) const {
    if (sys == 'R' && (i == 3 || i == 4 || i == 5 || i == 7 || i == 8 || i == 9 || i == 11 || i == 12 || i == 13))
      return v[i] * 1e3;
    return v[i];
  }
};
inline void set_text(Rec &r, int i, const std::string &s) {
  std::string t = s;
  for (auto &ch : t)
    if (ch == 'D' || ch == 'd')
      ch = 'e';
  r.f[i] = s;
  r.v[i] = std::strtod(t.c_str(), nullptr);
}
inline void put(Rec &r, int i, double v, char e = 'D') { set_text(r, i, vp::dfield(v, 19, 12, e)); }
/// a random number over the whole range of the format
inline std::string anynum(vp::Rng &r, char e) {
  if (r.chance(1, 20))
    return vp::dfield(0., 19, 12, e);
  int ex = static_cast<int>(r.chance(1, 3) ? r.in(-99, 99) : r.in(-15, 9));
  std::string m;
  for (int i = 0; i < 12; i++)
    m += static_cast<char>('0' + r.in(0, 9));
  std::string sg = r.chance(1, 2) ? "-" : " ";
  if (r.chance(1, 4))
    return sg + "." + m + fmt("%c%c%02d ", e, ex < 0 ? '-' : '+', std::abs(ex));
  if (r.chance(1, 6))
    return " " + sg + "." + m + fmt("%c%c%02d", e, ex < 0 ? '-' : '+', std::abs(ex));
  return sg + fmt("%ld.", r.in(1, 9)) + m + fmt("%c%c%02d", e, ex < 0 ? '-' : '+', std::abs(ex));
}
inline void set_toe(Rec &r, long mjd, long sod, char e = 'D') {
  r.toe_mjd = mjd;
  r.toe_sod = sod;
  long w = (mjd - 44244) / 7, dow = (mjd - 44244) % 7;
  r.sow = dow * 86400 + sod;
  r.week = w;
  if (r.sys == 'R') {
    put(r, 2, static_cast<double>(r.sow), e);
  } else {
    put(r, 11, static_cast<double>(r.sow), e);
    put(r, 21, static_cast<double>(r.sys == 'C' ? w - 1356 : w), e);
  }
}
/// every field random, epochs and integral fields plausible
inline Rec record(vp::Rng &r, char sys, long mjd, long sod, char e) {
  Rec x;
  x.sys = sys;
  x.prn = static_cast<int>(r.in(1, 99));
  x.mjd = mjd;
  x.sod = sod;
  for (int i = 0; i < 31; i++)
    set_text(x, i, anynum(r, e));
  int last = layout(sys).n;
  for (int i = last; i < 31; i++)
    x.f[i] = r.chance(1, 2) ? std::string(19, ' ') : vp::dfield(0., 19, 12, e);
  for (int i : layout(sys).spare)
    if (r.chance(1, 2))
      set_text(x, i, std::string(19, ' '));
    else if (r.chance(1, 2))
      put(x, i, 0., e);
  if (std::strchr("GREC", sys)) {
    if (sys == 'R')
      put(x, 6, static_cast<double>(r.in(0, 7)), e);
    else
      put(x, 24, static_cast<double>(r.in(0, 500)), e);
    if (sys == 'G') {
      put(x, 23, static_cast<double>(r.in(0, 15)), e);
      static const int F[] = {0, 4, 6, 8, 14, 26, 50, 74, 98, 122, 146};
      put(x, 28, F[r.in(0, 10)], e);
    }
    if (sys == 'E')
      put(x, 3, static_cast<double>(r.in(0, 1023)), e);
    // the ephemeris epoch close to the clock epoch, on either side of it
    long d = r.chance(1, 2) ? r.in(-7200, 7200) : (r.chance(1, 2) ? 0 : r.in(-86400, 86400));
    long t = mjd * 86400 + sod + d;
    long lo = (44244L + (sys == 'C' ? 1356 * 7 : 0)) * 86400;
    if (t < lo)
      t = lo + r.in(0, 86399);
    set_toe(x, t / 86400, t % 86400, e);
  }
  return x;
}
inline std::vector<std::string> lines(vp::Rng &r, const Rec &x, bool trim_ok = true) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(x.mjd, y, m, d);
  std::vector<std::string> o;
  o.push_back(fmt(r.chance(1, 10) && x.prn < 10 ? "%c%2d %04d %02d %02d %02ld %02ld %02ld" : "%c%02d %04d %02d %02d %02ld %02ld %02ld", x.sys, x.prn, y, m, d,
                  x.sod / 3600, x.sod / 60 % 60, x.sod % 60));
  for (int i = 0; i < 3; i++)
    o[0] += x.f[i];
  int nl = std::strchr("RS", x.sys) ? 3 : 7;
  for (int l = 0; l < nl; l++) {
    std::string s = "    ";
    for (int i = 0; i < 4; i++) {
      int k = 3 + 4 * l + i;
      s += k < 31 ? x.f[k] : std::string(19, ' ');
    }
    o.push_back(s);
  }
  if (trim_ok && r.chance(1, 2))
    for (auto &s : o)
      s.erase(s.find_last_not_of(' ') + 1);
  if (trim_ok && r.chance(1, 40)) { // blanks beyond the last column
    auto &s = o[static_cast<size_t>(r.in(0, static_cast<long>(o.size()) - 1))];
    s += std::string(static_cast<size_t>(r.chance(1, 2) ? r.in(1, 60) : r.in(1, 700)), ' ');
  }
  return o;
}
inline std::string join(const std::vector<std::string> &l) {
  std::string s;
  for (auto &x : l)
    s += x + "\n";
  return s;
}
inline std::string hl(const std::string &a, const char *lab) {
  std::string s = a;
  s.resize(60, ' ');
  return s + lab;
}
inline std::vector<std::string> header(vp::Rng &r) {
  static const char *V[] = {"     3.04", "     3.03", "     3.02", "     3.05"};
  std::vector<std::string> o;
  std::string s = V[r.in(0, 3)];
  s.resize(20, ' ');
  s += "N: GNSS NAV DATA";
  s.resize(40, ' ');
  s += std::string(1, r.pickc("MMMMGRECJSI"));
  o.push_back(hl(s, "RINEX VERSION / TYPE"));
  o.push_back(hl("JPS2RIN v.2.0.195   JAVAD GNSS          20200101 000000 UTC", "PGM / RUN BY / DATE"));
  long n = r.chance(1, 25) ? r.in(995, 1200) : r.in(0, 8);
  for (long i = 0; i < n; i++)
    switch (r.in(0, 5)) {
    case 0: o.push_back(hl("GPSA   1.1176D-08  7.4506D-09 -5.9605D-08 -5.9605D-08", "IONOSPHERIC CORR")); break;
    case 1: o.push_back(hl("GPUT -9.3132257462D-10 1.776356839D-15 405504 2086", "TIME SYSTEM CORR")); break;
    case 2: o.push_back(hl("    18    18  1929     7", "LEAP SECONDS")); break;
    case 3: o.push_back(""); break;
    case 4: o.push_back(hl("END OF HEADER is not here", "COMMENT") + (r.chance(1, 3) ? std::string(static_cast<size_t>(r.in(1, 90)), 'x') : "")); break;
    default: o.push_back(hl("a comment", "COMMENT"));
    }
  o.push_back(hl("", "END OF HEADER") + (r.chance(1, 3) ? "       " : ""));
  return o;
}
inline long anymjd(vp::Rng &r, char sys) {
  // 1980-01-06 (GPS week 0) or the start of BDT .. 2079-12-31
  long lo = sys == 'C' ? 53736 : 44245, hi = 81086;
  if (r.chance(1, 3)) { // first or last day of a week
    long w = r.in((lo - 44244) / 7 + 1, (hi - 44244) / 7 - 1);
    return 44244 + 7 * w - r.in(0, 1);
  }
  return r.in(lo, hi);
}
inline long anysod(vp::Rng &r) {
  switch (r.in(0, 4)) {
  case 0: return 0;
  case 1: return r.in(0, 95) * 900;
  case 2: return 86399 - r.in(0, 2) * 1800 / 2;
  default: return r.in(0, 86399);
  }
}
} // namespace ng
#endif
