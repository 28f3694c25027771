// Generator of RINEX 3 observation files and what is in them.
#ifndef VP_OBSGEN_HPP
#define VP_OBSGEN_HPP
#include "vp.hpp"
#include "obsrnx.hpp"

namespace og {
using vp::fmt;
struct Hdr {
  std::string name, number, rec, rectype, ant, antsn;
  double pos[3]{};
  std::string posf[3], ecc[3];
  int clk = -1; ///< -1: no such line
  long mjd = 0, us = 0;
  std::vector<std::pair<char, std::vector<std::string>>> types; ///< in file order
  const std::vector<std::string> *of(char s) const {
    for (auto &t : types)
      if (t.first == s)
        return &t.second;
    return nullptr;
  }
  std::vector<std::vector<std::string>> groups; ///< header records between the first and the last line
};
struct Sat {
  char sys;
  int prn;
  std::vector<std::string> f; ///< 16 columns each; blank value: 14 blanks
};
struct Epoch {
  long mjd;
  long t7; ///< of the day, in 1e-7 s
  int flag = 0;
  std::vector<Sat> s;
};
inline std::string hl(const std::string &a, const char *lab) {
  std::string s = a;
  s.resize(60, ' ');
  return s + lab;
}
inline std::string word(vp::Rng &r, int lo, int hi, bool inner_blanks) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./+_#";
  std::string s;
  long n = r.in(lo, hi);
  for (long i = 0; i < n; i++)
    s += inner_blanks && i && i + 1 < n && r.chance(1, 6) ? ' ' : r.pickc(A);
  return s;
}
inline std::vector<std::string> codes(vp::Rng &r, int n) {
  std::vector<std::string> all, o;
  for (char t : {'C', 'L', 'D', 'S'})
    for (char b = '1'; b <= '9'; b++)
      for (char a : {'C', 'W', 'P', 'L', 'Q', 'X', 'I'})
        all.push_back({t, b, a});
  r.shuffle(all);
  o.assign(all.begin(), all.begin() + n);
  return o;
}
/// the record announcing the observation types of a system
inline std::vector<std::string> typelines(char sys, const std::vector<std::string> &t) {
  std::vector<std::string> o;
  size_t k = 0;
  do {
    std::string s = k ? "      " : fmt("%c  %3zu", sys, t.size());
    for (int i = 0; i < 13 && k < t.size(); i++, k++)
      s += " " + t[k];
    o.push_back(hl(s, "SYS / # / OBS TYPES"));
  } while (k < t.size());
  return o;
}
inline std::string first_obs(long mjd, long us) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(mjd, y, m, d);
  long s = us / 1000000;
  return hl(fmt("%6d%6d%6d%6ld%6ld%5ld.%06ld0     GPS", y, m, d, s / 3600, s / 60 % 60, s % 60, us % 1000000), "TIME OF FIRST OBS");
}
inline int typecount(vp::Rng &r, int max) {
  static const int N[] = {1, 2, 3, 12, 13, 14, 25, 26, 27, 39, 52, 60};
  int n = r.chance(1, 2) ? N[r.in(0, 11)] : static_cast<int>(r.in(1, max));
  return std::min(n, max);
}
inline void header(vp::Rng &r, Hdr &h, int maxtypes = 60, bool many_lines = true) {
  h.name = word(r, 1, r.chance(1, 10) ? 60 : 12, true);
  h.number = word(r, 1, r.chance(1, 6) ? 20 : 9, true);
  h.rec = word(r, 1, r.chance(1, 6) ? 20 : 8, true);
  h.rectype = r.chance(1, 2) ? "TRIMBLE NETR9" : word(r, 1, 20, true);
  static const char *ANT[] = {"TRM59800.00     SCIS", "LEIAR25.R3      LEIT", "ASH701945C_M    NONE", "JAVRINGANT_DM       ", "AOAD/M_T            "};
  h.ant = ANT[r.in(0, 4)];
  h.antsn = r.chance(1, 4) ? "" : word(r, 1, 20, false);
  if (!h.antsn.empty() && r.chance(1, 4)) // not at the left edge of its columns
    h.antsn.insert(0, static_cast<size_t>(r.in(0, 20 - static_cast<long>(h.antsn.size()))), ' ');
  for (int i = 0; i < 3; i++) {
    h.posf[i] = fmt("%14.4f", r.chance(1, 10) ? 0. : r.uni(-6.4e6, 6.4e6));
    if (r.chance(1, 12))
      h.posf[i] = fmt("%14.4f", -r.uni(1e7, 9.9e7)); // full width
    h.pos[i] = std::strtod(h.posf[i].c_str(), nullptr);
    h.ecc[i] = fmt("%14.4f", r.chance(1, 3) ? 0. : 1e-4 * static_cast<double>(r.in(-99999, 99999)));
  }
  h.clk = static_cast<int>(r.in(-1, 1));
  h.mjd = r.chance(1, 4) ? r.in(44240, 87000) : r.in(47000, 62000); // 1980-2097
  h.us = r.chance(1, 2) ? r.in(0, 2879) * 30000000L : r.in(0, 86399999999L);
  std::string sys = "GRECJSI";
  std::vector<char> ss(sys.begin(), sys.end());
  r.shuffle(ss);
  size_t n = static_cast<size_t>(r.in(1, 7));
  for (size_t i = 0; i < n; i++)
    h.types.push_back({ss[i], codes(r, typecount(r, maxtypes))});
  auto &g = h.groups;
  g.push_back({hl(h.name, "MARKER NAME")});
  g.push_back({hl(h.number, "MARKER NUMBER")});
  g.push_back({hl(fmt("%-20s%-20s%-20s", h.rec.c_str(), h.rectype.c_str(), r.chance(1, 2) ? "4.85" : ""), "REC # / TYPE / VERS")});
  g.push_back({hl(fmt("%-20s%-20s", h.antsn.c_str(), h.ant.c_str()), "ANT # / TYPE")});
  g.push_back({hl(h.posf[0] + h.posf[1] + h.posf[2], "APPROX POSITION XYZ")});
  g.push_back({hl(h.ecc[0] + h.ecc[1] + h.ecc[2], "ANTENNA: DELTA H/E/N")});
  if (h.clk >= 0)
    g.push_back({hl(!h.clk && r.chance(1, 4) ? "" : fmt("%6d", h.clk), "RCV CLOCK OFFS APPL")}); // blank: no
  g.push_back({first_obs(h.mjd, h.us)});
  for (auto &t : h.types)
    g.push_back(typelines(t.first, t.second));
  long extra = many_lines && r.chance(1, 25) ? r.in(950, 1300) : r.in(0, 12);
  for (long i = 0; i < extra; i++)
    switch (r.in(0, 9)) {
    case 0: g.push_back({hl("    30.000", "INTERVAL")}); break;
    case 1: g.push_back({hl("DBHZ", "SIGNAL STRENGTH UNIT")}); break;
    case 2: g.push_back({hl("G L1C  0.00000", "SYS / PHASE SHIFT")}); break;
    case 3: g.push_back({hl("  2 R01  1 R02 -4", "GLONASS SLOT / FRQ #")}); break;
    case 4: g.push_back({hl("    18    18  1929     7", "LEAP SECONDS")}); break;
    case 5: g.push_back({""}); break;
    case 6: g.push_back({hl(r.pick(std::vector<std::string>{"END OF HEADER  MARKER NAME", "MARKER NUMBER  REC # / TYPE / VERS", "ANT # / TYPE  APPROX POSITION XYZ", "G    2 C1C L1C  SYS / # / OBS TYPES",
                                       "  1999     1     1  TIME OF FIRST OBS", "     2  RCV CLOCK OFFS APPL", "  1.0  2.0  3.0  ANTENNA: DELTA H/E/N"}), "COMMENT") + (r.chance(1, 3) ? std::string(static_cast<size_t>(r.in(1, 90)), 'y') : "")}); break;
    case 7: g.push_back({hl("automatic            NTUA", "OBSERVER / AGENCY")}); break;
    case 8: g.push_back({hl("GEODETIC", "MARKER TYPE")}); break;
    default: g.push_back({hl("a comment", "COMMENT")});
    }
  r.shuffle(g);
}
inline std::string version_line(vp::Rng &r) {
  static const char *V[] = {"     3.04", "     3.03", "     3.02", "     3.05"};
  std::string s = V[r.in(0, 3)];
  s.resize(20, ' ');
  s += "OBSERVATION DATA";
  s.resize(40, ' ');
  s += r.pickc("MMMGRECJSI");
  return hl(s, "RINEX VERSION / TYPE");
}
inline std::string text(const std::string &first, const std::vector<std::vector<std::string>> &g, const std::string &last) {
  std::string s = first + "\n";
  for (auto &x : g)
    for (auto &l : x)
      s += l + "\n";
  return s + last;
}
inline std::string text(vp::Rng &r, const Hdr &h) {
  return text(version_line(r), h.groups, hl("", "END OF HEADER") + (r.chance(1, 4) ? "   " : "") + "\n");
}
inline std::string field(vp::Rng &r, bool present) {
  if (!present) { // a loss of lock or a strength may be told without a value
    std::string s(16, ' ');
    if (r.chance(1, 8))
      s[14] = static_cast<char>('0' + r.in(0, 9));
    if (r.chance(1, 8))
      s[15] = static_cast<char>('0' + r.in(0, 9));
    return s;
  }
  double v;
  switch (r.in(0, 8)) {
  case 0: v = r.uni(-5000, 5000); break;
  case 1: v = r.uni(1e8, 1.4e8); break;
  case 2: v = r.uni(10, 60); break;
  case 3: v = 0; break;
  case 4: v = r.chance(1, 4) ? -999.99 : (r.chance(1, 2) ? 9999999999.999 : -999999999.999); break;
  case 5: v = -r.uni(0, .9); break;
  default: v = r.uni(1.9e7, 4.2e7);
  }
  std::string s = fmt("%14.3f", v);
  s += r.chance(1, 2) ? ' ' : static_cast<char>('0' + r.in(0, 9));
  s += r.chance(1, 3) ? ' ' : static_cast<char>('0' + r.in(0, 9));
  return s;
}
inline std::vector<std::string> lines(vp::Rng &r, const Epoch &e) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(e.mjd, y, m, d);
  long s = e.t7 / 10000000L;
  std::string l = fmt(r.chance(1, 8) ? "> %4d %2d %2d %2ld %2ld%3ld.%07ld  %d%3zu" : "> %04d %02d %02d %02ld %02ld%3ld.%07ld  %d%3zu", y, m, d, s / 3600, s / 60 % 60, s % 60, e.t7 % 10000000L, e.flag, e.s.size());
  if (r.chance(1, 3))
    l += fmt("      %15.12f", r.uni(-.5, .5));
  else if (r.chance(1, 3))
    l += std::string(static_cast<size_t>(r.in(1, 21)), ' ');
  std::vector<std::string> o{l};
  int trim = static_cast<int>(r.in(0, 2));
  for (auto &x : e.s) {
    std::string t = fmt(r.chance(1, 10) ? "%c%2d" : "%c%02d", x.sys, x.prn);
    for (auto &f : x.f)
      t += f;
    if (trim == 1 || (trim == 2 && r.chance(1, 2)))
      t.erase(t.find_last_not_of(' ') + 1);
    else if (r.chance(1, 12))
      t += std::string(static_cast<size_t>(r.chance(1, 8) ? r.in(1, 2000) : r.in(1, 30)), ' ');
    o.push_back(t);
  }
  return o;
}
inline std::vector<std::string> event(vp::Rng &r, long mjd, long t7) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(mjd, y, m, d);
  long s = t7 / 10000000L;
  int flag = static_cast<int>(r.in(2, 6));
  long n = r.chance(1, 12) ? r.in(5, 300) : r.in(0, 4);
  std::vector<std::string> o;
  if (r.chance(1, 2))
    o.push_back(fmt(">                              %d%3ld", flag, n));
  else
    o.push_back(fmt("> %04d %02d %02d %02ld %02ld%3ld.%07ld  %d%3ld", y, m, d, s / 3600, s / 60 % 60, s % 60, t7 % 10000000L, flag, n));
  for (long i = 0; i < n; i++)
    if (flag == 6) { // cycle slips, written like observations
      std::string t = fmt("%c%02ld", r.pickc("GRECJSI"), r.in(1, 36));
      for (long k = r.in(0, 6); k > 0; k--)
        t += fmt("%14.3f  ", r.uni(-100, 4e7));
      o.push_back(t);
    } else {
      o.push_back(r.chance(1, 2) ? hl("A 9080", "MARKER NAME") : hl("> 2020 G01 a comment", "COMMENT"));
    }
  return o;
}
/// none, one or several events in a row
inline std::vector<std::string> events(vp::Rng &r, long mjd, long t7, long one_in = 8) {
  std::vector<std::string> o;
  if (r.chance(1, one_in))
    for (long k = r.chance(1, 3) ? r.in(2, 6) : 1; k > 0; k--)
      for (auto &l : event(r, mjd, t7))
        o.push_back(l);
  return o;
}
inline std::vector<Epoch> epochs(vp::Rng &r, const Hdr &h, long n, int maxsat, int blanks) {
  std::vector<Epoch> v;
  long mjd = h.mjd, t7 = h.us * 10;
  for (long k = 0; k < n; k++) {
    Epoch e;
    e.mjd = mjd;
    e.t7 = t7;
    e.flag = r.chance(1, 10);
    std::set<std::pair<char, int>> used;
    long ns = r.chance(1, 10) ? 0 : r.in(1, maxsat);
    for (long i = 0; i < ns; i++) {
      auto &t = h.types[static_cast<size_t>(r.in(0, static_cast<long>(h.types.size()) - 1))];
      Sat s{t.first, static_cast<int>(r.in(1, r.chance(1, 10) ? 99 : 36)), {}};
      if (!used.insert({s.sys, s.prn}).second)
        continue;
      for (size_t q = 0; q < t.second.size(); q++)
        s.f.push_back(field(r, !r.chance(blanks, 10)));
      e.s.push_back(s);
    }
    v.push_back(e);
    t7 += r.chance(1, 4) ? r.in(1, 864000000000L) : (r.chance(1, 2) ? 300000000L : 10000000L);
    mjd += t7 / 864000000000L;
    t7 %= 864000000000L;
  }
  return v;
}
} // namespace og
#endif
