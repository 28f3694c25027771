// Generator of precise-orbit files (SP3-c/d) and what is in them.
#ifndef VP_SP3GEN_HPP
#define VP_SP3GEN_HPP
#include "vp.hpp"
#include "sp3c.hpp"

namespace sg {
using vp::fmt;
struct Sat {
  char sys;
  int prn;
  std::string f[4]; ///< 14 columns each
  bool ev, cp, mv, op;
};
struct Epoch {
  long mjd;
  long us; ///< of the day
  std::vector<Sat> s;
};
struct File {
  char version = 'c';
  bool vel = false;
  Epoch start{};
  long nep = 1, interval = 900000000L;
  std::string crd = "IGS14", orb = "HLM", agency = " IGS", tsys = "GPS";
  int nsat = 1;
  std::vector<std::pair<char, int>> sats;
  std::vector<std::string> head;
  std::vector<Epoch> ep;
};
struct Cal {
  int y, m, d, h, mi;
  double s;
};
inline Cal cal(const Epoch &e) {
  Cal c;
  ngpt::vp_shim::mjd2civil(e.mjd, c.y, c.m, c.d);
  long s = e.us / 1000000L;
  c.h = static_cast<int>(s / 3600);
  c.mi = static_cast<int>(s / 60 % 60);
  c.s = static_cast<double>(e.us % 60000000L) / 1e6;
  return c;
}
inline std::string line1(const File &f) {
  Cal c = cal(f.start);
  return fmt("#%c%c%4d %2d %2d %2d %2d %11.8f %7ld %5s %5s %3s %4s", f.version, f.vel ? 'V' : 'P', c.y, c.m, c.d, c.h, c.mi, c.s, f.nep, "ORBIT", f.crd.c_str(),
             f.orb.c_str(), f.agency.c_str());
}
inline std::string line2(const File &f) {
  long w = (f.start.mjd - 44244) / 7;
  double sow = static_cast<double>((f.start.mjd - 44244 - w * 7) * 86400000000L + f.start.us) / 1e6;
  // the decimals are rounded from the exact fraction
  return fmt("## %4ld %15.8f %14.8f %5ld %15.13f", w, sow, static_cast<double>(f.interval) / 1e6, f.start.mjd, static_cast<double>(f.start.us) / 86400e6);
}
inline void header(vp::Rng &r, File &f) {
  auto &h = f.head;
  h.clear();
  h.push_back(line1(f));
  h.push_back(line2(f));
  int need = (f.nsat + 16) / 17;
  int rows = std::max(need, r.chance(1, 3) ? static_cast<int>(r.in(1, 12)) : 5);
  size_t k = 0;
  for (int i = 0; i < rows; i++) {
    std::string s = i ? "+        " : fmt("+  %3d   ", f.nsat);
    for (int j = 0; j < 17; j++, k++)
      s += k < f.sats.size() ? fmt("%c%02d", f.sats[k].first, f.sats[k].second) : std::string("  0");
    h.push_back(s);
  }
  int arows = r.chance(1, 3) ? static_cast<int>(r.in(1, 12)) : rows;
  for (int i = 0; i < arows; i++) {
    std::string s = "++       ";
    for (int j = 0; j < 17; j++)
      s += fmt("%3ld", r.in(0, 9));
    h.push_back(s);
  }
  h.push_back(fmt("%%c M  cc %3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", f.tsys.c_str()));
  h.push_back("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  h.push_back("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000");
  h.push_back("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  h.push_back("%i    0    0    0    0      0      0      0      0         0");
  h.push_back("%i    0    0    0    0      0      0      0      0         0");
  long nc = r.chance(1, 15) ? r.in(900, 1300) : r.in(0, 8);
  for (long i = 0; i < nc; i++)
    h.push_back(r.chance(1, 3) ? "/*" : "/* PCV:IGS14_2100 OL/AL:FES2004  NONE     YN CLK:CoN ORB:CoN %c * EOF");
}
inline void basics(vp::Rng &r, File &f) {
  f.version = r.pickc("cd");
  f.vel = r.chance(1, 4);
  f.start.mjd = r.chance(1, 4) ? r.in(44252, 81000) : r.in(48000, 60000); // 1980-2080
  switch (r.in(0, 5)) {
  case 0: f.start.us = 0; break;
  case 1: f.start.us = r.in(0, 95) * 900000000L; break;
  case 2: f.start.us = r.in(0, 86399) * 1000000L; break;
  case 3: f.start.us = r.in(0, 8639999) * 10000L; break;
  case 4: f.start.us = 86399999999L - r.in(0, 3); break;
  default: f.start.us = r.in(0, 86399999999L);
  }
  f.nep = r.chance(1, 2) ? r.in(1, 400) : r.in(1, 9999999);
  static const long I[] = {900000000L, 300000000L, 30000000L, 5000000L, 1000000L, 290000L, 570000L, 1L, 3600000000L};
  f.interval = r.chance(1, 3) ? r.in(1, 86400000000L) : I[r.in(0, 8)];
  static const char *C[] = {"IGS14", "ITR97", "WGS84", "IGb08", "  UND", "SLR08"}, *O[] = {"FIT", "HLM", "EXT", "BCT", "BHN"},
                    *A[] = {" IGS", "ESOC", " CODE", "GFZ ", "AIUB", "COD "}, *T[] = {"GPS", "GLO", "GAL", "UTC", "TAI", "BDT"};
  f.crd = C[r.in(0, 5)];
  f.orb = O[r.in(0, 4)];
  f.agency = std::string(A[r.in(0, 5)]).substr(0, 4);
  f.tsys = T[r.in(0, 5)];
  f.nsat = static_cast<int>(r.chance(1, 5) ? r.in(1, 85) : r.in(1, 12));
  if (f.version == 'd' && r.chance(1, 10))
    f.nsat = static_cast<int>(r.in(86, 999));
  for (int i = 0; i < f.nsat; i++)
    f.sats.push_back({r.pickc("GRECJIS"), static_cast<int>(r.in(1, 99))});
  f.start.s.clear();
  header(r, f);
}
inline std::string join(const std::vector<std::string> &l) {
  std::string s;
  for (auto &x : l)
    s += x + "\n";
  return s;
}
inline Sat record(vp::Rng &r, const std::pair<char, int> &id) {
  Sat s;
  s.sys = id.first;
  s.prn = id.second;
  for (int i = 0; i < 3; i++)
    s.f[i] = fmt("%14.6f", r.chance(1, 12) ? (r.chance(1, 2) ? 0.0 : 1e-6 * r.in(-2, 2)) : r.uni(-45000, 45000));
  if (r.chance(1, 20)) // all 14 columns
    s.f[r.in(0, 2)] = fmt("%14.6f", r.chance(1, 2) ? r.uni(1e6, 9.99e6) : r.uni(-999999, -100000));
  static const double CK[] = {999999.999999, 999999.0, 999998.999999, 1000000.0, -999999.999999, 0.0};
  s.f[3] = fmt("%14.6f", r.chance(1, 4) ? CK[r.in(0, 5)] : r.uni(-900, 900));
  int p = r.chance(1, 2) ? 0 : static_cast<int>(r.in(0, 15));
  s.ev = p & 1;
  s.cp = p & 2;
  s.mv = p & 4;
  s.op = p & 8;
  return s;
}
inline std::string line(vp::Rng &r, const Sat &s) {
  std::string o = fmt("P%c%02d", s.sys, s.prn) + s.f[0] + s.f[1] + s.f[2] + s.f[3];
  if (r.chance(1, 2))
    o += fmt(" %2ld %2ld %2ld %3ld", r.in(0, 99), r.in(0, 99), r.in(0, 99), r.in(0, 999));
  std::string fl = fmt("%c%c  %c%c", s.ev ? 'E' : ' ', s.cp ? 'P' : ' ', s.mv ? 'M' : ' ', s.op ? 'P' : ' ');
  if (r.chance(1, 30)) // a letter of another flag means nothing here
    fl = fmt("%c%c  %c%c", s.ev ? 'E' : r.pickc(" PM"), s.cp ? 'P' : r.pickc(" EM"), s.mv ? 'M' : r.pickc(" EP"), s.op ? 'P' : r.pickc(" EM"));
  o.resize(74, ' ');
  o += fl;
  if (r.chance(1, 2)) {
    o.erase(o.find_last_not_of(' ') + 1);
  }
  if (r.chance(1, 60)) // blanks beyond the last column
    o += std::string(static_cast<size_t>(r.chance(1, 2) ? r.in(1, 60) : r.in(1, 700)), ' ');
  return o;
}
inline std::string line(const Epoch &e) {
  Cal c = cal(e);
  return fmt("*  %4d %2d %2d %2d %2d %11.8f", c.y, c.m, c.d, c.h, c.mi, c.s);
}
inline void epochs(vp::Rng &r, File &f, int n) {
  Epoch e = f.start;
  for (int k = 0; k < n; k++) {
    e.s.clear();
    auto ids = f.sats;
    if (r.chance(1, 3))
      r.shuffle(ids);
    size_t m = r.chance(1, 3) ? static_cast<size_t>(r.in(0, f.nsat)) : static_cast<size_t>(f.nsat);
    for (size_t i = 0; i < m; i++)
      e.s.push_back(record(r, ids[i]));
    f.ep.push_back(e);
    e.us += r.chance(1, 8) ? r.in(1, 172800000000L) : f.interval;
    e.mjd += e.us / 86400000000L;
    e.us %= 86400000000L;
  }
}
/// one epoch as text lines
inline std::vector<std::string> lines(vp::Rng &r, const File &f, const Epoch &e) {
  std::vector<std::string> o{line(e)};
  bool ep = r.chance(1, 4), ev = r.chance(1, 4);
  for (auto &s : e.s) {
    o.push_back(line(r, s));
    if (ep)
      o.push_back("EP  55  55  55     222 1234567 -1234567  5999999      -30       21 -1230000EP  MP");
    if (f.vel) {
      std::string v = fmt("V%c%02d%14.6f%14.6f%14.6f%14.6f", s.sys, s.prn, r.uni(-4e4, 4e4), r.uni(-4e4, 4e4), r.chance(1, 3) ? 0. : r.uni(-4e4, 4e4), 999999.999999);
      v.resize(74, ' ');
      o.push_back(r.chance(1, 2) ? v + "EP  MP" : v);
    }
    if (ev)
      o.push_back("EV  22  22  22     111 1234567  1234567  1234567  1234567  1234567  1234567EP  MP");
  }
  return o;
}
} // namespace sg
#endif
