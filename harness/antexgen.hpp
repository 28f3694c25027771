// Generator of antenna-calibration files together with what is in them.
#ifndef VP_ANTEXGEN_HPP
#define VP_ANTEXGEN_HPP
#include "vp.hpp"
#include "antex.hpp"
#include "ggdatetime/dtcalendar.hpp"
#include <iomanip>

namespace ag {
using vp::fmt;
inline std::string pad(std::string s, size_t n) {
  s.resize(n, ' ');
  return s;
}
struct Freq {
  char sys;
  int band;
  std::string neu[3]; ///< 10 columns each
  bool rms = false;
  int rows = 1; ///< grid rows
};
struct Epoch {
  long mjd;
  int sec;
};
inline std::string date_line(const Epoch &e, bool until, int style) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(e.mjd, y, m, d);
  double s = e.sec % 60 + (until && style ? 0.9999999 : 0.0);
  return fmt("%6d%6d%6d%6d%6d%13.7f", y, m, d, e.sec / 3600, (e.sec / 60) % 60, s);
}
struct Entry {
  bool sat = false;
  std::string type;           ///< up to 20 characters
  std::string serial;         ///< receiver antennas
  char sys = 'G';             ///< satellites
  int prn = 0, svn = -1;
  std::string cospar;
  bool has_from = false, has_until = false;
  Epoch from{}, until{};
  std::vector<Freq> f;
  int ncols = 19;
  std::vector<std::string> lines; ///< the whole block
};
inline std::string L(vp::Rng &r, const std::string &body, const char *label) {
  std::string s = pad(body, 60) + label;
  int how = static_cast<int>(r.in(0, 3));
  if (how == 0)
    s = pad(s, 80);
  return s;
}
inline std::string number10(vp::Rng &r) {
  double v;
  if (r.chance(1, 25)) // all ten columns
    return r.chance(1, 2) ? fmt("%10.2f", r.in(-99999999, -10000000) * 0.01) : fmt("%10.2f", r.in(100000000, 999999999) * 0.01);
  switch (r.in(0, 4)) {
  case 0: v = r.in(-99, 99) * 0.01; break;
  case 1: v = r.in(-99999, 99999) * 0.01; break;
  case 2: v = r.in(-999999, 9999999) * 0.01; break;
  case 3: v = 0.0; break;
  default: return fmt("%10.4f", r.uni(-999., 999.));
  }
  return fmt("%10.2f", v);
}
/// lay the entry out as text
inline void render(vp::Rng &r, Entry &e) {
  auto &o = e.lines;
  o.clear();
  o.push_back(L(r, "", "START OF ANTENNA"));
  if (e.sat)
    o.push_back(L(r, pad(e.type, 20) + pad(fmt("%c%02d", e.sys, e.prn), 20) +
                         pad(e.svn < 0 ? "" : fmt("%c%03d", e.sys, e.svn), 10) + pad(e.cospar, 10),
                  "TYPE / SERIAL NO"));
  else
    o.push_back(L(r, pad(e.type, 20) + pad(e.serial, 20), "TYPE / SERIAL NO"));
  o.push_back(L(r, "FIELD               TUM                      4    01-JAN-10", "METH / BY / # / DATE"));
  o.push_back(L(r, "     0.0", "DAZI"));
  o.push_back(L(r, fmt("     0.0  %4.1f   %3.1f", (e.ncols - 1) * 0.5, 0.5), "ZEN1 / ZEN2 / DZEN"));
  o.push_back(L(r, fmt("%6d", static_cast<int>(e.f.size())), "# OF FREQUENCIES"));
  auto comment = [&]() {
    static const char *C[] = {"SOME REMARK", "START OF FREQUENCY IS NOT HERE", "   G01 is a remark", "  9999  1  1  0  0  0.0",
                              "END OF ANTENNA is no label here", "", "  2030    12    31    23    59   59.0000000  VALID FROM is below",
                              "  1980     1     1     0     0    0.0000000   not VALID UNTIL", "START OF FREQ RMS, NORTH / EAST / UP", "TYPE / SERIAL NO of another",
                              "      0.10      0.20      0.30"};
    o.push_back(L(r, C[r.in(0, 10)], "COMMENT"));
  };
  while (r.chance(1, 5))
    comment();
  const bool end_first = r.chance(1, 10), code_first = r.chance(1, 10); // the optional records are told apart by their labels
  auto valid = [&](bool until) {
    if (until ? e.has_until : e.has_from)
      o.push_back(until ? L(r, date_line(e.until, true, static_cast<int>(r.in(0, 1))), "VALID UNTIL") : L(r, date_line(e.from, false, 0), "VALID FROM"));
  };
  if (code_first)
    o.push_back(L(r, "IGS14_2196", "SINEX CODE"));
  valid(end_first);
  if (r.chance(1, 6))
    comment();
  valid(!end_first);
  if (!code_first && r.chance(1, 2))
    o.push_back(L(r, "IGS14_2196", "SINEX CODE"));
  while (r.chance(1, 3))
    comment();
  if (r.chance(1, 20)) // many remarks
    for (long i = r.in(5, 40); i > 0; i--)
      comment();
  auto grid = [&](int rows) {
    for (int k = 0; k < rows; k++) {
      std::string s = k ? fmt("%8.1f", (k - 1) * 5.0) : std::string("   NOAZI");
      for (int j = 0; j < e.ncols; j++)
        s += fmt("%8.2f", r.uni(-30., 30.));
      o.push_back(s);
    }
  };
  auto rms = [&](const Freq &q) {
    std::string id = fmt("   %c%02d", q.sys, q.band);
    o.push_back(L(r, id, "START OF FREQ RMS"));
    o.push_back(L(r, fmt("%10.2f%10.2f%10.2f", r.uni(0, 9), r.uni(0, 9), r.uni(0, 9)), "NORTH / EAST / UP"));
    grid(1);
    o.push_back(L(r, id, "END OF FREQ RMS"));
  };
  bool rms_at_end = r.chance(1, 3);
  for (auto &q : e.f) {
    std::string id = fmt("   %c%02d", q.sys, q.band);
    o.push_back(L(r, id, "START OF FREQUENCY"));
    o.push_back(L(r, q.neu[0] + q.neu[1] + q.neu[2], "NORTH / EAST / UP"));
    grid(q.rows);
    o.push_back(L(r, id, "END OF FREQUENCY"));
    if (q.rms && !rms_at_end)
      rms(q);
  }
  if (rms_at_end)
    for (auto &q : e.f)
      if (q.rms)
        rms(q);
  o.push_back(L(r, "", "END OF ANTENNA"));
}
inline void freqs(vp::Rng &r, Entry &e) {
  int n = static_cast<int>(r.chance(1, 30) ? r.in(13, 45) : (r.chance(1, 4) ? r.in(1, 12) : r.in(1, 4)));
  bool rms = r.chance(1, 3);
  for (int i = 0; i < n; i++) {
    Freq q;
    q.sys = e.sat && r.chance(5, 6) ? e.sys : r.pickc("GRECJSI");
    q.band = static_cast<int>(r.in(1, 9));
    for (auto &x : q.neu)
      x = number10(r);
    q.rms = rms && r.chance(3, 4);
    q.rows = static_cast<int>(r.chance(1, 8) ? r.in(2, 75) : r.in(1, 3));
    e.f.push_back(q);
  }
  static const int NC[] = {1, 10, 18, 19, 19, 19, 41, 61, 62, 63, 64, 91, 181};
  e.ncols = NC[r.chance(1, 3) ? r.in(0, 12) : r.in(2, 5)];
}
inline std::string header(vp::Rng &r) {
  static const char *V[] = {"     1.4", "     1.3", "1.4", "   1.40"};
  std::string s = L(r, pad(V[r.chance(3, 4) ? 0 : r.in(0, 3)], 20) + r.pickc("MMMGRE"), "ANTEX VERSION / SYST") + "\n";
  s += L(r, pad("A", 20) + pad("AOAD/M_T", 20), "PCV TYPE / REFANT") + "\n";
  for (long i = r.chance(1, 10) ? r.in(0, 600) : r.in(0, 6); i > 0; i--)
    s += L(r, "remarks, END OF HEADER is not here", "COMMENT") + "\n";
  return s + L(r, "", "END OF HEADER") + "\n";
}
inline std::string join(const std::vector<std::string> &l) {
  std::string s;
  for (auto &x : l)
    s += x + "\n";
  return s;
}
inline std::string text(const std::string &head, const std::vector<Entry> &v) {
  std::string s = head;
  for (auto &e : v)
    s += join(e.lines);
  return s;
}
#ifdef DEBUG
/// what the library reports for an offset: system, band and the three numbers
struct Got {
  char sys = 0;
  int band = -1;
  double v[3] = {0, 0, 0};
  std::string raw;
};
inline std::vector<Got> report(ngpt::AntennaPcoList &l) {
  std::vector<Got> o;
  for (auto &p : l.__vecref__()) {
    std::ostringstream ss;
    ss << std::setprecision(17);
    p.dummy_print(ss);
    Got g;
    g.raw = ss.str();
    char t = 0, a = 0;
    std::sscanf(g.raw.c_str(), "%c[%c%d%c] %lf, %lf, %lf", &g.sys, &t, &g.band, &a, &g.v[0], &g.v[1], &g.v[2]);
    o.push_back(g);
  }
  return o;
}
inline std::string show(const std::vector<Got> &g) {
  std::string s;
  for (auto &x : g)
    s += x.raw + "; ";
  return s;
}
inline std::string show(const std::vector<Freq> &f) {
  std::string s;
  for (auto &q : f)
    s += fmt("%c%02d %s%s%s; ", q.sys, q.band, q.neu[0].c_str(), q.neu[1].c_str(), q.neu[2].c_str());
  return s;
}
inline bool equal(const Got &g, const Freq &q) {
  if (g.sys != q.sys || g.band != q.band)
    return false;
  for (int i = 0; i < 3; i++)
    if (g.v[i] != std::strtod(q.neu[i].c_str(), nullptr))
      return false;
  return true;
}
inline bool equal(const std::vector<Got> &g, const std::vector<Freq> &f) {
  if (g.size() != f.size())
    return false;
  for (size_t i = 0; i < g.size(); i++)
    if (!equal(g[i], f[i]))
      return false;
  return true;
}
#endif
/// receiver antennas whose names are easily confused
inline std::string model(vp::Rng &r) {
  static const char *M[] = {"TRM41249.00", "TRM41249", "TRM41249.0", "LEIAR25", "LEIAR25.R3", "LEIAR25.R4", "ASH701945E_M", "AOAD/M_T", "JAV_RINGANT_G3T",
                            "JAVRINGANT_DM", "ABCDEFGHIJKLMNOP"};
  static const char *D[] = {"NONE", "NONE", "TZGD", "LEIT", "SCIT", "SCIS", "    "};
  return pad(M[r.in(0, 10)], 16) + D[r.in(0, 6)];
}
inline std::string serial(vp::Rng &r) {
  static const char *S[] = {"1", "12", "123", "12379133", "12379134", "0123", "G01", "R07", "CR15930", "A B", "12345678901234567890", "1234567890123456789"};
  return S[r.in(0, 11)];
}
inline Entry receiver(vp::Rng &r) {
  Entry e;
  e.type = model(r);
  if (r.chance(1, 2))
    e.serial = serial(r);
  freqs(r, e);
  render(r, e);
  return e;
}
inline Epoch epoch(vp::Rng &r, long lo = 48000, long hi = 59000) {
  static const int S[] = {0, 0, 1, 43200, 86399, 86340, 3599};
  if (lo == 48000 && hi == 59000 && r.chance(1, 6)) // 1980-2070
    lo = 44240, hi = 77000;
  return {r.in(lo, hi), r.chance(1, 3) ? static_cast<int>(r.in(0, 86399)) : S[r.in(0, 6)]};
}
inline long secs(const Epoch &e) { return e.mjd * 86400L + e.sec; }
inline Entry satellite(vp::Rng &r) {
  static const char *T[] = {"BLOCK IIA", "BLOCK IIR-M", "GLONASS-M", "GALILEO-1", "BEIDOU-2M", "QZSS", "ABCDEFGHIJKLMNOPQRST"};
  Entry e;
  e.sat = true;
  e.type = T[r.in(0, 6)];
  e.sys = r.pickc("GGGRECJS");
  e.prn = static_cast<int>(r.chance(1, 2) ? r.in(1, 4) : r.in(1, r.chance(1, 4) ? 99 : 36));
  if (r.chance(2, 3))
    e.svn = static_cast<int>(r.in(1, 900));
  if (r.chance(2, 3))
    e.cospar = fmt("%04ld-%03ld%c", r.in(1978, 2020), r.in(1, 99), static_cast<char>('A' + r.in(0, 3)));
  e.has_from = true;
  e.from = epoch(r);
  if (r.chance(2, 3)) {
    e.has_until = true;
    e.until = epoch(r, e.from.mjd, e.from.mjd + (r.chance(1, 3) ? 2 : 4000));
    if (secs(e.until) < secs(e.from))
      e.until = e.from;
  }
  freqs(r, e);
  render(r, e);
  return e;
}
} // namespace ag
#endif
