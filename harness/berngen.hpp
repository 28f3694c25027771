// Generator of Bernese satellite-information files and what is in them.
#ifndef VP_BERNGEN_HPP
#define VP_BERNGEN_HPP
#include "vp.hpp"
#include "bern_utils.hpp"
#include "ggdatetime/dtcalendar.hpp"

namespace bg {
using vp::fmt;
static const char *const TITLE = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
static const char *const PART2 = "PART 2: ON-BOARD SENSORS";
static const char *const H1 = "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
static const char *const H2 = "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>";

struct Rec {
  int prn, svn, chan;
  bool mw;
  long from, until; ///< seconds since MJD 0; until < 0: forever
  std::string line;
};
inline std::string when(long t) {
  int y, m, d;
  ngpt::vp_shim::mjd2civil(t / 86400, y, m, d);
  int s = static_cast<int>(t % 86400);
  return fmt("%04d %02d %02d %02d %02d %02d", y, m, d, s / 3600, (s / 60) % 60, s % 60);
}
inline void put(std::string &s, size_t pos, const std::string &t) {
  if (s.size() < pos + t.size())
    s.resize(pos + t.size(), ' ');
  s.replace(pos, t.size(), t);
}
inline void render(vp::Rng &r, Rec &e) {
  static const char *T[] = {"GLONASS", "GLONASS-M", "GLONASS-K1", "BLOCK IIA"};
  std::string s;
  put(s, 0, fmt("%3d", e.prn));
  if (e.mw)
    put(s, 5, "MW");
  else
    put(s, 5, std::vector<std::string>{"SLR", "ACC", "MSI", "SW"}[static_cast<size_t>(r.in(0, 3))]);
  put(s, 11, r.chance(1, 6) ? "GLONASS-K1-L3OC-1" : T[r.in(0, 3)]); // up to 17 characters
  if (e.mw || r.chance(1, 3))
    put(s, 28, r.chance(1, 2) ? fmt("%03d", e.svn) : fmt("%3d", e.svn));
  put(s, 33, fmt("%07ld", r.in(1, 9999999)));
  put(s, 41, when(e.from));
  if (e.until >= 0)
    put(s, 62, when(e.until));
  put(s, 83, fmt("%10.4f%10.4f%10.4f", r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)));
  put(s, 171, r.chance(1, 6) ? "GLONASS-K1-L3OC-1-20" : "GLONASS-M");
  put(s, 193, fmt("%4d", e.chan));
  static const char *SL[] = {"", "L1C L1P L2P", "L1C L1P L2C L2P C1C C1P C2C C2P L3I L3Q L3X C3I C3Q C3X S1C S1P S2C S2P"};
  put(s, 199, SL[r.in(0, 2)]);
  if (r.chance(1, 6))
    s.resize(197); // nothing after the channel
  else if (r.chance(1, 12)) // a long signal list
    for (long i = r.in(8, 200); i > 0; i--)
      s += " L1C";
  if (!e.mw && r.chance(1, 4)) // other sensors' records may be short
    s.resize(static_cast<size_t>(r.in(20, 190)));
  e.line = s;
}
inline std::string part1(vp::Rng &r) {
  std::string s = TITLE;
  if (r.chance(1, 2))
    s += "                          17-JAN-20";
  s += "\n-------------------------------------------\n\nPART 1: PHYSICAL SATELLITE PARAMETERS\n-------------------------------------\n\n";
  long n = r.chance(1, 12) ? r.in(900, 1500) : r.in(0, 20);
  for (long i = 0; i < n; i++)
    s += fmt("%3ld    1   GLONASS-M           714  0505000  2005 12 25 00 00 00                       1415.0   1.2 PART 2: remark MW\n", 100 + i % 24);
  return s + "\n";
}
inline std::string heads() { return std::string(PART2) + "\n------------------------\n" + H1 + "\n" + H2 + "\n\n"; }
inline std::string tail(vp::Rng &r, const std::vector<Rec> &v) {
  switch (r.in(0, 2)) {
  case 0:
    return "";
  case 1:
    return std::string(r.chance(1, 2) ? "\n" : "") + "PART 3: SATELLITE PROBLEMS\n----------\n\n" + v[0].line + "\n";
  default: {
    // lines beyond the end of the records
    std::string s = "\n";
    for (auto e : v) {
      e.chan = 13;
      put(e.line, 193, "  13");
      s += e.line + "\n";
    }
    return s;
  }
  }
}
inline std::vector<Rec> records(vp::Rng &r) {
  std::vector<Rec> v;
  long n = r.chance(1, 12) ? r.in(900, 1400) : r.in(1, 25);
  int base = static_cast<int>(r.in(700, 720));
  for (long i = 0; i < n; i++) {
    Rec e;
    e.prn = static_cast<int>(r.in(1, 124));
    e.svn = base + static_cast<int>(r.chance(2, 3) ? r.in(0, 4) : r.in(0, 150));
    if (r.chance(1, 8))
      e.svn = static_cast<int>(r.in(1, 75));
    e.chan = static_cast<int>(r.in(-7, 13));
    e.mw = r.chance(4, 5);
    e.from = (r.chance(1, 6) ? r.in(44240, 77000) : r.in(48000, 59000)) * 86400L + (r.chance(1, 2) ? 0 : r.in(0, 86399));
    e.until = r.chance(1, 3) ? -1 : e.from + (r.chance(1, 4) ? r.in(0, 100) : r.in(0, 2000) * 86400L);
    if (i && r.chance(1, 3) && v.back().until >= 0) {
      e.svn = v.back().svn;
      e.from = v.back().until;
      if (e.until >= 0 && e.until < e.from)
        e.until = -1;
    }
    render(r, e);
    v.push_back(e);
  }
  return v;
}
} // namespace bg
#endif
