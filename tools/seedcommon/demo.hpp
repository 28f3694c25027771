// What the demonstrations share: text files and a check.
#ifndef SEED_DEMO_HPP
#define SEED_DEMO_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
static int failures = 0;
#define CHECK(cond)                                                            \
  do {                                                                         \
    if (!(cond)) {                                                             \
      ++failures;                                                              \
      std::printf("\nDEMO line %d: not true: %s\n", __LINE__, #cond);          \
    }                                                                          \
  } while (0)
inline int finish() {
  std::printf("\nDEMO %d failure(s)\n", failures);
  return failures ? 1 : 0;
}
inline std::string fmt(const char *f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  std::vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
/// columns 1-60 and a label
inline std::string lab(std::string s, const char *label) {
  s.resize(60, ' ');
  return s + label + "\n";
}
inline void save(const char *name, const std::string &s) {
  std::ofstream(name, std::ios::binary) << s;
}
/// D19.12
inline std::string d19(double v) {
  if (v == 0)
    return " 0.000000000000D+00";
  int e = static_cast<int>(std::floor(std::log10(std::fabs(v)))) + 1;
  double m = v / std::pow(10., e);
  std::string s = fmt("%.12f", std::fabs(m));
  if (s[0] == '1') {
    s = "0.100000000000";
    ++e;
  }
  return fmt("%s%sD%+03d", v < 0 ? "-" : " ", s.c_str(), e);
}
inline std::string nav_header() {
  return lab("     3.04           N: GNSS NAV DATA    M: MIXED", "RINEX VERSION / TYPE") + lab("", "END OF HEADER");
}
/// a navigation message: epoch text "YYYY MM DD HH MM SS" and n fields
inline std::string nav_record(char sys, int prn, const char *when, const std::vector<double> &f, int n) {
  std::string s = fmt("%c%02d %s", sys, prn, when);
  for (int i = 0; i < n; i++) {
    if (i >= 3 && (i - 3) % 4 == 0)
      s += "\n    ";
    s += d19(i < (int)f.size() ? f[i] : 0.);
  }
  return s + "\n";
}
/// fields of a Keplerian message, near week/sow
inline std::vector<double> kepler(double week, double sow) {
  return {1.2e-4, -3e-12, 0, 45, 33.5, 4.5e-9, 0.7, 1.7e-6, 0.0117, 8.1e-6, 5153.7,
          sow, -9e-8, 1.1, 2.1e-7, 0.96, 220.5, -1.3, -8.1e-9, 1.5e-10, 1, week, 0,
          2, 0, -5e-9, 45, sow - 18, 4};
}
/// fields of a GLONASS message; sow is the message frame time
inline std::vector<double> glonass(double sow) {
  return {5.1e-5, 9.1e-13, sow, 7003.008789, 0.7835417, 9.3e-10, 0, -12206.626953, 2.8042530, 1.8e-9, 1, 21280.765625, 1.3525150, -1.7e-9, 0};
}
inline std::string sp3_header(int nsat = 5, const char *first = "#cP2020  1  1  0  0  0.00000000       3 ORBIT IGS14 HLM  IGS",
                              const char *second = "## 2086 259200.00000000   900.00000000 58849 0.0000000000000") {
  std::string s = std::string(first) + "\n" + second + "\n";
  s += fmt("+  %3d   ", nsat);
  for (int i = 0; i < 17; i++)
    s += i < nsat ? fmt("G%02d", i + 1) : std::string("  0");
  s += "\n";
  for (int k = 0; k < 4; k++) {
    s += "+        ";
    for (int i = 0; i < 17; i++)
      s += "  0";
    s += "\n";
  }
  for (int k = 0; k < 5; k++) {
    s += "++       ";
    for (int i = 0; i < 17; i++)
      s += "  0";
    s += "\n";
  }
  s += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"
       "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"
       "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n"
       "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n"
       "%i    0    0    0    0      0      0      0      0         0\n"
       "%i    0    0    0    0      0      0      0      0         0\n"
       "/* a comment\n";
  return s;
}
inline std::string sp3_epoch(int min) { return fmt("*  2020  1  1  0 %2d  0.00000000\n", min); }
inline std::string sp3_pos(const char *sv, double x, double y, double z, double c, const char *flags = "") {
  std::string s = fmt("P%s%14.6f%14.6f%14.6f%14.6f", sv, x, y, z, c);
  if (*flags) {
    s.resize(74, ' ');
    s += flags;
  }
  return s + "\n";
}
inline std::string obs_version() { return lab("     3.04           OBSERVATION DATA    M: MIXED", "RINEX VERSION / TYPE"); }
inline std::string obs_types(char sys, const std::vector<std::string> &t) {
  std::string s, l = fmt("%c  %3d", sys, (int)t.size());
  for (size_t i = 0; i < t.size(); i++) {
    if (i && i % 13 == 0) {
      s += lab(l, "SYS / # / OBS TYPES");
      l = "      ";
    }
    l += " " + t[i];
  }
  return s + lab(l, "SYS / # / OBS TYPES");
}
inline std::string obs_end() { return lab("  2020     1     1     0     0    0.0000000     GPS", "TIME OF FIRST OBS") + lab("", "END OF HEADER"); }
inline std::string atx_header() {
  return lab("     1.4            M", "ANTEX VERSION / SYST") + lab("A", "PCV TYPE / REFANT") + lab("", "END OF HEADER");
}
struct AtxFreq {
  const char *code;
  double n, e, u;
};
inline std::string atx_antenna(std::string type, std::string serial, const std::vector<AtxFreq> &f, const std::string &valid = "", const std::string &rms = "") {
  type.resize(20, ' ');
  std::string s = lab("", "START OF ANTENNA") + lab(type + serial, "TYPE / SERIAL NO") +
                  lab("ROBOT               Geo++ GmbH                20-JAN-20", "METH / BY / # / DATE") +
                  lab("     0.0", "DAZI") + lab("     0.0  10.0   5.0", "ZEN1 / ZEN2 / DZEN") +
                  lab(fmt("%6d", (int)f.size()), "# OF FREQUENCIES") + valid;
  for (auto &x : f) {
    s += lab(std::string("   ") + x.code, "START OF FREQUENCY") +
         lab(fmt("%10.2f%10.2f%10.2f", x.n, x.e, x.u), "NORTH / EAST / UP") +
         "   NOAZI    0.00   -0.10   -0.20\n" + lab(std::string("   ") + x.code, "END OF FREQUENCY");
    if (rms == x.code)
      s += lab(std::string("   ") + x.code, "START OF FREQ RMS") + lab(fmt("%10.2f%10.2f%10.2f", .1, .1, .1), "NORTH / EAST / UP") +
           "   NOAZI    0.00    0.10    0.20\n" + lab(std::string("   ") + x.code, "END OF FREQ RMS");
  }
  return s + lab("", "END OF ANTENNA");
}
inline std::string bern_head() {
  return "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2\n\nPART 1\n\n"
         "PART 2: ON-BOARD SENSORS\n------------------------\n"
         "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)\n"
         "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>\n\n";
}
inline std::string bern_rec(int prn, int svn, const char *from, const char *to, int ch) {
  std::string s = fmt("%3d  MW    GLONASS-M", prn);
  s.resize(28, ' ');
  s += fmt("%3d", svn);
  s.resize(41, ' ');
  s += from;
  s.resize(62, ' ');
  s += to;
  s.resize(193, ' ');
  s += fmt("%4d", ch);
  return s + "\n";
}
#endif
