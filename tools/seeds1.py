SEEDS = {}
def S(i, prop, edits, needs, breaks, demo, **k):
    SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

S("satsys-blank-is-gps", "C01",
  [("satsys.cpp", "  case ngpt::satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier:\n    return SATELLITE_SYSTEM::gps;\n", "  case ngpt::satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier: case ' ':\n    return SATELLITE_SYSTEM::gps;\n")],
  "a blank where the letter of a system should be", "a blank is resolved to GPS instead of being rejected",
  r'''
#include "satsys.hpp"
int main() {
  bool rejected = false;
  try { ngpt::char_to_satsys(' '); } catch (std::exception &) { rejected = true; }
  CHECK(rejected);
  CHECK(ngpt::char_to_satsys('G') == ngpt::SATELLITE_SYSTEM::gps);
  return finish();
}''')

S("freq-irnss-s-band", "C02", [("satsys.cpp", "{9, 2492.028e0}", "{9, 2492.082e0}")],
  "an IRNSS S-band observable", "the IRNSS S-band frequency is 54 kHz off (transposed digits)",
  r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  GnssObservable o(SATELLITE_SYSTEM::irnss, ObservationCode("L9A"));
  CHECK(std::fabs(o.frequency() - 2492.028) < 1e-9);
  GnssObservable p(SATELLITE_SYSTEM::irnss, ObservationCode("L5A"));
  CHECK(std::fabs(p.frequency() - 1176.45) < 1e-9);
  return finish();
}''')

S("obscode-attribute-wildcard", "C03", [("gnssobs.hpp", "    return __c == other.__c;\n", "    return __c == other.__c || __c == '?' || other.__c == '?';\n")],
  "comparing a code read without an attribute with one that has one", "codes with different attributes compare equal when one was read from two characters, and a two-character code is looked up as the first column of its band",
  r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  CHECK(ObservationCode("C1") != ObservationCode("C1C"));
  CHECK(!(ObservationCode("C1W") == ObservationCode("C1")));
  CHECK(ObservationCode("C1") == ObservationCode("C1 "));
  return finish();
}''', checks=["C03", "C24", "C04"])

S("obscode-long-string", "C03", [("gnssobs.cpp", "  if (std::strlen(str) > 2 && str[2] != ' ') {", "  if (std::strlen(str) == 3 && str[2] != ' ') {")],
  "a code that is followed by more text, as in a header line", "the attribute is dropped when the string holds more than the code itself",
  r'''
#include "gnssobs.hpp"
int main() {
  using namespace ngpt;
  CHECK(ObservationCode("L2W").to_string() == "L2W");
  CHECK(ObservationCode("L2W C1C").to_string() == "L2W");
  return finish();
}''', checks=["C03", "C22", "C24"])

S("combination-mixed-neighbours", "C04", [("gnssobsrv.hpp", "    auto sys = __vec[0].__type.satsys();\n    for (const auto &obspart : __vec)\n      if (obspart.__type.satsys() != sys)\n        return true;\n    return false;",
   "    auto sys = __vec[0].__type.satsys();\n    return __vec.back().__type.satsys() != sys;")],
  "three or more parts, the first and last of the same system", "a combination whose middle part is of another system is not recognised as mixed",
  r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  auto G = SATELLITE_SYSTEM::gps, E = SATELLITE_SYSTEM::galileo;
  GnssObservable o(G, ObservationCode("L1C"), .5);
  o.add(E, ObservationCode("L1C"), .25);
  CHECK(o.is_of_mixed_satsys());
  o.add(G, ObservationCode("L2W"), .25);
  CHECK(o.is_of_mixed_satsys());
  return finish();
}''')

S("combination-frequency-abs", "C04", [("gnssobsrv.hpp", "    return __type == o.__type && __coef == o.__coef;", "    return __type == o.__type && std::abs(__coef - o.__coef) < 1e-3;")],
  "coefficients that differ by less than 0.001", "combinations with slightly different coefficients compare equal",
  r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  auto G = SATELLITE_SYSTEM::gps;
  GnssObservable a(G, ObservationCode("L1C"), 2.5457), b(G, ObservationCode("L1C"), 2.5458);
  CHECK(!(a == b));
  CHECK(a != b);
  CHECK(a == a);
  return finish();
}''')

S("antenna-short-radome", "C05", [("antenna.cpp", "  if (ant_size < max_sz) {", "  if (ant_size <= antenna_model_max_chars) {")],
  "a model with part of a radome, 16 to 19 characters", "the rest of the radome keeps whatever the memory held",
  r'''
#include "antenna.hpp"
#include <new>
int main() {
  using namespace ngpt;
  alignas(8) char mem[sizeof(ReceiverAntenna)];
  std::memset(mem, 'X', sizeof mem);
  auto *a = new (mem) ReceiverAntenna("TRM59800.00     SC");
  alignas(8) char mem2[sizeof(ReceiverAntenna)];
  std::memset(mem2, 'Y', sizeof mem2);
  auto *b = new (mem2) ReceiverAntenna("TRM59800.00     SC");
  CHECK(a->compare_model(*b));
  CHECK(std::string(a->__underlying_char__()) == std::string(b->__underlying_char__()));
  return finish();
}''')

S("antenna-serial-leading-blank", "C05", [("antenna.cpp", "  if (__name[idx]) {\n    while (__name[idx]) {", "  if (__name[idx] && __name[idx] != ' ') {\n    while (__name[idx]) {")],
  "a serial that is right-aligned in its field", "an antenna whose serial starts with a blank is taken as having none, so it is never the same as itself",
  r'''
#include "antenna.hpp"
int main() {
  using namespace ngpt;
  ReceiverAntenna a("TRM59800.00     SCIS"), b("TRM59800.00     SCIS");
  a.set_serial_nr("          5432");
  b.set_serial_nr("          5432");
  CHECK(a.has_serial());
  CHECK(a.is_same(b));
  return finish();
}''', checks=["C05", "C09"])

S("satellite-svn-padding", "C06", [("satellite.cpp", "  else if (__svn < 100)\n    sat += (\"-0\" + s);", "  else if (__svn < 99)\n    sat += (\"-0\" + s);")],
  "SVN 99", "the full name of a satellite with SVN 99 has two digits instead of three",
  r'''
#include "satellite.hpp"
int main() {
  using namespace ngpt;
  Satellite s(SATELLITE_SYSTEM::gps, 5);
  std::strcpy(s.cospar(), "2009-043");
  s.svn() = 50;
  CHECK(s.to_string(false) == "G05-050/2009-043");
  s.svn() = 99;
  CHECK(s.to_string(false) == "G05-099/2009-043");
  s.svn() = 100;
  CHECK(s.to_string(false) == "G05-100/2009-043");
  return finish();
}''')

S("satellite-antenna-cut", "C06", [("antenna.cpp", "  std::size_t ant_size(std::min(std::strlen(c), satellite_antenna_max_chars));", "  std::size_t ant_size(std::min(std::strlen(c), satellite_antenna_max_chars - 1));")],
  "an antenna type of all 20 characters", "the last character of a 20-character satellite-antenna type is lost",
  r'''
#include "antenna.hpp"
int main() {
  using namespace ngpt;
  SatelliteAntenna a("BEIDOU-3SI-SECM-CASC");
  CHECK(a.to_string() == "BEIDOU-3SI-SECM-CASC");
  CHECK(a.is_same("BEIDOU-3SI-SECM-CASC"));
  SatelliteAntenna b("BLOCK IIF");
  CHECK(b.is_same("BLOCK IIF"));
  return finish();
}''')

S("ltrim-past-stop", "C07", [("nvarstr.cpp", "  return std::string(str + start, len - start);", "  return std::string(str + start);")],
  "a stop column inside the string", "left-trimming returns the text beyond the given column too",
  r'''
#include "nvarstr.hpp"
int main() {
  std::size_t i = 99;
  CHECK(ngpt::ltrim("  abc", i) == "abc" && i == 2);
  CHECK(ngpt::ltrim("  abc def", i, 5) == "abc" && i == 2);
  return finish();
}''')

S("empty-any-blank", "C07", [("nvarstr.cpp", "  for (std::size_t i = 0; i < len; i++)\n    if (*(str + i) != ' ')\n      return false;", "  for (std::size_t i = 0; i + 1 < len; i++)\n    if (*(str + i) != ' ')\n      return false;")],
  "a column with its only character at its end", "a right-aligned one-character field is taken for an empty one",
  r'''
#include "nvarstr.hpp"
int main() {
  CHECK(ngpt::string_is_empty("    "));
  CHECK(!ngpt::string_is_empty("   0"));
  CHECK(!ngpt::string_is_empty("   0   ", 4));
  CHECK(ngpt::string_is_empty("   0   ", 3));
  return finish();
}''')

KAL = r'''
#include "gauss_newton.hpp"
'''
S("filter-clock-coefficient", "C08", [("gauss_newton.hpp", "        p(i) = (*obs_)[i] + (*sv_)[i][3] * 299792458e0 * coef;", "        p(i) = (*obs_)[i] + (*sv_)[i][3] * 299792458e0;")],
  "an observable whose coefficients do not add up to one", "the satellite-clock term is not scaled by the coefficient the filter was made for",
  r'''
#define private public
#include "gauss_newton.hpp"
int main() {
  std::vector<std::array<double, 4>> sv{{2e7, 1e6, 3e6, 0}, {-1e6, 2e7, 1e6, 0}, {1e6, 2e6, 2.1e7, 0}, {1.3e7, 1.3e7, 9e6, 0}, {1.5e7, -9e6, 1.2e7, 0}};
  auto with = sv;
  std::vector<double> obs, plain, w(5, 0.);
  for (int i = 0; i < 5; i++) {
    double d = std::sqrt(std::pow(sv[i][0] - 4e6, 2) + std::pow(sv[i][1] - 2e6, 2) + std::pow(sv[i][2] - 4e6, 2));
    with[i][3] = 1e-6 * (i + 1);
    plain.push_back(d);
    obs.push_back(d - with[i][3] * 299792458e0 * .5);
  }
  ngpt::Kalman<5> a({4e6, 2e6, 4e6, 0, 0}, .5), b({4e6, 2e6, 4e6, 0, 0}, .5);
  a.update(5, &plain, &sv, 1., &w);
  b.update(5, &obs, &with, 1., &w);
  CHECK((a.state_ - b.state_).norm() < 1e-3);
  return finish();
}''')

S("filter-asymmetric-noise", "C08", [("gauss_newton.hpp", "    P_(4, 3) += 0.0019e0;\n", "    P_(4, 4) += 0.0019e0;\n")],
  "a second update, or a look at the covariance", "the process noise is not symmetric any more; the covariance drifts",
  r'''
#define private public
#include "gauss_newton.hpp"
int main() {
  std::vector<std::array<double, 4>> sv{{2e7, 1e6, 3e6, 0}, {-1e6, 2e7, 1e6, 0}, {1e6, 2e6, 2.1e7, 0}, {1.3e7, 1.3e7, 9e6, 0}, {1.5e7, -9e6, 1.2e7, 0}};
  std::vector<double> obs, w(5, 1.);
  for (auto &s : sv)
    obs.push_back(std::sqrt(std::pow(s[0] - 4e6, 2) + std::pow(s[1] - 2e6, 2) + std::pow(s[2] - 4e6, 2)));
  ngpt::Kalman<5> a({4e6, 2e6, 4e6, 0, 0});
  for (int i = 0; i < 3; i++)
    a.update(5, &obs, &sv, 1., &w);
  CHECK((a.P_ - a.P_.transpose()).norm() < 1e-6);
  return finish();
}''')

S("calibration-foreign-serial", "C09", [("antex.cpp", "    if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {", "    if (cur_ant.compare_model(ant_in) &&\n        (!cur_ant.has_serial() || !ant_in.has_serial())) {")],
  "a request without serial, and an individually calibrated antenna of that model later in the file", "the calibration of an individual antenna is handed out as the type mean",
  r'''
#define private public
#include "antex.hpp"
int main() {
  using namespace ngpt;
  save("a.atx", atx_header() + atx_antenna("TRM59800.00     SCIS", "", {{"G01", 1, 2, 3}}) +
                    atx_antenna("TRM59800.00     SCIS", "1234", {{"G01", 4, 5, 6}}) + atx_antenna("LEIAR25         NONE", "", {{"G01", 7, 8, 9}}));
  Antex a("a.atx");
  AntennaPcoList l;
  CHECK(!a.get_antenna_pco(ReceiverAntenna("TRM59800.00     SCIS"), l));
  CHECK(l.__vecref__().size() == 1 && l.__vecref__()[0].__dn == 1);
  return finish();
}''')

S("calibration-stale-list", "C10", [("antex.cpp", "  // clean any entries in pco_list\n  pco_list.__vecref__().clear();\n\n  // match the antenna\n  int ant_found = find_satellite_antenna(prn, ss, at, ant_pos, sv);\n  if (ant_found > 0)\n    return ant_found;\n",
   "  // match the antenna\n  int ant_found = find_satellite_antenna(prn, ss, at, ant_pos, sv);\n  if (ant_found > 0)\n    return ant_found;\n\n  // clean any entries in pco_list\n  pco_list.__vecref__().clear();\n")],
  "a list that is used again for a satellite that is not in the file", "the offsets of the previous satellite stay in the list when the next one is not found",
  r'''
#define private public
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string v = lab("  2010     1     1     0     0    0.0000000", "VALID FROM");
  save("a.atx", atx_header() + atx_antenna("BLOCK IIF", "G05                 G050      2009-043A", {{"G01", 1, 2, 3}}, v));
  Antex a("a.atx");
  AntennaPcoList l;
  datetime<seconds> t(year(2020), month(1), day_of_month(1));
  CHECK(!a.get_antenna_pco(5, SATELLITE_SYSTEM::gps, t, l));
  CHECK(l.__vecref__().size() == 1);
  CHECK(a.get_antenna_pco(6, SATELLITE_SYSTEM::gps, t, l) > 0);
  CHECK(l.__vecref__().empty());
  return finish();
}''', checks=["C10", "C09", "C11"])

S("calibration-east-up-swap-rms", "C10", [("antex.cpp", "      // wait!! this might be a frequency rms from the previous frequency\n      if (!std::strncmp(hline + 60, \"START OF FREQ RMS\", 17)) {", "      // wait!! this might be a frequency rms from the previous frequency\n      if (i == num_of_freqs - 1 &&\n          !std::strncmp(hline + 60, \"START OF FREQ RMS\", 17)) {")],
  "an RMS section after a frequency that is neither the last nor the last but one", "an antenna with RMS sections after every frequency is refused",
  r'''
#define private public
#include "antex.hpp"
int main() {
  using namespace ngpt;
  save("a.atx", atx_header() + atx_antenna("TRM59800.00     SCIS", "", {{"G01", 1, 2, 3}, {"G02", 4, 5, 6}, {"R01", 7, 8, 9}}, "", "G01") +
                    atx_antenna("LEIAR25         NONE", "", {{"G01", 1, 2, 3}, {"G02", 4, 5, 6}, {"R01", 7, 8, 9}}, "", "G02"));
  Antex a("a.atx");
  AntennaPcoList l;
  CHECK(!a.get_antenna_pco(ReceiverAntenna("LEIAR25         NONE"), l));
  CHECK(l.__vecref__().size() == 3);
  CHECK(!a.get_antenna_pco(ReceiverAntenna("TRM59800.00     SCIS"), l));
  CHECK(l.__vecref__().size() == 3);
  return finish();
}''')

S("satantenna-until-exclusive", "C11", [("antex.cpp", "  return !(from <= at && at <= to);", "  return !(from <= at && at < to);")],
  "the last second of a validity interval", "a satellite is not found at the very end of its interval",
  r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string v = lab("  2010     1     1     0     0    0.0000000", "VALID FROM") + lab("  2012     6     7    23    59   59.0000000", "VALID UNTIL");
  save("a.atx", atx_header() + atx_antenna("BLOCK IIF", "G05                 G050      2009-043A", {{"G01", 1, 2, 3}}, v));
  Antex a("a.atx");
  Satellite s;
  CHECK(!a.get_satellite_info(5, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2012), month(6), day_of_month(7), hours(23), minutes(59), seconds(58)), s));
  CHECK(!a.get_satellite_info(5, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2012), month(6), day_of_month(7), hours(23), minutes(59), seconds(59)), s));
  CHECK(a.get_satellite_info(5, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2012), month(6), day_of_month(8)), s) > 0);
  return finish();
}''')

S("glochannel-stop-inclusive", "C12", [("bern_utils.cpp", "        if (eph >= start && eph < stop) {", "        if (eph >= start && eph <= stop) {")],
  "an epoch at which one channel ends and the next begins", "at the second of a channel change the old channel is returned",
  r'''
#include "bern_utils.hpp"
int main() {
  using namespace ngpt;
  save("s.sat", bern_head() + bern_rec(101, 701, "2010 01 01 00 00 00", "2012 01 01 00 00 00", 3) + bern_rec(102, 701, "2012 01 01 00 00 00", "", -4) + "\n");
  BernSatellit b("s.sat");
  int ch = 99, prn = 99;
  CHECK(!b.get_frequency_channel(701, datetime<seconds>(year(2011), month(12), day_of_month(31)), ch, prn) && ch == 3 && prn == 101);
  CHECK(!b.get_frequency_channel(701, datetime<seconds>(year(2012), month(1), day_of_month(1)), ch, prn) && ch == -4 && prn == 102);
  return finish();
}''')

S("sp3-week-validation", "C13", [("sp3c.cpp", "  if (gwk1.as_underlying_type() != gwk || sw.to_fractional_seconds() != sec) {", "  if (gwk1.as_underlying_type() != gwk && sw.to_fractional_seconds() != sec) {")],
  "a header whose week and seconds of week disagree in one of the two only", "a header with a wrong GPS week (or wrong seconds of week) is accepted",
  r'''
#include "sp3c.hpp"
static bool opens(const char *l2) {
  save("a.sp3", sp3_header(5, "#cP2020  1  1  0  0  0.00000000       3 ORBIT IGS14 HLM  IGS", l2) + sp3_epoch(0) + "EOF\n");
  try { ngpt::Sp3c s("a.sp3"); } catch (std::exception &) { return false; }
  return true;
}
int main() {
  CHECK(opens("## 2086 259200.00000000   900.00000000 58849 0.0000000000000"));
  CHECK(!opens("## 2085 259201.00000000   900.00000000 58849 0.0000000000000"));
  CHECK(!opens("## 2085 259200.00000000   900.00000000 58849 0.0000000000000"));
  CHECK(!opens("## 2086 259201.00000000   900.00000000 58849 0.0000000000000"));
  return finish();
}''')

S("sp3-stale-flags", "C14", [("sp3c.cpp", "  const char *start;\n  flag.reset();\n", "  const char *start;\n  flag.clear(Sp3Event::clock_event);\n  flag.clear(Sp3Event::clock_prediction);\n  flag.clear(Sp3Event::maneuver);\n  flag.clear(Sp3Event::orbit_prediction);\n")]
  if False else [("sp3c.cpp", "  if (state[3] >= SP3_MISSING_CLK_VALUE)\n    flag.set(Sp3Event::bad_abscent_clock);", "  if (state[3] >= SP3_MISSING_CLK_VALUE && !flag.is_set(Sp3Event::bad_abscent_position))\n    flag.set(Sp3Event::bad_abscent_clock);")],
  "a satellite without both position and clock", "the missing clock is not flagged when the position is missing too",
  r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  save("a.sp3", sp3_header() + sp3_epoch(0) + sp3_pos("G01", 1, 2, 3, 999999.999999) + sp3_pos("G02", 0, 0, 0, 999999.999999) + sp3_pos("G03", 1, 2, 3, 5) + "EOF\n");
  Sp3c s("a.sp3");
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> t;
  int n = 0;
  s.get_next_epoch(t, v, n);
  CHECK(n == 3);
  CHECK(v[0].flag_.is_set(Sp3Event::bad_abscent_clock) && !v[0].flag_.is_set(Sp3Event::bad_abscent_position));
  CHECK(v[1].flag_.is_set(Sp3Event::bad_abscent_clock) && v[1].flag_.is_set(Sp3Event::bad_abscent_position));
  CHECK(!v[2].flag_.is_set(Sp3Event::bad_abscent_clock));
  return finish();
}''')

S("sp3-missing-component", "C14", [("sp3c.cpp", "  if (std::any_of(state.begin(), state.begin() + 3,", "  if (std::all_of(state.begin(), state.begin() + 3,")],
  "a record with some but not all of its components zero", "a record that lacks one component of the position is not flagged",
  r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  save("a.sp3", sp3_header() + sp3_epoch(0) + sp3_pos("G01", 0, 0, 0, 1) + sp3_pos("G02", 12, 13, 0, 1) + sp3_pos("G03", 1, 2, 3, 5) + "EOF\n");
  Sp3c s("a.sp3");
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> t;
  int n = 0;
  s.get_next_epoch(t, v, n);
  CHECK(n == 3 && v[0].flag_.is_set(Sp3Event::bad_abscent_position));
  CHECK(v[1].flag_.is_set(Sp3Event::bad_abscent_position));
  CHECK(!v[2].flag_.is_set(Sp3Event::bad_abscent_position));
  return finish();
}''')

S("nav-glonass-acceleration-scale", "C15", [("navrnx.cpp", "    for (int i : {3, 4, 5, 7, 8, 9, 11, 12, 13})", "    for (int i : {3, 4, 5, 7, 8, 9, 11, 12})")],
  "a GLONASS message with a lunisolar acceleration in z", "the z acceleration stays in km/s2, a thousandth of what it should be",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('R', 5, "2020 01 01 00 15 00", glonass(259200 + 900), 15));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  CHECK(std::fabs(f.data(3) - 7003008.789) < 1e-6 && std::fabs(f.data(12) - 1352.515) < 1e-9);
  CHECK(std::fabs(f.data(13) + 1.7e-6) < 1e-12);
  return finish();
}''', checks=["C15", "C20"])

S("nav-beidou-week", "C15", [("navrnx.hpp", "    ngpt::gps_week wk(static_cast<int>(data__[21]) + 1356L);", "    ngpt::gps_week wk(static_cast<int>(data__[21]) < 1024 ? static_cast<int>(data__[21]) + 1356L : static_cast<int>(data__[21]));")],
  "a BeiDou week of 1024 or later", "from BeiDou week 1024 on the ephemeris time is 26 years early",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('C', 5, "2020 01 01 00 00 00", kepler(730, 259200), 29) + nav_record('C', 5, "2025 08 20 00 00 00", kepler(1024, 259200), 29));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  CHECK(f.toe<seconds>() == f.toc());
  CHECK(!n.read_next_record(f));
  CHECK(f.toe<seconds>() == f.toc());
  return finish();
}''')

S("nav-skip-navic-lines", "C15", [("navrnx.cpp", "  case SATELLITE_SYSTEM::galileo:\n  case SATELLITE_SYSTEM::irnss:\n    records_in_last_line = 1;\n    lines_to_read = 8;\n    break;\n  case SATELLITE_SYSTEM::glonass:\n  case SATELLITE_SYSTEM::sbas:\n    records_in_last_line = 4;\n    lines_to_read = 4;", "  case SATELLITE_SYSTEM::galileo:\n  case SATELLITE_SYSTEM::irnss:\n    records_in_last_line = 1;\n    lines_to_read = 8;\n    break;\n  case SATELLITE_SYSTEM::glonass:\n    records_in_last_line = 4;\n    lines_to_read = 4;\n    break;\n  case SATELLITE_SYSTEM::sbas:\n    records_in_last_line = 1;\n    lines_to_read = 4;")],
  "an SBAS message whose last line carries values", "the last three values of an SBAS message (Z velocity, acceleration and IODN) are not read",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('S', 20, "2020 01 01 00 15 00", glonass(259200 + 900), 15));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  CHECK(std::fabs(f.data(11) - 21280.765625) < 1e-6);
  CHECK(std::fabs(f.data(12) - 1.352515) < 1e-9);
  return finish();
}''', checks=["C15", "C16"])

S("nav-find-next-position", "C16", [("navrnx.cpp", "    if (csys == sys) {\n      if ((status = this->read_next_record(frame)))\n        return clear_stream(status);\n      if (prn == -1 || (prn == frame.prn()))\n        return 0;", "    if (csys == sys) { curpos = tell();\n      if ((status = this->read_next_record(frame)))\n        return clear_stream(status);\n      if (prn == -1 || (prn == frame.prn()))\n        return 0;")],
  "messages of other satellites between the current position and the one found", "the position handed out for going back is not where the search began, so messages in between are lost",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('G', 5, "2020 01 01 00 00 00", kepler(2086, 259200), 29) + nav_record('G', 6, "2020 01 01 00 00 00", kepler(2086, 259200), 29));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  NavigationRnx::pos_type p;
  CHECK(!n.find_next(p, f, SATELLITE_SYSTEM::gps, 6) && f.prn() == 6);
  n.rewind(p);
  CHECK(!n.read_next_record(f) && f.prn() == 5);
  return finish();
}''')

S("nav-valid-until-inclusive", "C17", [("navrnx.hpp", "              if (t >= min_t && t < max_t)\n                return 0;", "              if (t > min_t && t < max_t)\n                return 0;")],
  "a GLONASS message and an epoch exactly a quarter of an hour before it", "the first second of the interval of a GLONASS message is not covered",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('R', 5, "2020 01 01 00 15 00", glonass(259200 + 900), 15));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  NavigationRnx::pos_type p;
  datetime<milliseconds> t(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(1));
  CHECK(!n.find_next_valid(t, p, f, SATELLITE_SYSTEM::glonass, 5));
  n.rewind();
  datetime<milliseconds> t0(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(0));
  CHECK(!n.find_next_valid(t0, p, f, SATELLITE_SYSTEM::glonass, 5));
  n.rewind();
  datetime<milliseconds> t1(year(2020), month(1), day_of_month(1), hours(0), minutes(30), milliseconds(0));
  CHECK(n.find_next_valid(t1, p, f, SATELLITE_SYSTEM::glonass, 5));
  return finish();
}''')

S("nav-lookahead-abs", "C17", [("navrnx.hpp", "          if (toc > t && ngpt::delta_sec(toc, t) > limitT)\n            return -1;", "          if (toc > t && ngpt::delta_sec(toc, t) >= limitT)\n            return -1;")],
  "a GLONASS or healthy message exactly four hours after the epoch, followed by a suitable one", "a message exactly four hours ahead ends the search",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('G', 5, "2020 01 01 04 00 00", kepler(2086, 259200 + 14400), 29) + nav_record('G', 5, "2020 01 01 00 00 00", kepler(2086, 259200), 29));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  NavigationRnx::pos_type p;
  datetime<milliseconds> t(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(1));
  CHECK(!n.find_next_valid(t, p, f, SATELLITE_SYSTEM::gps, 5));
  n.rewind();
  datetime<milliseconds> t0(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(0));
  CHECK(!n.find_next_valid(t0, p, f, SATELLITE_SYSTEM::gps, 5));
  return finish();
}''')

S("orbit-day-before-toe", "C18", [("navrnx.hpp", "        t.mjd().as_underlying_type() - toe__.mjd().as_underlying_type();\n    if (mjd_diff)\n      tsec", "        t.mjd().as_underlying_type() - toe__.mjd().as_underlying_type();\n    if (mjd_diff > 0)\n      tsec")],
  "an epoch on the day before that of the ephemeris time", "before midnight the orbit is evaluated a day late",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('G', 5, "2020 01 01 00 00 00", kepler(2086, 259200), 29));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  double a[6], b[6], c;
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2019), month(12), day_of_month(31), hours(23), minutes(59), milliseconds(59999)), a, c));
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(0)), b, c));
  double d = std::hypot(std::hypot(a[0] - b[0], a[1] - b[1]), a[2] - b[2]);
  CHECK(d < 10);
  return finish();
}''', checks=["C18", "C20"])

S("orbit-kepler-limit", "C18", [("navrnx.hpp", "    constexpr double LIMIT{1e-14};           //  Limit for solving (iteratively)", "    constexpr double LIMIT{1e-6};            //  Limit for solving (iteratively)")],
  "a satellite on an eccentric orbit, e.g. Galileo E14/E18", "Kepler's equation is solved to 1e-6 only: metres for eccentric orbits",
  r'''
#define private public
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto k = kepler(2086, 259200);
  k[8] = 0.16; k[6] = 1.3;
  save("n.rnx", nav_header() + nav_record('E', 14, "2020 01 01 00 00 00", k, 28));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  double s[3], E;
  CHECK(!f.kepler2state<SATELLITE_SYSTEM::galileo>(0., s, &E));
  CHECK(std::fabs(E - f.data(8) * std::sin(E) - f.data(6)) < 1e-10);
  return finish();
}''')

S("clock-day-after-toc", "C19", [("navrnx.hpp", "        t.mjd().as_underlying_type() - toc__.mjd().as_underlying_type();\n    if (mjd_diff)\n      tsec += 86400e0 * (double)mjd_diff;", "        t.mjd().as_underlying_type() - toc__.mjd().as_underlying_type();\n    if (mjd_diff == 1)\n      tsec += 86400e0;")],
  "a clock epoch on the day after the requested one", "shortly before midnight the clock is extrapolated by a day",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto k = kepler(2086, 259200);
  k[1] = 1e-9;
  save("n.rnx", nav_header() + nav_record('G', 5, "2020 01 01 00 00 00", k, 29));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  double a[6], b, c;
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2019), month(12), day_of_month(31), hours(23), minutes(59), milliseconds(59999)), a, b));
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(0), milliseconds(0)), a, c));
  CHECK(std::fabs(b - c) < 1e-8);
  return finish();
}''')

S("clock-beidou-relativity", "C02", [("satsys.hpp", "    constexpr double par = 2.99792458e8 * 2.99792458e8;", "    constexpr double par = 2.99792458e8 * 2.9979245e8;")],
  "a BeiDou satellite and a look beyond 1e-7 of the relativistic term", "the relativistic constant of BeiDou is off in its eighth digit",
  r'''
#include "satsys.hpp"
int main() {
  double f = ngpt::satellite_system_traits<ngpt::SATELLITE_SYSTEM::beidou>::f_clock();
  double w = -2. * std::sqrt(3.986004418e14) / (299792458. * 299792458.);
  CHECK(std::fabs(f / w - 1) < 1e-12);
  return finish();
}''', checks=["C02", "C19"])

S("glonass-j2-z", "C20", [("glonav.cpp", "  xdot[5] = (c - 2e0 * a) * x[2] + acc[2];", "  xdot[5] = (c - a) * x[2] + acc[2];")],
  "an epoch some minutes away from that of the message, satellite away from the equator", "the oblateness term of the vertical acceleration is too small",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('R', 5, "2020 01 01 00 15 00", glonass(259200 + 900), 15));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  double a[6], b[6], c;
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(15), milliseconds(0)), a, c));
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(16), milliseconds(0)), b, c));
  // mean acceleration over a minute against the ICD formula half-way
  double z = (a[2] + b[2]) / 2, x = (a[0] + b[0]) / 2, y = (a[1] + b[1]) / 2;
  double r2 = x * x + y * y + z * z, r = std::sqrt(r2), mu = 398600441.8e6, J2 = 1082625.75e-9, ae = 6378136.;
  double az = -mu * z / (r2 * r) - 1.5 * J2 * mu * ae * ae / (r2 * r2 * r) * z * (3 - 5 * z * z / r2) + f.data(13);
  CHECK(std::fabs((b[5] - a[5]) / 60 - az) < 1.5e-5);
  return finish();
}''')

S("glonass-day-wrap", "C20", [("glonav.cpp", "  double t_lim = t_sec - std::round((t_sec - toe_sec) / 86400) * 86400;", "  double t_lim = t_sec - std::floor((t_sec - toe_sec) / 86400) * 86400;")],
  "an epoch before that of the message", "before the message epoch the orbit is not integrated backwards but a day ahead",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n.rnx", nav_header() + nav_record('R', 5, "2020 01 01 00 15 00", glonass(259200 + 900), 15));
  NavigationRnx n("n.rnx");
  NavDataFrame f;
  CHECK(!n.read_next_record(f));
  double a[6] = {}, b[6], c;
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(14), milliseconds(59000)), a, c));
  CHECK(!f.stateNclock(datetime<milliseconds>(year(2020), month(1), day_of_month(1), hours(0), minutes(15), milliseconds(0)), b, c));
  double d = std::hypot(std::hypot(a[0] - b[0], a[1] - b[1]), a[2] - b[2]);
  CHECK(d > 100 && d < 10000);
  return finish();
}''')

S("ura-index-15", "C21", [("gpsnav.cpp", "  } else if (ura_index < 15) {", "  } else if (ura_index <= 15) {")],
  "URA index 15", "\"no accuracy prediction\" is reported as 8192 m",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavDataFrame f;
  f.system() = SATELLITE_SYSTEM::gps;
  f.data(23) = 14;
  CHECK(f.gps_ura() == 4096);
  f.data(23) = 15;
  CHECK(f.gps_ura() == std::numeric_limits<float>::max());
  return finish();
}''')

S("obs-antenna-serial", "C22", [("obsrnx.cpp", "      if (!ngpt::string_is_empty(line, 20))\n        ant.set_serial_nr(line);", "      if (*line != ' ')\n        ant.set_serial_nr(line);")],
  "an antenna number that does not start in the first column", "the serial of the antenna is lost when it is right-aligned",
  r'''
#define private public
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o.rnx", obs_version() + lab("                5546TRM59800.00     SCIS", "ANT # / TYPE") + obs_types('G', {"C1C"}) + obs_end());
  ObservationRnx o("o.rnx");
  CHECK(o.__antenna.has_serial());
  CHECK(o.__antenna.compare_serial("                5546"));
  return finish();
}''')

S("obs-types-13", "C22", [("obsrnx.cpp", "      resolved = 0;\n    }\n  } while (vecsz < obsnum);", "      resolved = 0;\n      if (vecsz == 26)\n        continue;\n    }\n  } while (vecsz < obsnum);")]
  if False else [("obsrnx.cpp", "  if (obsvec.size() == (std::size_t)obsnum) {\n    __obstmap[satsys] = std::move(obsvec);\n    return 0;\n  }\n\n  return 9;", "  if (obsvec.size() >= (std::size_t)obsnum) {\n    __obstmap[satsys] = std::move(obsvec);\n    return 0;\n  }\n\n  return 9;")],
  "a number of types of zero", "a header that announces no types for a system is accepted",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  std::string t = obs_types('G', {"C1C"});
  save("o.rnx", obs_version() + t + obs_end());
  bool ok = true;
  try { ObservationRnx o("o.rnx"); } catch (std::exception &) { ok = false; }
  CHECK(ok);
  t[5] = '0';
  save("p.rnx", obs_version() + t + obs_end());
  try { ObservationRnx o("p.rnx"); } catch (std::exception &) { ok = false; }
  CHECK(!ok);
  return finish();
}''')

S("obs-epoch-fraction", "C23", [("obsrnx.cpp", "  double rsec = std::strtod(start, &end);", "  double rsec = static_cast<float>(std::strtod(start, &end));")],
  "an epoch with a fraction of a second", "seconds are kept in single precision: microseconds off",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o.rnx", obs_version() + obs_types('G', {"C1C"}) + obs_end() + "> 2020 01 01 00 00 59.1234567  0  1\nG05  20000000.123  \n");
  ObservationRnx o("o.rnx");
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> m;
  m[SATELLITE_SYSTEM::gps].emplace_back(SATELLITE_SYSTEM::gps, ObservationCode("C1C"));
  auto mm = o.set_read_map(m, false);
  auto v = o.initialize_epoch_vector(mm);
  int n;
  modified_julian_day d;
  double s;
  CHECK(!o.read_next_epoch(mm, v, n, d, s));
  CHECK(n == 1 && std::fabs(s - 59.1234567) < 1e-9);
  return finish();
}''')

S("obs-satellite-not-stored", "C23", [("obsrnx.cpp", "      if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)\n        return 1;\n      Satellite sat(s, prn);\n      ovec_it->first = sat;\n      ++ovec_it;\n      ++satscollected;", "      if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)\n        return 1;\n      if (status > -(int)it->second.size()) { // anything at all?\n        Satellite sat(s, prn);\n        ovec_it->first = sat;\n        ++ovec_it;\n        ++satscollected;\n      }")],
  "a satellite that lacks as many raw observations as observables are requested", "satellites without the requested observables vanish from the epoch",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o.rnx", obs_version() + obs_types('G', {"C1C", "L1C"}) + obs_end() + "> 2020 01 01 00 00 59.0000000  0  2\nG05  20000000.123  \nG06                  20000000.123  \n");
  ObservationRnx o("o.rnx");
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> m;
  m[SATELLITE_SYSTEM::gps].emplace_back(SATELLITE_SYSTEM::gps, ObservationCode("C1C"));
  auto mm = o.set_read_map(m, false);
  auto v = o.initialize_epoch_vector(mm);
  int n;
  modified_julian_day d;
  double s;
  CHECK(!o.read_next_epoch(mm, v, n, d, s));
  CHECK(n == 2 && v[1].first.prn() == 6);
  return finish();
}''', checks=["C23", "C24"])

S("obs-repeated-code", "C24", [("obsrnx.cpp", "    std::size_t idx = std::distance(satsys_codes.begin(), j);\n    double coef = i.__coef;\n    ovec.emplace_back(idx, coef);", "    std::size_t idx = std::distance(satsys_codes.begin(), j);\n    double coef = i.__coef;\n    auto k = std::find_if(ovec.begin(), ovec.end(), [idx](const auto &p) { return p.first == idx; });\n    if (k == ovec.end())\n      ovec.emplace_back(idx, coef);\n    else // already read\n      k->second = coef;")],
  "a combination that names the same code twice", "only the last coefficient of a code that occurs twice counts",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o.rnx", obs_version() + obs_types('G', {"C1C", "L1C"}) + obs_end() + "> 2020 01 01 00 00 59.0000000  0  1\nG05  20000000.000     100000.000  \n");
  ObservationRnx o("o.rnx");
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> m;
  auto G = SATELLITE_SYSTEM::gps;
  GnssObservable c(G, ObservationCode("C1C"), .5);
  c.add(G, ObservationCode("L1C"), -1);
  c.add(G, ObservationCode("C1C"), .25);
  m[G].push_back(c);
  auto mm = o.set_read_map(m, false);
  auto v = o.initialize_epoch_vector(mm);
  int n;
  modified_julian_day d;
  double s;
  CHECK(!o.read_next_epoch(mm, v, n, d, s));
  CHECK(n == 1 && std::fabs(v[0].second[0] - (.75 * 2e7 - 1e5)) < 1e-6);
  return finish();
}''')

S("obs-map-order", "C24", [("obsrnx.cpp", "          i = inobs.second.erase(i);", "          *i = inobs.second.back();\n          inobs.second.pop_back();\n          i = i == inobs.second.end() ? i : i;")],
  "a missing observable that is followed by two or more others", "when a missing observable is dropped, the order of the remaining ones changes",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o.rnx", obs_version() + obs_types('G', {"C1C", "L1C", "S1C"}) + obs_end());
  ObservationRnx o("o.rnx");
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> m;
  auto G = SATELLITE_SYSTEM::gps;
  for (auto c : {"C5Q", "S1C", "L1C", "C1C"})
    m[G].emplace_back(G, ObservationCode(c));
  auto mm = o.set_read_map(m, true);
  CHECK(mm[G].size() == 3 && m[G].size() == 3);
  CHECK(m[G][0].to_string() == "G::S1C*1.000000" && mm[G][0][0].first == 2);
  CHECK(m[G][2].to_string() == "G::C1C*1.000000" && mm[G][2][0].first == 0);
  return finish();
}''')
