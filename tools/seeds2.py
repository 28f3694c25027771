SEEDS = {}
def S(i, prop, edits, needs, breaks, demo=None, **k):
    SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

S("antex-unknown-system", "C25",
  [("antex.cpp", "line + 21, sat.prn()))\n        return 5;\n    } catch (std::exception &) {", "line + 21, sat.prn()))\n        return 5;\n    } catch (std::invalid_argument &) {")],
  "a calibration file whose satellite antenna carries a letter no satellite system has", "the exception escapes a noexcept function: the process ends instead of passing over the antenna",
  r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  save("a.atx", atx_header() + atx_antenna("BLOCK IIA", "X01", {{"G01", 1, 2, 3}}, lab("  2000     1     1     0     0    0.0000000", "VALID FROM")) +
                    atx_antenna("BLOCK IIA", "G01", {{"G01", 1, 2, 3}}, lab("  2000     1     1     0     0    0.0000000", "VALID FROM")));
  Antex a("a.atx");
  AntennaPcoList l;
  datetime<seconds> t(year(2010), month(1), day_of_month(1), seconds(0));
  CHECK(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, t, l) == 0);
  return finish();
}''')

S("bern-blank-svn", "C25",
  [("bern_utils.cpp", "      if (errno == ERANGE || end == line + 28) {\n        errno = 0;\n        return 2;\n      }\n", "      if (errno == ERANGE || end == line + 28) {\n        errno = 0;\n        csvn = svn;\n      }\n")],
  "a GLONASS record without a satellite number in front of the wanted one", "the record without a number answers any query whose epoch it spans",
  r'''
#include "bern_utils.hpp"
int main() {
  using namespace ngpt;
  std::string bad = bern_rec(7, 712, "2000 01 01 00 00 00", "", 4);
  bad.replace(20, 20, "        noname      ");
  save("s", bern_head() + bad + bern_rec(8, 713, "2000 01 01 00 00 00", "", -2));
  BernSatellit b("s");
  int ch = 99, prn = 99;
  datetime<seconds> t(year(2010), month(1), day_of_month(1), seconds(0));
  CHECK(b.get_frequency_channel(713, t, ch, prn) == 2);
  return finish();
}''', checks=["C25", "C12", "C13"])

S("sp3-unknown-system", "C26",
  [("sp3c.cpp", "    s = ngpt::char_to_satsys(line[1]);\n  } catch (std::runtime_error &e) {", "    s = ngpt::char_to_satsys(line[1]);\n  } catch (std::out_of_range &e) {")],
  "a position line whose satellite letter is damaged", "the exception escapes a noexcept function: the process ends instead of reporting an error",
  r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  save("s", sp3_header() + sp3_epoch(0) + sp3_pos("G01", 1, 2, 3, 4) + sp3_pos("?02", 1, 2, 3, 4) + "EOF\n");
  Sp3c s("s");
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> t;
  int n = 0;
  CHECK(s.get_next_epoch(t, v, n) > 0);
  return finish();
}''')

S("sp3-blank-prn", "C26",
  [("sp3c.cpp", "  if (errno == ERANGE || end == num) {\n    errno = 0;\n    return 4;\n  }\n\n", "  if (errno == ERANGE) {\n    errno = 0;\n    return 4;\n  }\n\n")],
  "a position line whose satellite number is blank", "the record is delivered under a number no satellite has", r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  save("s", sp3_header() + sp3_epoch(0) + sp3_pos("G01", 1, 2, 3, 4) + sp3_pos("G  ", 1, 2, 3, 4) + "EOF\n");
  Sp3c s("s");
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> t;
  int n = 0;
  CHECK(s.get_next_epoch(t, v, n) > 0);
  return finish();
}''', checks=["C26", "C14"])

S("nav-skip-unknown-system", "C27",
  [("navrnx.cpp", "    sys = ngpt::char_to_satsys(s); // this may throw\n  } catch (std::exception &) {\n    return 1;", "    sys = ngpt::char_to_satsys(s); // this may throw\n  } catch (std::logic_error &) {\n    return 1;")],
  "skipping a record whose first character is damaged", "the exception escapes a noexcept function: the process ends instead of reporting an error",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  save("n", nav_header() + nav_record('G', 5, "2020 01 01 02 00 00", kepler(2086, 266400), 31) + "?05 damaged\n");
  NavigationRnx n("n");
  CHECK(n.ignore_next_block() == 0);
  CHECK(n.ignore_next_block() > 0);
  return finish();
}''')

S("obs-bad-type-code", "C28",
  [("obsrnx.cpp", "      obsvec.emplace_back(line + 7 + resolved * 4);\n    } catch (std::exception &e) {", "      obsvec.emplace_back(line + 7 + resolved * 4);\n    } catch (std::logic_error &e) {")],
  "a header that lists an observation type of an unknown kind", "the exception escapes a noexcept function: the process ends instead of refusing the file",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o", obs_version() + obs_types('G', {"C1C", "X1C", "L1C"}) + obs_end());
  bool refused = false;
  try { ObservationRnx o("o"); } catch (std::exception &) { refused = true; }
  CHECK(refused);
  return finish();
}''')

S("obs-prn-range", "C28",
  [("obsrnx.cpp", "  if ((errno || tbuf == end) || (prn < 1 || prn > 99))\n    return 1;\n\n  RawRnxObs__", "  if ((errno || tbuf == end) || prn > 99)\n    return 1;\n\n  RawRnxObs__")],
  "a record whose satellite number is damaged to 00 or a negative number", "the satellite is delivered under a number no satellite has",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  save("o", obs_version() + obs_types('G', {"C1C"}) + obs_end() + "> 2020 01 01 00 00  0.0000000  0  1\nG-1  20000000.000  \n");
  ObservationRnx o("o");
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> q;
  q[SATELLITE_SYSTEM::gps].push_back(GnssObservable(SATELLITE_SYSTEM::gps, ObservationCode("C1C")));
  auto m = o.set_read_map(q);
  auto v = o.initialize_epoch_vector(m);
  int n;
  modified_julian_day d;
  double s;
  CHECK(o.read_next_epoch(m, v, n, d, s) > 0);
  return finish();
}''', checks=["C28", "C23"])

S("interpolator-second-setup", "C30",
  [("sp3c.hpp", "    sp3_->rewind();\n    running_sv", "    running_sv"),],
  "an interpolator set up over a file that was read before, or set up twice", "the table is built from where the file was left: setting it up fails at the end of the file",
  r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  std::string t = sp3_header(2);
  for (int k = 0; k < 4; k++)
    t += sp3_epoch(15 * k) + sp3_pos("G01", 1, 2, 3, 4) + sp3_pos("G02", 1, 2, 3, 4);
  save("s", t + "EOF\n");
  Sp3c s("s");
  LagrangeSp3Interpolator<900> l(s);
  CHECK(l.initialize() <= 0);
  int first = l.initialize();
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> e;
  int n;
  while (!s.get_next_epoch(e, v, n))
    ;
  int second = l.initialize();
  CHECK(first <= 0 && second == first);
  return finish();
}''')

S("interpolator-first-epoch", "C30",
  [("sp3c.hpp", "        for (int i = 0; i < nsats; i++)\n          svec_[i][0] = vec[i];", "        for (int i = 0; i <= nsats && i < (int)vec.size(); i++)\n          svec_[i + (nsats > 16)][0] = vec[i];")],
  "a first epoch of more than 16 satellites that are all the file announces", "writes past the interpolator's table",
  r'''
#include "sp3c.hpp"
int main() {
  using namespace ngpt;
  std::string t = sp3_header(17);
  for (int k = 0; k < 4; k++) {
    t += sp3_epoch(15 * k);
    for (int i = 1; i < 18; i++)
      t += sp3_pos(fmt("G%02d", i).c_str(), 1, 2, 3, 4);
  }
  save("s", t + "EOF\n");
  Sp3c s("s");
  LagrangeSp3Interpolator<900> l(s);
  CHECK(l.initialize() <= 0);
  return finish();
}''', flags="-fsanitize=address")

S("antex-shared-antenna", "C31",
  [("antex.cpp", "  ReceiverAntenna cur_ant, best_match_ant;\n", "  static ReceiverAntenna cur_ant, best_match_ant;\n")],
  "two threads that look up antennas at the same time, each in a file of its own", "the antenna being compared is shared by all threads",
  r'''
#include "antex.hpp"
#include <thread>
int main() {
  using namespace ngpt;
  std::vector<std::thread> w;
  for (int k = 0; k < 3; k++)
    w.emplace_back([k] {
      std::string n = fmt("%d.atx", k), t = atx_header();
      for (int i = 0; i < 40; i++)
        t += atx_antenna(fmt("TYPE%d%02d       NONE", k, i), "", {{"G01", 1. + i, 2, 3}});
      save(n.c_str(), t);
      Antex a(n.c_str());
      AntennaPcoList l;
      for (int i = 0; i < 40; i++) {
        ReceiverAntenna r(fmt("TYPE%d%02d       NONE", k, i).c_str());
        CHECK(a.get_antenna_pco(r, l) == 0);
      }
    });
  for (auto &x : w)
    x.join();
  return finish();
}''', flags="-fsanitize=thread")

S("nav-shared-buffer", "C31",
  [("navrnx.cpp", "int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {\n  char line[MAX_RECORD_CHARS];", "int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {\n  static char line[MAX_RECORD_CHARS];")],
  "two threads that read navigation files at the same time", "the line buffer is shared by all threads",
  r'''
#include "navrnx.hpp"
#include <thread>
int main() {
  using namespace ngpt;
  std::vector<std::thread> w;
  for (int k = 0; k < 3; k++)
    w.emplace_back([k] {
      std::string n = fmt("%d.nav", k), t = nav_header();
      for (int i = 0; i < 60; i++)
        t += nav_record('G', 1 + i % 32, "2020 01 01 02 00 00", kepler(2086, 266400), 31);
      save(n.c_str(), t);
      NavigationRnx r(n.c_str());
      NavDataFrame f;
      for (int i = 0; i < 60; i++)
        CHECK(r.read_next_record(f) == 0);
    });
  for (auto &x : w)
    x.join();
  return finish();
}''', flags="-fsanitize=thread")

S("nav-shared-health-search", "C31",
  [("bern_utils.cpp", "  ngpt::datetime<ngpt::seconds> start, stop;\n", "  static ngpt::datetime<ngpt::seconds> start, stop;\n")],
  "two threads that look up frequency channels at the same time", "the validity being compared is shared by all threads",
  r'''
#include "bern_utils.hpp"
#include <thread>
int main() {
  using namespace ngpt;
  std::vector<std::thread> w;
  for (int k = 0; k < 3; k++)
    w.emplace_back([k] {
      std::string n = fmt("%d.sat", k), t = bern_head();
      for (int i = 0; i < 40; i++)
        t += bern_rec(1 + i % 24, 700 + i, "2000 01 01 00 00 00", i % 2 ? "2015 01 01 00 00 00" : "2005 01 01 00 00 00", i % 7 - 3);
      save(n.c_str(), t);
      BernSatellit b(n.c_str());
      datetime<seconds> e(year(2010), month(1), day_of_month(1), seconds(0));
      for (int i = 0; i < 40; i++) {
        int ch, prn;
        CHECK((b.get_frequency_channel(700 + i, e, ch, prn) == 0) == (i % 2 == 1));
      }
    });
  for (auto &x : w)
    x.join();
  return finish();
}''', flags="-fsanitize=thread")

DEMO_SP3 = r'''#!/bin/bash
# Run in the repository: exit 0 if the behaviour holds.
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
python3 -B - "$repo/var/sp3py.py" "$t" <<'P'
import subprocess, sys
tool, d = sys.argv[1:]
head = ["#c@2020  1  1  0  0  0.00000000       3 ORBIT IGS14 HLM  IGS", "## 2086 259200.00000000   900.00000000 58849 0.0000000000000",
        "+    2   G01G02" + "  0" * 15] + ["+        " + "  0" * 17] * 4 + ["++       " + "  0" * 17] * 5 + [
        "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc",
        "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000"] + [
        "%i    0    0    0    0      0      0      0      0         0"] * 2 + ["/* a comment"] * 4
def p(c, s, k): return c + s + "".join("%14.6f" % (1000 * k + i) for i in range(4))
body, want = [], "## Ref System: IGS14, Time System GPS\n"
for k in range(3):
    body.append("*  2020  1  1  0 %2d  0.00000000" % (15 * k))
    for s in ("G01", "G02"):
        body += [p("P", s, k), @VEL@]
    want += '"2020-01-01 00:%02d:00"' % (15 * k) + "".join("%+15.6f" % (1000 * k + i) for i in range(4)) + "\n"
open(d + "/s.sp3", "w").write("\n".join(head + body + ["EOF"]).replace("@", "V") + @END@)
r = subprocess.run([sys.executable, "-B", tool, "-i", d + "/s.sp3", "-s", "G2"], capture_output=True, text=True)
ok = r.returncode == 0 and r.stdout == want
print("DEMO", "as it should be" if ok else "exit %d\n%s\n%s\ninstead of\n%s" % (r.returncode, r.stdout, r.stderr[-400:], want))
sys.exit(not ok)
P
'''
S("sp3py-velocities", "C33", [("var/sp3py.py", "      elif line[0] in ['E', 'V']:", "      elif line[0:2] in ['EP', 'EV']:")],
  "an orbit file with velocity records", "the listing ends with an error at the first velocity record",
  demo_sh=DEMO_SP3.replace("@VEL@", 'p("V", s, 7)').replace("@END@", '"\\n"'))
S("sp3py-last-line", "C33", [("var/sp3py.py", "if line and line[0:3] =='EOF': return line, pos_dict", "if line and line =='EOF\\n': return line, pos_dict")],
  "an orbit file whose last line ends without a newline", "the listing ends with an error instead of the last epoch",
  demo_sh=DEMO_SP3.replace("@VEL@", 'p("P", "G03", 9)').replace("@END@", '""'))

DEMO_PASTE = r'''#!/bin/bash
# Run in the repository: exit 0 if the behaviour holds.
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '%b' '@A@' > "$t/a"
printf '%b' '@B@' > "$t/b"
printf '%b' '@W@' > "$t/w"
python3 -B "$repo/var/pasteoncol.py" "$t/a" "$t/b" > "$t/o" || exit 1
cmp "$t/o" "$t/w"
'''
S("paste-equal-length", "C34", [("var/pasteoncol.py", "if len(lines1) > len(lines2):", "if len(lines1) >= len(lines2):")],
  "two files of equal length", "the lines come in the order of the first file instead of the second",
  demo_sh=DEMO_PASTE.replace("@A@", r"# a\n1 x\n2 y\n").replace("@B@", r"2 p\n1 q\n").replace("@W@", r"2 p 2 y\n1 q 1 x\n"))
S("paste-repeated-key", "C34", [("var/pasteoncol.py", "      matching_l=ln\n      break\n", "      matching_l=ln\n")],
  "a key that occurs twice in the shorter file", "a line is joined with the last line of its key instead of the first",
  demo_sh=DEMO_PASTE.replace("@A@", r"1 x\n2 y\n1 z\n3 w\n").replace("@B@", r"1 q\n2 r\n1 p\n").replace("@W@", r"1 x 1 q\n2 y 2 r\n1 z 1 q\n"))

S("galileo-relativity-toe", "C32", [("galnav.cpp", "constexpr double F_CLOCK = -4.442807309e-10;", "constexpr double F_CLOCK = 4.442807309e-10;")],
  "a session with Galileo satellites", "the relativistic clock correction of Galileo has the wrong sign: metres in the range",
  r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto f = kepler(2086, 266400);
  save("n", nav_header() + nav_record('E', 5, "2020 01 01 02 00 00", f, 28));
  NavigationRnx n("n");
  NavDataFrame m;
  CHECK(n.read_next_record(m) == 0);
  // two epochs half a revolution apart: the periodic part changes sign
  double s[3], c1 = 0, c2 = 0;
  datetime<seconds> t1(year(2020), month(1), day_of_month(1), hours(2), minutes(0), seconds(0));
  CHECK(m.stateNclock(t1, s, c1) == 0);
  double a = f[10] * f[10], M = f[6], E = M;
  for (int i = 0; i < 50; i++) E = M + f[8] * std::sin(E);
  double poly = f[0], rel = -4.442807309e-10 * f[8] * f[10] * std::sin(E);
  (void)a; (void)c2;
  CHECK(std::fabs(c1 - (poly + rel)) < 1e-9);
  return finish();
}''', checks=["C32", "C20"])
