SEEDS = {}
def S(i, prop, edits, needs, breaks, demo=None, **k):
    SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

S("bern-static-top", "C29",
  [("bern_utils.cpp", "  __istream.seekg(__part2);\n\n  // keep", "  static const pos_type top = __part2;\n  __istream.seekg(top);\n\n  // keep")],
  "two satellite files with first parts of different lengths, read in one run", "the second file is searched from where the first one's records began",
  r'''
#include "bern_utils.hpp"
int main() {
  using namespace ngpt;
  save("s1", bern_head() + bern_rec(8, 713, "2000 01 01 00 00 00", "", -2));
  save("s2", std::string(bern_head()).insert(bern_head().find("PART 2"), std::string("a line of the first part of this file, which is longer than that of the other\n")) + bern_rec(8, 713, "2000 01 01 00 00 00", "", 4));
  std::string h = bern_head();
  save("s3", h + bern_rec(7, 712, "2000 01 01 00 00 00", "", 1) + bern_rec(8, 713, "2000 01 01 00 00 00", "", 5));
  BernSatellit b("s2"), a("s1"), d("s3");
  int ch = 99, prn = 99;
  datetime<seconds> t(year(2010), month(1), day_of_month(1), seconds(0));
  CHECK(b.get_frequency_channel(713, t, ch, prn) == 0 && ch == 4);
  CHECK(a.get_frequency_channel(713, t, ch, prn) == 0 && ch == -2);
  CHECK(d.get_frequency_channel(713, t, ch, prn) == 0 && ch == 5);
  CHECK(d.get_frequency_channel(712, t, ch, prn) == 0 && ch == 1);
  return finish();
}''')

S("sp3-open-rw", "C35",
  [("sp3c.cpp", "__istream(filename, std::ios_base::in),", "__istream(filename, std::ios_base::in | std::ios_base::out),")],
  "looking at how the file is held (or an orbit file one may only read)", "the orbit file is opened for writing",
  r'''
#include "sp3c.hpp"
#include <fcntl.h>
int main() {
  using namespace ngpt;
  save("s", sp3_header() + sp3_epoch(0) + sp3_pos("G01", 1, 2, 3, 4) + "EOF\n");
  Sp3c s("s");
  int n = 0;
  for (int i = 3; i < 64; i++) {
    int m = fcntl(i, F_GETFL);
    if (m >= 0) {
      n++;
      CHECK((m & O_ACCMODE) == O_RDONLY);
    }
  }
  CHECK(n == 1);
  return finish();
}''')

S("sp3-scan-ahead", "C35",
  [("sp3c.cpp", "  if (!__istream.good())\n    return 1;\n  if (!next", """  if (!__istream.good())
    return 1;
  const pos_type here = __istream.tellg(); // is there an end at all?
  while (__istream.getline(line, MAX_RECORD_CHARS) && std::strncmp(line, "EOF", 3))
    ;
  __istream.clear();
  __istream.seekg(here);
  if (!next""")],
  "an orbit file of many epochs", "every epoch looks through the rest of the file: reading it takes quadratic effort",
  r'''
#include "sp3c.hpp"
#include <fcntl.h>
#include <unistd.h>
static long got() {
  char b[300] = {0};
  int f = open("/proc/self/io", O_RDONLY);
  long n = read(f, b, 299);
  close(f);
  return n > 0 ? atol(strstr(b, "rchar:") + 6) : 0;
}
int main() {
  using namespace ngpt;
  std::string t = sp3_header();
  for (int i = 0; i < 1000; i++)
    t += sp3_epoch(i % 60) + sp3_pos("G01", 1, 2, 3, 4);
  save("s", t + "EOF\n");
  Sp3c s("s");
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> e;
  int n = 0, k = 0;
  long a = got();
  while (!s.get_next_epoch(e, v, n))
    k++;
  CHECK(k == 1000);
  CHECK(got() - a < 20 * (long)t.size());
  return finish();
}''')

S("nav-visited", "C35",
  [("navrnx.cpp", "      if (prn == -1 || (prn == frame.prn()))\n        return 0;\n    } else {", "      visited__.push_back(curpos);\n      if (prn == -1 || prn == frame.prn())\n        return 0;\n    } else {"),
   ("navrnx.hpp", "  pos_type __end_of_head;    ///< Mark the 'END OF HEADER' field\n", "  pos_type __end_of_head;    ///< Mark the 'END OF HEADER' field\n  std::vector<pos_type> visited__; ///< where messages were looked for\n")],
  "many searches with one reader", "the reader remembers every message it has passed, and grows without bound",
  r'''
#include "navrnx.hpp"
#include <malloc.h>
int main() {
  using namespace ngpt;
  std::string t = nav_header();
  for (int i = 0; i < 20; i++)
    t += nav_record('G', i + 1, "2020 01 01 00 00 00", kepler(2086, 259200), 29);
  save("n", t);
  NavigationRnx n("n");
  NavDataFrame f;
  NavigationRnx::pos_type p(0);
  auto all = [&] {
    n.rewind();
    CHECK(n.find_next(p, f, SATELLITE_SYSTEM::gps, 20) == 0);
  };
  all();
  size_t a = mallinfo2().uordblks;
  for (int i = 0; i < 3000; i++)
    all();
  CHECK(mallinfo2().uordblks < a + 10000);
  return finish();
}''')

S("bern-answers-kept", "C35",
  [("bern_utils.cpp", "          ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));", "          ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));\n          answers__[{svn, eph.as_mjd()}] = ifrqn;"),
   ("bern_utils.hpp", "  pos_type __part2;        ///< Mark the 'PART 2: ON-BOARD SENSORS' field.\n", "  pos_type __part2;        ///< Mark the 'PART 2: ON-BOARD SENSORS' field.\n  std::map<std::pair<int, double>, int> answers__; ///< for statistics\n"),
   ("bern_utils.hpp", "#include <fstream>\n", "#include <fstream>\n#include <map>\n")],
  "many queries for different epochs with one reader", "every answer is kept, and the reader grows without bound",
  r'''
#include "bern_utils.hpp"
#include <malloc.h>
int main() {
  using namespace ngpt;
  save("s", bern_head() + bern_rec(8, 713, "2000 01 01 00 00 00", "", -2));
  BernSatellit b("s");
  int ch, prn;
  auto q = [&](int i) { CHECK(b.get_frequency_channel(713, datetime<seconds>(modified_julian_day(55000 + i), seconds(5)), ch, prn) == 0); };
  q(1);
  size_t a = mallinfo2().uordblks;
  for (int i = 0; i < 3000; i++)
    q(i);
  CHECK(mallinfo2().uordblks < a + 10000);
  return finish();
}''')
