// C27: the navigation reader survives damaged files
#include "damage.hpp"
#include "navgen.hpp"
using namespace ngpt;
using namespace ng;

long vp_cases(int tier) { return tier ? 6000 : 400; }

static std::string show(const NavDataFrame &f) {
  std::string s = fmt("%c%02d %ld %ld", satsys_to_char(f.system()), f.prn(), f.toc().mjd().as_underlying_type(), f.toc().sec().as_underlying_type());
  int n = std::strchr("RS", satsys_to_char(f.system())) ? 15 : 28;
  for (int i = 0; i < n; i++)
    s += fmt(" %.13e", f.data(i));
  return s;
}
// use what a record offers
static void use(vp::Case &c, const NavDataFrame &f) {
  try {
    f.sv_health();
    f.fit_interval();
    auto t = f.toe<milliseconds>();
    double x[6] = {0}, clk = 0;
    t.add_seconds(milliseconds(60000L));
    f.stateNclock(t, x, clk);
    if (f.system() == SATELLITE_SYSTEM::gps)
      f.gps_ura();
    if (f.system() == SATELLITE_SYSTEM::galileo) {
      f.gal_sisa();
      f.gal_iod_nav();
    }
    c.event("records_used");
  } catch (std::runtime_error &) {
    c.event("records_refused_use");
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("n");
  bool en = c.idx % 4 == 0;
  std::vector<std::string> head = header(r);
  if (en || r.chance(3, 4))
    while (head.size() > 10)
      head.erase(head.begin() + 2);
  std::string base = join(head);
  size_t hend = base.size();
  std::vector<size_t> end;
  std::vector<std::string> want;
  long n = en ? r.in(1, 4) : r.in(1, 14);
  long mjd = anymjd(r, 'C'), sod = anysod(r);
  for (long i = 0; i < n; i++) {
    char s = r.pickc("GGRRECCJSI");
    Rec x = record(r, s, mjd, sod, 'D');
    base += join(lines(r, x));
    end.push_back(base.size());
  }
  p.write(base);
  try {
    NavigationRnx nav(p.path.c_str());
    NavDataFrame f;
    while (!nav.read_next_record(f))
      want.push_back(show(f));
  } catch (std::exception &) {
  }
  VP_CHECK(c, want.size() == end.size(), "undamaged-file", fmt("%zu of %zu records", want.size(), end.size()));
  dm::damage(c, base, en, 40, [&](const std::string &t, size_t d, const std::string &how) {
    c.desc("damage:" + how + "\n" + t.substr(0, 8000));
    p.write(t);
    const size_t limit = dm::split(t).size() + 8;
    try {
      NavigationRnx nav(p.path.c_str());
      c.event("headers_accepted");
      // read on through errors until the end
      NavDataFrame f;
      size_t k = 0, calls = 0;
      int st = 0;
      while ((st = nav.read_next_record(f)) >= 0 && ++calls <= limit)
        if (!st) {
          if (k < end.size() && end[k] <= d && k == calls - 1) {
            VP_CHECK(c, show(f) == want[k], "record-before-damage", fmt("record %zu: %s instead of %s", k, show(f).c_str(), want[k].c_str()));
            c.event("records_before_damage");
          }
          k++;
          use(c, f);
        } else {
          c.event("errors_reported");
        }
      VP_CHECK(c, calls <= limit, "no-end", fmt("%zu calls for %zu lines", calls, limit - 8));
      size_t intact = 0;
      while (d >= hend && intact < end.size() && end[intact] <= d)
        intact++;
      VP_CHECK(c, k >= intact, "record-before-damage-lost", fmt("%zu records, %zu before the damage", k, intact));
      c.event("ends_reported");
      for (int i = 0; i < 3; i++)
        VP_CHECK(c, nav.read_next_record(f) != 0, "record-after-the-end", "");
      // searches
      nav.rewind();
      for (int q = 0; q < 4; q++) {
        SATELLITE_SYSTEM s = char_to_satsys(r.pickc("GRECGRECSJI"));
        NavigationRnx::pos_type pos;
        int prn = r.chance(1, 3) ? -1 : static_cast<int>(r.in(1, 99));
        calls = 0;
        do {
          if (r.chance(1, 2)) {
            st = nav.find_next(pos, f, s, prn);
          } else {
            datetime<milliseconds> at(modified_julian_day(mjd), milliseconds((sod + r.in(-9000, 9000)) * 1000L));
            if (q & 1)
              at = datetime<milliseconds>(modified_julian_day(r.in(0, 90000)), milliseconds(0L));
            st = nav.find_next_valid(at, pos, f, s, prn);
          }
        } while (st == 0 && ++calls <= limit);
        VP_CHECK(c, calls <= limit, "search-no-end", fmt("%zu calls for %zu lines", calls, limit - 8));
        c.event("searches");
        if (r.chance(1, 2))
          nav.rewind();
      }
      // skips
      nav.rewind();
      calls = 0;
      while (!nav.ignore_next_block() && ++calls <= limit)
        ;
      VP_CHECK(c, calls <= limit, "skip-no-end", fmt("%zu calls for %zu lines", calls, limit - 8));
    } catch (std::exception &e) {
      c.event("headers_refused");
      size_t eoh = base.rfind("END OF HEADER", hend);
      VP_CHECK(c, d < hend || eoh == std::string::npos, "refused-for-later-damage", e.what());
    }
    c.nontrivial(how + t.substr(0, 400));
  });
  c.sample(base.substr(0, 600));
}
