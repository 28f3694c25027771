// C10: phase-centre offsets are returned per frequency exactly as listed
#include "antexgen.hpp"
using namespace ngpt;
using namespace ag;

static const char LET[] = "GRSECJI";

/// nothing but offsets of the intact sections, in file order
static bool subsequence(const std::vector<Got> &g, const std::vector<Freq> &f) {
  size_t j = 0;
  for (auto &x : g) {
    while (j < f.size() && !equal(x, f[j]))
      ++j;
    if (j++ == f.size())
      return false;
  }
  return true;
}
static size_t label(const std::vector<std::string> &l, const char *w, int nth = 0) {
  for (size_t i = 0; i < l.size(); i++)
    if (l[i].size() > 60 && !l[i].compare(60, std::strlen(w), w) && nth-- == 0)
      return i;
  return l.size();
}
/// make the sections of an antenna malformed; says how
static std::string spoil(vp::Rng &r, Entry &e) {
  auto &l = e.lines;
  int nf = static_cast<int>(e.f.size());
  int w = static_cast<int>(r.in(0, nf - 1));
  auto drop = [&](const char *lab, int nth) {
    size_t i = label(l, lab, nth);
    l.erase(l.begin() + static_cast<long>(i));
    return std::string("dropped ") + lab + fmt(" (%d)", nth);
  };
  auto put = [&](const char *lab, int nth, size_t pos, const std::string &t) {
    size_t i = label(l, lab, nth);
    l[i].replace(pos, t.size(), t);
    return std::string("'") + t + "' in " + lab + fmt(" (%d)", nth);
  };
  switch (r.in(0, 13)) {
  case 0: return drop("METH / BY", 0);
  case 1: return drop("DAZI", 0);
  case 2: return drop("ZEN1", 0);
  case 3: return drop("# OF FREQ", 0);
  case 4: return put("# OF FREQ", 0, 0, r.chance(1, 2) ? "      " : "     x");
  case 5: return put("# OF FREQ", 0, 0, fmt("%6d", nf + static_cast<int>(r.in(1, 3))));
  case 6: {
    // the announced sections are not there
    size_t i = label(l, "START OF FREQUENCY", w), j = label(l, "END OF FREQUENCY", w);
    l.erase(l.begin() + static_cast<long>(i), l.begin() + static_cast<long>(j) + 1);
    e.f.erase(e.f.begin() + w);
    return "dropped a section";
  }
  case 7: {
    // NORTH / EAST / UP of the section itself, not of an RMS section
    size_t i = label(l, "START OF FREQUENCY", w);
    l.erase(l.begin() + static_cast<long>(i) + 1);
    e.f.erase(e.f.begin() + w);
    return "dropped offsets line";
  }
  case 8:
  case 9: {
    size_t i = label(l, "START OF FREQUENCY", w) + 1;
    int k = static_cast<int>(r.in(0, 2));
    static const char *B[] = {"          ", "       abc", "         -", "         ."};
    l[i].replace(static_cast<size_t>(k) * 10, 10, B[r.in(0, 3)]);
    e.f.erase(e.f.begin() + w);
    return "unreadable offset";
  }
  case 10:
    e.f.erase(e.f.begin() + w);
    return put("START OF FREQUENCY", w, 3, std::string(1, r.pickc("XZ#g ")));
  case 11:
    e.f.erase(e.f.begin() + w);
    return put("START OF FREQUENCY", w, 4, r.chance(1, 2) ? "  " : "ab");
  case 12: {
    std::string s = drop("START OF FREQUENCY", w);
    e.f.erase(e.f.begin() + w);
    return s;
  }
  default: {
    size_t i = label(l, "START OF FREQUENCY", w) + 1;
    l[i] = l[i].substr(0, r.in(0, 59));
    e.f.erase(e.f.begin() + w);
    return "offsets line cut short";
  }
  }
}

long vp_cases(int tier) { return tier ? 60000 : 4000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  if (c.idx % 16 == 0) {
    // entries built by hand
    for (int k = 0; k < 60; k++) {
      char sy = r.pickc(LET);
      int band = static_cast<int>(r.in(1, 9));
      double v[3] = {r.uni(-1e3, 1e3), r.in(-99999, 99999) * 0.01, r.chance(1, 4) ? 0. : r.uni(-1, 1)};
      std::string code = fmt("%c%d%c", r.pickc("CLDS"), band, r.pickc("CWXPQI"));
      c.desc(fmt("%c %s %.17g %.17g %.17g", sy, code.c_str(), v[0], v[1], v[2]));
      AntennaPco p(ObservationCode(code.c_str()), char_to_satsys(sy), v[0], v[1], v[2]);
      AntennaPcoList l(p);
      AntennaPcoList copy(l), empty;
      auto g = report(copy);
      VP_CHECK(c, empty.__vecref__().empty(), "list-not-empty", "");
      VP_CHECK(c, g.size() == 1 && g[0].sys == sy && g[0].band == band && g[0].v[0] == v[0] && g[0].v[1] == v[1] && g[0].v[2] == v[2] &&
                      g[0].raw.find(code) == 2,
               "by-hand", show(g));
      AntennaPco d(ObservationCode(code.c_str()), char_to_satsys(sy));
      l.__vecref__().assign(1, d);
      g = report(l);
      VP_CHECK(c, g.size() == 1 && g[0].v[0] == 0 && g[0].v[1] == 0 && g[0].v[2] == 0, "by-hand-default", show(g));
      c.event("built_by_hand");
    }
    return;
  }
  // a file of distinct antennas
  std::vector<Entry> v;
  int n = static_cast<int>(r.in(1, 6));
  for (int i = 0; i < n; i++) {
    Entry e = r.chance(1, 3) ? satellite(r) : receiver(r);
    if (e.sat) {
      e.prn = 1 + i;
      e.sys = 'G';
      e.has_until = false;
    } else {
      e.type = pad(fmt("MODEL%d", i), 16) + "NONE";
      e.serial = r.chance(1, 2) ? serial(r) : "";
    }
    render(r, e);
    v.push_back(e);
  }
  bool bad = r.chance(1, 2);
  int b = static_cast<int>(r.in(0, n - 1));
  std::string how;
  if (bad)
    how = spoil(r, v[b]);
  std::string txt = text(header(r), v);
  std::string d = (bad ? fmt("antenna %d malformed: ", b) + how + "\n" : "well formed\n") + join(v[b].lines).substr(0, 2500);
  c.desc(d);
  vp::Scratch f("a");
  f.write(txt);
  try {
    Antex a(f.path.c_str());
    AntennaPcoList got;
    for (int k = 0; k < 2 * n; k++) {
      int i = static_cast<int>(r.in(0, n - 1));
      auto &e = v[i];
      int s;
      // something that was there before must go
      if (r.chance(1, 2))
        got.__vecref__().emplace_back(ObservationCode("C1C"), SATELLITE_SYSTEM::gps, 9, 9, 9);
      if (e.sat) {
        s = a.get_antenna_pco(e.prn, SATELLITE_SYSTEM::gps, datetime<seconds>(modified_julian_day(e.from.mjd), seconds(e.from.sec)), got);
      } else {
        ReceiverAntenna q(e.type.c_str());
        if (!e.serial.empty())
          q.set_serial_nr(e.serial.c_str());
        s = a.get_antenna_pco(q, got, !e.serial.empty());
      }
      auto g = report(got);
      std::string w = fmt("antenna %d of %d: status %d, offsets ", i, n, s) + show(g) + " listed " + show(e.f);
      if (bad && i == b) {
        VP_CHECK(c, s != 0, "malformed-accepted", w);
        VP_CHECK(c, subsequence(g, e.f), "invented-offsets", w);
        c.event("malformed_reported");
      } else {
        VP_CHECK(c, s == 0, "refused", w);
        VP_CHECK(c, equal(g, e.f), "wrong-offsets", w);
        c.event("lists_compared");
        c.event("offsets_compared", static_cast<long>(g.size()));
        c.nontrivial(show(e.f));
      }
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(d);
}
