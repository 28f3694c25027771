// C12: GLONASS channel lookup matches vehicle and epoch
#include "berngen.hpp"
using namespace ngpt;
using namespace bg;

long vp_cases(int tier) { return tier ? 150000 : 12000; }

static bool opens(const std::string &p) {
  try {
    BernSatellit b(p.c_str());
    return true;
  } catch (std::exception &) {
    return false;
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch f("b");
  auto v = records(r);
  std::string p1 = part1(r), body;
  for (auto &e : v)
    body += e.line + "\n";
  if (c.idx % 8 == 0) {
    // files that must be refused
    auto bad = [&](const char *why, const std::string &t) {
      c.desc(std::string(why) + "\n" + t.substr(0, 3000));
      f.write(t);
      VP_CHECK(c, !opens(f.path), std::string("accepted:") + why, why);
      c.event("files_refused");
    };
    auto alter = [&](std::string t, size_t pos, size_t n) {
      size_t k = pos + static_cast<size_t>(r.in(0, static_cast<long>(n) - 1));
      char x = t[k];
      while (x == t[k])
        x = r.pickc("ABXYZ#0129 _");
      t[k] = x;
      return t;
    };
    std::string h = heads(), full = p1 + h + body;
    bad("title", alter(full, 0, std::strlen(TITLE)));
    bad("title cut", full.substr(1));
    bad("part 2", alter(full, p1.size(), std::strlen(PART2)));
    size_t a = p1.size() + std::strlen(PART2) + 1 + 25;
    bad("first headings", alter(full, a, std::strlen(H1)));
    bad("second headings", alter(full, a + std::strlen(H1) + 1, std::strlen(H2)));
    bad("no records part", p1);
    bad("only title", std::string(TITLE) + "\n");
    bad("empty", "");
    bad("headings cut", full.substr(0, a + static_cast<size_t>(r.in(0, static_cast<long>(std::strlen(H1) + std::strlen(H2))))));
    for (const char *p : {"/nonexistent/file", "/tmp"})
      VP_CHECK(c, !opens(p), "accepted:missing", p);
    return;
  }
  std::string t = p1 + heads() + body + tail(r, v);
  std::string list;
  for (size_t i = 0; i < v.size() && i < 60; i++)
    list += v[i].line.substr(0, 84) + (v[i].line.size() > 190 ? v[i].line.substr(190, 8) : std::string()) + "\n";
  c.desc(list);
  f.write(t);
  try {
    BernSatellit b(f.path.c_str());
    int nq = static_cast<int>(r.in(5, 20));
    for (int k = 0; k < nq; k++) {
      auto &e = v[r.in(0, static_cast<long>(v.size()) - 1)];
      int svn = r.chance(5, 6) ? e.svn : static_cast<int>(r.in(1, 900));
      long s;
      switch (r.in(0, 6)) {
      case 0: s = e.from; break;
      case 1: s = e.from - 1; break;
      case 2: s = e.until >= 0 ? e.until : e.from + 1; break;
      case 3: s = e.until >= 0 ? e.until - 1 : e.from + 86400L * 30000; break;
      case 4: s = e.from + r.in(0, 86400L * 700); break;
      default: s = r.in(44240, 77000) * 86400L + r.in(0, 86399);
      }
      const Rec *w = nullptr;
      for (auto &x : v)
        if (x.mw && x.svn == svn && x.from <= s && (x.until < 0 || s < x.until)) {
          w = &x;
          break;
        }
      int ch = 99, prn = -5;
      int st = b.get_frequency_channel(svn, datetime<seconds>(modified_julian_day(s / 86400), seconds(s % 86400)), ch, prn);
      std::string q = fmt("vehicle %d at ", svn) + when(s) + fmt(" -> status %d channel %d slot %d", st, ch, prn);
      if (w) {
        VP_CHECK(c, st == 0, "not-found", q + " instead of " + w->line.substr(0, 84));
        VP_CHECK(c, st || ch == w->chan, "wrong-channel", q + fmt(" instead of %d", w->chan));
        VP_CHECK(c, st || prn == w->prn, "wrong-slot", q + fmt(" instead of %d", w->prn));
        c.event("channels_compared");
        c.nontrivial(q);
      } else {
        VP_CHECK(c, st == -1, "found-absent", q);
        c.event("not_found");
      }
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(list);
}
