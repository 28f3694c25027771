// C11: satellite-antenna lookup honours satellite and validity interval
#include "antexgen.hpp"
using namespace ngpt;
using namespace ag;

long vp_cases(int tier) { return tier ? 60000 : 4000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  std::vector<Entry> v;
  int n = static_cast<int>(r.in(1, r.chance(1, 10) ? 40 : 14));
  for (int i = 0; i < n; i++) {
    Entry e = r.chance(1, 4) ? receiver(r) : satellite(r);
    if (e.sat && !v.empty() && r.chance(1, 2)) {
      // another interval of, or another body at, an earlier satellite
      auto &p = v[r.in(0, static_cast<long>(v.size()) - 1)];
      if (p.sat) {
        e.sys = p.sys;
        e.prn = p.prn;
        if (r.chance(1, 2)) {
          e.from = p.has_until && r.chance(2, 3) ? p.until : p.from;
          if (r.chance(1, 2)) {
            long s = secs(e.from) + 1;
            e.from = {s / 86400, static_cast<int>(s % 86400)};
          }
          if (e.has_until && secs(e.until) < secs(e.from))
            e.has_until = false;
        }
        render(r, e);
      }
    }
    if (r.chance(1, 25)) {
      // an antenna without frequency sections (and its optional lines)
      e.f.clear();
      render(r, e);
    }
    v.push_back(e);
  }
  std::string list;
  for (auto &e : v)
    list += e.sat ? fmt("%c%02d svn %d '%s' %s %ld:%d-%ld:%d; ", e.sys, e.prn, e.svn, e.type.c_str(), e.cospar.c_str(), e.from.mjd, e.from.sec,
                        e.has_until ? e.until.mjd : 0L, e.has_until ? e.until.sec : 0)
                  : "'" + e.type + "' '" + e.serial + "'; ";
  c.desc(list);
  vp::Scratch f("a");
  f.write(text(header(r), v));
  try {
    Antex a(f.path.c_str());
    AntennaPcoList got;
    Satellite sv(SATELLITE_SYSTEM::sbas, 77);
    int nq = static_cast<int>(r.in(5, 16));
    for (int k = 0; k < nq; k++) {
      char sys = r.pickc("GRECJSI");
      int prn = static_cast<int>(r.in(1, 36));
      Epoch t = epoch(r);
      auto &e = v[r.in(0, n - 1)];
      if (e.sat && r.chance(5, 6)) {
        sys = e.sys;
        prn = e.prn;
        long s = 0;
        switch (r.in(0, 6)) {
        case 0: s = secs(e.from); break;
        case 1: s = secs(e.from) - 1; break;
        case 2: s = secs(e.has_until ? e.until : e.from); break;
        case 3: s = secs(e.has_until ? e.until : e.from) + 1; break;
        case 4: s = secs(e.from) + r.in(0, 86400L * 300); break;
        case 5: s = secs(e.from) + 86400L * 36525; break;
        default: s = secs(t);
        }
        t = {s / 86400, static_cast<int>(s % 86400)};
      }
      const Entry *w = nullptr;
      for (auto &x : v)
        if (x.sat && x.sys == sys && x.prn == prn && secs(x.from) <= secs(t) && (!x.has_until || secs(t) <= secs(x.until))) {
          w = &x;
          break;
        }
      datetime<seconds> at(modified_julian_day(t.mjd), seconds(t.sec));
      int how = static_cast<int>(r.in(0, 2)), s;
      if (how == 0)
        s = a.get_satellite_info(prn, char_to_satsys(sys), at, sv);
      else
        s = a.get_antenna_pco(prn, char_to_satsys(sys), at, got, how == 1 ? &sv : nullptr);
      auto g = report(got);
      std::string q = fmt("%c%02d at %ld:%d (call %d) -> status %d ", sys, prn, t.mjd, t.sec, how, s);
      if (!w) {
        VP_CHECK(c, s != 0, "found-absent", q + show(g));
        VP_CHECK(c, how == 0 || g.empty(), "offsets-for-absent", q + show(g));
        c.event("not_found");
        continue;
      }
      q += fmt("expected svn %d '%s' %s", w->svn, w->type.c_str(), w->cospar.c_str());
      if (how > 0 && w->f.empty()) {
        VP_CHECK(c, g.empty(), "invented-offsets", q + show(g));
        continue;
      }
      VP_CHECK(c, s == 0, "not-found", q);
      if (how > 0)
        VP_CHECK(c, equal(g, w->f), "wrong-offsets", q + " offsets " + show(g) + " instead of " + show(w->f));
      if (how < 2) {
        std::string id(sv.cospar(), strnlen(sv.cospar(), 9));
        VP_CHECK(c, sv.system() == char_to_satsys(sys) && sv.prn() == prn, "wrong-satellite", q + " got " + sv.to_string());
        VP_CHECK(c, sv.svn() == w->svn, "wrong-vehicle", q + fmt(" got %d", sv.svn()));
        VP_CHECK(c, sv.antenna().is_same(pad(w->type, 20).c_str()), "wrong-antenna", q + " got '" + vp::esc(sv.antenna().to_string()) + "'");
        VP_CHECK(c, id == w->cospar.substr(0, 8), "wrong-cospar", q + " got '" + vp::esc(id) + "'");
      }
      c.event(how == 0 ? "satellites_compared" : "offset_lists_compared");
      c.nontrivial(q);
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(list);
}
