// C25: calibration and satellite-info readers survive damaged files
#include "damage.hpp"
#include "antexgen.hpp"
#include "berngen.hpp"
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 8000 : 480; }

static std::string show(int st, AntennaPcoList &l, const Satellite &sv) {
  return fmt("%d ", st) + ag::show(ag::report(l)) + fmt("%c%02d %d ", satsys_to_char(sv.system()), sv.prn(), sv.svn()) + sv.antenna().to_string();
}

static void antex(vp::Case &c, bool en) {
  using namespace ag;
  auto &r = c.rng;
  vp::Scratch p("a");
  std::string head = header(r);
  if (en || r.chance(3, 4)) {
    head = L(r, pad("     1.4", 20) + "M", "ANTEX VERSION / SYST") + "\n" + L(r, "A", "PCV TYPE / REFANT") + "\n" + L(r, "", "END OF HEADER") + "\n";
  }
  std::vector<Entry> v;
  long n = en ? r.in(1, 2) : r.in(1, 8);
  std::vector<size_t> end;
  std::string base = head;
  for (long i = 0; i < n; i++) {
    Entry e = r.chance(1, 2) ? satellite(r) : receiver(r);
    if (en) {
      e.ncols = 3;
      if (e.f.size() > 2)
        e.f.resize(2);
      for (auto &q : e.f)
        q.rows = std::min(q.rows, 2);
      render(r, e);
    }
    v.push_back(e);
    base += join(e.lines);
    end.push_back(base.size());
  }
  struct Query {
    bool sat;
    std::string type, serial;
    char sys;
    int prn;
    Epoch at;
    size_t entry; ///< the one that answers it
    std::string want;
  };
  std::vector<Query> qs;
  for (size_t i = 0; i < v.size(); i++) {
    Query q{v[i].sat, v[i].type, v[i].serial, v[i].sys, v[i].prn, v[i].from, v.size(), ""};
    if (q.sat)
      for (size_t k = v.size(); k-- > 0;)
        if (v[k].sat && v[k].sys == q.sys && v[k].prn == q.prn && secs(v[k].from) <= secs(q.at) && (!v[k].has_until || secs(q.at) <= secs(v[k].until)))
          q.entry = k;
    qs.push_back(q);
  }
  qs.push_back({false, pad("NOSUCHANTENNA", 16) + "NONE", "77", 'G', 0, {}, v.size(), ""});
  qs.push_back({true, "", "", 'G', 63, {55000, 0}, v.size(), ""});
  auto ask = [&](Antex &a, const Query &q, AntennaPcoList &l, Satellite &sv) {
    int st;
    if (q.sat) {
      datetime<seconds> at(modified_julian_day(q.at.mjd), seconds(q.at.sec));
      st = a.get_antenna_pco(q.prn, char_to_satsys(q.sys), at, l, &sv);
      Satellite s2(SATELLITE_SYSTEM::sbas, 77);
      int s3 = a.get_satellite_info(q.prn, char_to_satsys(q.sys), at, s2);
      (void)s3;
    } else {
      ReceiverAntenna ant(q.type.c_str());
      if (!q.serial.empty())
        ant.set_serial_nr(q.serial.c_str());
      st = a.get_antenna_pco(ant, l, r.chance(1, 2));
    }
    return st;
  };
  p.write(base);
  try {
    Antex a(p.path.c_str());
    for (auto &q : qs)
      if (q.sat) {
        AntennaPcoList l;
        Satellite sv(SATELLITE_SYSTEM::sbas, 77);
        int st = ask(a, q, l, sv);
        q.want = show(st, l, sv);
      }
  } catch (std::exception &) {
    c.fail("undamaged-file", base.substr(0, 500));
  }
  dm::damage(c, base, en, 20, [&](const std::string &t, size_t d, const std::string &how) {
    c.desc("damage:" + how + "\n" + t.substr(0, 8000));
    p.write(t);
    try {
      Antex a(p.path.c_str());
      c.event("headers_accepted");
      for (auto &q : qs) {
        AntennaPcoList l;
        Satellite sv(SATELLITE_SYSTEM::sbas, 77);
        int st = ask(a, q, l, sv);
        c.event(st ? "queries_without_answer" : "queries_answered");
        if (q.entry < v.size() && d >= head.size() && end[q.entry] <= d) {
          VP_CHECK(c, show(st, l, sv) == q.want, "entry-before-damage", show(st, l, sv) + " instead of " + q.want);
          c.event("entries_before_damage");
        } else if (!st) {
          show(st, l, sv);
        }
      }
    } catch (std::exception &e) {
      c.event("headers_refused");
      VP_CHECK(c, d < head.size(), "refused-for-later-damage", e.what());
    }
    c.nontrivial(how + t.substr(0, 400));
  });
  c.sample(base.substr(0, 600));
}

static void bern(vp::Case &c, bool en) {
  using namespace bg;
  auto &r = c.rng;
  vp::Scratch p("b");
  auto v = records(r);
  if (en && v.size() > 4)
    v.resize(4);
  std::string head = part1(r);
  if (en || r.chance(3, 4))
    head = std::string(TITLE) + "\n----\n\nPART 1: PHYSICAL SATELLITE PARAMETERS\n\n";
  head += heads();
  std::string base = head;
  std::vector<size_t> end;
  for (auto &e : v) {
    base += e.line + "\n";
    end.push_back(base.size());
  }
  base += tail(r, v);
  dm::damage(c, base, en, 20, [&](const std::string &t, size_t d, const std::string &how) {
    c.desc("damage:" + how + "\n" + t.substr(0, 8000));
    p.write(t);
    try {
      BernSatellit b(p.path.c_str());
      c.event("headers_accepted");
      for (int k = 0; k < 4; k++) {
        auto &e = r.pick(v);
        int svn = k < 3 ? e.svn : static_cast<int>(r.in(1, 900));
        long s = r.chance(1, 2) ? e.from : e.from + r.in(0, 86400L * 3000);
        const Rec *w = nullptr;
        size_t at = 0;
        for (size_t i = 0; i < v.size() && !w; i++)
          if (v[i].mw && v[i].svn == svn && v[i].from <= s && (v[i].until < 0 || s < v[i].until)) {
            w = &v[i];
            at = i;
          }
        int ch = 99, prn = 99;
        int st = b.get_frequency_channel(svn, datetime<seconds>(modified_julian_day(s / 86400), seconds(s % 86400)), ch, prn);
        c.event(st ? "queries_without_answer" : "queries_answered");
        if (w && d >= head.size() && end[at] <= d) {
          VP_CHECK(c, st == 0 && ch == w->chan, "record-before-damage", fmt("vehicle %d: status %d channel %d instead of %d", svn, st, ch, w->chan));
          c.event("entries_before_damage");
        }
      }
    } catch (std::exception &e) {
      c.event("headers_refused");
      VP_CHECK(c, d < head.size(), "refused-for-later-damage", e.what());
    }
    c.nontrivial(how + t.substr(0, 400));
  });
  c.sample(base.substr(0, 600));
}

void vp_case(vp::Case &c) {
  bool en = c.idx % 8 == 0 || c.idx % 8 == 3;
  if (c.idx % 2)
    bern(c, en);
  else
    antex(c, en);
}
