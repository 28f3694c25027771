// C09: receiver-antenna lookup returns the exact or type-mean antenna
#include "antexgen.hpp"
using namespace ngpt;
using namespace ag;

static std::string rstrip(std::string s) {
  s.erase(s.find_last_not_of(' ') + 1);
  return s;
}

static void refuse(vp::Case &c, vp::Scratch &f, const std::string &txt, const char *why) {
  f.write(txt);
  c.desc(std::string(why) + ":\n" + txt.substr(0, 3000));
  bool ok = false;
  try {
    Antex a(f.path.c_str());
    ok = true;
  } catch (std::exception &) {
  }
  VP_CHECK(c, !ok, std::string("accepted:") + why, why);
  // the same for an object that held a good file before
  std::string good = pad("     1.4            M", 60) + "ANTEX VERSION / SYST\n" + pad("A", 60) + "PCV TYPE / REFANT\n" + pad("", 60) + "END OF HEADER\n";
  vp::Scratch g("g");
  g.write(good);
  ok = false;
  try {
    Antex a(g.path.c_str());
    a.reset_to_file(f.path.c_str());
    ok = true;
  } catch (std::exception &) {
  }
  VP_CHECK(c, !ok, std::string("accepted-on-reset:") + why, why);
  c.event("files_refused");
}

long vp_cases(int tier) { return tier ? 60000 : 4000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch f("a");
  if (c.idx % 8 == 0) {
    // files that must be refused, and minimal ones that must not
    std::string h = header(r), body = text("", {receiver(r), satellite(r)});
    std::vector<std::string> l;
    std::istringstream is(h);
    for (std::string x; std::getline(is, x);)
      l.push_back(x);
    static const char *BV[] = {"     1.2", "     2.4", "     1.5", "     0.0", "", "     abc", "    14.0", "1.30001e5"};
    auto m = l;
    m[0] = pad(BV[r.in(0, 7)], 20) + m[0].substr(20);
    refuse(c, f, join(m) + body, "version");
    m = l;
    m[1][0] = r.chance(2, 3) ? 'R' : r.pickc(" Xa0");
    refuse(c, f, join(m) + body, "relative");
    m = l;
    m.pop_back();
    refuse(c, f, join(m) + (r.chance(1, 2) ? body : ""), "no end of header");
    m = l;
    m[0][20] = r.pickc("XYZ#g1");
    refuse(c, f, join(m) + body, "unknown system");
    refuse(c, f, "", "empty");
    refuse(c, f, join({l[0]}), "only one line");
    c.desc("missing file");
    for (const char *p : {"/nonexistent/file", "/tmp"}) {
      bool ok = false;
      try {
        Antex a(p);
        ok = true;
      } catch (std::exception &) {
      }
      VP_CHECK(c, !ok, "accepted:missing", p);
    }
    c.desc("valid header:\n" + h);
    f.write(h);
    try {
      Antex a(f.path.c_str());
      VP_CHECK(c, a.filename() == f.path, "filename", a.filename());
      AntennaPcoList lst(AntennaPco(ObservationCode("L1C"), SATELLITE_SYSTEM::gps, 1, 2, 3));
      ReceiverAntenna q(model(r).c_str());
      int s = a.get_antenna_pco(q, lst);
      VP_CHECK(c, s != 0 && lst.__vecref__().empty(), "found-in-empty-file", fmt("status %d, %zu offsets", s, lst.__vecref__().size()));
      c.event("not_found");
    } catch (std::exception &e) {
      c.fail("valid-header-refused", e.what());
    }
    return;
  }
  std::vector<Entry> v;
  int n = static_cast<int>(r.in(1, r.chance(1, 10) ? 40 : 10));
  for (int i = 0; i < n; i++)
    v.push_back(r.chance(1, 5) ? satellite(r) : receiver(r));
  std::string head = header(r), txt = text(head, v);
  std::string list;
  for (auto &e : v)
    if (!e.sat)
      list += "'" + e.type + "' '" + e.serial + "'; ";
  c.desc(list);
  f.write(txt);
  try {
    Antex fresh(f.path.c_str()), a;
    bool late = r.chance(1, 3);
    if (late)
      a.reset_to_file(f.path.c_str());
    else
      a = Antex(f.path.c_str());
    AntennaPcoList got;
    int nq = static_cast<int>(r.in(4, 14));
    for (int k = 0; k < nq; k++) {
      std::string ty, se;
      if (r.chance(2, 3)) {
        auto &e = v[r.in(0, n - 1)];
        ty = e.sat ? model(r) : e.type;
        se = e.sat ? serial(r) : e.serial;
        if (r.chance(1, 3))
          se = r.chance(1, 2) ? "" : serial(r);
        if (r.chance(1, 10))
          ty = pad(ty, 20).substr(0, 16) + "NONE";
      } else {
        ty = model(r);
        if (r.chance(2, 3))
          se = serial(r);
      }
      bool strict = r.chance(1, 3);
      // model and radome in the query: blanks stay blanks when 20 are given
      ReceiverAntenna q(pad(ty, 20).c_str());
      if (!se.empty())
        q.set_serial_nr(se.c_str());
      // expectation
      std::vector<const Entry *> exact, mean;
      for (auto &e : v) {
        if (e.sat || pad(e.type, 20) != pad(ty, 20))
          continue;
        if (!se.empty() && rstrip(e.serial) == rstrip(se))
          exact.push_back(&e);
        if (e.serial.empty())
          mean.push_back(&e);
      }
      auto cand = !exact.empty() ? exact : (strict ? std::vector<const Entry *>() : mean);
      int s = a.get_antenna_pco(q, got, strict);
      auto g = report(got);
      std::string how = fmt("query '%s' serial '%s'%s -> status %d, %zu offsets: ", ty.c_str(), se.c_str(), strict ? " strict" : "", s, g.size()) + show(g);
      if (cand.empty()) {
        bool model = false; // with whatever serial
        for (auto &e : v)
          model = model || (!e.sat && pad(e.type, 20) == pad(ty, 20));
        VP_CHECK(c, s != 0, "found-absent", how);
        // documented: 1 no such antenna, 10 the serial does not match
        VP_CHECK(c, model || s == 1, "documented-status", how);
        VP_CHECK(c, mean.empty() || s == 10, "documented-status", how);
        VP_CHECK(c, g.empty(), "offsets-for-absent", how);
        c.event(strict && !mean.empty() ? "serial_mismatch" : "not_found");
      } else {
        VP_CHECK(c, s == 0, "not-found", how);
        bool ok = false;
        for (auto *e : cand)
          ok = ok || equal(g, e->f);
        VP_CHECK(c, ok, !exact.empty() ? "wrong-exact" : "wrong-mean", how + " instead of " + show(cand[0]->f));
        c.event(!exact.empty() ? "exact_matches" : "mean_matches");
        c.nontrivial(ty + "|" + se + "|" + show(cand[0]->f));
      }
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(list);
}
