// C24: requested observables come from the right columns or are marked missing
#include "obsgen.hpp"
using namespace ngpt;
using namespace og;

long vp_cases(int tier) { return tier ? 400000 : 16000; }

struct Part {
  std::string code;
  double coef;
};
struct Req {
  std::vector<Part> p;
  bool present;
  bool alien; ///< of another system than filed under, or of several
};

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("o");
  Hdr h;
  header(r, h, r.chance(1, 2) ? 6 : (r.chance(1, 3) ? 60 : 30), false);
  auto ep = epochs(r, h, r.in(1, 6), 10, static_cast<int>(r.in(0, 6)));
  std::string body;
  for (auto &e : ep) {
    for (auto &l : events(r, e.mjd, e.t7, 30))
      body += l + "\n";
    for (auto &l : lines(r, e))
      body += l + "\n";
  }
  std::string all = text(r, h) + body;
  if (r.chance(1, 4))
    all.pop_back();
  std::string hdr;
  for (auto &t : h.types) {
    hdr += fmt("%c:", t.first);
    for (auto &x : t.second)
      hdr += " " + x;
    hdr += "\n";
  }
  p.write(all);
  c.desc(hdr + body.substr(0, 5000));
  try {
    ObservationRnx o(p.path.c_str());
    std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
    std::map<char, std::vector<Req>> model;
    std::string text;
    bool absent = false, alien = false, skip = r.chance(1, 2), absent_ok = r.chance(1, 2), alien_ok = r.chance(1, 8);
    for (char s : std::string("GRECJSI")) {
      auto *t = h.of(s);
      if (!r.chance(t ? 3 : (absent_ok ? 1 : 0), 4))
        continue;
      SATELLITE_SYSTEM sys = char_to_satsys(s);
      for (long k = r.in(1, 8); k > 0; k--) {
        Req q;
        q.present = t != nullptr;
        q.alien = alien_ok && t && r.chance(1, 4);
        for (long z = r.chance(1, 2) ? 1 : r.in(1, 4); z > 0; z--) {
          Part x;
          x.coef = r.chance(1, 3) ? 1. : (r.chance(1, 8) ? 0. : r.uni(-4, 4));
          if (t && !(absent_ok && !q.alien && r.chance(1, 12))) {
            x.code = r.pick(*t);
          } else {
            do
              x.code = codes(r, 1)[0];
            while (t && std::find(t->begin(), t->end(), x.code) != t->end());
            q.present = false;
          }
          q.p.push_back(x);
        }
        // system of the first part, and the part at which it changes
        SATELLITE_SYSTEM other = sys;
        size_t turn = q.p.size();
        if (q.alien) {
          while (other == sys)
            other = char_to_satsys(r.pickc("GRECJSI"));
          turn = r.chance(1, 2) ? 0 : static_cast<size_t>(r.in(0, static_cast<long>(q.p.size())));
          if (turn == q.p.size()) { // one part more, of the other system
            std::vector<std::string> *ot = nullptr;
            for (auto &x : h.types)
              if (char_to_satsys(x.first) == other)
                ot = &x.second;
            q.p.push_back({ot && r.chance(2, 3) ? r.pick(*ot) : r.pick(*t), 1.});
          }
        }
        GnssObservable g(turn == 0 ? other : sys, ObservationCode(q.p[0].code.c_str()), q.p[0].coef);
        for (size_t z = 1; z < q.p.size(); z++)
          g.add(q.alien && z >= turn && (turn == 0 || z == turn || r.chance(1, 2)) ? other : sys, ObservationCode(q.p[z].code.c_str()), q.p[z].coef);
        alien = alien || q.alien;
        req[sys].push_back(g);
        text += g.to_string() + " ";
        absent = absent || !q.present;
        model[s].push_back(q);
      }
    }
    if (req.empty())
      return;
    auto before = req;
    auto map = o.set_read_map(req, skip);
    std::string w = fmt("request %s%s: ", text.c_str(), skip ? "(skipping)" : "");
    if (alien) {
      VP_CHECK(c, map.empty(), "alien-observable-accepted", w);
      c.event("alien_requests_refused");
      c.nontrivial(text);
      return;
    }
    if (absent && !skip) {
      VP_CHECK(c, map.empty(), "absent-observable-accepted", w);
      VP_CHECK(c, req == before, "refused-request-changed", w);
      c.event("requests_refused");
      c.nontrivial(text);
      return;
    }
    // what is left of the request
    size_t kept = 0;
    for (auto &m : model) {
      std::vector<Req> left;
      std::vector<GnssObservable> g;
      SATELLITE_SYSTEM sys = char_to_satsys(m.first);
      for (size_t k = 0; k < m.second.size(); k++)
        if (m.second[k].present) {
          left.push_back(m.second[k]);
          g.push_back(before[sys][k]);
        } else {
          c.event("observables_removed");
        }
      auto it = req.find(sys);
      bool same = it == req.end() ? g.empty() : it->second.size() == g.size();
      for (size_t k = 0; same && k < g.size(); k++)
        same = it->second[k].to_string() == g[k].to_string();
      VP_CHECK(c, same, "request-after-call", w + m.first);
      auto mt = map.find(sys);
      VP_CHECK(c, (mt == map.end() ? 0 : mt->second.size()) == left.size(), "result-size", w + fmt("%c: %zu instead of %zu", m.first, mt == map.end() ? 0 : mt->second.size(), left.size()));
      m.second = left;
      kept += left.size();
    }
    c.event("requests_granted");
    if (!kept) {
      VP_CHECK(c, map.empty(), "result-not-empty", w);
      return;
    }
    auto v = o.initialize_epoch_vector(map);
    for (int pass = 0; pass < 2; pass++) {
      for (size_t k = 0; k < ep.size(); k++) {
        modified_julian_day mjd;
        double sod;
        int n = 0;
        int j = o.read_next_epoch(map, v, n, mjd, sod);
        if (j) {
          c.fail("status", w + fmt("epoch %zu of %zu: status %d", k, ep.size(), j));
          return;
        }
        int i = 0;
        for (auto &s : ep[k].s) {
          auto mt = model.find(s.sys);
          if (mt == model.end() || mt->second.empty())
            continue;
          if (i >= n) {
            c.fail("satellite-missing", w + fmt("epoch %zu: %c%02d", k, s.sys, s.prn));
            return;
          }
          auto &got = v[static_cast<size_t>(i++)];
          std::string z = w + fmt("epoch %zu, %c%02d", k, s.sys, s.prn);
          VP_CHECK(c, satsys_to_char(got.first.system()) == s.sys && got.first.prn() == s.prn, "satellite", z);
          auto &types = *h.of(s.sys);
          for (size_t q = 0; q < mt->second.size(); q++) {
            long double sum = 0, mag = 0;
            bool missing = false;
            for (auto &x : mt->second[q].p) {
              size_t col = static_cast<size_t>(std::find(types.begin(), types.end(), x.code) - types.begin());
              std::string f = s.f[col].substr(0, 14);
              if (f.find_first_not_of(' ') == std::string::npos) {
                missing = true;
                continue;
              }
              long double t = static_cast<long double>(x.coef) * std::strtod(f.c_str(), nullptr);
              sum += t;
              mag += std::abs(t);
            }
            double g = got.second[q];
            if (missing) {
              VP_CHECK(c, g == RNXOBS_MISSING_VAL, "missing-not-marked", z + fmt(": observable %zu (%s) is %.17g", q, req[char_to_satsys(s.sys)][q].to_string().c_str(), g));
              c.event("missing_compared");
            } else {
              VP_CHECK(c, std::abs(g - sum) <= 2e-15L * mag, mt->second[q].p.size() > 1 ? "combination" : "value",
                       z + fmt(": observable %zu (%s) is %.17g instead of %.17g", q, req[char_to_satsys(s.sys)][q].to_string().c_str(), g, static_cast<double>(sum)));
              c.event("values_compared");
              if (mt->second[q].p.size() > 1)
                c.event("combinations_compared");
            }
          }
          c.nontrivial(fmt("%zu %c%02d %s", k, s.sys, s.prn, text.c_str()));
        }
        VP_CHECK(c, i == n, "satellite-count", w + fmt("epoch %zu: %d instead of %d", k, n, i));
      }
      if (!r.chance(1, 3))
        break;
      o.rewind();
    }
  } catch (std::exception &e) {
    c.desc(all.substr(0, 6000));
    c.fail("valid-file-refused", e.what());
  }
  c.sample(hdr + body.substr(0, 500));
}
