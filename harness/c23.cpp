// C23: observation epochs are delivered completely and in order
#include "obsgen.hpp"
using namespace ngpt;
using namespace og;

long vp_cases(int tier) { return tier ? 300000 : 12000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("o");
  Hdr h;
  header(r, h, r.chance(1, 2) ? 5 : (r.chance(1, 3) ? 60 : 40), false);
  auto ep = epochs(r, h, r.chance(1, 12) ? 0 : r.in(1, r.chance(1, 3) ? 30 : 6), r.chance(1, 40) ? 500 : r.chance(1, 8) ? 90 : 12, static_cast<int>(r.in(0, 4)));
  std::string body;
  for (auto &e : ep) {
    for (auto &l : events(r, e.mjd, e.t7))
      body += l + "\n";
    for (auto &l : lines(r, e))
      body += l + "\n";
  }
  for (auto &l : events(r, ep.empty() ? h.mjd : ep.back().mjd, ep.empty() ? 0 : ep.back().t7))
    body += l + "\n";
  std::string all = text(r, h) + body;
  if (r.chance(1, 4))
    all.pop_back();
  c.desc(body.substr(0, 6000));
  p.write(all);
  try {
    ObservationRnx o(p.path.c_str());
    std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
    std::string asked;
    for (auto &t : h.types)
      if (r.chance(2, 3)) {
        SATELLITE_SYSTEM s = char_to_satsys(t.first);
        for (long k = r.in(1, 3); k > 0; k--)
          req[s].push_back(GnssObservable(s, ObservationCode(r.pick(t.second).c_str())));
        asked += t.first;
      }
    auto map = o.set_read_map(req);
    if (map.size() != req.size()) {
      c.fail("request-refused", asked);
      return;
    }
    auto v = o.initialize_epoch_vector(map);
    long steps = static_cast<long>(ep.size()) + r.in(1, 20);
    size_t at = 0;
    for (long k = 0; k < steps; k++) {
      if (r.chance(1, 12)) {
        o.rewind();
        at = 0;
        c.event("rewinds");
      }
      modified_julian_day mjd(1);
      double sod = -1;
      int n = -1;
      int j = o.read_next_epoch(map, v, n, mjd, sod);
      std::string w = fmt("systems %s, epoch %zu of %zu: status %d, %d satellites, mjd %ld %.7f s", asked.c_str(), at, ep.size(), j, n, mjd.as_underlying_type(), sod);
      if (at == ep.size()) {
        VP_CHECK(c, j < 0, "end-not-reported", w);
        VP_CHECK(c, n == 0, "satellites-after-the-end", w);
        c.event("ends_reported");
        continue;
      }
      auto &e = ep[at];
      if (j != 0) {
        c.fail("status", w);
        return;
      }
      VP_CHECK(c, mjd.as_underlying_type() == e.mjd && std::abs(sod - static_cast<double>(e.t7) / 1e7) < 1e-9, "epoch-date", w + fmt(" instead of %ld %.7f", e.mjd, static_cast<double>(e.t7) / 1e7));
      std::vector<std::pair<char, int>> want;
      for (auto &s : e.s)
        if (asked.find(s.sys) != std::string::npos)
          want.push_back({s.sys, s.prn});
        else
          c.event("satellites_skipped");
      VP_CHECK(c, n == static_cast<int>(want.size()), "satellite-count", w + fmt(" instead of %zu", want.size()));
      for (size_t i = 0; i < want.size() && static_cast<int>(i) < n; i++) {
        VP_CHECK(c, satsys_to_char(v[i].first.system()) == want[i].first && v[i].first.prn() == want[i].second, "satellite",
                 w + fmt(" satellite %zu is %c%02d instead of %c%02d", i, satsys_to_char(v[i].first.system()), v[i].first.prn(), want[i].first, want[i].second));
        c.event("satellites_compared");
      }
      c.event("epochs_compared");
      c.nontrivial(fmt("%ld %ld %zu %s", e.mjd, e.t7, e.s.size(), asked.c_str()));
      at++;
    }
  } catch (std::exception &e) {
    c.desc(all.substr(0, 6000));
    c.fail("valid-file-refused", e.what());
  }
  c.sample(body.substr(0, 600));
}
