// C28: the observation reader survives damaged files
#include "damage.hpp"
#include "obsgen.hpp"
using namespace ngpt;
using namespace og;

long vp_cases(int tier) { return tier ? 6000 : 400; }

using Vec = std::vector<std::pair<Satellite, std::vector<double>>>;
template <typename M> static std::string show(M &map, const modified_julian_day &d, double sod, const Vec &v, int n) {
  std::string s = fmt("%ld %.7f:", d.as_underlying_type(), sod);
  for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++) {
    s += fmt(" %c%02d", satsys_to_char(v[i].first.system()), v[i].first.prn());
    for (size_t q = 0; q < map[v[i].first.system()].size() && q < v[i].second.size(); q++)
      s += fmt(" %.4f", v[i].second[q]);
  }
  return s;
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("o");
  bool en = c.idx % 4 == 0;
  Hdr h;
  header(r, h, en || r.chance(1, 2) ? 5 : 40, !en && r.chance(1, 6));
  auto ep = epochs(r, h, r.in(1, en ? 4 : 12), en ? 5 : (r.chance(1, 30) ? 300 : r.chance(1, 8) ? 90 : 12), static_cast<int>(r.in(0, 4)));
  std::string base = text(r, h);
  size_t hend = base.size();
  std::vector<size_t> end;
  for (auto &e : ep) {
    for (auto &l : events(r, e.mjd, e.t7))
      base += l + "\n";
    for (auto &l : lines(r, e))
      base += l + "\n";
    end.push_back(base.size());
  }
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
  for (auto &t : h.types)
    if (r.chance(3, 4)) {
      SATELLITE_SYSTEM s = char_to_satsys(t.first);
      for (long k = r.in(1, 3); k > 0; k--) {
        req[s].push_back(GnssObservable(s, ObservationCode(r.pick(t.second).c_str())));
        if (r.chance(1, 3))
          req[s].back().add(s, ObservationCode(r.pick(t.second).c_str()), -1.5);
      }
    }
  std::vector<std::string> want;
  auto read = [&](ObservationRnx &o, size_t d, size_t limit, const std::string &t, bool first) {
    auto q = req;
    auto map = o.set_read_map(q, true);
    bool same_map = map.size() == req.size();
    for (auto &m : map)
      same_map = same_map && m.second.size() == req[m.first].size();
    auto v = o.initialize_epoch_vector(map);
    size_t k = 0, calls = 0;
    int st = 0, n = 0;
    modified_julian_day day(1);
    double sod = 0;
    while ((st = o.read_next_epoch(map, v, n, day, sod)) >= 0 && ++calls <= limit) {
      if (st) {
        c.event("errors_reported");
        continue;
      }
      VP_CHECK(c, n >= 0 && static_cast<size_t>(n) <= v.size(), "satellite-count", fmt("%d of %zu", n, v.size()));
      if (first) {
        want.push_back(show(map, day, sod, v, n));
      } else if (k < end.size() && d >= hend && end[k] <= d && k == calls - 1) {
        VP_CHECK(c, same_map && show(map, day, sod, v, n) == want[k], "epoch-before-damage", fmt("epoch %zu: %s instead of %s", k, show(map, day, sod, v, n).c_str(), want[k].c_str()));
        c.event("epochs_before_damage");
      }
      k++;
    }
    VP_CHECK(c, calls <= limit, "no-end", fmt("%zu calls for %zu lines", calls, limit - 8));
    size_t intact = 0;
    while (d >= hend && intact < end.size() && end[intact] <= d)
      intact++;
    VP_CHECK(c, k >= intact, "epoch-before-damage-lost", fmt("%zu epochs, %zu before the damage", k, intact));
    c.event("ends_reported");
    if (r.chance(1, 2))
      VP_CHECK(c, o.read_next_epoch(map, v, n, day, sod) != 0, "epoch-after-the-end", "");
    o.rewind();
  };
  p.write(base);
  try {
    ObservationRnx o(p.path.c_str());
    read(o, base.size(), dm::split(base).size() + 8, base, true);
  } catch (std::exception &) {
  }
  VP_CHECK(c, want.size() == end.size(), "undamaged-file", fmt("%zu of %zu epochs", want.size(), end.size()));
  dm::damage(c, base, en, 40, [&](const std::string &t, size_t d, const std::string &how) {
    c.desc("damage:" + how + "\n" + t.substr(0, 8000));
    p.write(t);
    const size_t limit = dm::split(t).size() + 8;
    try {
      ObservationRnx o(p.path.c_str());
      c.event("headers_accepted");
      for (int pass = 0; pass < 2; pass++)
        read(o, d, limit, t, false);
    } catch (std::exception &e) {
      c.event("headers_refused");
      VP_CHECK(c, d < hend, "refused-for-later-damage", e.what());
    }
    c.nontrivial(how + t.substr(0, 400));
  });
  c.sample(base.substr(0, 600));
}
