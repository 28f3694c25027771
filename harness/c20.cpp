// C20: GLONASS orbits follow the simplified ICD integration to the epoch
#include "gloref.hpp"
using namespace ngpt;
using namespace ng;
using namespace kr;

long vp_cases(int tier) { return tier ? 3000000 : 36000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("g");
  Rec x = record(r, 'R', anymjd(r, 'R'), anysod(r), 'D');
  glo_orbit(r, x);
  c.desc(join(lines(r, x)));
  NavDataFrame f;
  int j = decode(p, r, x, f);
  if (j) {
    c.fail("decode", fmt("status %d", j));
    return;
  }
  __int128 toe = usec(x.toe_mjd, x.toe_sod);
  const std::string before = image(f);
  int k = static_cast<int>(r.in(2, 5));
  for (int i = 0; i < k; i++) {
    int unit = static_cast<int>(r.in(0, 2));
    long o = offset(r, 900, unit);
    bool far = r.chance(1, 8);
    if (far) {
      o = 900000000L + UNIT[unit] * (r.chance(1, 2) ? 1 : r.in(1, 900000000L / UNIT[unit]));
      if (r.chance(1, 4))
        o = UNIT[unit] * r.in(900000000L / UNIT[unit] + 1, 6 * (3600000000L / UNIT[unit]) - 1);
      if (r.chance(1, 6))
        o = 86400000000L * r.in(1, 8) + (r.chance(1, 2) ? 0 : UNIT[unit] * r.in(0, 50));
      if (r.chance(1, 2))
        o = -o;
    }
    double s[6] = {1, 2, 3, 4, 5, 6}, ck = 0, s2[6];
    j = state_clock(f, toe + o, unit, s, ck);
    std::string w = fmt("%.6f s after the ephemeris epoch, unit %d: status %d: ", static_cast<double>(o) / 1e6, unit, j);
    if (far) {
      VP_CHECK(c, j != 0, "far-epoch-not-flagged", w);
      c.event("far_epochs_flagged");
      if (j == -1 && std::abs(o) < 6 * 3600000000L) { // documented: computed all the same
        L y[6], dp = 0, k2 = static_cast<L>(o) / 900e6L;
        glo_state(x, static_cast<L>(o) / 1e6L, y);
        for (int q = 0; q < 3; q++)
          dp += (s[q] - y[q]) * (s[q] - y[q]);
        VP_CHECK(c, std::sqrt(dp) < 1e-3L * k2 * k2, "far-position", w + fmt("%.6f m off", static_cast<double>(std::sqrt(dp))));
        c.event("far_states_compared");
      }
      continue;
    }
    if (j) {
      c.fail("status", w);
      continue;
    }
    L y[6], dp = 0, dv = 0;
    glo_state(x, static_cast<L>(o) / 1e6L, y);
    for (int q = 0; q < 3; q++) {
      dp += (s[q] - y[q]) * (s[q] - y[q]);
      dv += (s[3 + q] - y[3 + q]) * (s[3 + q] - y[3 + q]);
    }
    VP_CHECK(c, std::sqrt(dp) < 1e-3L, "position", w + fmt("%.6f m off", static_cast<double>(std::sqrt(dp))));
    VP_CHECK(c, std::sqrt(dv) < 1e-5L, "velocity", w + fmt("%.9f m/s off", static_cast<double>(std::sqrt(dv))));
    c.event("states_compared");
    if (o == 0) {
      for (int q = 0; q < 3; q++)
        VP_CHECK(c, s[q] == f.data(3 + 4 * q) && s[3 + q] == f.data(4 + 4 * q), "not-the-broadcast-state", w);
      c.event("broadcast_states_compared");
    }
    if (o % 60000000L)
      c.event("not_whole_minutes");
    int j2 = state_clock(f, toe + o, unit, s2, ck);
    VP_CHECK(c, j2 == j && !std::memcmp(s, s2, sizeof s), "not-repeatable", w);
    VP_CHECK(c, image(f) == before, "message-changed", w);
    c.nontrivial(fmt("%ld %.9g", o, x.v[3]));
  }
  c.sample(c.what);
}
