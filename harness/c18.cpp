// C18: broadcast Keplerian orbits agree with the interface-document algorithm
#include "keplref.hpp"
using namespace ngpt;
using namespace ng;
using namespace kr;

long vp_cases(int tier) { return tier ? 4000000 : 48000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("k");
  char sys = r.pickc("GEC");
  Rec x = record(r, sys, anymjd(r, sys), anysod(r), 'D');
  elements(r, x);
  c.desc(join(lines(r, x)));
  NavDataFrame f, g;
  int j = decode(p, r, x, f);
  if (j) {
    c.fail("decode", fmt("status %d", j));
    return;
  }
  const std::string before = image(f);
  __int128 toe = usec(x.toe_mjd, x.toe_sod);
  int k = static_cast<int>(r.in(2, 6));
  for (int i = 0; i < k; i++) {
    int unit = static_cast<int>(r.in(0, 2));
    long o = offset(r, r.chance(2, 3) ? 7200 : 302400, unit);
    if (r.chance(1, 5)) { // start of the day or week next to the ephemeris epoch
      long day = r.chance(1, 2) ? x.toe_mjd + r.in(0, 1) : 44244 + 7 * ((x.toe_mjd - 44244) / 7 + r.in(0, 1));
      __int128 d = usec(day, 0) - toe + UNIT[unit] * r.in(-1, 1);
      if (d <= static_cast<__int128>(302400) * 1000000 && d >= -static_cast<__int128>(302400) * 1000000)
        o = static_cast<long>(d);
    }
    __int128 t = toe + o;
    double s[6] = {1, 2, 3, 4, 5, 6}, s2[6] = {0}, s3[6] = {0}, s4[6] = {0}, ck = 0, ck2 = 0;
    j = state_clock(f, t, unit, s, ck);
    std::string w = fmt("%c, %.6f s after the ephemeris epoch, unit %d: status %d: ", sys, static_cast<double>(o) / 1e6, unit, j);
    if (j) {
      c.fail("status", w);
      continue;
    }
    L ref[3], d = 0;
    position(sys, x.v, static_cast<L>(o) / 1e6L, ref);
    for (int q = 0; q < 3; q++)
      d += (s[q] - ref[q]) * (s[q] - ref[q]);
    d = std::sqrt(d);
    VP_CHECK(c, d < 1e-3L, std::string("position-") + sys, w + fmt("%.6f m off (%.4f %.4f %.4f)", static_cast<double>(d), s[0], s[1], s[2]));
    c.event("positions_compared");
    if ((t / usec(1, 0)) != x.toe_mjd)
      c.event("on_another_day");
    // again, with another epoch in between, and from a copy
    g = f;
    (void)state_clock(f, toe + offset(r, 7200, 1), 1, s3, ck2);
    int j2 = state_clock(f, t, unit, s2, ck2), j4 = state_clock(g, t, unit, s4, ck2);
    VP_CHECK(c, j2 == j && j4 == j && !std::memcmp(s, s2, 3 * sizeof(double)) && !std::memcmp(s, s4, 3 * sizeof(double)), "not-repeatable", w);
    VP_CHECK(c, image(f) == before, "message-changed", w + image(f));
    c.event("repetitions_compared");
    c.nontrivial(fmt("%c %ld %.9g %.9g", sys, o, x.v[6], x.v[10]));
  }
  c.sample(c.what);
}
