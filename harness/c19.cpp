// C19: satellite clock corrections agree with the interface-document polynomial
#include "keplref.hpp"
using namespace ngpt;
using namespace ng;
using namespace kr;

long vp_cases(int tier) { return tier ? 4000000 : 48000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("k");
  char sys = r.pickc("GECR");
  Rec x = record(r, sys, anymjd(r, sys), anysod(r), 'D');
  if (sys == 'R') {
    put(x, 0, r.uni(-1e-3, 1e-3));
    put(x, 1, r.uni(-1e-11, 1e-11));
    for (int q = 0; q < 3; q++) {
      put(x, 3 + 4 * q, r.uni(-25000, 25000));
      put(x, 4 + 4 * q, r.uni(-3, 3));
      put(x, 5 + 4 * q, r.uni(-3e-9, 3e-9));
    }
    put(x, 3, r.chance(1, 2) ? 18000. : -18000.); // not near the centre of the Earth
  } else {
    elements(r, x);
  }
  if (r.chance(1, 2)) // clock and ephemeris epochs differ
    ;
  else if (sys == 'R' || sys != 'C' || x.mjd > 53736)
    set_toe(x, x.mjd, x.sod);
  c.desc(join(lines(r, x)));
  NavDataFrame f;
  int j = decode(p, r, x, f);
  if (j) {
    c.fail("decode", fmt("status %d", j));
    return;
  }
  __int128 toe = usec(x.toe_mjd, x.toe_sod), toc = usec(x.mjd, x.sod);
  int k = static_cast<int>(r.in(2, 6));
  for (int i = 0; i < k; i++) {
    int unit = static_cast<int>(r.in(0, 2));
    __int128 t;
    if (sys == 'R') {
      t = toe + offset(r, 900, unit);
    } else {
      t = (r.chance(1, 2) ? toe : toc) + offset(r, r.chance(2, 3) ? 7200 : 200000, unit);
      if (r.chance(1, 5))
        t = usec((r.chance(1, 2) ? x.mjd : x.toe_mjd) + r.in(0, 1), 0) + UNIT[unit] * r.in(-1, 1);
    }
    double s[6] = {0}, ck = 77;
    j = state_clock(f, t, unit, s, ck);
    L dt = static_cast<L>(static_cast<long>(t - toc)) / 1e6L, tk = static_cast<L>(static_cast<long>(t - toe)) / 1e6L;
    std::string w = fmt("%c, %.6f s after the clock epoch, %.6f s after the ephemeris epoch, unit %d: status %d: ", sys, static_cast<double>(dt), static_cast<double>(tk), unit, j);
    if (j) {
      c.fail("status", w);
      continue;
    }
    L ref = sys == 'R' ? static_cast<L>(x.v[0]) + static_cast<L>(x.v[1]) * tk : clock(sys, x.v, dt, tk);
    VP_CHECK(c, std::abs(ck - ref) < 1e-13L, std::string("clock-") + sys, w + fmt("%.17g instead of %.17g", ck, static_cast<double>(ref)));
    c.event(sys == 'R' ? "glonass_clocks_compared" : "clocks_compared");
    if (t / usec(1, 0) != x.mjd)
      c.event("on_another_day");
    if (toe != toc)
      c.event("epochs_differ");
    c.nontrivial(fmt("%c %.9g %.6f", sys, x.v[0], static_cast<double>(dt)));
  }
  c.sample(c.what);
}
