// C21: health, fit interval and accuracy are reported per system
#include "keplref.hpp"
using namespace ngpt;
using namespace ng;

static const char SYS[] = "GRECJSIM";

long vp_cases(int tier) { return 1 + 8 + (tier ? 1500000 : 40000); }

template <typename F> static int outcome(F f) {
  try {
    f();
    return 0;
  } catch (std::exception &) {
    return 1;
  }
}

static void values(vp::Case &c, char s, NavDataFrame &f, const std::string &w) {
  // against what the message holds
  long hl = 0, fi = 0;
  int eh = outcome([&] { hl = f.sv_health(); }), ef = outcome([&] { fi = f.fit_interval(); });
  double x[6], ck;
  int et = outcome([&] { (void)f.toe2date<seconds>(); }), es = outcome([&] { (void)f.stateNclock(f.toc(), x, ck); });
  bool known = s == 'G' || s == 'R' || s == 'E' || s == 'C';
  VP_CHECK(c, eh == !known && ef == !known && et == !known && es == !known, std::string(known ? "refused-" : "answered-") + s,
           w + fmt("health %d fit interval %d ephemeris epoch %d state %d refused", eh, ef, et, es));
  if (!known) {
    c.event("refusals");
    return;
  }
  long want = static_cast<long>(f.data(s == 'R' ? 6 : 24));
  VP_CHECK(c, hl == want, std::string("health-") + s, w + fmt("%ld instead of %ld", hl, want));
  want = s == 'R' ? 900 : (s == 'G' ? 3600 * static_cast<long>(f.data(28)) : 14400);
  VP_CHECK(c, fi == want, std::string("fit-interval-") + s, w + fmt("%ld instead of %ld", fi, want));
  c.event("health_and_fit_compared");
  if (s == 'E') {
    VP_CHECK(c, f.gal_sisa() == static_cast<float>(f.data(23)), "sisa", w + fmt("%g", f.gal_sisa()));
    VP_CHECK(c, f.gal_iod_nav() == static_cast<int>(f.data(3)), "iod", w + fmt("%d", f.gal_iod_nav()));
    c.event("galileo_compared");
  }
  if (s == 'G') {
    // 2^(1+N/2) and 2^(N-2) rounded to the decimetre
    static const double U[] = {2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32, 64, 128, 256, 512, 1024, 2048, 4096};
    int n = static_cast<int>(f.data(23));
    if (n >= 0 && n <= 14)
      VP_CHECK(c, std::abs(f.gps_ura() - U[n]) < 1e-3 * .5, "accuracy", w + fmt("index %d: %g instead of %g", n, f.gps_ura(), U[n]));
    else if (n == 15)
      VP_CHECK(c, f.gps_ura() == std::numeric_limits<float>::max(), "no-accuracy", w + fmt("%g", f.gps_ura()));
    c.event("accuracy_compared");
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  if (c.idx == 0) { // every accuracy index, health value, number of hours
    for (int n = 0; n < 16; n++)
      for (int h = 0; h < 64; h++) {
        NavDataFrame f;
        f.system() = SATELLITE_SYSTEM::gps;
        f.data(21) = 2000;
        f.data(10) = 5153;
        f.data(23) = n;
        f.data(24) = h;
        f.data(28) = (n * 64 + h) % 169;
        c.desc(fmt("accuracy index %d health %d fit %g", n, h, f.data(28)));
        values(c, 'G', f, c.what + ": ");
        c.nontrivial(c.what);
      }
    return;
  }
  if (c.idx <= 8) { // built by hand, every field different, then retargeted
    for (int k = 0; k < 8; k++) {
      NavDataFrame f;
      for (int i = 0; i < 31; i++)
        f.data(i) = i + 40;
      f.data(8) = .01;
      f.data(10) = 5153;
      f.data(23) = 3;
      char s = SYS[(c.idx - 1 + k) % 8];
      f.system() = char_to_satsys(s);
      NavDataFrame g(f);
      c.desc(fmt("%c built by hand", s));
      values(c, s, f, c.what + ": ");
      f.system() = char_to_satsys(SYS[k]);
      values(c, SYS[k], f, c.what + " made " + SYS[k] + ": ");
      f = g;
      values(c, s, f, c.what + " restored: ");
      c.nontrivial(c.what + SYS[k]);
    }
    return;
  }
  // decoded from a file
  vp::Scratch p("h");
  char s = r.pickc("GRECJSI");
  Rec x = record(r, s, anymjd(r, s), anysod(r), r.pickc("DE"));
  if (std::strchr("GEC", s)) {
    kr::elements(r, x);
    put(x, 24, static_cast<double>(r.chance(1, 3) ? 0 : r.in(0, 511)));
    if (s == 'E')
      put(x, 23, r.chance(1, 8) ? -1. : .01 * static_cast<double>(r.in(0, 600)));
  }
  if (s == 'R') {
    put(x, 6, static_cast<double>(r.in(0, 15)));
    for (int i = 0; i < 3; i++)
      put(x, 3 + 4 * i, r.uni(10000, 16000));
  }
  c.desc(join(lines(r, x)));
  NavDataFrame f;
  int j = kr::decode(p, r, x, f);
  if (j) {
    c.fail("decode", fmt("status %d", j));
    return;
  }
  // what the file says, not only what the accessors say
  if (std::strchr("GREC", s)) {
    long want = static_cast<long>(x.v[s == 'R' ? 6 : 24]);
    VP_CHECK(c, f.sv_health() == want, std::string("health-of-file-") + s, fmt("%d instead of %ld", f.sv_health(), want));
    if (s == 'E')
      VP_CHECK(c, f.gal_sisa() == static_cast<float>(x.v[23]) && f.gal_iod_nav() == static_cast<int>(x.v[3]), "galileo-of-file", "");
    if (s == 'G')
      VP_CHECK(c, f.fit_interval() == 3600 * static_cast<long>(x.v[28]), "fit-of-file", "");
  }
  values(c, s, f, "");
  c.nontrivial(fmt("%c %g %g %g %g", s, x.v[3], x.v[23], x.v[24], x.v[28]));
  c.sample(c.what);
}
