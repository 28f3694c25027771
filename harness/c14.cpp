// C14: orbit epochs are delivered completely, in order, in metres, with flags
#include "sp3gen.hpp"
using namespace ngpt;
using namespace sg;

static void flags(vp::Case &c) {
  static const Sp3Event E[] = {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event,
                               Sp3Event::clock_prediction,     Sp3Event::maneuver,          Sp3Event::orbit_prediction};
  for (int set = 0; set < 64; set++)
    for (int e = 0; e < 6; e++)
      for (int op = 0; op < 4; op++) {
        Sp3Flag f;
        for (int k = 0; k < 6; k++)
          if (set >> k & 1)
            f.set(E[k]);
        int want = set;
        if (op == 0) {
          f.set(E[e]);
          want |= 1 << e;
        } else if (op == 1) {
          f.clear(E[e]);
          want &= ~(1 << e);
        } else if (op == 2) {
          (void)f.is_set(E[e]);
        } else {
          f.reset();
          want = 0;
        }
        int got = 0;
        for (int k = 0; k < 6; k++)
          got |= f.is_set(E[k]) << k;
        VP_CHECK(c, got == want, "flag-algebra", vp::fmt("state %d, flag %d, operation %d: %d instead of %d", set, e, op, got, want));
        c.event("flag_states");
      }
}

long vp_cases(int tier) { return 1 + (tier ? 200000 : 9000); }

void vp_case(vp::Case &c) {
  if (c.idx == 0)
    return flags(c);
  auto &r = c.rng;
  vp::Scratch p("s");
  File f;
  basics(r, f);
  epochs(r, f, static_cast<int>(r.in(1, f.nsat > 30 ? 6 : 20)));
  std::string all = join(f.head), epo;
  for (auto &e : f.ep)
    epo += join(lines(r, f, e));
  all += epo + (r.chance(1, 6) ? "EOF" : "EOF\n") + (r.chance(1, 10) ? "\n\n" : "");
  c.desc(epo.substr(0, 5000));
  p.write(all);
  try {
    Sp3c s(p.path.c_str());
    auto v = s.allocate_epoch_vector();
    if (r.chance(1, 5))
      v.resize(v.size() + static_cast<size_t>(r.in(1, 5)));
    int passes = r.chance(1, 3) ? 3 : 1;
    for (int pass = 0; pass < passes; pass++) {
      if (pass)
        s.rewind();
      size_t stop = pass + 1 < passes && r.chance(1, 2) ? static_cast<size_t>(r.in(1, static_cast<long>(f.ep.size()))) : f.ep.size();
      for (size_t k = 0; k < stop; k++) {
        auto &e = f.ep[k];
        datetime<microseconds> t;
        int n = -1;
        int j = s.get_next_epoch(t, v, n);
        std::string w = vp::fmt("pass %d epoch %zu of %zu: status %d, %d satellites, mjd %ld %ld us", pass, k, f.ep.size(), j, n, t.mjd().as_underlying_type(),
                                t.sec().as_underlying_type());
        bool last = k + 1 == f.ep.size();
        VP_CHECK(c, j == (last ? -1 : 0), last ? "end-not-reported" : "status", w);
        if (j > 0)
          return;
        VP_CHECK(c, t.mjd().as_underlying_type() == e.mjd && t.sec().as_underlying_type() == e.us, "time-tag", w + vp::fmt(" instead of %ld %ld us", e.mjd, e.us));
        VP_CHECK(c, n == static_cast<int>(e.s.size()), "satellite-count", w + vp::fmt(" instead of %zu", e.s.size()));
        for (size_t i = 0; i < e.s.size() && static_cast<int>(i) < n; i++) {
          auto &x = e.s[i];
          auto &g = v[i];
          std::string z = w + vp::fmt(" satellite %zu %c%02d: ", i, x.sys, x.prn);
          VP_CHECK(c, satsys_to_char(g.s_) == x.sys && g.prn_ == x.prn, "satellite", z + vp::fmt("%c%02d", satsys_to_char(g.s_), g.prn_));
          bool zero = false;
          for (int q = 0; q < 4; q++) {
            double km = std::strtod(x.f[q].c_str(), nullptr);
            double want = q < 3 ? km * 1000 : km;
            if (q < 3 && km == 0)
              zero = true;
            bool ok = q < 3 ? std::abs(g.vals_[q] - want) <= 1e-15 * std::abs(want) : g.vals_[q] == want;
            VP_CHECK(c, ok, q < 3 ? "position" : "clock", z + vp::fmt("%.17g instead of %.17g", g.vals_[q], want));
          }
          bool want[6] = {zero, std::strtod(x.f[3].c_str(), nullptr) >= 999999., x.ev, x.cp, x.mv, x.op};
          for (int q = 0; q < 6; q++)
            VP_CHECK(c, g.flag_.is_set(static_cast<Sp3Event>(q)) == want[q], vp::fmt("flag-%d", q), z + vp::fmt("flag %d is %d", q, !want[q]));
          c.event("records_compared");
          if (want[2] || want[3] || want[4] || want[5])
            c.event("flagged_records");
        }
        c.event("epochs_compared");
        c.nontrivial(line(e) + (e.s.empty() ? "" : e.s[0].f[0]));
      }
      if (stop == f.ep.size()) {
        datetime<microseconds> t;
        int n;
        VP_CHECK(c, s.get_next_epoch(t, v, n) != 0, "epoch-after-end", "");
        c.event("ends_reported");
      }
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(epo.substr(0, 900));
}
