// The interface documents' user algorithms in extended precision.
#ifndef VP_KEPLREF_HPP
#define VP_KEPLREF_HPP
#include "navgen.hpp"

namespace kr {
typedef long double L;
struct Sys {
  L mu, om, F;
};
inline Sys constants(char s) {
  const L c = 299792458.0L;
  switch (s) {
  case 'G': return {3.986005e14L, 7.2921151467e-5L, -4.442807633e-10L};
  case 'E': return {3.986004418e14L, 7.2921151467e-5L, -4.442807309e-10L};
  default: return {3.986004418e14L, 7.292115e-5L, -2.0L * std::sqrt(3.986004418e14L) / (c * c)};
  }
}
/// eccentric anomaly by Newton's method
inline L ecc(L M, L e) {
  L E = M;
  for (int i = 0; i < 60; i++) {
    L d = (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
    E -= d;
    if (std::abs(d) < 1e-18L * (1 + std::abs(E)))
      break;
  }
  return E;
}
/// position at tk seconds after the ephemeris epoch; v as broadcast
inline void position(char s, const double *v, L tk, L *x) {
  Sys k = constants(s);
  L A = static_cast<L>(v[10]) * v[10], n = std::sqrt(k.mu / (A * A * A)) + v[5], M = v[6] + n * tk, e = v[8], E = ecc(M, e);
  L nu = std::atan2(std::sqrt(1 - e * e) * std::sin(E), std::cos(E) - e), ph = nu + v[17];
  L s2 = std::sin(2 * ph), c2 = std::cos(2 * ph);
  L u = ph + v[9] * s2 + v[7] * c2, r = A * (1 - e * std::cos(E)) + v[4] * s2 + v[16] * c2, i = v[15] + v[14] * s2 + v[12] * c2 + v[19] * tk;
  L xp = r * std::cos(u), yp = r * std::sin(u), om = v[13] + (v[18] - k.om) * tk - k.om * v[11];
  x[0] = xp * std::cos(om) - yp * std::cos(i) * std::sin(om);
  x[1] = xp * std::sin(om) + yp * std::cos(i) * std::cos(om);
  x[2] = yp * std::sin(i);
}
/// clock correction at dt seconds after the clock epoch, tk after the ephemeris epoch
inline L clock(char s, const double *v, L dt, L tk) {
  Sys k = constants(s);
  L A = static_cast<L>(v[10]) * v[10], n = std::sqrt(k.mu / (A * A * A)) + v[5], M = v[6] + n * tk, e = v[8];
  return v[0] + v[1] * dt + v[2] * dt * dt + k.F * e * v[10] * std::sin(ecc(M, e));
}
/// plausible orbital and clock elements of a Keplerian message
inline void elements(vp::Rng &r, ng::Rec &x) {
  const double PI = 3.14159265358979323846;
  bool zero = r.chance(1, 10);
  auto amp = [&](double a) { return zero || r.chance(1, 20) ? 0. : r.uni(-a, a); };
  ng::put(x, 0, r.uni(-1e-3, 1e-3));
  ng::put(x, 1, r.uni(-1e-10, 1e-10));
  ng::put(x, 2, r.chance(1, 2) ? 0. : r.uni(-1e-16, 1e-16));
  ng::put(x, 4, amp(300));
  ng::put(x, 5, amp(1e-8));
  ng::put(x, 6, r.chance(1, 10) ? (r.chance(1, 2) ? 0. : PI) : r.uni(-PI, PI));
  ng::put(x, 7, amp(3e-5));
  ng::put(x, 8, r.chance(1, 12) ? 0. : (r.chance(1, 3) ? r.uni(0, r.chance(1, 4) ? .5 : .1) : r.uni(0, .02)));
  ng::put(x, 9, amp(3e-5));
  double a = x.sys == 'G' ? 5153.6 : (x.sys == 'E' ? 5440.6 : (r.chance(1, 2) ? 5282.6 : 6493.4));
  ng::put(x, 10, a * (1 + r.uni(-2e-3, 2e-3)));
  ng::put(x, 12, amp(1e-6));
  ng::put(x, 13, r.uni(-PI, PI));
  ng::put(x, 14, amp(1e-6));
  ng::put(x, 15, r.chance(1, 8) ? r.uni(0, PI) : r.uni(.8, 1.1));
  ng::put(x, 16, amp(600));
  ng::put(x, 17, r.uni(-PI, PI));
  ng::put(x, 18, amp(1e-8));
  ng::put(x, 19, amp(1e-9));
  ng::put(x, 24, 0.);
}
/// write one message and decode it with the library
inline int decode(vp::Scratch &p, vp::Rng &r, const ng::Rec &x, ngpt::NavDataFrame &f) {
  p.write(ng::join(ng::lines(r, x)));
  std::ifstream in(p.path.c_str());
  return f.set_from_rnx3(in);
}
template <typename T> ngpt::datetime<T> date(__int128 us) {
  const __int128 day = static_cast<__int128>(86400) * 1000000;
  return ngpt::datetime<T>(ngpt::modified_julian_day(static_cast<long>(us / day)), T(static_cast<long>(us % day) / (1000000L / T::template sec_factor<long>())));
}
inline int state_clock(ngpt::NavDataFrame &f, __int128 us, int unit, double *s, double &clk) {
  switch (unit) {
  case 0: return f.stateNclock(date<ngpt::seconds>(us), s, clk);
  case 1: return f.stateNclock(date<ngpt::milliseconds>(us), s, clk);
  default: return f.stateNclock(date<ngpt::microseconds>(us), s, clk);
  }
}
inline std::string image(const ngpt::NavDataFrame &f) {
  std::string s = vp::fmt("%c%d %ld %ld ", ngpt::satsys_to_char(f.system()), f.prn(), f.toc().mjd().as_underlying_type(), f.toc().sec().as_underlying_type());
  auto e = f.toe<ngpt::seconds>();
  s += vp::fmt("%ld %ld", e.mjd().as_underlying_type(), e.sec().as_underlying_type());
  for (int i = 0; i < 31; i++)
    s += vp::fmt(" %.17g", f.data(i));
  return s;
}
inline __int128 usec(long mjd, long sod) { return (static_cast<__int128>(mjd) * 86400 + sod) * 1000000; }
inline const long UNIT[] = {1000000, 1000, 1};
/// an epoch offset in microseconds, a multiple of the unit, within +-span seconds
inline long offset(vp::Rng &r, long span, int unit) {
  long o;
  switch (r.in(0, 5)) {
  case 0: o = 0; break;
  case 1: o = (r.chance(1, 2) ? 1 : -1) * span * 1000000L; break;
  case 2: o = r.in(-span / 60, span / 60) * 60000000L; break;
  default: o = r.in(-span * 1000000L, span * 1000000L);
  }
  return o - o % UNIT[unit];
}
} // namespace kr
#endif
