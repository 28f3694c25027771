// GLONASS orbits: plausible messages, and the equations of motion in extended precision.
#ifndef VP_GLOREF_HPP
#define VP_GLOREF_HPP
#include "keplref.hpp"

namespace kr {
inline void deriv(const L *x, const L *a, L *d) {
  const L mu = 398600441.8e6L, ae = 6378136.0L, J2 = 1082625.75e-9L, w = 7.2921151467e-5L;
  L r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r = std::sqrt(r2), k = mu / (r2 * r), j = 1.5L * J2 * mu * ae * ae / (r2 * r2 * r), z = 5 * x[2] * x[2] / r2;
  for (int i = 0; i < 3; i++)
    d[i] = x[3 + i];
  d[3] = -k * x[0] - j * x[0] * (1 - z) + w * w * x[0] + 2 * w * x[4] + a[0];
  d[4] = -k * x[1] - j * x[1] * (1 - z) + w * w * x[1] - 2 * w * x[3] + a[1];
  d[5] = -k * x[2] - j * x[2] * (3 - z) + a[2];
}
inline void integrate(L *x, const L *a, L T, int n) {
  if (T == 0)
    return;
  L h = T / n, k1[6], k2[6], k3[6], k4[6], y[6];
  for (int s = 0; s < n; s++) {
    deriv(x, a, k1);
    for (int i = 0; i < 6; i++)
      y[i] = x[i] + h / 2 * k1[i];
    deriv(y, a, k2);
    for (int i = 0; i < 6; i++)
      y[i] = x[i] + h / 2 * k2[i];
    deriv(y, a, k3);
    for (int i = 0; i < 6; i++)
      y[i] = x[i] + h * k3[i];
    deriv(y, a, k4);
    for (int i = 0; i < 6; i++)
      x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
}
/// state at T seconds after the ephemeris epoch, in metres
inline void glo_state(const ng::Rec &x, L T, L *y) {
  L a[3];
  for (int q = 0; q < 3; q++) {
    y[q] = x.v[3 + 4 * q] * 1e3L;
    y[3 + q] = x.v[4 + 4 * q] * 1e3L;
    a[q] = x.v[5 + 4 * q] * 1e3L;
  }
  integrate(y, a, T, std::max(1, static_cast<int>(std::abs(T) / 5)));
}
/// orbit and clock of a message
inline void glo_orbit(vp::Rng &r, ng::Rec &x) {
  using ng::put;
  // a GLONASS orbit (or another medium one of similar height), any node and
  // argument of latitude; velocity relative to the rotating Earth
  const double PI = 3.14159265358979323846, w = 7.2921151467e-5;
  double inc = (r.chance(3, 4) ? r.uni(62, 68) : r.uni(45, 80)) * PI / 180, nd = r.uni(-PI, PI), al = r.uni(-PI, PI), rad = r.uni(25400, 25620);
  if (r.chance(1, 6))
    al = PI / 2 * static_cast<double>(r.in(0, 3));
  double vel = std::sqrt(398600.4418 / rad) * (1 + r.uni(-.004, .004)), vr = r.uni(-.02, .02);
  double pu[2] = {std::cos(al), std::sin(al)}, qu[2] = {-std::sin(al), std::cos(al)}, u[3], v[3];
  u[0] = pu[0] * std::cos(nd) - pu[1] * std::cos(inc) * std::sin(nd);
  u[1] = pu[0] * std::sin(nd) + pu[1] * std::cos(inc) * std::cos(nd);
  u[2] = pu[1] * std::sin(inc);
  v[0] = qu[0] * std::cos(nd) - qu[1] * std::cos(inc) * std::sin(nd);
  v[1] = qu[0] * std::sin(nd) + qu[1] * std::cos(inc) * std::cos(nd);
  v[2] = qu[1] * std::sin(inc);
  double vv[3];
  for (int i = 0; i < 3; i++)
    vv[i] = vel * v[i] + vr * u[i];
  vv[0] += w * rad * u[1];
  vv[1] -= w * rad * u[0];
  for (int i = 0; i < 3; i++) {
    put(x, 3 + 4 * i, rad * u[i]);
    put(x, 4 + 4 * i, vv[i]);
    put(x, 5 + 4 * i, r.chance(1, 10) ? 0. : 9.313225746155e-10 * static_cast<double>(r.in(-6, 6)));
  }
  put(x, 0, r.uni(-1e-3, 1e-3));
  put(x, 1, r.uni(-1e-11, 1e-11));
}
} // namespace kr
#endif
