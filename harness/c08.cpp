// C08: the position filter performs exact extended-Kalman updates.
// Reference: the same step in long double, written out without Eigen.
#include "vp.hpp"
#include <array>
#include <cassert>
#include <initializer_list>
#include "gauss_newton.hpp"
using ngpt::Kalman;
typedef long double ld;

struct RefKF {
  ld x[5], P[5][5], Pp[5][5]; ///< Pp: predicted covariance of the last update
  ld cf = 1; ///< sum of the coefficients of the observed combination
  bool first = true;
  void update(const std::vector<double> &obs, const std::vector<std::array<double, 4>> &sv, int n, double dt,
              const std::vector<double> *w) {
    if (first) {
      for (auto &r : P)
        for (ld &v : r)
          v = 0;
      for (int i = 0; i < 4; i++)
        P[i][i] = 2500;
      P[4][4] = 30;
      first = false;
    }
    x[3] += dt * x[4];
    // F P F^T, F = I + dt e3 e4^T
    for (int j = 0; j < 5; j++)
      P[3][j] += dt * P[4][j];
    for (int i = 0; i < 5; i++)
      P[i][3] += dt * P[i][4];
    P[3][3] += 0.0114L;
    P[3][4] += 0.0019L;
    P[4][3] += 0.0019L;
    P[4][4] += 0.0039L;
    std::memcpy(Pp, P, sizeof P);
    std::vector<std::array<ld, 5>> H(n);
    std::vector<ld> v(n);
    for (int i = 0; i < n; i++) {
      ld dx = sv[i][0] - x[0], dy = sv[i][1] - x[1], dz = sv[i][2] - x[2];
      ld r = sqrtl(dx * dx + dy * dy + dz * dz);
      H[i] = {-cf * dx / r, -cf * dy / r, -cf * dz / r, cf, 0};
      v[i] = obs[i] - cf * (r + x[3] - static_cast<ld>(sv[i][3]) * 299792458.0L);
    }
    // PHt (5xn), S (nxn)
    std::vector<std::array<ld, 5>> PH(n);
    for (int i = 0; i < n; i++)
      for (int a = 0; a < 5; a++) {
        ld s = 0;
        for (int b = 0; b < 5; b++)
          s += P[a][b] * H[i][b];
        PH[i][a] = s;
      }
    // S augmented with [v | (PH)^T]: solve S y = rhs
    int m = n + 6;
    std::vector<std::vector<ld>> A(n, std::vector<ld>(m, 0));
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) {
        ld s = 0;
        for (int a = 0; a < 5; a++)
          s += H[i][a] * PH[j][a];
        A[i][j] = s;
      }
      if (w)
        A[i][i] += 100 + (*w)[i];
      A[i][n] = v[i];
      for (int a = 0; a < 5; a++)
        A[i][n + 1 + a] = PH[i][a];
    }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++)
        if (fabsl(A[i][k]) > fabsl(A[p][k]))
          p = i;
      std::swap(A[k], A[p]);
      for (int i = 0; i < n; i++)
        if (i != k) {
          ld f = A[i][k] / A[k][k];
          if (f != 0)
            for (int j = k; j < m; j++)
              A[i][j] -= f * A[k][j];
        }
    }
    for (int a = 0; a < 5; a++)
      for (int i = 0; i < n; i++)
        x[a] += PH[i][a] * A[i][n] / A[i][i];
    ld N[5][5];
    for (int a = 0; a < 5; a++)
      for (int b = 0; b < 5; b++) {
        ld s = 0;
        for (int i = 0; i < n; i++)
          s += PH[i][a] * A[i][n + 1 + b] / A[i][i];
        N[a][b] = P[a][b] - s;
      }
    for (int a = 0; a < 5; a++)
      for (int b = 0; b < 5; b++)
        P[a][b] = N[a][b];
  }
};

/// what print_state writes on the standard output
static std::string printed(Kalman<5> &k) {
  static std::string path = vp::scratch_dir() + vp::fmt("/kf%d", static_cast<int>(getpid()));
  std::fflush(stdout);
  int save = dup(1);
  int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  std::ostringstream os;
  std::streambuf *old = std::cout.rdbuf(os.rdbuf());
  k.print_state();
  std::fflush(stdout);
  std::cout.rdbuf(old);
  dup2(save, 1);
  close(save);
  std::string s;
  char buf[4096];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = ::read(fd, buf, sizeof buf)) > 0)
    s.append(buf, n);
  close(fd);
  ::unlink(path.c_str());
  return s.empty() ? os.str() : s;
}
/// numbers of "x +/- s" groups
static bool parse(const std::string &s, double *x, double *sd) {
  const char *p = s.c_str();
  for (int i = 0; i < 5; i++) {
    char *e;
    x[i] = std::strtod(p, &e);
    if (e == p)
      return false;
    p = std::strstr(e, "+/-");
    if (!p)
      return false;
    sd[i] = std::strtod(p + 3, &e);
    if (e == p + 3)
      return false;
    p = e;
  }
  return true;
}
/// all numbers following the title in the debug output
static bool section(const std::string &s, const char *title, std::vector<double> &v) {
  size_t a = s.find(title);
  if (a == std::string::npos)
    return false;
  v.clear();
  const char *p = s.c_str() + a + std::strlen(title);
  while (true) {
    char *e;
    double d = std::strtod(p, &e);
    if (e == p)
      break;
    v.push_back(d);
    p = e;
  }
  return true;
}

long vp_cases(int tier) { return tier ? 60000 : 3000; }

void vp_case(vp::Case &c) {
  vp::Rng &r = c.rng;
  // receiver on the ground
  double lat = r.uni(-1.5, 1.5), lon = r.uni(-3.1, 3.1);
  double tx[3] = {6371e3 * cos(lat) * cos(lon), 6371e3 * cos(lat) * sin(lon), 6371e3 * sin(lat)};
  double off = r.chance(1, 4) ? 1e5 : 100;
  double x0[5] = {tx[0] + r.uni(-off, off), tx[1] + r.uni(-off, off), tx[2] + r.uni(-off, off), r.uni(-1000, 1000), r.uni(-5, 5)};
  if (r.chance(1, 5))
    x0[3] = x0[4] = 0;
  double cdt = r.uni(-3e5, 3e5), rate = r.uni(-3, 3);
  static const double CF[] = {0.5, 2, -1, 0.8750, -1.5457, 3.25};
  double cf = r.chance(2, 3) ? 1 : (r.chance(1, 2) ? CF[r.in(0, 5)] : r.uni(0.3, 4) * (r.chance(1, 4) ? -1 : 1));
  bool dflt = cf == 1 && r.chance(1, 2);
  Kalman<5> k = dflt ? Kalman<5>({x0[0], x0[1], x0[2], x0[3], x0[4]}) : Kalman<5>({x0[0], x0[1], x0[2], x0[3], x0[4]}, cf);
  Kalman<5> kp = dflt ? Kalman<5>({x0[0], x0[1], x0[2], x0[3], x0[4]}) : Kalman<5>({x0[0], x0[1], x0[2], x0[3], x0[4]}, cf); // fed in another order
  RefKF ref;
  ref.cf = cf;
  for (int i = 0; i < 5; i++)
    ref.x[i] = x0[i];
  int steps = static_cast<int>(r.chance(1, 60) ? r.in(40, 150) : r.in(1, 20));
  if (steps > 20)
    c.event("long_sessions");
  double big = 0, pmax = 0;
  std::string h = vp::fmt("coefficient %.5f x0 %.3f %.3f %.3f %.3f %.3f;", cf, x0[0], x0[1], x0[2], x0[3], x0[4]);
  for (int st = 0; st < steps; st++) {
    // usually what a receiver tracks; also epochs with hardly any satellite,
    // and those of all systems together
    int n = static_cast<int>(steps > 20 ? r.in(4, 14) : r.chance(1, 6) ? r.in(0, 3) : r.chance(1, 12) ? r.in(15, 60) : r.in(4, 14)), extra = r.chance(1, 3) ? static_cast<int>(r.in(1, 5)) : 0;
    double dt = r.chance(1, 6) ? 0 : (r.chance(1, 3) ? 30 : r.uni(0.05, 120));
    bool weighted = r.chance(19, 20) || n != 4;
    if (!weighted && st == 0 && r.chance(1, 2))
      weighted = true;
    cdt += rate * dt;
    std::vector<double> obs, w;
    std::vector<std::array<double, 4>> sv;
    for (int i = 0; i < n + extra; i++) {
      // well spread directions above the horizon, distance 20-26 Mm
      double d[3], nn = 0;
      do {
        double z = r.uni(-1, 1), a = r.uni(0, 6.283185307);
        d[0] = sqrt(1 - z * z) * cos(a), d[1] = sqrt(1 - z * z) * sin(a), d[2] = z;
        nn = (d[0] * tx[0] + d[1] * tx[1] + d[2] * tx[2]) / 6371e3;
      } while (nn < 0.1 && !weighted ? true : nn < 0.05);
      double R = r.uni(20e6, 26e6);
      double clk = r.chance(1, 6) ? 0 : r.uni(-1e-3, 1e-3);
      sv.push_back({tx[0] + R * d[0], tx[1] + R * d[1], tx[2] + R * d[2], clk});
      obs.push_back(cf * (R + cdt - clk * 299792458e0) + r.uni(-5, 5));
      w.push_back(r.chance(1, 5) ? 0 : r.uni(0, 400));
    }
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++)
      perm[i] = i;
    r.shuffle(perm);
    std::vector<double> obs2, w2;
    std::vector<std::array<double, 4>> sv2;
    for (int i : perm) {
      obs2.push_back(obs[i]);
      w2.push_back(w[i]);
      sv2.push_back(sv[i]);
    }
    h += vp::fmt(" [%d sats +%d unused, dt %.3f, %s]", n, extra, dt, weighted ? "weights" : "no weights");
    c.desc(h);
    bool dbg = r.chance(1, 2);
    std::string dout;
    if (!weighted) {
      // measurement variance none: S must be invertible only for n<=4; the
      // geometry has n==4 here. Judge the debug output, then start afresh.
      c.event("unweighted_updates");
    }
    {
      std::ostringstream os;
      os.precision(17);
      std::streambuf *old = std::cout.rdbuf(os.rdbuf());
      auto pr = std::cout.precision(17);
      k.update(n, &obs, &sv, dt, weighted ? &w : nullptr, dbg);
      std::cout.precision(pr);
      std::cout.rdbuf(old);
      dout = os.str();
    }
    kp.update(n, &obs2, &sv2, dt, weighted ? &w2 : nullptr, false);
    RefKF before = ref;
    ref.update(obs, sv, n, dt, weighted ? &w : nullptr);
    // size of the innovations: rounding is proportional to it
    for (int i = 0; i < n; i++) {
      ld dx = sv[i][0] - before.x[0], dy = sv[i][1] - before.x[1], dz = sv[i][2] - before.x[2];
      ld rr = obs[i] - before.cf * (sqrtl(dx * dx + dy * dy + dz * dz) + before.x[3] + dt * before.x[4] - static_cast<ld>(sv[i][3]) * 299792458.0L);
      big = std::max(big, static_cast<double>(fabsl(rr)));
    }
    for (auto &row : ref.Pp) // the subtractions of the update lose digits of these
      for (ld e : row)
        pmax = std::max(pmax, static_cast<double>(fabsl(e)));
    double tol = (weighted ? 2e-3 : 1e-1) + 1e-6 * big + (st >= 20 ? 1e-2 : 0);
    // over a long session the subtractions of the update lose digits: a
    // hundredth of a deviation is still far from any other covariance
    double loose = st >= 20 ? 5e-2 : 0;
    // compare the printed states
    for (int which = 0; which < 2; which++) {
      Kalman<5> &f = which ? kp : k;
      std::string p1 = printed(f), p2 = printed(f);
      VP_CHECK(c, p1 == p2, "print-alters", p1 + " then " + p2);
      double x[5], sd[5];
      if (!parse(p1, x, sd)) {
        c.fail("print", "cannot read the printed state: '" + p1 + "'");
        continue;
      }
      for (int i = 0; i < 5; i++) {
        VP_CHECK(c, std::fabs(x[i] - static_cast<double>(ref.x[i])) <= tol, which ? "state-permuted" : "state",
                 vp::fmt("update %d component %d: %.6f instead of %.6f", st, i, x[i], static_cast<double>(ref.x[i])));
        double es = ref.P[i][i] > 0 ? static_cast<double>(sqrtl(ref.P[i][i])) : 0;
        if (!weighted && i < 4) {
          // fully determined: variance zero up to the sign of rounding
          VP_CHECK(c, std::isnan(sd[i]) || sd[i] <= 0.5, "deviation-exact-fit", vp::fmt("component %d: +/-%.6f", i, sd[i]));
          continue;
        }
        VP_CHECK(c, std::fabs(sd[i] - es) <= (weighted ? 2e-3 : 2e-2) + loose * es, which ? "deviation-permuted" : "deviation",
                 vp::fmt("update %d component %d: +/-%.6f instead of %.6f", st, i, sd[i], es));
      }
      c.event("states_compared");
      if (cf != 1)
        c.event("states_of_combinations");
    }
    if (dbg) {
      std::vector<double> v;
      if (section(dout, "\nResiduals\n", v) && v.size() == static_cast<size_t>(n)) {
        for (int i = 0; i < n; i++) {
          ld dx = sv[i][0] - before.x[0], dy = sv[i][1] - before.x[1], dz = sv[i][2] - before.x[2];
          ld rr = obs[i] - before.cf * (sqrtl(dx * dx + dy * dy + dz * dz) + before.x[3] + dt * before.x[4] - static_cast<ld>(sv[i][3]) * 299792458.0L);
          VP_CHECK(c, std::fabs(v[i] - static_cast<double>(rr)) <= 1e-3 + 1e-6 * big, "residual", vp::fmt("update %d satellite %d: %.6f instead of %.6f", st, i, v[i], static_cast<double>(rr)));
        }
        c.event("residuals_compared", n);
      }
      if (section(dout, "\nNext P=\n", v) && v.size() == 25) {
        double mx = 0, worst = 0;
        for (auto &row : ref.Pp)
          for (ld e : row)
            mx = std::max(mx, static_cast<double>(fabsl(e)));
        for (int i = 0; i < 5; i++)
          for (int j = 0; j < 5; j++)
            worst = std::max(worst, std::fabs(v[5 * i + j] - static_cast<double>(ref.Pp[i][j])));
        VP_CHECK(c, worst <= (cf == 1 ? 5e-5 : 5e-3) + 2e-9 * pmax + loose * (1 + mx), "predicted-covariance", vp::fmt("update %d: off by %.3g (largest element %.3g)", st, worst, mx));
        c.event("covariances_compared");
      }
    }
    c.nontrivial(vp::fmt("%ld/%d/%d/%.6f/%.4f", c.idx, st, n, dt, static_cast<double>(ref.x[0])));
    if (!weighted)
      break; // an exact fit: nothing after it is well conditioned
  }
  c.sample(h);
}
