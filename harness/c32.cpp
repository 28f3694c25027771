// C32: positioning from files, end to end
#include "gloref.hpp"
#include "obsgen.hpp"
#include "sp3gen.hpp"
#include <array>
#include <cassert>
#include <initializer_list>
#include "gauss_newton.hpp"
using namespace ngpt;
using kr::L;
using vp::fmt;
typedef std::array<L, 3> V3;

long vp_cases(int tier) { return tier ? 40000 : 1200; }

static const L C = 299792458.0L, W = 7.2921151467e-5L;
static const long DAY = 86400000000L;

struct Msg {
  ng::Rec x;
  __int128 from, to; ///< valid in [from, to), in the system's own time
  bool healthy = true;
};
struct Sv {
  char sys;
  int prn;
  std::vector<Msg> m;
  const Msg *at(__int128 t) const {
    for (auto &k : m)
      if (k.healthy && t >= k.from && t < k.to)
        return &k;
    return nullptr;
  }
};
/// seconds by which a system's time is behind GPS time
static long behind(char s) { return s == 'R' ? 18 : (s == 'C' ? 14 : 0); }

/// position, velocity, acceleration and clock at t (of the system's time)
struct Truth {
  V3 x, v, a;
  L clk, drift;
};
static Truth truth(const Msg &m, __int128 t) {
  Truth o;
  __int128 toe = kr::usec(m.x.toe_mjd, m.x.toe_sod), toc = kr::usec(m.x.mjd, m.x.sod);
  L tk = static_cast<L>(static_cast<long>(t - toe)) / 1e6L, dt = static_cast<L>(static_cast<long>(t - toc)) / 1e6L;
  if (m.x.sys == 'R') {
    L y[6], acc[3], d[6];
    kr::glo_state(m.x, tk, y);
    for (int q = 0; q < 3; q++)
      acc[q] = m.x.v[5 + 4 * q] * 1e3L;
    kr::deriv(y, acc, d);
    for (int q = 0; q < 3; q++) {
      o.x[q] = y[q];
      o.v[q] = y[3 + q];
      o.a[q] = d[3 + q];
    }
    o.drift = m.x.v[1];
    o.clk = m.x.v[0] + o.drift * tk;
  } else {
    L p[3], a[3], b[3];
    const L h = .5L;
    kr::position(m.x.sys, m.x.v, tk, p);
    kr::position(m.x.sys, m.x.v, tk - h, a);
    kr::position(m.x.sys, m.x.v, tk + h, b);
    for (int q = 0; q < 3; q++) {
      o.x[q] = p[q];
      o.v[q] = (b[q] - a[q]) / (2 * h);
      o.a[q] = (b[q] - 2 * p[q] + a[q]) / (h * h);
    }
    o.clk = kr::clock(m.x.sys, m.x.v, dt, tk);
    o.drift = (kr::clock(m.x.sys, m.x.v, dt + h, tk + h) - kr::clock(m.x.sys, m.x.v, dt - h, tk - h)) / (2 * h);
  }
  return o;
}
/// the satellite `ago` seconds earlier, in the frame of reception after `tau` seconds of travel
static V3 seen(const Truth &t, L ago, L tau) {
  V3 p;
  for (int q = 0; q < 3; q++)
    p[q] = t.x[q] - t.v[q] * ago + t.a[q] * ago * ago / 2;
  L a = W * tau;
  return {p[0] * std::cos(a) + p[1] * std::sin(a), p[1] * std::cos(a) - p[0] * std::sin(a), p[2]};
}
static L dist(const V3 &a, const V3 &b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static L sin_elev(const V3 &s, const V3 &r) {
  L d = dist(s, r), n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
  return ((s[0] - r[0]) * r[0] + (s[1] - r[1]) * r[1] + (s[2] - r[2]) * r[2]) / (d * n);
}

/// a message with a random orbit that is well above the horizon at t
static ng::Rec orbit_above(vp::Rng &r, char sys, int prn, __int128 toc, long toe_off, __int128 t, const V3 &rec) {
  ng::Rec x;
  for (int k = 0; k < 400; k++) {
    long tc = static_cast<long>(toc / 1000000), te = tc + toe_off;
    x = ng::record(r, sys, tc / 86400, tc % 86400, 'D');
    x.prn = prn;
    if (sys == 'R') {
      kr::glo_orbit(r, x);
      ng::put(x, 6, 0);
    } else {
      kr::elements(r, x);
      ng::put(x, 8, r.uni(0, .02));
      ng::put(x, 15, r.uni(.8, 1.1));
      if (sys == 'G')
        ng::put(x, 28, 4);
    }
    ng::set_toe(x, te / 86400, te % 86400);
    V3 p;
    if (sys == 'R') {
      for (int q = 0; q < 3; q++)
        p[q] = x.v[3 + 4 * q] * 1e3L;
    } else {
      L y[3];
      kr::position(sys, x.v, static_cast<L>(static_cast<long>(t - kr::usec(x.toe_mjd, x.toe_sod))) / 1e6L, y);
      p = {y[0], y[1], y[2]};
    }
    if (sin_elev(p, rec) > .25L)
      break;
  }
  return x;
}

static std::string printed(Kalman<5> &k) {
  static std::string path = vp::scratch_dir() + fmt("/kf%d", static_cast<int>(getpid()));
  std::fflush(stdout);
  int save = dup(1), fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  std::ostringstream os;
  std::streambuf *old = std::cout.rdbuf(os.rdbuf());
  k.print_state();
  std::fflush(stdout);
  std::cout.rdbuf(old);
  dup2(save, 1);
  close(save);
  std::string s;
  char buf[4096];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = ::read(fd, buf, sizeof buf)) > 0)
    s.append(buf, static_cast<size_t>(n));
  close(fd);
  ::unlink(path.c_str());
  return s.empty() ? os.str() : s;
}
static bool parse(const std::string &s, double *x) {
  const char *p = s.c_str();
  for (int i = 0; i < 5; i++) {
    char *e;
    x[i] = std::strtod(p, &e);
    if (e == p || !(p = std::strstr(e, "+/-")))
      return false;
    std::strtod(p + 3, &e);
    p = e;
  }
  return true;
}
/// trace of the inverse of a 3x3 matrix
static L inv_trace(L (&a)[3][3]) {
  L d = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
  L m = a[1][1] * a[2][2] - a[1][2] * a[1][2] + a[0][0] * a[2][2] - a[0][2] * a[0][2] + a[0][0] * a[1][1] - a[0][1] * a[0][1];
  return d > 1e-12L ? m / d : 1e12L;
}

struct Signal { ///< what is observed of a system: one range, or two combined
  std::string c1, c2;
  L f1 = 0, f2 = 0;
};

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  // the session
  long mjd = r.chance(1, 4) ? r.in(53800, 81000) : r.in(56000, 61000), step = 1000000L * (r.chance(1, 3) ? r.in(1, 900) : (r.chance(1, 2) ? 30 : 300));
  if (r.chance(1, 3))
    mjd = 44244 + 7 * r.in(1800, 2300) - 1; // the last day of a week
  long us0 = r.chance(1, 2) ? r.in(80000, 86399) * 1000000L : r.in(0, 86399) * 1000000L;
  if (r.chance(1, 4))
    us0 += 500000; // the half second: never near the transmission time of a change of messages
  const __int128 T0 = kr::usec(mjd, 0) + us0;
  int ne = static_cast<int>(r.in(5, 20));
  std::vector<__int128> when;
  for (__int128 t = T0; static_cast<int>(when.size()) < ne; t += step * (r.chance(1, 10) ? r.in(2, 5) : 1))
    when.push_back(t);
  const __int128 T1 = when.back(), mid = (T0 + T1) / 2;
  // the receiver
  L la = std::asin(r.uni(-1, 1)), lo = r.uni(-3.14159, 3.14159), R = r.uni(6.357e6, 6.383e6);
  const V3 rec{R * std::cos(la) * std::cos(lo), R * std::cos(la) * std::sin(lo), R * std::sin(la)};
  L b0 = r.uni(-30, 30), bd = r.uni(-.02, .02);
  // the satellites, with messages that follow each other
  std::vector<Sv> svs;
  std::vector<char> sys;
  for (char s : {'G', 'R', 'E', 'C'})
    if (r.chance(3, 4))
      sys.push_back(s);
  if (sys.empty())
    sys.push_back(r.pickc("GREC"));
  for (char s : sys) {
    std::vector<int> prn;
    for (int i = s == 'C' ? 6 : 1; i <= (s == 'R' ? 24 : 36); i++)
      prn.push_back(i);
    r.shuffle(prn);
    long n = sys.size() > 2 ? r.in(3, 7) : r.in(7, 12);
    for (long i = 0; i < n; i++) {
      Sv v{s, prn[static_cast<size_t>(i)], {}};
      const __int128 lag = static_cast<__int128>(behind(s)) * 1000000;
      __int128 a = (T0 - lag) / 1000000 * 1000000, end = T1 - lag;
      const long len = s == 'R' ? 1800 : 14400;
      __int128 from = a - r.in(0, r.chance(1, 2) ? len - 1 : 120) * 1000000L;
      if (r.chance(1, 2)) // a change during the session
        from = when[static_cast<size_t>(r.in(0, ne - 1))] / 1000000 * 1000000 - lag - static_cast<__int128>(len) * 1000000;
      while (from > a)
        from -= static_cast<__int128>(len) * 1000000;
      for (__int128 t = from; t <= end; t += static_cast<__int128>(len) * 1000000) {
        Msg m;
        m.from = t;
        m.to = t + static_cast<__int128>(len) * 1000000;
        __int128 toc = s == 'R' ? t + 900000000 : t;
        __int128 look = std::max(m.from, std::min(m.to, mid - lag));
        bool bad = r.chance(1, 6);
        int dup = bad ? 1 : 0;
        m.x = orbit_above(r, s, v.prn, toc, s == 'R' ? 0 : (r.chance(1, 2) ? 7200 : r.in(0, 7200)), look, rec);
        Msg u = m;
        if (bad) { // the same epochs, unhealthy and wrong
          u.x = orbit_above(r, s, v.prn, toc, s == 'R' ? 0 : 7200, look, rec);
          ng::put(u.x, s == 'R' ? 6 : 24, static_cast<double>(r.in(1, s == 'R' ? 7 : 63)));
          u.healthy = false;
          if (r.chance(1, 2))
            v.m.push_back(u);
          else
            dup = 2;
        }
        if (!r.chance(1, 15)) // else: none for this time
          v.m.push_back(m);
        if (dup == 2)
          v.m.push_back(u);
      }
      svs.push_back(v);
    }
  }
  // signals
  std::map<char, Signal> sig;
  auto choose = [&](char s, const char *a, L fa, const char *b, L fb) {
    Signal g;
    g.c1 = a;
    if (r.chance(2, 3)) {
      g.c2 = b;
      g.f1 = fa;
      g.f2 = fb;
      if (r.chance(1, 4)) {
        std::swap(g.c1, g.c2);
        std::swap(g.f1, g.f2);
      }
    }
    sig[s] = g;
  };
  choose('G', "C1C", 154, "C2W", 120);
  choose('R', "C1C", 9, "C2P", 7);
  choose('E', "C1X", 154, "C5X", 115);
  choose('C', "C2I", 763, "C6I", 620);
  // the observation file
  og::Hdr h;
  og::header(r, h, 12, false);
  h.mjd = mjd;
  h.us = us0;
  V3 apriori;
  h.types.clear();
  auto ss = sys;
  if (r.chance(1, 2))
    ss.push_back('S');
  r.shuffle(ss);
  for (char s : ss) {
    auto t = og::codes(r, static_cast<int>(r.in(1, 18)));
    if (s != 'S')
      for (auto *k : {&sig[s].c1, &sig[s].c2})
        if (!k->empty() && std::find(t.begin(), t.end(), *k) == t.end())
          t.push_back(*k);
    r.shuffle(t);
    h.types.push_back({s, t});
  }
  for (int i = 0; i < 3; i++) {
    h.posf[i] = fmt("%14.4f", static_cast<double>(rec[i]) + r.uni(-20, 20));
    apriori[i] = h.pos[i] = std::strtod(h.posf[i].c_str(), nullptr);
  }
  auto &g = h.groups;
  g.erase(std::remove_if(g.begin(), g.end(),
                         [](const std::vector<std::string> &x) {
                           return x[0].find("OBS TYPES") == 60 + 10 || x[0].find("APPROX POS") == 60 || x[0].find("TIME OF FIRST") == 60;
                         }),
          g.end());
  auto insert = [&](const std::vector<std::string> &x) { g.insert(g.begin() + r.in(0, static_cast<long>(g.size())), x); };
  insert({og::hl(h.posf[0] + h.posf[1] + h.posf[2], "APPROX POSITION XYZ")});
  insert({og::first_obs(h.mjd, h.us)});
  for (auto &t : h.types)
    insert(og::typelines(t.first, t.second));
  std::string obs = og::text(r, h);
  // the precise orbits of the same satellites
  sg::File pf;
  pf.vel = r.chance(1, 3);
  pf.start.mjd = mjd;
  pf.start.us = us0;
  pf.interval = step;
  pf.nep = ne;
  pf.nsat = static_cast<int>(svs.size());
  for (auto &v : svs)
    pf.sats.push_back({v.sys, v.prn});
  sg::header(r, pf);
  std::string prec = sg::join(pf.head);
  L NN[3][3] = {{0}};
  std::map<std::pair<char, int>, std::vector<int>> used; ///< epochs at which a satellite can be used
  for (int k = 0; k < ne; k++) {
    const __int128 t = when[static_cast<size_t>(k)];
    og::Epoch e;
    e.mjd = static_cast<long>(t / DAY);
    e.t7 = static_cast<long>(t % DAY) * 10;
    sg::Epoch pe;
    pe.mjd = e.mjd;
    pe.us = static_cast<long>(t % DAY);
    L dtr = (b0 + bd * static_cast<L>(static_cast<long>(t - T0)) / 1e6L) / C;
    L A[3] = {0}, N[3][3] = {{0}};
    int n = 0;
    for (auto &v : svs) {
      const __int128 ts = t - static_cast<__int128>(behind(v.sys)) * 1000000;
      const Msg *now = v.at(ts), *m = v.at(ts - 100000); // of reception, of transmission
      if (now) {
        Truth s = truth(*now, ts);
        sg::Sat q = sg::record(r, {v.sys, v.prn});
        for (int i = 0; i < 3; i++)
          q.f[i] = fmt("%14.6f", static_cast<double>(s.x[i] / 1e3L));
        q.f[3] = fmt("%14.6f", static_cast<double>(s.clk * 1e6L));
        pe.s.push_back(q);
      }
      const bool usable = m;
      if (!m && !v.m.empty()) // observed all the same
        m = &v.m[0];
      if (!m)
        continue;
      Truth s{};
      L rho = 2.3e7L, dts = 0;
      V3 p{2e7, 1e7, 1e7};
      if (usable) {
        s = truth(*m, ts);
        for (int i = 0; i < 6; i++) {
          p = seen(s, dtr + rho / C, rho / C);
          rho = dist(p, rec);
        }
        dts = s.clk - s.drift * (dtr + rho / C);
        if (sin_elev(p, rec) < .14L)
          continue;
      }
      L P = rho + C * (dtr - dts), iono = r.uni(1, 30);
      auto &types = *h.of(v.sys);
      auto &sg_ = sig[v.sys];
      og::Sat o{v.sys, v.prn, {}};
      bool missing = r.chance(1, 20);
      for (auto &y : types) {
        std::string f = og::field(r, !r.chance(1, 6));
        if (y == sg_.c1 || y == sg_.c2) {
          L val = P;
          if (!sg_.c2.empty())
            val += y == sg_.c1 ? iono : iono * sg_.f1 * sg_.f1 / (sg_.f2 * sg_.f2);
          f = fmt("%14.3f", static_cast<double>(val)) + f.substr(14);
          if (missing && (y == sg_.c1 || r.chance(1, 2)))
            f = std::string(16, ' ');
        }
        o.f.push_back(f);
      }
      e.s.push_back(o);
      if (!usable || missing)
        continue;
      used[{v.sys, v.prn}].push_back(k);
      n++;
      L u[3];
      for (int i = 0; i < 3; i++)
        u[i] = (p[i] - rec[i]) / rho;
      for (int i = 0; i < 3; i++) {
        A[i] += u[i];
        for (int j = 0; j < 3; j++)
          N[i][j] += u[i] * u[j];
      }
    }
    if (h.of('S') && r.chance(1, 2)) {
      og::Sat o{'S', static_cast<int>(r.in(20, 58)), {}};
      for (size_t i = 0; i < h.of('S')->size(); i++)
        o.f.push_back(og::field(r, true));
      e.s.push_back(o);
    }
    if (n >= 6)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
          NN[i][j] += N[i][j] - A[i] * A[j] / n;
    r.shuffle(e.s);
    for (auto &l : og::events(r, e.mjd, e.t7, 12))
      obs += l + "\n";
    for (auto &l : og::lines(r, e))
      obs += l + "\n";
    pf.ep.push_back(pe);
    for (auto &l : sg::lines(r, pf, pe))
      prec += l + "\n";
  }
  prec += "EOF\n";
  // the navigation file: the messages of a satellite in order, the satellites mixed
  std::string nav = ng::join(ng::header(r));
  {
    std::vector<size_t> next(svs.size(), 0);
    bool bysat = r.chance(1, 2);
    for (;;) {
      std::vector<size_t> left;
      for (size_t i = 0; i < svs.size(); i++)
        if (next[i] < svs[i].m.size())
          left.push_back(i);
      if (left.empty())
        break;
      size_t i = bysat ? left[0] : r.pick(left);
      nav += ng::join(ng::lines(r, svs[i].m[next[i]++].x));
      if (r.chance(1, 8)) { // other satellites
        char s = r.pickc("GRECJSI");
        auto x = ng::record(r, s, mjd, r.in(0, 95) * 900, 'D');
        x.prn = 99;
        nav += ng::join(ng::lines(r, x));
      }
    }
  }
  c.desc(fmt("%d epochs from MJD %ld %ld us, %zu satellites, receiver %.3f %.3f %.3f, clock %.3f %.5f\n", ne, mjd, us0, svs.size(), static_cast<double>(rec[0]),
             static_cast<double>(rec[1]), static_cast<double>(rec[2]), static_cast<double>(b0), static_cast<double>(bd)) +
         obs.substr(0, 5000));
  vp::Scratch po("o"), pn("n"), pp("p");
  po.write(obs);
  pn.write(nav);
  pp.write(prec);

  // what an application does
  ObservationRnx orx(po.path.c_str());
  NavigationRnx nrx(pn.path.c_str());
  Sp3c sp3(pp.path.c_str());
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> want;
  for (char s : sys) {
    SATELLITE_SYSTEM q = char_to_satsys(s);
    auto &x = sig[s];
    if (x.c2.empty()) {
      want[q].push_back(GnssObservable(q, ObservationCode(x.c1.c_str()), 1.));
    } else {
      double k = static_cast<double>(x.f1 * x.f1 / (x.f1 * x.f1 - x.f2 * x.f2));
      GnssObservable o(q, ObservationCode(x.c1.c_str()), k);
      o.add(q, ObservationCode(x.c2.c_str()), 1 - k);
      want[q].push_back(o);
    }
  }
  auto map = orx.set_read_map(want);
  if (map.empty()) {
    c.fail("request-refused", "");
    return;
  }
  auto vec = orx.initialize_epoch_vector(map);
  Kalman<5> kf({orx.x_approx(), orx.y_approx(), orx.z_approx(), 0., 0.});
  std::map<std::pair<char, int>, NavDataFrame> cache;
  std::map<std::pair<char, int>, std::pair<__int128, __int128>> until;
  auto message = [&](char s, int prn, __int128 t, NavDataFrame *&out) { // t of the system's time
    auto key = std::make_pair(s, prn);
    auto it = cache.find(key);
    if (it != cache.end() && t >= until[key].first && t < until[key].second) {
      out = &it->second;
      return 0;
    }
    NavDataFrame f;
    NavigationRnx::pos_type pos;
    nrx.rewind();
    int j = nrx.find_next_valid(kr::date<microseconds>(t), pos, f, char_to_satsys(s), prn);
    if (j)
      return j;
    auto z = s == 'R' ? f.toe<seconds>() : f.toc<seconds>();
    __int128 b = kr::usec(z.mjd().as_underlying_type(), z.sec().as_underlying_type()), fit = static_cast<__int128>(f.fit_interval()) * 1000000;
    until[key] = {s == 'R' ? b - fit : b, b + fit};
    cache[key] = f;
    out = &cache[key];
    c.event("messages_found");
    return 0;
  };
  __int128 last = T0;
  int updates = 0;
  L clock_at_last = 0;
  auto spv = sp3.allocate_epoch_vector();
  for (int k = 0; k < ne; k++) {
    modified_julian_day md;
    double sod = 0;
    int n = 0;
    int j = orx.read_next_epoch(map, vec, n, md, sod);
    std::string w = fmt("epoch %d of %d: ", k, ne);
    const __int128 t = static_cast<__int128>(md.as_underlying_type()) * DAY + std::llround(sod * 1e6);
    if (j || t != when[static_cast<size_t>(k)]) {
      c.fail("epoch", w + fmt("status %d, mjd %ld %.6f", j, md.as_underlying_type(), sod));
      return;
    }
    std::vector<double> ob, wt;
    std::vector<std::array<double, 4>> sv;
    for (int i = 0; i < n; i++) {
      auto &x = vec[static_cast<size_t>(i)];
      char s = satsys_to_char(x.first.system());
      int prn = x.first.prn();
      double P = x.second[0];
      if (P == RNXOBS_MISSING_VAL)
        continue;
      NavDataFrame *f = nullptr;
      const __int128 ts = t - static_cast<__int128>(behind(s)) * 1000000;
      j = message(s, prn, ts - std::llround(P / static_cast<double>(C) * 1e6), f);
      auto &us = used[{s, prn}];
      bool expect = std::find(us.begin(), us.end(), k) != us.end();
      std::string z = w + fmt("%c%02d: status %d: ", s, prn, j);
      VP_CHECK(c, expect ? j == 0 : j == -1, "message", z);
      if (j)
        continue;
      double st[6], ck = 0;
      L ago = P / C;
      for (int q = 0; q < 2 && !j; q++) {
        j = f->stateNclock(kr::date<microseconds>(ts - std::llround(ago * 1e6L)), st, ck);
        ago = P / C + ck;
      }
      VP_CHECK(c, j == 0, "state", z + fmt("status %d", j));
      if (j)
        continue;
      L a = W * ago;
      ob.push_back(P);
      wt.push_back(-r.uni(99.9, 99.99));
      sv.push_back({static_cast<double>(st[0] * std::cos(a) + st[1] * std::sin(a)), static_cast<double>(st[1] * std::cos(a) - st[0] * std::sin(a)), st[2], ck});
    }
    if (ob.size() >= 6) {
      kf.update(static_cast<int>(ob.size()), &ob, &sv, static_cast<double>(t - last) / 1e6, &wt);
      last = t;
      updates++;
      clock_at_last = b0 + bd * static_cast<L>(static_cast<long>(t - T0)) / 1e6L;
      c.event("ranges_used", static_cast<long>(ob.size()));
    }
    // the precise orbits say the same as the broadcast ones
    datetime<microseconds> pt;
    int pn_ = 0;
    j = sp3.get_next_epoch(pt, spv, pn_);
    const __int128 pt_ = static_cast<__int128>(pt.mjd().as_underlying_type()) * DAY + pt.sec().as_underlying_type();
    if (j > 0 || pt_ != t || pn_ != static_cast<int>(pf.ep[static_cast<size_t>(k)].s.size())) {
      c.fail("precise-epoch", w + fmt("status %d, %d satellites", j, pn_));
      return;
    }
    for (int i = 0; i < pn_; i++) {
      auto &q = spv[static_cast<size_t>(i)];
      char s = satsys_to_char(q.s_);
      const __int128 ts = t - static_cast<__int128>(behind(s)) * 1000000;
      NavDataFrame *f = nullptr;
      std::string z = w + fmt("%c%02d: ", s, q.prn_);
      j = message(s, q.prn_, ts, f);
      double st[6], ck = 0;
      if (!j)
        j = f->stateNclock(kr::date<microseconds>(ts), st, ck);
      if (j) {
        c.fail("message-for-precise", z + fmt("status %d", j));
        continue;
      }
      double d = std::sqrt((st[0] - q.vals_[0]) * (st[0] - q.vals_[0]) + (st[1] - q.vals_[1]) * (st[1] - q.vals_[1]) + (st[2] - q.vals_[2]) * (st[2] - q.vals_[2]));
      VP_CHECK(c, d < 2e-3, "orbits-disagree", z + fmt("%.6f m apart", d));
      VP_CHECK(c, std::abs(ck * 1e6 - q.vals_[3]) < 1e-6, "clocks-disagree", z + fmt("%.9f and %.9f us", ck * 1e6, q.vals_[3]));
      c.event("precise_states_compared");
    }
  }
  {
    modified_julian_day md;
    double sod;
    int n;
    VP_CHECK(c, orx.read_next_epoch(map, vec, n, md, sod) == -1, "end", "not reported");
  }
  L D = std::sqrt(inv_trace(NN));
  if (!updates || D > 5) {
    c.event("sessions_too_poor");
    return;
  }
  double x[5];
  std::string s = printed(kf);
  if (!parse(s, x)) {
    c.fail("printed-state", s);
    return;
  }
  L e = dist({x[0], x[1], x[2]}, rec), tol = .01L + .02L * D + .001L * D * D;
  std::string w = fmt("%d updates, dilution %.2f: %.4f m off, %.4f m before; clock %.4f instead of %.4f m", updates, static_cast<double>(D), static_cast<double>(e),
                      static_cast<double>(dist(apriori, rec)), x[3], static_cast<double>(clock_at_last));
  VP_CHECK(c, e < tol, "position", w);
  VP_CHECK(c, std::abs(x[3] - clock_at_last) < 5 * tol, "clock", w);
  c.event("positions_compared");
  c.nontrivial(s);
  c.sample(w);
}
