// C04: linear combinations of observables
#include "vp.hpp"
#include "gnssobsrv.hpp"
using namespace ngpt;

static const SATELLITE_SYSTEM SYS[8] = {
    SATELLITE_SYSTEM::gps,    SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas,
    SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss,
    SATELLITE_SYSTEM::irnss,  SATELLITE_SYSTEM::mixed};
static const char LET[9] = "GRSECJIM";
static const std::map<int, double> FR[8] = {
    {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}},
    {},
    {{1, 1575.42}, {5, 1176.45}},
    {{1, 1575.42}, {5, 1176.45}, {7, 1207.14}, {8, 1191.795}, {6, 1278.75}},
    {{1, 1561.098}, {2, 1207.14}, {3, 1268.52}},
    {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}, {6, 1278.75}},
    {{5, 1176.45}, {9, 2492.028}},
    {}};

struct Part {
  int sys;
  char t;
  int band;
  char a;
  double coef;
  bool operator<(const Part &o) const {
    return std::tie(sys, t, band, a, coef) < std::tie(o.sys, o.t, o.band, o.a, o.coef);
  }
  bool operator==(const Part &o) const {
    return std::tie(sys, t, band, a, coef) == std::tie(o.sys, o.t, o.band, o.a, o.coef);
  }
  std::string txt() const { return vp::fmt("%c::%c%d%c*%f", LET[sys], t, band, a, coef); }
  ObservationCode code() const {
    char b[4] = {t, static_cast<char>('0' + band), a, 0};
    return ObservationCode(b);
  }
};
typedef std::vector<Part> Obs;

static std::string txt(const Obs &o) {
  std::string s;
  for (auto &p : o)
    s += (s.empty() ? "" : "+") + p.txt();
  return s;
}
// a coefficient of 1 may be left out
static GnssObservable make(const Obs &o, int how) {
  if ((how & 4) && o[0].coef == 1) {
    GnssObservable g = (how & 1) ? GnssObservable(SYS[o[0].sys], o[0].code()) : GnssObservable(GnssRawObservable(SYS[o[0].sys], o[0].code()));
    for (size_t i = 1; i < o.size(); i++)
      if ((how >> (i % 6)) & 1) {
        if (o[i].coef == 1)
          g.add(SYS[o[i].sys], o[i].code());
        else
          g.add(SYS[o[i].sys], o[i].code(), o[i].coef);
      } else if (o[i].coef == 1)
        g.add(GnssRawObservable(SYS[o[i].sys], o[i].code()));
      else
        g.underlying_vector().push_back(__ObsPart(GnssRawObservable(SYS[o[i].sys], o[i].code()), o[i].coef));
    return g;
  }
  GnssObservable g = (how & 1) ? GnssObservable(SYS[o[0].sys], o[0].code(), o[0].coef)
                               : GnssObservable(GnssRawObservable(SYS[o[0].sys], o[0].code()), o[0].coef);
  for (size_t i = 1; i < o.size(); i++)
    if ((how >> (i % 6)) & 1)
      g.add(SYS[o[i].sys], o[i].code(), o[i].coef);
    else
      g.add(GnssRawObservable(SYS[o[i].sys], o[i].code()), o[i].coef);
  return g;
}
static bool eqref(Obs a, Obs b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return a == b;
}
static void pair(vp::Case &c, const Obs &a, const GnssObservable &ga, const Obs &b, const GnssObservable &gb) {
  bool w = eqref(a, b);
  bool e1 = ga == gb, e2 = gb == ga, n1 = ga != gb, n2 = gb != ga;
  if (e1 != w || e2 != w || n1 == e1 || n2 == e2)
    c.fail(w ? "equal-denied" : "unequal-accepted",
           txt(a) + "  vs  " + txt(b) + vp::fmt(": ==%d/%d !=%d/%d, expected %d", e1, e2, n1, n2, w));
  c.event(w ? "equal_pairs" : "unequal_pairs");
}
static void single(vp::Case &c, const Obs &a, const GnssObservable &g) {
  // text
  std::string s = g.to_string();
  VP_CHECK(c, s == txt(a), "text", "'" + s + "' instead of '" + txt(a) + "'");
  // mixed
  bool mixed = false;
  for (auto &p : a)
    for (auto &q : a)
      if (p.sys != q.sys)
        mixed = true;
  VP_CHECK(c, g.is_of_mixed_satsys() == mixed, "mixed", txt(a));
  {
    GnssObservable none(g), also(g); // one without parts belongs to no two systems
    none.underlying_vector().clear();
    also.underlying_vector().clear();
    VP_CHECK(c, !none.is_of_mixed_satsys() && none == also && !(none != also) && none != g, "no-parts", txt(a));
  }
  // parts
  auto v = g.underlying_vector();
  VP_CHECK(c, v.size() == a.size(), "parts", txt(a));
  if (v.size() != a.size())
    return;
  for (size_t i = 0; i < a.size(); i++) {
    const Part &p = a[i];
    GnssRawObservable o(SYS[p.sys], p.code());
    VP_CHECK(c, v[i].__type == o && !(v[i].__type != o) && v[i].type() == o && v[i].__coef == p.coef && v[i].to_string() == p.txt(), "part",
             txt(a) + vp::fmt(": part %zu is ", i) + v[i].to_string());
    __ObsPart one(o), two(SYS[p.sys], p.code());
    VP_CHECK(c, one == two && !(one != two) && one.__coef == 1 && (one == v[i]) == (p.coef == 1) && (one != v[i]) == (p.coef != 1), "coefficient-1", p.txt());
    for (size_t k = 0; k < a.size(); k++) {
      const Part &q = a[k];
      bool w = p.sys == q.sys && p.t == q.t && p.band == q.band && p.a == q.a;
      GnssRawObservable u(SYS[q.sys], q.code());
      VP_CHECK(c, (o == u) == w && (o != u) == !w, "single-comparison", p.txt() + " and " + q.txt());
      VP_CHECK(c, (v[i] == v[k]) == (p == q) && (v[i] != v[k]) == !(p == q), "part-comparison", p.txt() + " and " + q.txt());
    }
    c.event("parts_compared");
  }
  // frequency
  long double f = 0, mag = 0;
  bool known = true;
  for (auto &p : a) {
    if (LET[p.sys] == 'R' || LET[p.sys] == 'M')
      continue;
    auto it = FR[p.sys].find(p.band);
    if (it == FR[p.sys].end()) {
      known = false;
      break;
    }
    f += static_cast<long double>(p.coef) * it->second;
    mag += std::fabs(static_cast<long double>(p.coef) * it->second);
  }
  bool ok = true;
  double got = 0;
  try {
    got = g.frequency();
  } catch (...) {
    ok = false;
  }
  VP_CHECK(c, ok == known, known ? "frequency-refused" : "frequency-invented", txt(a));
  if (ok && known) {
    VP_CHECK(c, std::fabs(got - static_cast<double>(f)) <= 1e-12 * static_cast<double>(mag), "frequency",
             txt(a) + vp::fmt(": %.12g MHz instead of %.12g", got, static_cast<double>(f)));
    c.event("frequencies_summed");
  } else
    c.event("frequencies_refused");
  c.nontrivial(s);
}

static Part rpart(vp::Rng &r, bool valid) {
  Part p;
  p.sys = static_cast<int>(r.in(0, 7));
  p.t = r.pickc("CLDSIX");
  p.a = r.pickc("CPWXIQ?");
  if (valid && !FR[p.sys].empty()) {
    auto it = FR[p.sys].begin();
    std::advance(it, r.in(0, static_cast<long>(FR[p.sys].size()) - 1));
    p.band = it->first;
  } else
    p.band = static_cast<int>(r.in(0, 9));
  static const double cf[] = {1, -1, 0, 2, 0.5, 2.546, -1.546, 77, -60, 1e-6, 1e6};
  p.coef = r.chance(2, 3) ? cf[r.in(0, 10)] : r.uni(-5, 5);
  if (p.coef == 0)
    p.coef = 0; // no negative zero
  return p;
}

// 0..120: all pairs of sequences of up to 4 parts over 3 parts (121 sequences)
static std::vector<Obs> &small() {
  static std::vector<Obs> v;
  if (v.empty()) {
    Part A{0, 'C', 1, 'C', 1}, B{0, 'C', 1, 'C', -1}, D{3, 'C', 1, 'C', 1};
    std::vector<Obs> last{{}};
    for (int n = 0; n < 4; n++) {
      std::vector<Obs> nx;
      for (auto &o : last)
        for (auto &p : {A, B, D}) {
          Obs q(o);
          q.push_back(p);
          nx.push_back(q);
          v.push_back(q);
        }
      last = nx;
    }
  }
  return v;
}
long vp_cases(int tier) { return 120 + (tier ? 400000 : 40000); }

void vp_case(vp::Case &c) {
  if (c.idx < 120) {
    auto &v = small();
    const Obs &a = v[c.idx];
    c.desc("all pairs with " + txt(a));
    GnssObservable ga = make(a, static_cast<int>(c.idx));
    single(c, a, ga);
    for (auto &b : v)
      pair(c, a, ga, b, make(b, static_cast<int>(b.size())));
    return;
  }
  Obs a;
  int n = static_cast<int>(c.rng.chance(1, 20) ? c.rng.in(7, 40) : c.rng.in(1, 6));
  if (n > 6)
    c.event("long_combinations");
  bool valid = c.rng.chance(5, 6);
  bool onesys = c.rng.chance(1, 2);
  for (int i = 0; i < n; i++) {
    if (i && c.rng.chance(1, 4))
      a.push_back(a[c.rng.in(0, i - 1)]); // repeated part
    else
      a.push_back(rpart(c.rng, valid));
    if (onesys && i && !FR[a[0].sys].empty() ) {
      a[i].sys = a[0].sys;
      if (valid)
        a[i].band = a[0].band;
    }
  }
  int how = static_cast<int>(c.rng.in(0, 63));
  c.desc(txt(a));
  c.sample(txt(a));
  GnssObservable ga = make(a, how);
  single(c, a, ga);
  pair(c, a, ga, a, ga);
  // permuted
  Obs b(a);
  c.rng.shuffle(b);
  GnssObservable gb = make(b, ~how);
  c.desc(txt(a) + "  permuted  " + txt(b));
  single(c, b, gb);
  pair(c, a, ga, b, gb);
  // one thing different
  for (int k = 0; k < 4; k++) {
    Obs d(b);
    size_t j = static_cast<size_t>(c.rng.in(0, n - 1));
    switch (c.rng.in(0, 6)) {
    case 0: d[j].sys = static_cast<int>((d[j].sys + c.rng.in(1, 7)) % 8); break;
    case 1: d[j].t = d[j].t == 'C' ? 'L' : 'C'; break;
    case 2: d[j].band = (d[j].band + 1) % 10; break;
    case 3: d[j].a = d[j].a == '?' ? 'C' : '?'; break;
    case 4:
      if (c.rng.chance(1, 2))
        d[j].coef = d[j].coef == 0 ? 1 : -d[j].coef;
      else // by very little
        d[j].coef = c.rng.chance(1, 2) ? std::nextafter(d[j].coef, 9e9) : d[j].coef + 1e-9;
      break;
    case 5:
      if (n > 1)
        d[j] = d[c.rng.in(0, n - 1)];
      else
        d.push_back(d[0]);
      break;
    default:
      if (c.rng.chance(1, 2) || n == 1)
        d.push_back(d[j]);
      else
        d.pop_back();
    }
    c.desc(txt(a) + "  vs  " + txt(d));
    GnssObservable gd = make(d, how + k);
    pair(c, a, ga, d, gd);
    pair(c, b, gb, d, gd);
  }
  // adding to a copy leaves the original alone
  GnssObservable cp(ga);
  Part x = rpart(c.rng, true);
  cp.add(SYS[x.sys], x.code(), x.coef);
  Obs e(a);
  e.push_back(x);
  single(c, e, cp);
  single(c, a, ga);
  pair(c, a, ga, e, cp);
  cp = ga;
  pair(c, a, ga, a, cp);
}
