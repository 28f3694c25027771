// C02: frequencies, tracking attributes and geodetic constants
#include "vp.hpp"
#include "gnssobsrv.hpp"
#include "satsys.hpp"
#include <climits>
using namespace ngpt;

struct Band { int band; double mhz; const char *attr; };
struct Sys { SATELLITE_SYSTEM s; char l; std::vector<Band> bands; };
// RINEX 3 frequency tables / interface documents (repo's band numbering)
static const std::vector<Sys> REF = {
    {SATELLITE_SYSTEM::gps, 'G', {{1, 1575.42, "CSLXPWYMN?"}, {2, 1227.60, "CDSLXPWYMN?"}, {5, 1176.45, "IQX?"}}},
    {SATELLITE_SYSTEM::glonass, 'R', {{1, 1602.0, "CP?"}, {2, 1246.0, "CP?"}, {3, 1202.025, "IQX?"}}},
    {SATELLITE_SYSTEM::galileo, 'E', {{1, 1575.42, "ABCXZ?"}, {5, 1176.45, "IQX?"}, {7, 1207.14, "IQX?"}, {8, 1191.795, "IQX?"}, {6, 1278.75, "ABCXZ?"}}},
    {SATELLITE_SYSTEM::sbas, 'S', {{1, 1575.42, "C?"}, {5, 1176.45, "IQX?"}}},
    {SATELLITE_SYSTEM::qzss, 'J', {{1, 1575.42, "CSLXZ?"}, {2, 1227.60, "SLX?"}, {5, 1176.45, "IQX?"}, {6, 1278.75, "SLX?"}}},
    {SATELLITE_SYSTEM::beidou, 'C', {{1, 1561.098, "IQX?"}, {2, 1207.14, "IQX?"}, {3, 1268.52, "IQX?"}}},
    {SATELLITE_SYSTEM::irnss, 'I', {{5, 1176.45, "ABCX?"}, {9, 2492.028, "ABCX?"}}}};

template <SATELLITE_SYSTEM S> static const std::map<int, double> &fm() {
  return satellite_system_traits<S>::frequency_map;
}
static const std::map<int, double> &freqs(int i) {
  switch (i) {
  case 0: return fm<SATELLITE_SYSTEM::gps>();
  case 1: return fm<SATELLITE_SYSTEM::glonass>();
  case 2: return fm<SATELLITE_SYSTEM::galileo>();
  case 3: return fm<SATELLITE_SYSTEM::sbas>();
  case 4: return fm<SATELLITE_SYSTEM::qzss>();
  case 5: return fm<SATELLITE_SYSTEM::beidou>();
  default: return fm<SATELLITE_SYSTEM::irnss>();
  }
}
static const std::map<int, std::string> &attrs(int i) {
  switch (i) {
  case 0: return satellite_system_traits<SATELLITE_SYSTEM::gps>::valid_atributes;
  case 1: return satellite_system_traits<SATELLITE_SYSTEM::glonass>::valid_atributes;
  case 2: return satellite_system_traits<SATELLITE_SYSTEM::galileo>::valid_atributes;
  case 3: return satellite_system_traits<SATELLITE_SYSTEM::sbas>::valid_atributes;
  case 4: return satellite_system_traits<SATELLITE_SYSTEM::qzss>::valid_atributes;
  case 5: return satellite_system_traits<SATELLITE_SYSTEM::beidou>::valid_atributes;
  default: return satellite_system_traits<SATELLITE_SYSTEM::irnss>::valid_atributes;
  }
}
// frequency lookup; false: rejected
static bool lookup(int i, int band, double &f) {
  try {
    switch (i) {
    case 0: f = satellite_system_traits<SATELLITE_SYSTEM::gps>::band2frequency(band); break;
    case 1: f = freqs(1).at(band); break;
    case 2: f = satellite_system_traits<SATELLITE_SYSTEM::galileo>::band2frequency(band); break;
    case 3: f = satellite_system_traits<SATELLITE_SYSTEM::sbas>::band2frequency(band); break;
    case 4: f = satellite_system_traits<SATELLITE_SYSTEM::qzss>::band2frequency(band); break;
    case 5: f = satellite_system_traits<SATELLITE_SYSTEM::beidou>::band2frequency(band); break;
    default: f = satellite_system_traits<SATELLITE_SYSTEM::irnss>::band2frequency(band); break;
    }
    return true;
  } catch (...) {
    return false;
  }
}
static bool near(double a, double b, double rel = 1e-12) {
  return std::fabs(a - b) <= rel * std::fabs(b);
}

static const long NB = 4001; // bands -2000..2000
long vp_cases(int tier) { return 8 + 7 * 41 + (tier ? 20000 : 2000); }

static void one_band(vp::Case &c, int i, int band) {
  const Band *w = nullptr;
  for (auto &b : REF[i].bands)
    if (b.band == band)
      w = &b;
  double f = 0;
  bool ok = lookup(i, band, f);
  std::string at = vp::fmt("system %c band %d", REF[i].l, band);
  VP_CHECK(c, ok == (w != nullptr), w ? "band-rejected" : "band-answered",
           at + (ok ? vp::fmt(" answered with %.9g MHz", f) : " rejected"));
  if (ok && w) {
    VP_CHECK(c, near(f, w->mhz), "frequency", at + vp::fmt(": %.9f MHz, published %.9f", f, w->mhz));
    c.event("frequencies_compared");
    c.nontrivial(at);
  } else
    c.event("bands_rejected");
  // the same through a raw observable of that band
  if (i != 1) {
    bool ok2;
    double f2 = 0;
    try {
      f2 = __ObsPart(REF[i].s, ObservationCode(OBSERVABLE_TYPE::carrier_phase, band), 1e0).frequency();
      ok2 = true;
    } catch (...) {
      ok2 = false;
    }
    VP_CHECK(c, ok2 == (w != nullptr), "observable-band", at + " through an observable");
    if (ok2 && w)
      VP_CHECK(c, near(f2, w->mhz), "observable-frequency", at + vp::fmt(": %.9f MHz through an observable, published %.9f", f2, w->mhz));
    // and through a combination: must be rejected by an exception
    bool ok3;
    double f3 = 0;
    try {
      f3 = GnssObservable(REF[i].s, ObservationCode(OBSERVABLE_TYPE::carrier_phase, band), 1e0).frequency();
      ok3 = true;
    } catch (...) {
      ok3 = false;
    }
    VP_CHECK(c, ok3 == (w != nullptr), "combination-band", at + " through a linear combination");
    if (ok3 && w)
      VP_CHECK(c, near(f3, w->mhz), "combination-frequency", at + vp::fmt(": %.9f MHz through a combination, published %.9f", f3, w->mhz));
  }
}

void vp_case(vp::Case &c) {
  if (c.idx < 7) {
    int i = static_cast<int>(c.idx);
    c.desc(vp::fmt("tables of system %c", REF[i].l));
    std::map<int, std::set<char>> want, got;
    for (auto &b : REF[i].bands)
      want[b.band] = std::set<char>(b.attr, b.attr + std::strlen(b.attr));
    for (auto &p : attrs(i))
      got[p.first] = std::set<char>(p.second.begin(), p.second.end());
    for (auto &p : want) {
      std::string w(p.second.begin(), p.second.end());
      std::string g(got[p.first].begin(), got[p.first].end());
      VP_CHECK(c, p.second == got[p.first], "attributes",
               vp::fmt("system %c band %d lists attributes %s, published %s", REF[i].l, p.first, g.c_str(), w.c_str()));
      c.event("attribute_lists_compared");
      c.nontrivial(vp::fmt("attr%c%d", REF[i].l, p.first));
    }
    VP_CHECK(c, got.size() == want.size(), "attribute-bands", vp::fmt("system %c lists attributes for other bands", REF[i].l));
    auto &m = freqs(i);
    VP_CHECK(c, m.size() == REF[i].bands.size(), "band-count", vp::fmt("system %c has %zu bands", REF[i].l, m.size()));
    c.sample(vp::fmt("system %c: %zu bands, attributes of band %d: %s", REF[i].l, m.size(),
                     attrs(i).begin()->first, attrs(i).begin()->second.c_str()));
    return;
  }
  if (c.idx == 7) {
    c.desc("geodetic constants");
    using G = satellite_system_traits<SATELLITE_SYSTEM::gps>;
    using E = satellite_system_traits<SATELLITE_SYSTEM::galileo>;
    using C = satellite_system_traits<SATELLITE_SYSTEM::beidou>;
    struct K { const char *n; double got, want, rel; };
    long double cc = 299792458.0L;
    K ks[] = {{"GPS mu", G::mi(), 3.986005e14, 1e-15},
              {"GPS omega", G::omegae_dot(), 7.2921151467e-5, 1e-15},
              {"GPS F", G::f_clock(), -4.442807633e-10, 1e-11},
              {"GAL mu", E::mi(), 3.986004418e14, 1e-15},
              {"GAL omega", E::omegae_dot(), 7.2921151467e-5, 1e-15},
              {"GAL F", E::f_clock(), -4.442807309e-10, 1e-11},
              {"BDS mu", C::mi(), 3.986004418e14, 1e-15},
              {"BDS omega", C::omegae_dot(), 7.2921150e-5, 1e-15},
              {"BDS F", C::f_clock(), static_cast<double>(-2.0L * sqrtl(3.986004418e14L) / (cc * cc)), 1e-11}};
    for (auto &k : ks) {
      VP_CHECK(c, near(k.got, k.want, k.rel), "constant", vp::fmt("%s is %.15g, published %.15g", k.n, k.got, k.want));
      c.event("constants_compared");
      c.nontrivial(k.n);
    }
    return;
  }
  long j = c.idx - 8;
  if (j < 7 * 41) {
    int i = static_cast<int>(j / 41);
    long blk = j % 41;
    // block 0: -10..20 one by one; others: a slice of -2000..2000
    std::string d = vp::fmt("system %c, band block %ld", REF[i].l, blk);
    c.desc(d);
    if (!blk) {
      for (int b = -10; b <= 20; b++)
        one_band(c, i, b);
      for (int b : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 255, 256, 257, 258, 261, 65536, 65537, 65541})
        one_band(c, i, b);
    } else {
      for (long b = -2000 + (blk - 1) * 100; b < -2000 + blk * 100 + 1; b++)
        one_band(c, i, static_cast<int>(b));
    }
    return;
  }
  // random histories over systems and bands: answers do not depend on history
  std::string h;
  for (int k = 0; k < 30; k++) {
    int i = static_cast<int>(c.rng.in(0, 6));
    int b = c.rng.chance(3, 4) ? static_cast<int>(c.rng.in(0, 10)) : static_cast<int>(c.rng.next());
    h += vp::fmt("%c%d ", REF[i].l, b);
    c.desc(h);
    one_band(c, i, b);
  }
}
