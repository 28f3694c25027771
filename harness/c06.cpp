// C06: satellites and satellite antennas identify themselves faithfully
#include "vp.hpp"
#include "satellite.hpp"
#include <memory>
#include <new>
using namespace ngpt;

static const SATELLITE_SYSTEM SYS[8] = {
    SATELLITE_SYSTEM::gps,    SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas,
    SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss,
    SATELLITE_SYSTEM::irnss,  SATELLITE_SYSTEM::mixed};
static const char LET[9] = "GRSECJIM";

struct CStr {
  std::unique_ptr<char[]> p;
  explicit CStr(const std::string &s) : p(new char[s.size() + 1]) { std::memcpy(p.get(), s.c_str(), s.size() + 1); }
  operator const char *() const { return p.get(); }
};
struct Ref {
  int sys = 7, prn = -1, svn = -1;
  std::string ant, id;
};
template <typename T> struct Slot {
  void *raw;
  T *a = nullptr;
  Ref r;
  explicit Slot(int poison) : raw(std::malloc(sizeof(T))) { std::memset(raw, poison, sizeof(T)); }
  Slot(const Slot &) = delete;
  ~Slot() {
    if (a)
      a->~T();
    std::free(raw);
  }
};
static std::string nonul(std::string s) {
  s.erase(s.find_last_not_of('\0') + 1);
  return s;
}
static const int PO[] = {0, 0x20, 0xAB, 0x41};

static void look(vp::Case &c, const Slot<Satellite> &s, const char *when) {
  const Satellite &k = *s.a;
  const Ref &r = s.r;
  std::string w(when);
  VP_CHECK(c, k.system() == SYS[r.sys] && s.a->system() == SYS[r.sys], "system", w);
  VP_CHECK(c, k.prn() == r.prn && s.a->prn() == r.prn, "number", w + vp::fmt(": %d instead of %d", k.prn(), r.prn));
  VP_CHECK(c, k.svn() == r.svn && s.a->svn() == r.svn, "vehicle", w + vp::fmt(": %d instead of %d", k.svn(), r.svn));
  VP_CHECK(c, k.antenna().to_string() == r.ant, "antenna", w + ": '" + vp::esc(k.antenna().to_string()) + "' instead of '" + r.ant + "'");
  VP_CHECK(c, std::string(s.a->antenna().__underlying_char__()) == r.ant, "antenna", w);
  if (r.prn >= 0) {
    std::string e = vp::fmt("%c%02d", LET[r.sys], r.prn);
    VP_CHECK(c, k.to_string() == e, "short-form", w + ": '" + k.to_string() + "' instead of '" + e + "'");
    if (r.svn >= 0) {
      e += vp::fmt("-%03d/", r.svn) + r.id;
      std::string g = nonul(k.to_string(false));
      VP_CHECK(c, g == e, "long-form", w + ": '" + vp::esc(g) + "' instead of '" + e + "'");
      c.event("long_forms");
      c.nontrivial(e);
    }
    c.event("short_forms");
  }
}

static std::string atext(vp::Rng &r) {
  static const char *M[] = {"BLOCK IIF", "BLOCK IIR-M", "BLOCK IIR", "GLONASS-M", "GLONASS-K1", "GALILEO-1", "GALILEO-2", "BEIDOU-2M",
                            "", "ABCDEFGHIJKLMNOPQRST", "ABCDEFGHIJKLMNOPQRSTU", "ABCDEFGHIJKLMNOPQRS", "BLOCK IIA", "BLOCK II", " BLOCK II",
                            "ABCDEFGHIJKLMNOPQRSTVWXYZ"};
  if (r.chance(2, 3))
    return M[r.in(0, 15)];
  std::string s;
  long n = r.in(0, 60);
  for (long i = 0; i < n; i++)
    s += r.pickc("AB-I29 ");
  return s;
}
static void set_id(Satellite &s, const std::string &id) {
  std::memcpy(s.cospar(), id.c_str(), id.size() + 1); // at most 8 characters
}

long vp_cases(int tier) { return 80 + 61 + (tier ? 300000 : 30000); }

void vp_case(vp::Case &c) {
  if (c.idx < 80) {
    // every system, every number 0..999
    int sy = static_cast<int>(c.idx / 10);
    int lo = static_cast<int>(c.idx % 10) * 100;
    c.desc(vp::fmt("system %c, numbers %d..%d", LET[sy], lo, lo + 99));
    for (int p = lo; p < lo + 100; p++) {
      Slot<Satellite> s(PO[p & 3]);
      s.a = new (s.raw) Satellite(SYS[sy], p);
      s.r.sys = sy;
      s.r.prn = p;
      look(c, s, "constructed");
      s.a->svn() = s.r.svn = 999 - p;
      look(c, s, "before the id is set");
      s.r.id = vp::fmt("%04d-%02d%c", 1978 + p % 50, p % 100, 'A' + p % 26).substr(0, 8);
      set_id(*s.a, s.r.id);
      look(c, s, "id set");
    }
    return;
  }
  if (c.idx < 80 + 61) {
    // satellite antennas: every pair of lengths
    long n = c.idx - 80;
    std::string base;
    for (int i = 0; i < 60; i++)
      base += static_cast<char>('A' + i % 26);
    std::string t = base.substr(0, n);
    c.desc(vp::fmt("antenna text of %ld characters", n));
    CStr p(t);
    Slot<SatelliteAntenna> s(PO[n & 3]);
    s.a = new (s.raw) SatelliteAntenna(static_cast<const char *>(p));
    VP_CHECK(c, s.a->to_string() == t.substr(0, 20), "antenna-text", vp::esc(s.a->to_string()));
    for (long m = 0; m <= 60; m++) {
      std::string u = base.substr(0, m);
      CStr q(u);
      bool w = u.substr(0, 20) == t.substr(0, 20);
      VP_CHECK(c, s.a->is_same(q) == w, w ? "antenna-denied" : "antenna-claimed", "'" + t + "' / '" + u + "'");
      for (long k = 0; k < m; k++) {
        u[k] = '#';
        CStr z(u);
        bool w2 = u.substr(0, 20) == t.substr(0, 20);
        VP_CHECK(c, s.a->is_same(z) == w2, w2 ? "antenna-denied" : "antenna-claimed", "'" + t + "' / '" + u + "'");
        u[k] = base[k];
        c.event("antenna_comparisons");
      }
      // replaced completely, longer or shorter
      s.a->set_from_cstr(q);
      VP_CHECK(c, s.a->to_string() == u.substr(0, 20), "antenna-replaced", vp::esc(s.a->to_string()));
      s.a->set_from_cstr(p);
      VP_CHECK(c, s.a->to_string() == t.substr(0, 20), "antenna-replaced", vp::esc(s.a->to_string()));
    }
    return;
  }
  std::vector<std::unique_ptr<Slot<Satellite>>> v;
  std::string h;
  int n = static_cast<int>(c.rng.in(3, 25));
  for (int k = 0; k < n; k++) {
    int op = static_cast<int>(v.empty() ? 0 : c.rng.in(0, 11));
    if (op <= 1) {
      v.emplace_back(new Slot<Satellite>(PO[c.rng.in(0, 3)]));
      auto &s = *v.back();
      int how = static_cast<int>(c.rng.in(0, 2));
      if (how == 0 && v.size() > 1) {
        auto &o = *v[c.rng.in(0, static_cast<long>(v.size()) - 2)];
        s.a = new (s.raw) Satellite(*o.a);
        s.r = o.r;
        h += "copy ";
      } else if (how == 1) {
        s.r.sys = static_cast<int>(c.rng.in(0, 7));
        s.a = new (s.raw) Satellite(SYS[s.r.sys]);
        h += vp::fmt("new(%c) ", LET[s.r.sys]);
      } else {
        s.r.sys = static_cast<int>(c.rng.in(0, 7));
        s.r.prn = static_cast<int>(c.rng.in(0, 999));
        s.a = new (s.raw) Satellite(SYS[s.r.sys], s.r.prn);
        h += vp::fmt("new(%c%d) ", LET[s.r.sys], s.r.prn);
      }
      c.desc(h);
      look(c, s, "constructed");
      continue;
    }
    auto &s = *v[c.rng.in(0, static_cast<long>(v.size()) - 1)];
    switch (op) {
    case 2:
      s.r.sys = static_cast<int>(c.rng.in(0, 7));
      s.a->system() = SYS[s.r.sys];
      h += vp::fmt("sys=%c ", LET[s.r.sys]);
      break;
    case 3:
    case 4:
      s.a->prn() = s.r.prn = static_cast<int>(c.rng.chance(1, 2) ? c.rng.in(0, 40) : c.rng.in(0, 999));
      h += vp::fmt("prn=%d ", s.r.prn);
      break;
    case 5:
    case 6:
      s.a->svn() = s.r.svn = static_cast<int>(c.rng.chance(1, 2) ? c.rng.in(0, 130) : c.rng.in(0, 9999));
      h += vp::fmt("svn=%d ", s.r.svn);
      break;
    case 7: {
      std::string t = atext(c.rng);
      CStr p(t);
      s.a->antenna().set_from_cstr(p);
      s.r.ant = t.substr(0, 20);
      h += "ant=" + t + " ";
      break;
    }
    case 8: {
      std::string t = atext(c.rng);
      CStr p(t);
      s.a->antenna() = SatelliteAntenna(static_cast<const char *>(p));
      s.r.ant = t.substr(0, 20);
      h += "ant:=" + t + " ";
      break;
    }
    case 9:
      s.r.id = vp::fmt("%04ld-%02ld%c", c.rng.in(1978, 2030), c.rng.in(0, 99), static_cast<char>('A' + c.rng.in(0, 25)));
      set_id(*s.a, s.r.id);
      h += "id=" + s.r.id + " ";
      break;
    case 10: {
      auto &o = *v[c.rng.in(0, static_cast<long>(v.size()) - 1)];
      *s.a = *o.a;
      s.r = o.r;
      h += "assign ";
      break;
    }
    default: {
      std::string t = atext(c.rng);
      CStr p(t);
      bool w = t.substr(0, 20) == s.r.ant;
      VP_CHECK(c, s.a->antenna().is_same(p) == w, w ? "antenna-denied" : "antenna-claimed", "'" + s.r.ant + "' / '" + t + "'");
      CStr q(s.r.ant + (s.r.ant.size() == 20 ? "tail" : ""));
      VP_CHECK(c, s.a->antenna().is_same(q), "antenna-denied", "'" + s.r.ant + "' and itself");
      c.event("antenna_comparisons", 2);
    }
    }
    c.desc(h);
    for (auto &x : v)
      look(c, *x, "after a change");
  }
  c.sample(h);
}
