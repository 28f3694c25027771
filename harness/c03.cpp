// C03: observation codes survive parsing and printing
#include "vp.hpp"
#include "gnssobs.hpp"
#include "gnssobsrv.hpp"
using namespace ngpt;

static const char TL[] = "CLDSIX";
static const OBSERVABLE_TYPE TT[] = {
    OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::carrier_phase,
    OBSERVABLE_TYPE::doppler, OBSERVABLE_TYPE::signal_strength,
    OBSERVABLE_TYPE::ionosphere_phase_delay, OBSERVABLE_TYPE::receiver_channel_number};

static bool parse(const std::string &s, ObservationCode &o) {
  try {
    o = ObservationCode(s.c_str());
    return true;
  } catch (...) {
    return false;
  }
}
template <typename C> static void parts(C &o, OBSERVABLE_TYPE &t, int &b, ObservationAttribute &a) {
  t = o.template get<0>();
  b = o.template get<1>();
  a = o.template get<2>();
}

// 0..59: type x band, all attributes;  60: leading bytes;  61: default
// 62..: equality against the whole space;  then random text and edits
static const long EQ = 60;
long vp_cases(int tier) { return 62 + EQ + (tier ? 100000 : 12000); }

static std::vector<std::string> &space() {
  static std::vector<std::string> v;
  if (v.empty())
    for (int t = 0; t < 6; t++)
      for (char b = '0'; b <= '9'; b++)
        for (const char *a = "ABCDILMNPQSWXYZ?acx1-"; *a; a++)
          v.push_back(std::string(1, TL[t]) + b + *a);
  return v;
}

static void full_check(vp::Case &c, const std::string &in) {
  // reference: what the text means
  bool want = in.size() >= 2 && std::strchr(TL, in[0]) && in[0];
  ObservationCode o;
  bool ok = parse(in, o);
  VP_CHECK(c, ok == want, want ? "code-rejected" : "code-accepted", "text '" + vp::esc(in) + "'");
  c.event(want ? "codes_parsed" : "texts_rejected");
  if (!ok || !want)
    return;
  char at = (in.size() > 2 && in[2] != ' ') ? in[2] : '?';
  std::string exp = std::string(1, in[0]) + in[1] + at;
  VP_CHECK(c, o.to_string() == exp, "print", "text '" + vp::esc(in) + "' prints as '" + vp::esc(o.to_string()) + "'");
  OBSERVABLE_TYPE t;
  int b;
  ObservationAttribute a;
  parts(o, t, b, a);
  int ti = static_cast<int>(std::strchr(TL, in[0]) - TL);
  VP_CHECK(c, t == TT[ti] && b == in[1] - '0' && a.as_char() == at, "parts", "text '" + vp::esc(in) + "'");
  const ObservationCode &k = o;
  VP_CHECK(c, k.band() == in[1] - '0' && k.get<0>() == TT[ti] && k.get<1>() == b && k.get<2>() == a, "const-parts", "text '" + vp::esc(in) + "'");
  VP_CHECK(c, o == ObservationCode(TT[ti], in[1] - '0', ObservationAttribute(at)), "same-as-built", "text '" + vp::esc(in) + "'");
  c.nontrivial(exp);
}

void vp_case(vp::Case &c) {
  long i = c.idx;
  if (i < 60) {
    char t = TL[i / 10], b = static_cast<char>('0' + i % 10);
    c.desc(vp::fmt("codes %c%c*", t, b));
    for (int a = 0; a < 256; a++) {
      std::string s{t, b};
      if (a)
        s += static_cast<char>(a);
      full_check(c, s);
      full_check(c, s + "  trailing text");
      full_check(c, s + std::string(1, static_cast<char>('0' + a % 10)) + s);
    }
    c.sample(vp::fmt("%c%c with every attribute byte, alone and followed by text", t, b));
    return;
  }
  if (i == 60) {
    c.desc("all leading bytes");
    for (int k = 0; k < 256; k++) {
      OBSERVABLE_TYPE t = OBSERVABLE_TYPE::any;
      bool ok = true;
      try {
        t = char_to_observabletype(static_cast<char>(k));
      } catch (...) {
        ok = false;
      }
      const char *p = k ? std::strchr(TL, k) : nullptr;
      VP_CHECK(c, ok == (p != nullptr), "type-letter", vp::fmt("byte %d", k));
      if (ok && p) {
        VP_CHECK(c, t == TT[p - TL], "type-of-letter", vp::fmt("letter %c", k));
        VP_CHECK(c, observabletype_to_char(t) == k, "letter-of-type", vp::fmt("letter %c", k));
      }
      if (k) {
        full_check(c, std::string(1, static_cast<char>(k)) + "1C");
        full_check(c, std::string(1, static_cast<char>(k)) + "2");
        full_check(c, std::string(1, static_cast<char>(k)));
      }
    }
    full_check(c, "");
    return;
  }
  if (i == 61) {
    c.desc("default code");
    ObservationCode o;
    VP_CHECK(c, o.get<0>() == OBSERVABLE_TYPE::any && o.band() == 0 && o.get<2>().as_char() == '?', "default", o.to_string());
    VP_CHECK(c, observabletype_to_char(OBSERVABLE_TYPE::any) == '?', "any-letter", "");
    for (int x = 0; x < 256; x++)
      for (int y = 0; y < 256; y++) {
        const ObservationAttribute p(static_cast<char>(x)), q(static_cast<char>(y));
        if ((p == q) != (x == y) || (p != q) == (x == y) || p.as_char() != static_cast<char>(x))
          c.fail("attribute-equality", vp::fmt("bytes %d and %d: == %d, != %d", x, y, p == q, p != q));
      }
    c.event("defaults");
    return;
  }
  if (i < 62 + EQ) {
    auto &sp = space();
    size_t lo = sp.size() * (i - 62) / EQ, hi = sp.size() * (i - 61) / EQ;
    c.desc("equality of " + sp[lo] + ".." + sp[hi - 1] + " with all codes");
    static std::vector<ObservationCode> all;
    if (all.empty())
      for (auto &s : sp) {
        ObservationCode o;
        parse(s, o);
        all.push_back(o);
      }
    for (size_t x = lo; x < hi; x++)
      for (size_t y = 0; y < sp.size(); y++) {
        bool eq = all[x] == all[y];
        bool ne = all[x] != all[y];
        if (eq != (sp[x] == sp[y]) || ne == eq)
          c.fail("equality", sp[x] + " and " + sp[y] + vp::fmt(": == %d, != %d", eq, ne));
        c.event("pairs_compared");
      }
    return;
  }
  // random texts and independent edits of the three parts
  std::string s;
  int n = static_cast<int>(c.rng.in(0, 40));
  for (int k = 0; k < n; k++)
    s += static_cast<char>(c.rng.in(1, 255));
  if (n && c.rng.chance(5, 6))
    s[0] = c.rng.pickc("CLDSIX");
  if (n > 1 && c.rng.chance(9, 10))
    s[1] = static_cast<char>('0' + c.rng.in(0, 9));
  else if (n > 1)
    s[1] = '4';
  if (n > 2 && c.rng.chance(1, 4))
    s[2] = ' ';
  c.desc("text '" + vp::esc(s) + "'");
  full_check(c, s);
  ObservationCode o(TT[c.rng.in(0, 5)], static_cast<int>(c.rng.in(0, 9)), ObservationAttribute(static_cast<char>(c.rng.in(33, 126))));
  OBSERVABLE_TYPE t;
  int b;
  ObservationAttribute a;
  parts(o, t, b, a);
  for (int k = 0; k < 6; k++) {
    const ObservationCode before(o);
    switch (c.rng.in(0, 4)) {
    case 0:
      t = TT[c.rng.in(0, 5)];
      o.get<0>() = t;
      break;
    case 1:
      b = static_cast<int>(c.rng.in(0, 9));
      o.get<1>() = b;
      break;
    case 2:
      a = ObservationAttribute(static_cast<char>(c.rng.in(33, 126)));
      o.get<2>() = a;
      break;
    case 3:
      b = static_cast<int>(c.rng.in(0, 9));
      o.band() = b;
      break;
    default: {
      auto &[x, y, z] = o;
      y = b = static_cast<int>(c.rng.in(0, 9));
      x = t = TT[c.rng.in(0, 5)];
      (void)z;
    }
    }
    OBSERVABLE_TYPE t2;
    int b2;
    ObservationAttribute a2;
    parts(o, t2, b2, a2);
    VP_CHECK(c, t2 == t && b2 == b && a2 == a && o.band() == b, "edit", "after edits: " + o.to_string());
    std::string exp{observabletype_to_char(t), static_cast<char>('0' + b), a.as_char()};
    VP_CHECK(c, o.to_string() == exp, "edit-print", o.to_string() + " instead of " + exp);
    VP_CHECK(c, (o == before) == (o.to_string() == before.to_string()), "edit-equality", before.to_string() + " / " + o.to_string());
    GnssRawObservable r1(SATELLITE_SYSTEM::gps, o), r2(SATELLITE_SYSTEM::gps, before), r3(SATELLITE_SYSTEM::galileo, o);
    VP_CHECK(c, (r1 == r2) == (o == before) && (r1 != r2) == !(o == before) && r1 != r3, "raw-equality", r1.to_string() + " / " + r2.to_string());
    VP_CHECK(c, r1.code() == o && r1.band() == b && r1.satsys() == SATELLITE_SYSTEM::gps && r1.to_string() == "G::" + exp, "raw", r1.to_string());
    c.event("edits");
    c.nontrivial("e" + before.to_string() + exp);
  }
}
