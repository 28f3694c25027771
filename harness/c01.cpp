// C01: satellite-system letters form a bijection, everything else is rejected
#include "vp.hpp"
#include "satsys.hpp"
using namespace ngpt;

static const SATELLITE_SYSTEM SYS[8] = {
    SATELLITE_SYSTEM::gps,    SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas,
    SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss,
    SATELLITE_SYSTEM::irnss,  SATELLITE_SYSTEM::mixed};
static const char LET[9] = "GRSECJIM";

static int from_letter(char ch) {
  // index of the system, -1 rejected, -2 something that is no system
  try {
    SATELLITE_SYSTEM s = char_to_satsys(ch);
    for (int i = 0; i < 8; i++)
      if (SYS[i] == s)
        return i;
    return -2;
  } catch (...) {
    return -1;
  }
}
static char to_letter(int i) { return satsys_to_char(SYS[i]); }

static int expect(unsigned char ch) {
  for (int i = 0; i < 8; i++)
    if (LET[i] == static_cast<char>(ch))
      return i;
  return -1;
}

// 0: advertised letters; 1..256: every character value after every system;
// rest: random call histories
long vp_cases(int tier) { return 257 + (tier ? 60000 : 6000); }

void vp_case(vp::Case &c) {
  if (c.idx == 0) {
    c.desc("advertised identifiers");
    const char adv[8] = {
        satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::glonass>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::sbas>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::galileo>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::beidou>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::qzss>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::irnss>::identifier,
        satellite_system_traits<SATELLITE_SYSTEM::mixed>::identifier};
    for (int i = 0; i < 8; i++) {
      VP_CHECK(c, adv[i] == LET[i], "advertised-letter",
               vp::fmt("system %d advertises '%c', RINEX letter is '%c'", i, adv[i], LET[i]));
      VP_CHECK(c, adv[i] == to_letter(i), "advertised-differs",
               vp::fmt("system %d advertises '%c', converts to '%c'", i, adv[i], to_letter(i)));
      c.event("identifiers_compared");
      c.nontrivial(vp::fmt("adv%d", i));
    }
    return;
  }
  if (c.idx <= 256) {
    unsigned char ch = static_cast<unsigned char>(c.idx - 1);
    c.desc(vp::fmt("character value %d", ch));
    int want = expect(ch);
    for (int pre = -1; pre < 8; pre++) {
      if (pre >= 0)
        VP_CHECK(c, to_letter(pre) == LET[pre], "to-letter",
                 vp::fmt("system %d converts to '%c' instead of '%c'", pre, to_letter(pre), LET[pre]));
      int got = from_letter(static_cast<char>(ch));
      VP_CHECK(c, got == want, want < 0 ? "accepts-foreign" : "from-letter",
               vp::fmt("char value %d gives system %d, expected %d (-1: exception)", ch, got, want));
      if (got >= 0)
        VP_CHECK(c, to_letter(got) == static_cast<char>(ch), "round-trip",
                 vp::fmt("char value %d does not come back", ch));
      c.event(want < 0 ? "rejections" : "acceptances");
    }
    c.nontrivial(vp::fmt("ch%d", ch));
    if (want >= 0)
      c.sample(vp::fmt("'%c' -> system %d -> '%c'", ch, want, to_letter(want)));
    return;
  }
  std::string h;
  int n = static_cast<int>(c.rng.in(2, 40));
  for (int i = 0; i < n; i++) {
    if (c.rng.chance(1, 2)) {
      int s = static_cast<int>(c.rng.in(0, 7));
      h += vp::fmt("s%d ", s);
      c.desc(h);
      VP_CHECK(c, to_letter(s) == LET[s], "to-letter-history",
               vp::fmt("system %d converts to '%c' instead of '%c'", s, to_letter(s), LET[s]));
    } else {
      unsigned char ch = static_cast<unsigned char>(
          c.rng.chance(1, 2) ? LET[c.rng.in(0, 7)] : c.rng.in(0, 255));
      h += vp::fmt("c%d ", ch);
      c.desc(h);
      int got = from_letter(static_cast<char>(ch));
      VP_CHECK(c, got == expect(ch), "from-letter-history",
               vp::fmt("char value %d gives %d, expected %d", ch, got, expect(ch)));
    }
    c.event("history_calls");
  }
  c.nontrivial(h);
}
