SEEDS = {}
def S(i, prop, edits, needs, breaks, demo=None, **k):
    SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
S("obs-damage-after-missing", "C36",
  [("obsrnx.cpp", "        if (raw_obs.resolve(tbuf))\n          return 2;\n", "        // a combination that misses a part has no value; leave its others\n        if (!missing && raw_obs.resolve(tbuf))\n          return 2;\n")],
  "a combination of types whose first one is missing and whose second one is unreadable, in the same satellite's line",
  "the damaged record is delivered with success instead of an error",
  r'''
#include "obsrnx.hpp"
int main() {
  using namespace ngpt;
  auto G = SATELLITE_SYSTEM::gps;
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> m;
  m[G].emplace_back(G, ObservationCode("C1C"));
  m[G].emplace_back(G, ObservationCode("L1C"), 2.5);
  m[G].back().add(G, ObservationCode("L2W"), -1.5);
  const std::string epoch = "> 2019 07 24 01 00  0.0000000  0  1\n", c1 = "G05  23629347.915  ", l2 = "  94629347.125  ";
  for (int i = 0; i < 4; i++) {
    std::string body = c1 + (i & 1 ? std::string(16, ' ') : std::string("  124629347.500  ").substr(1)) + (i & 2 ? "**************  " : l2);
    save("o.rnx", obs_version() + obs_types('G', {"C1C", "L1C", "L2W"}) + obs_end() + epoch + body + "\n");
    ObservationRnx o("o.rnx");
    auto mm = o.set_read_map(m, true);
    auto v = o.initialize_epoch_vector(mm);
    int n = 0;
    modified_julian_day d(1);
    double s = 0;
    int st = o.read_next_epoch(mm, v, n, d, s);
    if (i & 2) {
      CHECK(st > 0);
    } else
      CHECK(!st && n == 1);
  }
  return finish();
}''')
