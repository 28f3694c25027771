// C30: an orbit interpolator can be set up over every orbit file
#include "damage.hpp"
#include "sp3gen.hpp"
#include <set>
using namespace ngpt;
using namespace sg;

long vp_cases(int tier) { return tier ? 100000 : 5000; }

static std::string show(const datetime<microseconds> &t, const std::vector<Sp3EpochSvRecord> &v, int n) {
  std::string s = fmt("%ld %ld:", t.mjd().as_underlying_type(), t.sec().as_underlying_type());
  for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++)
    s += fmt(" %c%02d %d %.6f", satsys_to_char(v[i].s_), v[i].prn_, v[i].flag_.bits_, v[i].vals_[0]);
  return s;
}

/// what initialize() has to answer; -99: no statement (a satellite twice in one epoch)
static int model(Sp3c &s, long sec, long &epochs, std::vector<std::string> &more) {
  s.rewind();
  epochs = 0;
  long step = s.interval().as_underlying_type();
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> t;
  std::set<std::pair<int, int>> all;
  bool twice = false;
  int n = 0, ans = step <= 0;
  for (long k = 0; !ans && k < 2 * sec * 1000000L / step + 2; k++) {
    if ((ans = s.get_next_epoch(t, v, n)))
      break;
    epochs++;
    std::set<std::pair<int, int>> now;
    for (int i = 0; i < n; i++)
      twice = !now.insert({static_cast<int>(v[i].s_), v[i].prn_}).second || twice;
    all.insert(now.begin(), now.end());
    if (all.size() > static_cast<size_t>(s.num_sats())) {
      ans = 1;
      break;
    }
  }
  for (int k = 0; k < 2; k++) { // where the reader stands
    int j = s.get_next_epoch(t, v, n);
    more.push_back(j > 0 ? fmt("status %d", j) : fmt("%d ", j) + show(t, v, n));
  }
  return twice ? -99 : ans;
}

template <int SEC> static void check(vp::Case &c, const std::string &path, const std::string &how) {
  Sp3c a(path.c_str()), b(path.c_str());
  std::vector<std::string> want;
  long ep;
  int m = model(a, SEC, ep, want);
  LagrangeSp3Interpolator<SEC> l(b), spare(l);
  auto d = b.allocate_epoch_vector();
  datetime<microseconds> t;
  int n = 0, again = c.rng.chance(1, 2) ? 2 : 1;
  for (int k = 0; k < again; k++) {
    if (k && c.rng.chance(1, 3))
      b.get_next_epoch(t, d, n);
    int j = (k && c.rng.chance(1, 2) ? spare : l).initialize();
    std::string w = fmt("half width %d s, interval %ld us, %ld epochs read: status %d instead of %d%s", SEC, b.interval().as_underlying_type(), ep, j, m, how.c_str());
    if (m == -99) {
      c.event("without_statement");
      continue;
    }
    VP_CHECK(c, m == 0 ? j == 0 : (m < 0 ? j < 0 : j > 0), "status", w);
    for (auto &x : want) {
      int s = b.get_next_epoch(t, d, n);
      std::string g = s > 0 ? fmt("status %d", s) : fmt("%d ", s) + show(t, d, n);
      VP_CHECK(c, g == x, "reader-position", w + ": then " + g + " instead of " + x);
    }
    c.event(m == 0 ? "initialized" : (m < 0 ? "too_few_epochs" : "refused"));
    c.nontrivial(fmt("%d %ld %ld %d ", SEC, b.interval().as_underlying_type(), ep, j) + want[0].substr(0, 60));
  }
  if (c.rng.chance(1, 8)) {
    LagrangeSp3Interpolator<SEC> other(std::move(l));
    l = other;
    l.initialize();
    spare = std::move(l);
    spare.initialize();
  }
}

static void any(vp::Case &c, const std::string &path, const std::string &how) {
  switch (c.rng.in(0, 5)) {
  case 0: return check<0>(c, path, how);
  case 1: return check<60>(c, path, how);
  case 2: return check<900>(c, path, how);
  case 3: return check<3600>(c, path, how);
  case 4: return check<7200>(c, path, how);
  default: return check<43200>(c, path, how);
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("s");
  File f;
  basics(r, f);
  std::set<std::pair<char, int>> u(f.sats.begin(), f.sats.end());
  f.sats.assign(u.begin(), u.end());
  r.shuffle(f.sats);
  f.nsat = static_cast<int>(f.sats.size());
  static const long I[] = {900000000L, 300000000L, 1800000000L, 3600000000L, 7200000000L, 7200000001L, 14400000000L, 240000000L, 0L};
  if (r.chance(4, 5))
    f.interval = I[r.in(0, r.chance(1, 10) ? 8 : 7)];
  header(r, f);
  int n = static_cast<int>(f.nsat > 40 ? r.in(1, 6) : r.in(1, r.chance(1, 4) ? 40 : 12));
  epochs(r, f, n);
  // satellites that were not announced, in place of announced ones
  if (r.chance(1, 4))
    for (auto &e : f.ep)
      for (auto &x : e.s)
        if (r.chance(1, 1 + 2 * f.nsat))
          x.prn = x.prn % 99 + 1;
  std::string base = join(f.head), epo;
  for (auto &e : f.ep)
    epo += join(lines(r, f, e));
  base += epo + (r.chance(1, 6) ? "EOF" : "EOF\n");
  std::string d = f.head[1] + fmt("\n%d satellites, %d epochs\n", f.nsat, n);
  c.desc(d);
  p.write(base);
  try {
    for (int k = 0; k < 3; k++)
      any(c, p.path, "");
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(d);
  if (base.size() < 40000)
    for (int k = 0; k < 6; k++) {
      std::string t = base, how = "\ndamage:";
      for (long j = r.in(1, 4); j > 0; j--)
        t = dm::change(r, t, how);
      c.desc(d + how + "\n" + t.substr(0, 6000));
      p.write(t);
      try {
        any(c, p.path, how);
        c.event("damaged_files");
      } catch (std::runtime_error &) {
      }
    }
}
