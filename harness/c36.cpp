// C36: what cannot be read is reported, and never delivered as a value
#include "readers.hpp"
#include <set>
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 900000 : 40000; }

struct Field {
  size_t pos, len;
  const char *name;
  bool blanks = true; ///< blanks are unreadable as well
};
/// make a field unreadable; what was done, or nothing
static std::string spoil(vp::Rng &r, std::string &line, const Field &f) {
  if (f.pos + f.len > line.size() || line.find_first_not_of(' ', f.pos) >= f.pos + f.len)
    return "";
  std::string w;
  switch (r.in(0, f.blanks ? 5 : 4)) {
  case 0: // a number too wide for its columns, as Fortran writes it
  case 1: w.assign(f.len, '*'); break;
  case 2: w.assign(f.len, '?'); break;
  case 3: w = std::string(f.len - 1, ' ') + r.pickc("-*?#x"); break;
  case 4: w = (r.chance(1, 2) ? std::string("nil") : std::string("x.y")).substr(0, f.len) + std::string(f.len > 3 ? f.len - 3 : 0, ' '); break;
  default: w.assign(f.len, ' ');
  }
  if (!std::strcmp(f.name, "number") && r.chance(1, 3)) // no satellite has it
    w = r.pick(std::vector<std::string>{"-1", "-9", "00", " 0", "0 ", "-0"});
  if (!std::strcmp(f.name, "satellites") && r.chance(1, 4)) // nor can there be so many
    w = r.pick(std::vector<std::string>{" -1", "-10", "-99", "- 1"});
  if (!std::strcmp(f.name, "flag") && r.chance(1, 3)) // neither yes nor no
    w = r.pick(std::vector<std::string>{"     2", "     9", "    -1", "    10", "    11"});
  if (std::strcmp(f.name, "type") && r.chance(1, 2)) { // one character of it
    w = line.substr(f.pos, f.len);
    std::vector<size_t> at;
    for (size_t i = 0; i < w.size(); i++)
      if (w[i] != ' ')
        at.push_back(i);
    w[r.pick(at)] = r.pickc("*?#x:");
  }
  line.replace(f.pos, f.len, w);
  return fmt("%s \"%s\"", f.name, w.c_str());
}
static std::string join(const std::vector<std::string> &l) {
  std::string s;
  for (auto &x : l)
    s += x + "\n";
  return s;
}
struct Outcome {
  bool opened = false;
  std::vector<std::string> before;
  int status = 0;
  std::string extra;
};

/// k things read as from the undamaged file, then an error
static void judge(vp::Case &c, const std::string &kind, const Outcome &bad, const Outcome &good, size_t k, const std::string &how, const std::string &line) {
  const std::string d = kind + ": " + how + " in\n" + line + "\n";
  if (!good.opened || good.before.size() <= k) {
    c.fail("undamaged-file", d + fmt("%zu instead of %zu", good.before.size(), k + 1));
    return;
  }
  VP_CHECK(c, bad.opened, "refused-for-later-damage", d);
  if (!bad.opened)
    return;
  for (size_t i = 0; i < k; i++)
    VP_CHECK(c, i < bad.before.size() && bad.before[i] == good.before[i], "before-the-damage", d + fmt("%zu: ", i) + (i < bad.before.size() ? bad.before[i] : std::string("nothing")) + " instead of " + good.before[i]);
  VP_CHECK(c, bad.before.size() <= k, "unreadable-delivered:" + kind + " " + how.substr(0, how.find(" \"")), d + "delivered as " + (bad.before.size() > k ? bad.before[k] : std::string()));
  VP_CHECK(c, bad.before.size() > k || bad.status > 0, "unreadable-not-reported:" + kind + " " + how.substr(0, how.find(" \"")), d + fmt("status %d", bad.status));
  c.event("reports_of_records");
}

// ---- orbits --------------------------------------------------------------------
static Outcome sp3(const std::string &path, size_t k) {
  Outcome o;
  try {
    Sp3c s(path.c_str());
    o.opened = true;
    auto v = s.allocate_epoch_vector();
    datetime<microseconds> t;
    int n = 0;
    while (o.before.size() <= k && (o.status = s.get_next_epoch(t, v, n)) <= 0) {
      std::string w = fmt("%ld %ld:", t.mjd().as_underlying_type(), t.sec().as_underlying_type());
      for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++)
        w += fmt(" %c%02d %d %.6f %.6f %.6f %.6f", satsys_to_char(v[i].s_), v[i].prn_, v[i].flag_.bits_, v[i].vals_[0], v[i].vals_[1], v[i].vals_[2], v[i].vals_[3]);
      o.before.push_back(w);
    }
  } catch (std::exception &) {
  }
  return o;
}
static void orbits(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("s"), q("u");
  sg::File f;
  sg::basics(r, f);
  if (f.nsat > 10) {
    f.nsat = 10;
    f.sats.resize(10);
  }
  sg::header(r, f);
  sg::epochs(r, f, static_cast<int>(r.in(1, 4)));
  std::string head = sg::join(f.head);
  size_t k = static_cast<size_t>(r.in(0, static_cast<long>(f.ep.size()) - 1)), i = 0;
  std::string good, bad, how, line;
  for (auto &e : f.ep) {
    auto l = sg::lines(r, f, e);
    good += join(l);
    if (i++ == k) {
      static const Field E[] = {{3, 4, "year"}, {8, 2, "month"}, {11, 2, "day"}, {14, 2, "hour"}, {17, 2, "minute"}, {20, 11, "seconds"}};
      static const Field P[] = {{1, 1, "system", false}, {2, 2, "number"}, {4, 14, "x"}, {18, 14, "y"}, {32, 14, "z"}, {46, 14, "clock"}};
      std::vector<size_t> pl;
      for (size_t z = 0; z < l.size(); z++)
        if (l[z][0] == 'P')
          pl.push_back(z);
      size_t w = pl.empty() || r.chance(1, 3) ? 0 : r.pick(pl);
      how = spoil(r, l[w], w ? P[r.in(0, 5)] : E[r.in(0, 5)]);
      line = l[w];
    }
    bad += join(l);
  }
  if (how.empty())
    return;
  c.desc("sp3 " + how + "\n" + head.substr(0, 200) + bad.substr(0, 3000));
  p.write(head + bad + "EOF\n");
  q.write(head + good + "EOF\n");
  judge(c, "sp3", sp3(p.path, k), sp3(q.path, k), k, how, line);
  c.nontrivial("sp3" + how + line);
  c.sample("sp3 " + how + " in " + line);
}

// ---- observations ----------------------------------------------------------------
static Outcome obs(const std::string &path, const og::Hdr &h, size_t k, unsigned mix = 0) {
  Outcome o;
  try {
    ObservationRnx x(path.c_str());
    o.opened = true;
    std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
    // every type of the file, alone or in a combination
    for (auto &t : h.types) {
      const auto y = char_to_satsys(t.first);
      auto codes = t.second;
      if (mix)
        for (size_t i = codes.size(); i > 1; i--)
          std::swap(codes[i - 1], codes[(mix * 7919u + i * 31u) % i]);
      for (size_t i = 0; i < codes.size(); i++)
        if (mix && i % (1 + mix % 4))
          req[y].back().add(y, ObservationCode(codes[i].c_str()), i % 2 ? -1.5 : 2.5);
        else
          req[y].push_back(GnssObservable(y, ObservationCode(codes[i].c_str())));
    }
    auto map = x.set_read_map(req);
    auto v = x.initialize_epoch_vector(map);
    modified_julian_day day(1);
    double sod = 0;
    int n = 0;
    while (o.before.size() <= k && !(o.status = x.read_next_epoch(map, v, n, day, sod))) {
      std::string w = fmt("%ld %.7f:", day.as_underlying_type(), sod);
      for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++) {
        w += fmt(" %c%02d", satsys_to_char(v[i].first.system()), v[i].first.prn());
        for (size_t z = 0; z < map[v[i].first.system()].size() && z < v[i].second.size(); z++)
          w += fmt(" %.3f", v[i].second[z]);
      }
      o.before.push_back(w);
    }
  } catch (std::exception &) {
  }
  return o;
}
static void observations(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("o"), q("u");
  og::Hdr h;
  og::header(r, h, r.chance(1, 2) ? 5 : 30, false);
  auto ep = og::epochs(r, h, r.in(1, 4), 8, static_cast<int>(r.in(0, 4)));
  std::string head = og::text(r, h);
  size_t k = static_cast<size_t>(r.in(0, static_cast<long>(ep.size()) - 1)), i = 0;
  std::string good, bad, how, line;
  for (auto &e : ep) {
    auto ev = og::events(r, e.mjd, e.t7);
    auto l = og::lines(r, e);
    good += join(ev) + join(l);
    if (i++ == k) {
      static const Field E[] = {{2, 4, "year"}, {7, 2, "month"}, {10, 2, "day"}, {13, 2, "hour"}, {16, 2, "minute"}, {18, 11, "seconds"}, {32, 3, "satellites"}, {41, 15, "clock-offset", false}};
      static const Field S[] = {{0, 1, "system"}, {1, 2, "number"}};
      size_t w = l.size() < 2 || r.chance(1, 3) ? 0 : static_cast<size_t>(r.in(1, static_cast<long>(l.size()) - 1));
      if (!w)
        how = spoil(r, l[w], E[r.in(0, 7)]);
      else if (r.chance(1, 2))
        how = spoil(r, l[w], S[r.in(0, 1)]);
      else // a blank value is a missing one
        how = spoil(r, l[w], Field{3 + 16 * static_cast<size_t>(r.in(0, static_cast<long>(e.s[w - 1].f.size()) - 1)), 14, "value", false});
      line = l[w];
    }
    bad += join(ev) + join(l);
  }
  if (how.empty())
    return;
  c.desc("obs " + how + "\n" + bad.substr(0, 3000));
  p.write(head + bad);
  q.write(head + good);
  const unsigned mix = static_cast<unsigned>(r.in(0, 30));
  judge(c, "obs", obs(p.path, h, k, mix), obs(q.path, h, k, mix), k, how, line);
  c.nontrivial("obs" + how + line);
  c.sample("obs " + how + " in " + line);
}

// ---- navigation messages ----------------------------------------------------------
static Outcome nav(const std::string &path, size_t k) {
  Outcome o;
  try {
    NavigationRnx n(path.c_str());
    o.opened = true;
    NavDataFrame f;
    while (o.before.size() <= k && !(o.status = n.read_next_record(f)))
      o.before.push_back(KNav::show(f));
  } catch (std::exception &) {
  }
  return o;
}
static void messages(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("n"), q("u");
  std::string head = ng::join(ng::header(r)), good, bad, how, line;
  long mjd = ng::anymjd(r, 'C'), sod = ng::anysod(r);
  size_t n = static_cast<size_t>(r.in(1, 4)), k = static_cast<size_t>(r.in(0, static_cast<long>(n) - 1));
  for (size_t i = 0; i < n; i++) {
    auto x = ng::record(r, r.pickc("GGRRECCJSI"), mjd, sod, 'D');
    auto l = ng::lines(r, x);
    good += join(l);
    if (i == k) {
      static const Field E[] = {{0, 1, "system"}, {1, 2, "number"}, {4, 4, "year"}, {9, 2, "month"}, {12, 2, "day"}, {15, 2, "hour"}, {18, 2, "minute"}, {21, 2, "second"}, {23, 19, "clock-bias"}, {42, 19, "clock-drift"}, {61, 19, "clock-rate"}};
      size_t w = 0;
      Field f = E[r.in(0, 10)];
      if (r.chance(1, 2)) { // any number of the orbit
        int z;
        do
          z = static_cast<int>(r.in(3, ng::layout(x.sys).n - 1));
        while (ng::spare(x.sys, z));
        w = static_cast<size_t>(1 + (z - 3) / 4);
        static const char *O[] = {"orbit-1", "orbit-2", "orbit-3", "orbit-4", "orbit-5", "orbit-6", "orbit-7"};
        f = Field{static_cast<size_t>(4 + 19 * ((z - 3) % 4)), 19, O[w - 1], z < 27};
      }
      how = spoil(r, l[w], f);
      line = l[w];
    }
    bad += join(l);
  }
  if (how.empty())
    return;
  c.desc("nav " + how + "\n" + bad.substr(0, 3000));
  p.write(head + bad);
  q.write(head + good);
  judge(c, "nav", nav(p.path, k), nav(q.path, k), k, how, line);
  c.nontrivial("nav" + how + line);
  c.sample("nav " + how + " in " + line);
}

// ---- headers -------------------------------------------------------------------------
template <typename R> static bool opens(const std::string &path) {
  try {
    R x(path.c_str());
    return true;
  } catch (std::exception &) {
    return false;
  }
}
static void headers(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("h");
  std::string kind, how, line, t, u;
  bool was, is;
  if (r.chance(1, 4)) {
    kind = "nav header";
    auto l = ng::header(r);
    u = join(l);
    static const Field H[] = {{0, 9, "version"}, {20, 1, "type"}, {40, 1, "system"}};
    how = spoil(r, l[0], H[r.in(0, 2)]);
    line = l[0];
    t = join(l);
    p.write(u);
    was = opens<NavigationRnx>(p.path);
    p.write(t);
    is = opens<NavigationRnx>(p.path);
  } else {
    kind = "obs header";
    og::Hdr h;
    og::header(r, h, 30, false);
    std::string first = og::version_line(r), last = og::hl("", "END OF HEADER") + "\n";
    u = og::text(first, h.groups, last);
    auto g = h.groups;
    static const Field V[] = {{0, 9, "version"}, {20, 1, "type"}, {40, 1, "system"}};
    static const Field X[] = {{0, 14, "first"}, {14, 14, "second"}, {28, 14, "third"}};
    static const Field T[] = {{0, 6, "year", false}, {6, 6, "month", false}, {12, 6, "day", false}, {18, 6, "hour", false}, {24, 6, "minute", false}, {30, 13, "seconds", false}};
    size_t w = static_cast<size_t>(r.in(0, static_cast<long>(g.size())));
    if (w == g.size()) {
      how = spoil(r, first, V[r.in(0, 2)]);
      line = first;
    } else {
      auto &l = r.pick(g[w]);
      auto &m = const_cast<std::string &>(l);
      if (m.size() < 61)
        return;
      std::string lab = m.substr(60);
      auto labelled = [&](const char *x) { return lab.compare(0, std::strlen(x), x) == 0; };
      if (labelled("APPROX POSITION XYZ") || labelled("ANTENNA: DELTA H/E/N"))
        how = spoil(r, m, X[r.in(0, 2)]);
      else if (labelled("TIME OF FIRST OBS"))
        how = spoil(r, m, T[r.in(0, 5)]);
      else if (labelled("RCV CLOCK OFFS APPL"))
        how = spoil(r, m, Field{0, 6, "flag", false}); // the whole record is optional
      else if (labelled("SYS / # / OBS TYPES")) {
        long kk = r.in(0, 14);
        if (kk == 13)
          how = m[0] == ' ' ? "" : spoil(r, m, Field{0, 1, "system"});
        else if (kk == 14)
          how = m[0] == ' ' ? "" : spoil(r, m, Field{3, 3, "number-of-types"});
        else
          how = spoil(r, m, Field{7 + 4 * static_cast<size_t>(kk), 3, "type"});
      }
      if (!how.empty())
        how = lab.substr(0, 10) + " " + how;
      line = m;
    }
    t = og::text(first, g, last);
    if (how.empty())
      return;
    c.desc(kind + " " + how + "\n" + t.substr(0, 3000));
    p.write(u);
    was = opens<ObservationRnx>(p.path);
    p.write(t);
    is = opens<ObservationRnx>(p.path);
  }
  if (how.empty())
    return;
  VP_CHECK(c, was, "undamaged-file", u.substr(0, 2000));
  VP_CHECK(c, !is, "unreadable-not-reported:" + kind + " " + how.substr(0, how.find(" \"")), how + " in\n" + line);
  c.event("reports_of_headers");
  c.nontrivial(kind + how + line);
  c.sample(kind + " " + how + " in " + line);
}

// ---- satellite information ----------------------------------------------------------
static void vehicles(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("b");
  auto v = bg::records(r);
  if (v.size() > 30)
    v.resize(30);
  std::string head = bg::part1(r) + bg::heads();
  size_t k = static_cast<size_t>(r.in(0, static_cast<long>(v.size()) - 1));
  auto &e = v[k];
  if (!e.mw)
    return;
  const long s = e.until >= 0 ? r.in(e.from, std::max(e.from, e.until - 1)) : e.from + r.in(0, 86400L * 700);
  if (e.until >= 0 && s >= e.until)
    return;
  const bg::Rec *other = nullptr, *later = nullptr;
  for (size_t i = 0; i < v.size(); i++)
    if (i != k && v[i].mw && v[i].svn == e.svn && v[i].from <= s && (v[i].until < 0 || s < v[i].until)) {
      if (i < k)
        other = other ? other : &v[i];
      else
        later = later ? later : &v[i];
    }
  if (other)
    return;
  static const Field F[] = {{0, 3, "slot"}, {28, 3, "vehicle"}, {41, 19, "from"}, {41, 4, "from-year", false}, {46, 2, "from-month", false}, {49, 2, "from-day", false}, {52, 2, "from-hour", false}, {55, 2, "from-minute", false}, {58, 2, "from-second", false}, {62, 19, "until", false}, {62, 4, "until-year", false}, {67, 2, "until-month", false}, {70, 2, "until-day", false}, {193, 4, "channel"}};
  const Field &f = F[r.in(0, 13)];
  std::string good = e.line, how = spoil(r, e.line, f);
  if (how.empty())
    return;
  std::string line = e.line, t = head, u = head;
  for (auto &x : v) {
    t += x.line + "\n";
    u += (&x == &e ? good : x.line) + "\n";
  }
  std::string tail = bg::tail(r, v);
  c.desc("satellit " + how + " in\n" + line);
  datetime<seconds> at(modified_julian_day(s / 86400), seconds(s % 86400));
  auto ask = [&](const std::string &text, int svn, int &ch, int &prn) {
    p.write(text);
    BernSatellit b(p.path.c_str());
    return b.get_frequency_channel(svn, at, ch, prn);
  };
  int ch = 99, prn = 99;
  int st = ask(u + tail, e.svn, ch, prn);
  VP_CHECK(c, !st && ch == e.chan && prn == e.prn, "undamaged-file", fmt("status %d channel %d slot %d\n", st, ch, prn) + good);
  st = ask(t + tail, e.svn, ch, prn);
  // it may be passed over, but not answered from
  bool from_later = !st && later && ch == later->chan && prn == later->prn;
  const std::string d = how + " in\n" + line + fmt("\nstatus %d channel %d slot %d", st, ch, prn);
  VP_CHECK(c, st || from_later, std::string("unreadable-delivered:satellit ") + f.name, d);
  // nobody else's question is answered from it
  if (f.pos == 28)
    for (int i = 0; i < 4; i++) {
      static const int N[] = {0, -1, 1};
      int svn = i < 3 ? N[i] : static_cast<int>(std::strtol(line.c_str() + 28, nullptr, 10)), w = 0;
      for (auto &x : v)
        if (&x != &e && x.mw && x.svn == svn && x.from <= s && (x.until < 0 || s < x.until))
          w++;
      if (w)
        continue;
      st = ask(t + tail, svn, ch, prn);
      VP_CHECK(c, st, std::string("unreadable-delivered:satellit ") + f.name, fmt("to vehicle %d: ", svn) + how + " in\n" + line + fmt("\nstatus %d channel %d slot %d", st, ch, prn));
    }
  c.event("reports_of_vehicles");
  c.nontrivial("bern" + how + line);
  c.sample("satellit " + how + " in " + line.substr(0, 100));
}

// ---- antennas -------------------------------------------------------------------------
static void antennas(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("a");
  std::string t = ag::header(r);
  std::vector<ag::Entry> v;
  for (long n = r.in(0, 3); n > 0; n--)
    v.push_back(r.chance(1, 2) ? ag::satellite(r) : ag::receiver(r));
  ag::Entry e = ag::satellite(r);
  e.sys = 'I'; // nobody else
  ag::render(r, e);
  size_t k = static_cast<size_t>(r.in(0, static_cast<long>(v.size())));
  const long s = e.has_until ? r.in(ag::secs(e.from), std::max(ag::secs(e.from), ag::secs(e.until) - 1)) : ag::secs(e.from) + r.in(0, 86400L * 3000);
  if (e.has_until && s >= ag::secs(e.until))
    return;
  auto good = e.lines;
  static const Field D[] = {{0, 6, "year", false}, {6, 6, "month", false}, {12, 6, "day", false}, {18, 6, "hour", false}, {24, 6, "minute", false}, {30, 13, "seconds", false}}; // blanks: ggdatetime's business
  static const Field P[] = {{20, 1, "system"}, {21, 2, "number"}, {41, 3, "vehicle"}};
  static const Field N[] = {{0, 10, "north"}, {10, 10, "east"}, {20, 10, "up"}};
  std::vector<size_t> cand;
  bool rms = false;
  for (size_t i = 0; i < e.lines.size(); i++) {
    auto &l = e.lines[i];
    if (l.size() < 61)
      continue;
    std::string lab = l.substr(60);
    if (!lab.compare(0, 17, "START OF FREQ RMS"))
      rms = true;
    if (!lab.compare(0, 15, "END OF FREQ RMS"))
      rms = false;
    if (!lab.compare(0, 6, "VALID ") || !lab.compare(0, 6, "TYPE /") || !lab.compare(0, 6, "# OF F") || (!lab.compare(0, 7, "NORTH /") && !rms) || !lab.compare(0, 18, "START OF FREQUENCY"))
      cand.push_back(i);
  }
  if (cand.empty())
    return;
  auto &l = e.lines[r.pick(cand)];
  std::string lab = l.substr(60, 5), how;
  bool pco_only = false;
  if (lab == "VALID")
    how = spoil(r, l, D[r.in(0, 5)]);
  else if (lab == "TYPE ")
    how = spoil(r, l, P[r.in(0, 2)]);
  else if (lab == "# OF ")
    how = spoil(r, l, Field{0, 6, "frequencies"}), pco_only = true;
  else if (lab == "NORTH")
    how = spoil(r, l, N[r.in(0, 2)]), pco_only = true;
  else
    how = spoil(r, l, r.chance(1, 2) ? Field{3, 1, "frequency-system"} : Field{4, 2, "frequency-band"}), pco_only = true;
  if (how.empty() || how == "vehicle \"   \"")
    return;
  how = lab + " " + how;
  std::string line = l, u = t;
  for (size_t i = 0; i <= v.size(); i++) {
    t += join(i == k ? e.lines : v[i - (i > k)].lines);
    u += join(i == k ? good : v[i - (i > k)].lines);
  }
  c.desc("antex " + how + " in\n" + line + "\n" + join(e.lines).substr(0, 1500));
  datetime<seconds> at(modified_julian_day(s / 86400), seconds(s % 86400));
  auto ask = [&](const std::string &text, int which) {
    p.write(text);
    Antex a(p.path.c_str());
    AntennaPcoList pl;
    Satellite sv;
    return which ? a.get_satellite_info(e.prn, SATELLITE_SYSTEM::irnss, at, sv) : a.get_antenna_pco(e.prn, SATELLITE_SYSTEM::irnss, at, pl);
  };
  try {
    for (int w = 0; w < (pco_only ? 1 : 2); w++) {
      int st = ask(u, w);
      VP_CHECK(c, !st, "undamaged-file", fmt("status %d\n", st) + join(good).substr(0, 2000));
      st = ask(t, w);
      VP_CHECK(c, st, "unreadable-delivered:antex " + how.substr(0, how.find(" \"")), how + " in\n" + line);
      c.event("reports_of_antennas");
    }
  } catch (std::exception &x) {
    c.fail("valid-header-refused", x.what());
  }
  c.nontrivial("antex" + how + line);
  c.sample("antex " + how + " in " + line);
}

// ---- records that end with the file ---------------------------------------------------
static void cut_short(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("t"), q("u");
  if (r.chance(1, 2)) {
    og::Hdr h;
    og::header(r, h, r.chance(1, 2) ? 5 : 30, false);
    auto ep = og::epochs(r, h, r.in(1, 4), 8, static_cast<int>(r.in(0, 4)));
    std::string head = og::text(r, h), good, bad, line;
    for (size_t i = 0; i < ep.size(); i++) {
      auto l = og::lines(r, ep[i]);
      good += join(l);
      if (i + 1 == ep.size()) {
        if (l.size() < 2)
          return;
        l.resize(static_cast<size_t>(r.in(1, static_cast<long>(l.size()) - 1)));
        line = fmt("after %zu of %zu lines", l.size(), ep[i].s.size() + 1);
      }
      bad += join(l);
    }
    if (r.chance(1, 2))
      bad.pop_back();
    c.desc("obs cut " + line + "\n" + bad.substr(0, 3000));
    p.write(head + bad);
    q.write(head + good);
    judge(c, "obs", obs(p.path, h, ep.size() - 1), obs(q.path, h, ep.size() - 1), ep.size() - 1, "cut", line);
    c.event("records_cut_short");
    c.nontrivial("obs cut" + line + bad.substr(0, 60));
    c.sample("obs cut " + line);
    return;
  }
  std::string head = ng::join(ng::header(r)), good, bad;
  long mjd = ng::anymjd(r, 'C'), sod = ng::anysod(r);
  size_t n = static_cast<size_t>(r.in(1, 5)), k = n - 1, keep = 0;
  std::string present;
  std::set<int> numbers;
  for (size_t i = 0; i < n; i++) {
    auto x = ng::record(r, r.pickc("GGRRECCJSI"), mjd, sod, 'D');
    auto l = ng::lines(r, x);
    present += x.sys;
    numbers.insert(x.prn);
    good += join(l);
    if (i == k) {
      keep = static_cast<size_t>(r.in(1, static_cast<long>(l.size()) - 1));
      l.resize(keep);
    }
    bad += join(l);
  }
  if (r.chance(1, 2))
    bad.pop_back();
  std::string line = fmt("record of %c after %zu lines", present.back(), keep);
  c.desc("nav cut " + line + "\n" + bad.substr(0, 3000));
  p.write(head + bad);
  q.write(head + good);
  judge(c, "nav", nav(p.path, k), nav(q.path, k), k, "cut", line);
  // passed over, one by one and in a search for anything else
  try {
    NavigationRnx x(p.path.c_str());
    int st = 0;
    for (size_t i = 0; i < k; i++) {
      st = x.ignore_next_block();
      VP_CHECK(c, !st, "before-the-cut", fmt("%zu: skip returns %d\n", i, st) + line);
    }
    st = x.ignore_next_block();
    VP_CHECK(c, st > 0, "unreadable-not-reported:nav cut skipped", fmt("skip returns %d\n", st) + line);
    char other = 0;
    for (char s : {'G', 'R', 'E', 'C', 'J', 'S', 'I'})
      if (present.find(s) == std::string::npos && (!other || r.chance(1, 3)))
        other = s;
    NavigationRnx y(p.path.c_str());
    NavDataFrame f;
    NavigationRnx::pos_type pos(0);
    if (other) {
      st = y.find_next(pos, f, char_to_satsys(other), r.chance(1, 2) ? -1 : static_cast<int>(r.in(1, 30)));
      VP_CHECK(c, st > 0, "unreadable-not-reported:nav cut searched over", fmt("search for %c returns %d\n", other, st) + line);
    }
    y.rewind();
    int none = 99; // no satellite of the file has it
    while (numbers.count(none))
      none--;
    st = y.find_next_valid(datetime<seconds>(modified_julian_day(mjd), seconds(sod)), pos, f, char_to_satsys(present.back()), none);
    VP_CHECK(c, st > 0, "unreadable-not-reported:nav cut searched", fmt("search returns %d\n", st) + line);
    if (other) {
      y.rewind();
      st = y.find_next_valid(datetime<seconds>(modified_julian_day(mjd), seconds(sod)), pos, f, char_to_satsys(other), -1);
      VP_CHECK(c, st > 0, "unreadable-not-reported:nav cut searched over", fmt("valid search for %c returns %d\n", other, st) + line);
    }
  } catch (std::exception &x) {
    c.fail("refused-for-later-damage", x.what());
  }
  c.event("records_cut_short");
  c.nontrivial("nav cut" + line + bad.substr(0, 60));
  c.sample("nav cut " + line);
}

void vp_case(vp::Case &c) {
  switch (c.idx % 7) {
  case 0: orbits(c); break;
  case 1: observations(c); break;
  case 2: messages(c); break;
  case 3: headers(c); break;
  case 4: vehicles(c); break;
  case 5: antennas(c); break;
  default:
    if (c.rng.chance(1, 2))
      cut_short(c);
    else
      c.rng.chance(1, 2) ? orbits(c) : observations(c);
  }
}
