// The five kinds of readers as sessions of repeatable operations (C29, C31).
#ifndef VP_READERS_HPP
#define VP_READERS_HPP
#include "antexgen.hpp"
#include "berngen.hpp"
#include "navgen.hpp"
#include "obsgen.hpp"
#include "sp3gen.hpp"
#include <memory>
using namespace ngpt;
using vp::fmt;

// ---- the readers, as sessions ------------------------------------------------
// Each kind offers: file(), op() = a random operation that can be repeated,
// run(reader, op) = what it answers, rewinds(op) = it starts over.
struct Op {
  int k = 0;
  long a = 0, b = 0, c = 0;
  std::string s;
};
static std::string show(const Satellite &s) { return fmt("%c%02d %d ", satsys_to_char(s.system()), s.prn(), s.svn()) + s.antenna().to_string() + s.to_string(); }

#ifdef DEBUG
static std::string show(AntennaPcoList &l) { return ag::show(ag::report(l)); }
static const bool ASSERTS = true;
#else
static std::string show(AntennaPcoList &) { return ""; } // they can be looked at under DEBUG only
static const bool ASSERTS = false;
#endif

struct KAntex {
  using R = Antex;
  static constexpr const char *name = "antex";
  std::vector<ag::Entry> v;
  std::string file(vp::Rng &r) {
    std::string t = ag::header(r);
    for (long n = r.in(1, 6); n > 0; n--) {
      v.push_back(r.chance(1, 2) ? ag::satellite(r) : ag::receiver(r));
      t += ag::join(v.back().lines);
    }
    return t;
  }
  Op op(vp::Rng &r) {
    auto &e = r.pick(v);
    Op o;
    o.k = static_cast<int>(e.sat ? r.in(1, 2) : 0);
    o.a = e.sat ? static_cast<long>(&e - &v[0]) : static_cast<long>(&e - &v[0]);
    o.b = r.in(0, 5);
    o.c = r.in(0, 3);
    return o;
  }
  static constexpr bool stateless = true;
  bool rewinds(const Op &) { return true; }
  std::string run(R &a, const Op &o, vp::Rng &) {
    auto &e = v[static_cast<size_t>(o.a)];
    AntennaPcoList l;
    Satellite sv(SATELLITE_SYSTEM::sbas, 77);
    int st;
    if (!o.k) {
      ReceiverAntenna ant(o.b == 4 ? "NOSUCHANTENNA   NONE" : e.type.c_str());
      if (o.b == 5)
        ant.set_serial_nr("SOMETHINGELSE");
      else if (!e.serial.empty() && o.b)
        ant.set_serial_nr(e.serial.c_str());
      st = a.get_antenna_pco(ant, l, o.c == 0);
      return st ? fmt("%d", st) : "0 " + show(l);
    }
    long s = ag::secs(e.from) + (o.b == 1 ? -1 : o.b == 2 ? 1 : o.b == 3 ? 86400L * 400 : o.b == 4 ? -86400L * 4000 : 0);
    datetime<seconds> at(modified_julian_day(s / 86400), seconds(s % 86400));
    int prn = o.b == 5 ? 63 : e.prn;
    if (o.k == 1) {
      st = a.get_antenna_pco(prn, char_to_satsys(e.sys), at, l, o.c ? &sv : nullptr);
      return st ? fmt("%d", st) : "0 " + show(l) + (o.c ? show(sv) : "");
    }
    st = a.get_satellite_info(prn, char_to_satsys(e.sys), at, sv);
    return st ? fmt("%d", st) : "0 " + show(sv);
  }
  std::string members(R &a) { return a.filename(); }
};

struct KBern {
  using R = BernSatellit;
  static constexpr const char *name = "satellit";
  std::vector<bg::Rec> v;
  std::string file(vp::Rng &r) {
    v = bg::records(r);
    if (v.size() > 12)
      v.resize(12);
    std::string t = bg::part1(r) + bg::heads();
    for (auto &e : v)
      t += e.line + "\n";
    return t + bg::tail(r, v);
  }
  static constexpr bool stateless = true;
  bool rewinds(const Op &) { return true; }
  Op op(vp::Rng &r) {
    auto &e = r.pick(v);
    Op o;
    o.a = r.chance(3, 4) ? e.svn : r.in(1, 900);
    o.b = e.from + (r.chance(1, 2) ? 0 : r.in(-86400L * 300, 86400L * 3000));
    return o;
  }
  std::string run(R &b, const Op &o, vp::Rng &) {
    int ch = 99, prn = 99;
    int st = b.get_frequency_channel(static_cast<int>(o.a), datetime<seconds>(modified_julian_day(o.b / 86400), seconds(o.b % 86400)), ch, prn);
    return st ? fmt("%d", st) : fmt("0 %d %d", ch, prn);
  }
  std::string members(R &) { return ""; }
};

struct KSp3 {
  using R = Sp3c;
  static constexpr const char *name = "sp3";
  std::string file(vp::Rng &r) {
    sg::File f;
    sg::basics(r, f);
    if (f.nsat > 20) {
      f.nsat = 20;
      f.sats.resize(20);
    }
    sg::header(r, f);
    sg::epochs(r, f, static_cast<int>(r.in(1, 6)));
    std::string t = sg::join(f.head);
    for (auto &e : f.ep)
      t += sg::join(sg::lines(r, f, e));
    return t + "EOF\n";
  }
  static constexpr bool stateless = false;
  bool rewinds(const Op &o) { return o.k == 1; }
  Op op(vp::Rng &r) {
    Op o;
    o.k = r.chance(1, 7);
    return o;
  }
  std::vector<Sp3EpochSvRecord> keep;
  std::string run(R &s, const Op &o, vp::Rng &r) {
    if (o.k) {
      s.rewind();
      return "rewound";
    }
    // a vector that has been used, or a new one
    if (keep.size() != static_cast<size_t>(s.num_sats()) || r.chance(1, 3))
      keep = s.allocate_epoch_vector();
    datetime<microseconds> t;
    int n = 0, st = s.get_next_epoch(t, keep, n);
    std::string w = fmt("%d", st);
    if (st > 0)
      return w;
    w += fmt(" %ld %ld %d:", t.mjd().as_underlying_type(), t.sec().as_underlying_type(), n);
    for (int i = 0; i < n && static_cast<size_t>(i) < keep.size(); i++) {
      w += fmt(" %c%02d %d", satsys_to_char(keep[i].s_), keep[i].prn_, keep[i].flag_.bits_);
      for (double x : keep[i].vals_)
        w += fmt(" %.6f", x);
    }
    return w;
  }
  std::string members(R &s) {
#ifdef DEBUG
    vp::Capture cap(std::cout);
    s.print_members();
    return cap.str();
#else
    return fmt("%d %ld", s.num_sats(), static_cast<long>(s.interval().as_underlying_type()));
#endif
  }
};

struct KNav {
  using R = NavigationRnx;
  static constexpr const char *name = "nav";
  std::vector<ng::Rec> v;
  std::string file(vp::Rng &r) {
    std::string t = ng::join(ng::header(r));
    long mjd = ng::anymjd(r, 'C'), sod = ng::anysod(r);
    for (long n = r.in(1, 10); n > 0; n--) {
      char s = r.pickc("GGRRECCJSI");
      v.push_back(ng::record(r, s, mjd, sod, 'D'));
      t += ng::join(ng::lines(r, v.back()));
    }
    return t;
  }
  static constexpr bool stateless = false;
  bool rewinds(const Op &o) { return o.k == 5; }
  Op op(vp::Rng &r) {
    static const int K[] = {0, 0, 0, 1, 2, 3, 3, 4, 5};
    Op o;
    o.k = K[r.in(0, 8)];
    auto &e = r.pick(v);
    o.a = r.chance(4, 5) ? e.sys : r.pickc("GRECJSI");
    o.b = r.chance(1, 2) ? -1 : (r.chance(4, 5) ? e.prn : r.in(1, 40));
    if (o.k == 4)
      o.a = r.pickc("GRECGRECSJI");
    o.c = (e.mjd * 86400L + e.sod) + r.in(-3, 3) * 3600;
    return o;
  }
  NavDataFrame keep;
  static std::string show(const NavDataFrame &f) {
    std::string s = fmt("%c%02d %ld %ld", satsys_to_char(f.system()), f.prn(), f.toc().mjd().as_underlying_type(), f.toc().sec().as_underlying_type());
    for (int i = 0; i < 31; i++)
      s += fmt(" %.13e", f.data(i));
    auto e = f.toe<seconds>();
    return s + fmt(" %ld %ld", e.mjd().as_underlying_type(), e.sec().as_underlying_type());
  }
  std::string run(R &n, const Op &o, vp::Rng &r) {
    NavDataFrame fresh;
    NavDataFrame &f = r.chance(1, 2) ? keep : fresh;
    int st = 0;
    NavigationRnx::pos_type pos(0);
    switch (o.k) {
    case 0:
      st = n.read_next_record(f);
      return fmt("read %d ", st) + (st ? "" : show(f));
    case 1: {
      auto s = n.peak_satsys(st);
      return fmt("peek %d %c", st, st ? '-' : satsys_to_char(s));
    }
    case 2: return fmt("skip %d", n.ignore_next_block());
    case 3:
      st = n.find_next(pos, f, char_to_satsys(static_cast<char>(o.a)), static_cast<int>(o.b));
      if (o.c % 2)
        n.rewind(pos);
      return fmt("find %d %ld ", st, static_cast<long>(pos)) + (st ? "" : show(f));
    case 4:
      st = n.find_next_valid(datetime<seconds>(modified_julian_day(o.c / 86400), seconds(o.c % 86400)), pos, f, char_to_satsys(static_cast<char>(o.a)), static_cast<int>(o.b));
      return fmt("valid %d %ld ", st, static_cast<long>(pos)) + (st ? "" : show(f));
    default: n.rewind(); return "rewound";
    }
  }
  std::string members(R &) { return ""; }
};

struct KObs {
  using R = ObservationRnx;
  static constexpr const char *name = "obs";
  og::Hdr h;
  std::string file(vp::Rng &r) {
    og::header(r, h, r.chance(1, 2) ? 5 : 40, r.chance(1, 6));
    auto ep = og::epochs(r, h, r.in(1, 8), 12, static_cast<int>(r.in(0, 4)));
    std::string t = og::text(r, h);
    for (auto &e : ep) {
      for (auto &l : og::events(r, e.mjd, e.t7))
        t += l + "\n";
      for (auto &l : og::lines(r, e))
        t += l + "\n";
    }
    for (auto &t : h.types)
      for (long k = r.in(1, 3); k > 0; k--) {
        SATELLITE_SYSTEM s = char_to_satsys(t.first);
        req[s].push_back(GnssObservable(s, ObservationCode(r.pick(t.second).c_str())));
        if (r.chance(1, 3))
          req[s].back().add(s, ObservationCode(r.pick(t.second).c_str()), -1.5);
      }
    return t;
  }
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
  static constexpr bool stateless = false;
  bool rewinds(const Op &o) { return o.k == 1; }
  Op op(vp::Rng &r) {
    Op o;
    o.k = r.chance(1, 8) ? 1 : r.chance(1, 10) ? 2 : 0;
    return o;
  }
  std::string run(R &o, const Op &q, vp::Rng &) {
    if (q.k == 1) {
      o.rewind();
      return "rewound";
    }
    auto rq = req;
    auto map = o.set_read_map(rq, true);
    if (q.k == 2) { // what can be read
      std::string w;
      for (auto &m : map) {
        w += satsys_to_char(m.first);
        for (auto &x : m.second) {
          w += " [";
          for (auto &p : x)
            w += fmt(" %zu*%g", p.first, p.second);
          w += "]";
        }
      }
      auto z = o.set_read_map(req, false);
      return w + fmt(" %zu", z.size());
    }
    auto v = o.initialize_epoch_vector(map);
    int n = 0;
    modified_julian_day day(1);
    double sod = 0;
    int st = o.read_next_epoch(map, v, n, day, sod);
    if (st)
      return fmt("%d", st);
    std::string s = fmt("0 %ld %.7f:", day.as_underlying_type(), sod);
    for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++) {
      s += fmt(" %c%02d", satsys_to_char(v[i].first.system()), v[i].first.prn());
      for (size_t q = 0; q < map[v[i].first.system()].size() && q < v[i].second.size(); q++)
        s += fmt(" %.4f", v[i].second[q]);
    }
    return s;
  }
  std::string members(R &o) {
    std::string w = fmt("%d %.4f %.4f %.4f %ld %ld", o.max_obs(), o.x_approx(), o.y_approx(), o.z_approx(), o.time_of_first_obs().mjd().as_underlying_type(), static_cast<long>(o.time_of_first_obs().sec().as_underlying_type()));
#ifdef DEBUG
    vp::Capture cap(std::cout);
    o.print_members();
    w += cap.str();
#endif
    return w;
  }
};

#endif
