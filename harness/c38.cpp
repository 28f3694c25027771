// C38: copies are equal and independent; moved, exchanged and stored values stay what they are
#include "readers.hpp"
#include <array>
#include <cassert>
#include <initializer_list>
#include <list>
#include "gauss_newton.hpp"
#include <unistd.h>
using namespace ngpt;
using vp::fmt;

long vp_cases(int tier) { return tier ? 300000 : 12000; }

static const SATELLITE_SYSTEM SYS[8] = {SATELLITE_SYSTEM::gps, SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas, SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss, SATELLITE_SYSTEM::irnss, SATELLITE_SYSTEM::mixed};
static std::string word(vp::Rng &r, long n) {
  std::string s;
  for (long i = r.in(1, n); i > 0; i--)
    s += r.pickc("ABCXYZ019.-_/+");
  return s;
}
static std::string code(vp::Rng &r) { return std::string(1, r.pickc("CLDS")) + r.pickc("125678") + r.pickc("CWXPQIL"); }
/// to the next NUL, as long as it may be
static std::string text(const char *s, size_t n) { return std::string(s, strnlen(s, n)); }

// ---- the kinds of values: made, changed and looked at by public means -------------
struct VReceiver {
  using T = ReceiverAntenna;
  static constexpr const char *name = "receiver antenna";
  static T make(vp::Rng &r) {
    static const char *A[] = {"LEIAR25.R4      LEIT", "TRM41249.00     TZGD", "ASH701945C_M        ", "JAVRINGANT_DM   NONE", "LEIAR25.R4      "};
    const char *a = A[r.in(0, 4)];
    T t = r.chance(1, 6) ? T() : (r.chance(1, 2) ? T(a) : T(std::string(a)));
    if (r.chance(1, 2))
      change(t, r);
    return t;
  }
  static void change(T &t, vp::Rng &r) { t.set_serial_nr(r.chance(1, 8) ? "" : word(r, 20).c_str()); }
  static std::string show(const T &t) {
    return "'" + text(t.__underlying_char__(), 64) + "' " + (t.has_serial() ? "serial " : "none ") + (t.is_same(t) ? "same " : "other ") + (t.compare_model(t) ? "model" : "");
  }
};
struct VSatAntenna {
  using T = SatelliteAntenna;
  static constexpr const char *name = "satellite antenna";
  static T make(vp::Rng &r) { return r.chance(1, 5) ? T() : T(word(r, 20).c_str()); }
  static void change(T &t, vp::Rng &r) { t.set_from_cstr(word(r, 24).c_str()); }
  static std::string show(const T &t) { return t.to_string() + "|" + text(t.__underlying_char__(), 32) + (t.is_same(t.to_string().c_str()) ? " same" : " other"); }
};
struct VSatellite {
  using T = Satellite;
  static constexpr const char *name = "satellite";
  static T make(vp::Rng &r) {
    T t = r.chance(1, 5) ? T(SYS[r.in(0, 7)]) : T(SYS[r.in(0, 7)], static_cast<int>(r.in(1, 99)));
    if (r.chance(1, 2))
      change(t, r);
    return t;
  }
  static void change(T &t, vp::Rng &r) {
    switch (r.in(0, 4)) {
    case 0: t.system() = SYS[r.in(0, 7)]; break;
    case 1: t.prn() = static_cast<int>(r.in(1, 99)); break;
    case 2: t.svn() = static_cast<int>(r.in(1, 999)); break;
    case 3: t.antenna().set_from_cstr(word(r, 20).c_str()); break;
    default: std::strcpy(t.cospar(), fmt("%04ld-%03ldA", r.in(1978, 2030), r.in(0, 99)).substr(0, 8).c_str());
    }
  }
  static std::string show(const T &t) {
    T &u = const_cast<T &>(t);
    return fmt("%c %d %d ", satsys_to_char(t.system()), t.prn(), t.svn()) + t.antenna().to_string() + "|" + u.antenna().to_string() + "|" + text(u.cospar(), 12) + "|" + (t.prn() > 0 ? t.to_string() + (t.svn() > 0 ? text(t.to_string(false).c_str(), 64) : std::string()) : std::string());
  }
};
struct VCode {
  using T = ObservationCode;
  static constexpr const char *name = "observation code";
  static T make(vp::Rng &r) { return T(code(r).c_str()); }
  static void change(T &t, vp::Rng &r) {
    if (r.chance(1, 2))
      t.band() = static_cast<int>(r.in(1, 9));
    else
      t.get<2>() = ObservationAttribute(r.pickc("CWXPQIL"));
  }
  static std::string show(const T &t) { return t.to_string() + fmt(" %d %d %c %d", t.band(), t.get<1>(), t.get<2>().as_char(), t == t); }
};
struct VRaw {
  using T = GnssRawObservable;
  static constexpr const char *name = "raw observable";
  static T make(vp::Rng &r) { return T(SYS[r.in(0, 6)], ObservationCode(code(r).c_str())); }
  static void change(T &t, vp::Rng &r) {
    if (r.chance(1, 2))
      t.satsys() = SYS[r.in(0, 6)];
    else
      t.get<1>() = ObservationCode(code(r).c_str());
  }
  static std::string show(const T &t) { return t.to_string() + fmt(" %c %d ", satsys_to_char(t.satsys()), t.band()) + t.code().to_string() + fmt(" %d", t == t); }
};
struct VObservable {
  using T = GnssObservable;
  static constexpr const char *name = "observable";
  static T make(vp::Rng &r) {
    T t(SYS[r.in(0, 6)], ObservationCode(code(r).c_str()), r.chance(1, 2) ? 1. : r.uni(-3, 3));
    while (r.chance(1, 2))
      change(t, r);
    return t;
  }
  static void change(T &t, vp::Rng &r) {
    auto &v = t.underlying_vector();
    switch (v.size() > 6 ? r.in(1, 2) : r.in(0, 4)) {
    case 1:
      if (v.size() > 1)
        v.pop_back();
      break;
    case 2: r.shuffle(v); break;
    case 3: t.add(GnssRawObservable(SYS[r.in(0, 6)], ObservationCode(code(r).c_str())), r.uni(-3, 3)); break;
    default: t.add(SYS[r.in(0, 6)], ObservationCode(code(r).c_str()), r.uni(-3, 3));
    }
  }
  static std::string show(const T &t) {
    std::string s = t.to_string() + fmt(" %zu %d %d", t.underlying_vector().size(), t.is_of_mixed_satsys(), t == t);
    try {
      s += fmt(" %.9f", t.frequency());
    } catch (std::exception &) {
      s += " no frequency";
    }
    return s;
  }
};
static std::vector<NavDataFrame> frames; ///< of the case
struct VMessage {
  using T = NavDataFrame;
  static constexpr const char *name = "navigation message";
  static T make(vp::Rng &r) { return r.chance(1, 8) ? T() : r.pick(frames); }
  static void change(T &t, vp::Rng &r) {
    // decode another one into it
    static vp::Scratch *p = nullptr;
    if (!p)
      p = new vp::Scratch("msg");
    auto x = ng::record(r, r.pickc("GREC"), 58000 + r.in(0, 900), r.in(0, 47) * 1800, 'D');
    p->write(ng::join(ng::header(r)) + ng::join(ng::lines(r, x)));
    NavigationRnx n(p->path.c_str());
    n.read_next_record(t);
  }
  static std::string show(const T &t) {
    if (t.prn() < 1 || t.prn() > 99)
      return "none";
    std::string s = KNav::show(t);
    if (std::strchr("GREC", satsys_to_char(t.system()))) {
      double x[6] = {0}, clk = 0;
      auto at = t.toe<milliseconds>();
      at.add_seconds(milliseconds(600000L));
      int st = t.stateNclock(at, x, clk);
      s += fmt(" %d", st) + (st ? std::string() : fmt(" %.6f %.6f %.6f %.15e", x[0], x[1], x[2], clk));
      s += fmt(" %d %ld", t.sv_health(), t.fit_interval());
    }
    return s;
  }
};
struct VRecord {
  using T = Sp3EpochSvRecord;
  static constexpr const char *name = "orbit record";
  static T make(vp::Rng &r) {
    T t{SYS[r.in(0, 6)], static_cast<int>(r.in(1, 99)), {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Sp3Flag()};
    change(t, r);
    return t;
  }
  static void change(T &t, vp::Rng &r) {
    static const Sp3Event E[] = {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event, Sp3Event::clock_prediction, Sp3Event::maneuver, Sp3Event::orbit_prediction};
    Sp3Event e = E[r.in(0, 5)];
    if (r.chance(1, 6))
      t.flag_.reset();
    else if (r.chance(1, 2))
      t.flag_.set(e);
    else
      t.flag_.clear(e);
    t.vals_[static_cast<size_t>(r.in(0, 3))] = r.uni(-9, 9);
  }
  static std::string show(const T &t) { return fmt("%c%02d %d %.9f %.9f %.9f %.9f", satsys_to_char(t.s_), t.prn_, t.flag_.bits_, t.vals_[0], t.vals_[1], t.vals_[2], t.vals_[3]); }
};
struct VFilter {
  using T = Kalman<5>;
  static constexpr const char *name = "filter";
  static T make(vp::Rng &r) {
    T t({r.uni(-6e6, 6e6), r.uni(-6e6, 6e6), r.uni(-6e6, 6e6), r.uni(-100, 100), 0.}, r.chance(1, 2) ? 1. : r.uni(0.5, 2));
    change(t, r);
    return t;
  }
  static void change(T &t, vp::Rng &r) {
    int n = static_cast<int>(r.in(5, 9));
    std::vector<double> o, w;
    std::vector<std::array<double, 4>> s;
    for (int i = 0; i < n; i++) {
      double x = r.uni(-1, 1), y = r.uni(-1, 1), z = r.uni(-1, 1), q = std::sqrt(x * x + y * y + z * z) + 1e-9;
      s.push_back({x / q * 2.6e7, y / q * 2.6e7, z / q * 2.6e7, r.uni(-1e-4, 1e-4)});
      o.push_back(r.uni(2e7, 2.6e7));
      w.push_back(r.uni(1, 100));
    }
    t.update(n, &o, &s, r.in(1, 30), &w);
  }
  static std::string show(const T &t) {
    std::fflush(stdout);
    static FILE *tmp = std::tmpfile();
    std::rewind(tmp);
    int keep = ::dup(1);
    ::dup2(fileno(tmp), 1);
    std::ostringstream os; // however it is printed
    std::streambuf *old = std::cout.rdbuf(os.rdbuf());
    const_cast<T &>(t).print_state();
    std::cout.rdbuf(old);
    std::fflush(stdout);
    ::dup2(keep, 1);
    ::close(keep);
    std::string s(400, '\0');
    long n = ::pread(fileno(tmp), s.data(), s.size(), 0);
    if (::ftruncate(fileno(tmp), 0))
      std::_Exit(3);
    ::lseek(fileno(tmp), 0, SEEK_SET);
    s.resize(static_cast<size_t>(std::max(n, 0L)));
    return s + os.str();
  }
};

// ---- what is done with them -------------------------------------------------------
template <typename V> static void values(vp::Case &c, int most) {
  using T = typename V::T;
  auto &r = c.rng;
  // what a value went through: the same again makes an equal one
  struct History {
    uint64_t made = 0;
    std::vector<uint64_t> changes;
    std::string shown;
  };
  auto again = [](const History &h) {
    vp::Rng q(h.made);
    T t = V::make(q);
    for (uint64_t s : h.changes) {
      vp::Rng g(s);
      V::change(t, g);
    }
    return t;
  };
  std::vector<T> v;
  std::vector<History> m;
  std::string log = std::string(V::name) + ":";
  c.desc(log);
  auto fresh = [&] {
    History h;
    h.made = r.next();
    h.shown = V::show(again(h));
    return h;
  };
  auto all = [&](const char *op) {
    for (size_t i = 0; i < v.size(); i++) {
      std::string s = V::show(v[i]);
      if (s != m[i].shown) {
        c.fail(std::string(op) + ":" + V::name, log + fmt("\nvalue %zu of %zu is\n", i, v.size()) + s + "\ninstead of\n" + m[i].shown);
        return false;
      }
    }
    c.event("values_looked_at", static_cast<long>(v.size()));
    return true;
  };
  for (long n = r.in(2, 4); n > 0; n--) {
    m.push_back(fresh());
    vp::Rng q(m.back().made);
    v.push_back(V::make(q));
  }
  if (!all("made"))
    return;
  for (long n = r.in(4, most); n > 0; n--) {
    size_t i = static_cast<size_t>(r.in(0, static_cast<long>(v.size()) - 1)), j = static_cast<size_t>(r.in(0, static_cast<long>(v.size()) - 1));
    const char *op = "";
    switch (r.in(0, 10)) {
    case 0: { // a copy, somewhere else; the first may go
      op = "copied";
      auto t = std::make_unique<T>(v[i]);
      if (V::show(*t) != m[i].shown) {
        c.fail(std::string("copied:") + V::name, log + "\ncopy is\n" + V::show(*t) + "\ninstead of\n" + m[i].shown);
        return;
      }
      if (r.chance(1, 2)) {
        v.erase(v.begin() + static_cast<long>(i));
        History h = m[i];
        m.erase(m.begin() + static_cast<long>(i));
        v.push_back(*t);
        m.push_back(h);
      } else if (v.size() < 9) {
        v.push_back(*t);
        m.push_back(History(m[i]));
      }
      break;
    }
    case 1:
      op = i == j ? "assigned to itself" : "assigned";
      v[i] = const_cast<const T &>(v[j]);
      if (i != j)
        m[i] = m[j];
      break;
    case 2: {
      op = "moved";
      auto t = std::make_unique<T>(std::move(v[i]));
      if (V::show(*t) != m[i].shown) {
        c.fail(std::string("moved:") + V::name, log + "\nmoved is\n" + V::show(*t) + "\ninstead of\n" + m[i].shown);
        return;
      }
      if (r.chance(1, 2)) { // what was moved from can be assigned to
        vp::Rng q(r.next());
        v[i] = V::make(q);
      }
      v[i] = std::move(*t);
      break;
    }
    case 3:
      op = "exchanged";
      std::swap(v[i], v[j]);
      std::swap(m[i], m[j]);
      break;
    case 4: {
      op = "stored";
      std::list<T> l;
      for (auto &x : v)
        r.chance(1, 2) ? l.push_back(x) : l.push_front(x);
      std::vector<T> w;
      for (auto &x : v)
        w.push_back(x);
      w.insert(w.begin() + static_cast<long>(i), w.back());
      w.erase(w.begin() + static_cast<long>(i));
      v.swap(w);
      break;
    }
    case 5: {
      op = "rotated";
      std::rotate(v.begin(), v.begin() + static_cast<long>(i), v.end());
      std::rotate(m.begin(), m.begin() + static_cast<long>(i), m.end());
      break;
    }
    case 6: { // passed and returned by value
      op = "passed";
      auto f = [](T x) { return x; };
      T t = f(f(v[i]));
      v[j] = t;
      m[j] = History(m[i]);
      break;
    }
    default: {
      op = "changed";
      uint64_t s = r.next();
      m[i].changes.push_back(s);
      m[i].shown = V::show(again(m[i]));
      vp::Rng g(s);
      V::change(v[i], g);
    }
    }
    log += fmt(" %s(%zu,%zu)", op, i, j);
    c.desc(log);
    c.event("operations");
    if (!std::strcmp(op, "changed"))
      c.event("changes");
    else if (op[0] == 'a')
      c.event("assignments");
    if (!all(op))
      return;
    c.nontrivial(std::string(op) + m[std::min(i, m.size() - 1)].shown);
  }
  c.sample(log);
}

void vp_case(vp::Case &c) {
  switch (c.idx % 10) {
  case 0: values<VReceiver>(c, 40); break;
  case 1: values<VSatAntenna>(c, 40); break;
  case 2: values<VSatellite>(c, 40); break;
  case 3: values<VCode>(c, 40); break;
  case 4: values<VRaw>(c, 40); break;
  case 5:
  case 6: values<VObservable>(c, 40); break;
  case 7: {
    frames.clear();
    vp::Scratch p("n");
    std::string t = ng::join(ng::header(c.rng));
    for (long n = c.rng.in(1, 5); n > 0; n--)
      t += ng::join(ng::lines(c.rng, ng::record(c.rng, c.rng.pickc("GGRRECCJSI"), 58000 + c.rng.in(0, 900), c.rng.in(0, 47) * 1800, 'D')));
    p.write(t);
    NavigationRnx n(p.path.c_str());
    NavDataFrame f;
    while (!n.read_next_record(f))
      frames.push_back(f);
    values<VMessage>(c, 10);
    break;
  }
  case 8: values<VRecord>(c, 40); break;
  default: values<VFilter>(c, 15);
  }
}
