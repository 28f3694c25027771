// C31: objects of their own can be used in threads of their own
#include "readers.hpp"
#include "keplref.hpp"
#include <array>
#include <atomic>
#include <cassert>
#include <initializer_list>
#include "gauss_newton.hpp"
#include "nvarstr.hpp"
#include <sched.h>
#include <thread>

long vp_cases(int tier) { return tier ? 20000 : 1000; }

// relaxed everywhere: nothing here may order the threads for the race detector
static std::atomic<int> waiting{0};
static std::atomic<long> ticket{0};

/// one thread's work: what it answers when run alone, and again beside others
struct Work {
  std::string name;
  std::vector<std::string> got;
  std::vector<long> order; ///< global order of its steps
  virtual ~Work() = default;
  virtual size_t steps() const = 0;
  virtual void start() = 0;            ///< new objects
  virtual std::string step(size_t k) = 0;
  virtual void end(std::vector<std::string> &) {} ///< afterwards, alone
  void run(int yield, uint64_t seed) {
    vp::Rng r(seed);
    got.clear();
    order.clear();
    try {
      start();
      for (size_t k = 0; k < steps(); k++) {
        order.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
        got.push_back(step(k));
        if (yield && r.chance(1, yield))
          sched_yield();
      }
    } catch (std::exception &e) {
      got.push_back(std::string("exception ") + e.what());
    }
  }
};

template <typename K> struct Reading : Work {
  K k0, k;
  std::vector<Op> ops;
  vp::Scratch p;
  std::string path;
  std::unique_ptr<typename K::R> rd;
  vp::Rng q;
  Reading(vp::Rng &r, const char *tag, const std::vector<std::unique_ptr<Work>> &others) : p(tag), path(p.path), q(1) {
    name = K::name;
    Reading *o = nullptr; // whose file this one may read as well
    for (auto &w : others)
      if (auto *x = dynamic_cast<Reading *>(w.get()))
        o = x;
    if (o && r.chance(1, 2)) {
      k0 = o->k0;
      path = o->path;
      name += '=';
    } else {
      p.write(k0.file(r));
    }
    for (long n = r.in(3, 14); n > 0; n--)
      ops.push_back(k0.op(r));
  }
  size_t steps() const override { return ops.size(); }
  void start() override {
    k = k0;
    q = vp::Rng(7);
    rd = std::make_unique<typename K::R>(path.c_str());
  }
  std::string step(size_t i) override { return k.run(*rd, ops[i], q); }
};

// messages: states and clocks, own copies and ones all threads read
struct Messages : Work {
  std::vector<NavDataFrame> own;
  const std::vector<NavDataFrame> *shared;
  std::vector<std::pair<size_t, long>> calls;
  Messages(vp::Rng &r, const std::vector<NavDataFrame> &s) : own(s), shared(&s) {
    name = "messages";
    for (long n = r.in(5, 30); n > 0; n--)
      calls.push_back({static_cast<size_t>(r.in(0, 2 * static_cast<long>(s.size()) - 1)), r.in(-900, 900)});
  }
  size_t steps() const override { return calls.size(); }
  void start() override {}
  std::string step(size_t i) override {
    size_t k = calls[i].first;
    const NavDataFrame &f = k < own.size() ? own[k] : (*shared)[k - own.size()];
    auto t = f.toe<milliseconds>();
    if (calls[i].second >= 0)
      t.add_seconds(seconds(calls[i].second));
    else
      t.remove_seconds(seconds(-calls[i].second));
    double s[6] = {0}, c = 0;
    NavDataFrame g(f);
    int j = const_cast<const NavDataFrame &>(f).stateNclock(t, s, c);
    std::string w = fmt("%d %.17g %.17g %.17g %.17g %d %ld", j, s[0], s[1], s[2], c, f.sv_health(), f.fit_interval());
    if (f.system() == SATELLITE_SYSTEM::gps)
      w += fmt(" %g %d", f.gps_ura(), f.gps_fit_interval());
    if (f.system() == SATELLITE_SYSTEM::galileo)
      w += fmt(" %g %d", f.gal_sisa(), f.gal_iod_nav());
    return w + fmt(" %.17g", g.data(10));
  }
};

// tables, codes, antennas, satellites, text helpers
struct Values : Work {
  struct S {
    ReceiverAntenna a{"TRM41249.00     NONE"}, b{"TRM41249.00     TZGD"};
    Satellite s{SATELLITE_SYSTEM::galileo, 11};
    GnssObservable o{SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 2.5};
    S() {
      a.set_serial_nr("4711");
      o.add(SATELLITE_SYSTEM::gps, ObservationCode("L2W"), -1.5);
    }
  };
  const S *sh;
  S own;
  std::vector<std::pair<int, uint64_t>> calls;
  Values(vp::Rng &r, const S &s) : sh(&s) {
    name = "values";
    for (long n = r.in(20, 80); n > 0; n--)
      calls.push_back({static_cast<int>(r.in(0, 8)), r.next()});
  }
  size_t steps() const override { return calls.size(); }
  void start() override { own = S(); }
  std::string step(size_t i) override {
    vp::Rng r(calls[i].second);
    char sy = r.pickc("GRECJSI");
    auto sys = char_to_satsys(sy);
    const S &x = r.chance(1, 2) ? own : *sh;
    switch (calls[i].first) {
    case 0: {
      ObservationCode c(fmt("%c%d%c", r.pickc("CLDS"), static_cast<int>(r.in(1, 9)), r.pickc("CWXPQI")).c_str());
      return c.to_string() + fmt("%d", c.band());
    }
    case 1: {
      GnssObservable o(sys, ObservationCode(sy == 'I' ? "C5A" : "C1C"), r.in(1, 3));
      double f = -1;
      try {
        f = o.frequency();
      } catch (std::exception &) {
      }
      return o.to_string() + fmt("%.9g", f);
    }
    case 2: return fmt("%.12g ", x.o.frequency()) + x.o.to_string() + fmt("%d%d", x.o == own.o, x.o.is_of_mixed_satsys());
    case 3: return fmt("%d%d%d%d%d", x.a.is_same(own.a), x.a.compare_model(own.b), x.a.has_serial(), x.a.compare_serial("4711"), x.b.is_same(own.b)) + std::string(x.a.__underlying_char__(), 20);
    case 4: return show(x.s);
    case 5: {
      std::string t = fmt("%-10s  ", fmt("A%ld", r.in(0, 99999)).c_str());
      size_t e = 0;
      return rtrim<str_algorithm_details::StrSearchPolicyEnd>(t.c_str(), e, 12) + "|";
    }
    case 6: {
      std::string t = fmt("%19.12E%19.12E", r.uni(-1, 1), r.uni(-1e9, 1e9));
      for (auto &ch : t)
        if (ch == 'E')
          ch = 'D';
      double v[2] = {0, 0};
      bool ok = __char2double__<2, 19>(t.c_str(), v);
      return fmt("%d %.17g %.17g", ok, v[0], v[1]);
    }
    case 7: own.a.set_serial_nr(fmt("%ld", r.in(0, 99999)).c_str()); return own.a.has_serial() ? "s" : "-";
    default: return fmt("%c%c", satsys_to_char(sys), satsys_to_char(char_to_satsys(r.pickc("GRECJSI"))));
    }
  }
};

/// what print_state writes on the standard output
static std::string printed(Kalman<5> &k) {
  std::string path = vp::scratch_dir() + fmt("/kf%d", static_cast<int>(getpid()));
  std::fflush(stdout);
  int save = dup(1), fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  std::ostringstream os;
  std::streambuf *old = std::cout.rdbuf(os.rdbuf());
  k.print_state();
  std::fflush(stdout);
  std::cout.rdbuf(old);
  dup2(save, 1);
  close(save);
  std::string s;
  char buf[512];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = ::read(fd, buf, sizeof buf)) > 0)
    s.append(buf, static_cast<size_t>(n));
  close(fd);
  ::unlink(path.c_str());
  return s.empty() ? os.str() : s;
}
struct Filter : Work {
  std::unique_ptr<Kalman<5>> f;
  uint64_t seed;
  size_t n;
  explicit Filter(vp::Rng &r) : seed(r.next()), n(static_cast<size_t>(r.in(1, 8))) { name = "filter"; }
  size_t steps() const override { return n; }
  void start() override { f = std::make_unique<Kalman<5>>(std::initializer_list<double>{4e6, 3e5, 4.9e6, 10., 0.}, 1.); }
  std::string step(size_t k) override {
    vp::Rng r(seed + k);
    std::vector<double> o, w;
    std::vector<std::array<double, 4>> s;
    for (int i = 0; i < 7; i++) {
      double a = r.uni(0, 6.28), z = r.uni(0, 1);
      s.push_back({26e6 * std::cos(a) * z, 26e6 * std::sin(a) * z, 26e6 * std::sqrt(1 - z * z), r.uni(-1e-4, 1e-4)});
      o.push_back(r.uni(2e7, 2.4e7));
      w.push_back(r.uni(0, 50));
    }
    f->update(7, &o, &s, 30., k % 2 ? &w : nullptr);
    return "updated";
  }
  void end(std::vector<std::string> &v) override { v.push_back(printed(*f)); }
};

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  std::vector<NavDataFrame> msgs;
  {
    vp::Scratch p("m");
    for (long n = r.in(1, 4); n > 0; n--) {
      char sys = r.pickc("GEC");
      ng::Rec x = ng::record(r, sys, ng::anymjd(r, sys), ng::anysod(r), 'D');
      kr::elements(r, x);
      NavDataFrame f;
      if (!kr::decode(p, r, x, f))
        msgs.push_back(f);
    }
    // a GLONASS one
    ng::Rec x = ng::record(r, 'R', ng::anymjd(r, 'R'), ng::anysod(r), 'D');
    static const double V[] = {-1e-4, 0, 0, 19000, 2.1, 0, 0, 12000, -1.2, 1e-9, 1, 12000, 2.4, 0, 0};
    for (int i = 0; i < 15; i++)
      if (i != 2)
        ng::put(x, i, V[i]);
    NavDataFrame f;
    if (!kr::decode(p, r, x, f))
      msgs.push_back(f);
  }
  static const Values::S shared;
  int n = static_cast<int>(r.in(2, 6));
  std::vector<std::unique_ptr<Work>> w;
  std::string what;
  int same = r.chance(1, 3) ? static_cast<int>(r.in(0, 7)) : -1; // all of one kind
  for (int i = 0; i < n; i++) {
    static const char *T[] = {"t0", "t1", "t2", "t3", "t4", "t5"};
    switch (same >= 0 ? same : static_cast<int>(r.in(0, 7))) {
    case 0: w.push_back(std::make_unique<Reading<KAntex>>(r, T[i], w)); break;
    case 1: w.push_back(std::make_unique<Reading<KBern>>(r, T[i], w)); break;
    case 2: w.push_back(std::make_unique<Reading<KSp3>>(r, T[i], w)); break;
    case 3: w.push_back(std::make_unique<Reading<KNav>>(r, T[i], w)); break;
    case 4: w.push_back(std::make_unique<Reading<KObs>>(r, T[i], w)); break;
    case 5: w.push_back(std::make_unique<Messages>(r, msgs)); break;
    case 6: w.push_back(std::make_unique<Values>(r, shared)); break;
    default: w.push_back(std::make_unique<Filter>(r));
    }
    what += w.back()->name + " ";
    if (w.back()->name.back() == '=')
      c.event("files_shared");
  }
  c.desc(what);
  // alone; half of the cases beside others first, so that nothing is
  // warmed up by the main thread
  bool first = r.chance(1, 2);
  std::vector<std::vector<std::string>> alone;
  auto seq = [&] {
    for (auto &x : w) {
      x->run(0, 0);
      x->end(x->got);
      alone.push_back(x->got);
    }
  };
  if (first)
    seq();
  for (int round = 0; round < 2; round++) {
    std::vector<std::thread> th;
    int yield = static_cast<int>(r.in(0, 4));
    waiting.store(0, std::memory_order_relaxed);
    for (auto &x : w) {
      Work *p = x.get();
      uint64_t s = r.next();
      th.emplace_back([p, s, yield, n] {
        waiting.fetch_add(1, std::memory_order_relaxed);
        for (int k = 0; k < 2000 && waiting.load(std::memory_order_relaxed) < n; k++)
          sched_yield();
        p->run(yield, s);
      });
    }
    for (auto &t : th)
      t.join();
    std::vector<std::vector<std::string>> beside;
    std::vector<std::pair<long, int>> ord;
    for (int i = 0; i < n; i++) {
      w[static_cast<size_t>(i)]->end(w[static_cast<size_t>(i)]->got);
      beside.push_back(w[static_cast<size_t>(i)]->got);
      for (long t : w[static_cast<size_t>(i)]->order)
        ord.push_back({t, i});
    }
    if (!first && !round)
      seq();
    std::sort(ord.begin(), ord.end());
    std::string sig = what;
    long switches = 0;
    for (size_t i = 0; i < ord.size(); i++) {
      sig += static_cast<char>('a' + ord[i].second);
      switches += i && ord[i].second != ord[i - 1].second;
    }
    c.nontrivial(sig);
    c.event("thread_switches", switches);
    for (int i = 0; i < n; i++) {
      auto &a = alone[static_cast<size_t>(i)], &b = beside[static_cast<size_t>(i)];
      VP_CHECK(c, a.size() == b.size(), "answers-" + w[static_cast<size_t>(i)]->name, what + fmt(": %zu and %zu", a.size(), b.size()) + (a.empty() ? "" : a.back()) + (b.empty() ? "" : b.back()));
      for (size_t k = 0; k < std::min(a.size(), b.size()); k++) {
        VP_CHECK(c, a[k] == b[k], "answer-" + w[static_cast<size_t>(i)]->name, what + fmt(": thread %d, step %zu: ", i, k) + b[k] + " instead of " + a[k]);
        c.event("answers_compared");
      }
    }
    c.event("threads_run", n);
  }
  c.sample(what);
}
