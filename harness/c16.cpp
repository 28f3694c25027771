// C16: navigation files are traversed record by record, no loss, no duplicate
#include "navgen.hpp"
using namespace ngpt;
using namespace ng;

long vp_cases(int tier) { return tier ? 400000 : 8000; }

// identity of a decoded record
static std::string id(const NavDataFrame &f) {
  return fmt("%c%02d %ld %ld %.12e %.12e", satsys_to_char(f.system()), f.prn(), f.toc().mjd().as_underlying_type(), f.toc().sec().as_underlying_type(), f.data(0), f.data(1));
}
static std::string id(const Rec &x) {
  return fmt("%c%02d %ld %ld %.12e %.12e", x.sys, x.prn, x.mjd, x.sod, x.v[0], x.v[1]);
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("n");
  std::vector<Rec> v;
  size_t n = static_cast<size_t>(r.chance(1, 12) ? 0 : (r.chance(1, 3) ? r.in(1, 60) : r.in(1, 8)));
  std::string all = join(header(r)), body;
  int prns = static_cast<int>(r.in(1, 4));
  const char *sysset = r.chance(1, 3) ? "GRECJSI" : (r.chance(1, 2) ? "GR" : "ECS");
  // now and then, a file of days: thousands of records before the varied ones
  bool huge = r.chance(1, 700);
  size_t filler = 0;
  if (huge) {
    filler = static_cast<size_t>(r.chance(1, 2) ? r.in(4990, 5010) : r.in(900, 11000));
    Rec x = record(r, r.chance(1, 2) ? 'S' : r.pickc("GRECJSI"), anymjd(r, 'C'), anysod(r), 'D');
    x.prn = static_cast<int>(r.in(5, 99));
    std::string t = join(lines(r, x, false));
    for (size_t i = 0; i < filler; i++) {
      v.push_back(x);
      body += t;
    }
    c.event("huge_files");
  }
  n += filler;
  for (size_t i = filler; i < n; i++) {
    char sys = r.pickc(sysset);
    v.push_back(record(r, sys, anymjd(r, sys), anysod(r), r.pickc("DE")));
    v.back().prn = static_cast<int>(r.in(1, prns));
    body += join(lines(r, v.back()));
  }
  all += body;
  if (r.chance(1, 3))
    all.pop_back();
  std::string log;
  std::string order;
  if (filler)
    order = fmt("%zu x %c%02d, ", filler, v[0].sys, v[0].prn);
  for (size_t i = filler; i < n; i++)
    order += fmt("%c%02d ", v[i].sys, v[i].prn);
  p.write(all);
  try {
    NavigationRnx nav(p.path.c_str());
    NavDataFrame f;
    size_t at = 0;
    std::vector<std::pair<NavigationRnx::pos_type, size_t>> seen;
    long steps = huge ? r.in(5, 25) : r.in(5, 120);
    for (long k = 0; k < steps; k++) {
      std::string before = log;
      auto key = [&](const char *s) { return std::string(s); };
      auto ctx = [&](int j) { return fmt("%zu records (%s)\nat %zu after:%s\nstatus %d", n, order.c_str(), at, log.c_str(), j); };
      long op = r.in(0, 99);
      if (op < 30) {
        log += " read";
        c.desc(ctx(0));
        int j = nav.read_next_record(f);
        if (at < n) {
          if (j != 0 || id(f) != id(v[at])) {
            c.fail(key("read"), ctx(j) + ": got " + id(f) + " instead of " + id(v[at]));
            return;
          }
          at++;
          c.event("records_read");
        } else {
          if (!(j < 0)) {
            c.fail("end-not-reported-by-read", ctx(j));
            return;
          }
          c.event("ends_reported");
        }
      } else if (op < 50) {
        log += " skip";
        c.desc(ctx(0));
        int j = nav.ignore_next_block();
        if (at < n) {
          if (j) {
            c.fail("skip", ctx(j));
            return;
          }
          at++;
          c.event("records_skipped");
        } else if (!(j < 0)) {
          c.fail("end-not-reported-by-skip", ctx(j));
          return;
        }
      } else if (op < 62) {
        log += " peek";
        c.desc(ctx(0));
        int j = 77;
        auto s = nav.peak_satsys(j);
        if (at < n ? (j != 0 || satsys_to_char(s) != v[at].sys) : !(j < 0)) {
          c.fail("peek", ctx(j) + fmt(" system %c", satsys_to_char(s)));
          return;
        }
        c.event("peeks");
      } else if (op < 82) {
        char sys = r.chance(4, 5) && n ? v[static_cast<size_t>(r.in(0, static_cast<long>(n) - 1))].sys : r.pickc("GRECJSI");
        int prn = r.chance(1, 3) ? -1 : static_cast<int>(r.in(1, prns + (r.chance(1, 6) ? 1 : 0)));
        if (r.chance(1, 40)) // no such satellite
          prn = static_cast<int>(r.chance(1, 2) ? 0 : r.pickc("\x64\x65\x7f"));
        log += fmt(" find(%c,%d)", sys, prn);
        c.desc(ctx(0));
        NavigationRnx::pos_type pos = 12345;
        int j = nav.find_next(pos, f, char_to_satsys(sys), prn);
        seen.push_back({pos, at});
        size_t m = at;
        while (m < n && !(v[m].sys == sys && (prn == -1 || v[m].prn == prn)))
          m++;
        if (m < n) {
          if (j != 0 || id(f) != id(v[m])) {
            c.fail("search", ctx(j) + ": got " + id(f) + " instead of " + id(v[m]));
            return;
          }
          at = m + 1;
          c.event("searches_found");
        } else {
          if (!(j < 0)) {
            c.fail("end-not-reported-by-search", ctx(j));
            return;
          }
          at = n;
          c.event("searches_not_found");
        }
      } else if (op < 90) {
        log += " rewind";
        nav.rewind();
        at = 0;
        c.event("rewinds");
      } else if (op < 97) {
        if (seen.empty())
          continue;
        auto &s = r.pick(seen);
        log += fmt(" goto(%zu)", s.second);
        nav.rewind(s.first);
        at = s.second;
        c.event("gotos");
      } else {
        log += " move";
        NavigationRnx other(std::move(nav));
        nav = std::move(other);
        c.event("moves");
      }
      c.nontrivial(fmt("%zu/%zu ", at, n) + log.substr(before.size()) + (at < n ? id(v[at]) : ""));
    }
    // the last record is cut short; a position handed out before the error is still good
    if (n > filler && !huge && r.chance(1, 3)) {
      size_t e = all.back() == '\n' ? all.size() - 1 : all.size();
      p.write(all.substr(0, all.rfind('\n', e - 1) + 1));
      NavigationRnx cut(p.path.c_str());
      std::vector<NavigationRnx::pos_type> where;
      NavigationRnx::pos_type pos;
      log = " (cut)";
      int j = 0;
      for (size_t i = 0; i + 1 < n; i++) {
        j = cut.find_next(pos, f, char_to_satsys(v[i].sys), v[i].prn);
        where.push_back(pos);
        if (j || id(f) != id(v[i])) {
          c.fail("read-before-a-cut", order + fmt(": record %zu, status %d", i, j));
          return;
        }
      }
      for (int k = 0; k < 3; k++) {
        long how = r.in(0, 2);
        j = how == 0 ? cut.read_next_record(f) : (how == 1 ? cut.ignore_next_block() : cut.find_next(pos, f, char_to_satsys(v[n - 1].sys)));
        if (j == 0 || (k == 0 && j < 0)) {
          c.fail("cut-record-accepted", order + fmt(": call %d of kind %ld: status %d", k, how, j));
          return;
        }
        if (where.empty() || r.chance(1, 4)) {
          cut.rewind();
          for (size_t i = 0; i + 1 < n && !j; i++)
            j = cut.ignore_next_block();
          break;
        }
        size_t i = static_cast<size_t>(r.in(0, static_cast<long>(n) - 2));
        cut.rewind(where[i]);
        for (; i + 1 < n; i++) {
          j = cut.read_next_record(f);
          if (j || id(f) != id(v[i])) {
            c.fail("position-lost-after-an-error", order + fmt(": record %zu: status %d, ", i, j) + (j ? "" : id(f)));
            return;
          }
        }
        c.event("gotos_after_an_error");
      }
    }
  } catch (std::exception &e) {
    c.desc(all.substr(0, 6000));
    c.fail("valid-file-refused", e.what());
  }
  c.sample(order + "|" + log);
}
