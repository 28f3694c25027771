// C15: broadcast messages decode field by field, with correct times and units
#include "navgen.hpp"
using namespace ngpt;
using namespace ng;

long vp_cases(int tier) { return tier ? 1000000 : 24000; }

template <typename T> static void toe_of(vp::Case &c, const NavDataFrame &f, const Rec &x, const std::string &w) {
  auto a = f.toe<T>();
  auto b = f.toe2date<T>();
  long s = x.toe_sod * T::template sec_factor<long>();
  VP_CHECK(c, a.mjd().as_underlying_type() == x.toe_mjd && a.sec().as_underlying_type() == s, std::string("ephemeris-epoch-") + x.sys,
           w + fmt("mjd %ld, %ld instead of %ld, %ld (clock epoch %ld %ld)", a.mjd().as_underlying_type(), a.sec().as_underlying_type(), x.toe_mjd, s, x.mjd, x.sod));
  VP_CHECK(c, b.mjd().as_underlying_type() == x.toe_mjd && b.sec().as_underlying_type() == s, std::string("toe2date-") + x.sys,
           w + fmt("mjd %ld, %ld instead of %ld, %ld", b.mjd().as_underlying_type(), b.sec().as_underlying_type(), x.toe_mjd, s));
}

static void check(vp::Case &c, const NavDataFrame &f, const Rec &x, const std::string &w) {
  VP_CHECK(c, satsys_to_char(f.system()) == x.sys, "system", w);
  VP_CHECK(c, f.prn() == x.prn, "satellite-number", w + fmt("%d", f.prn()));
  auto t = f.toc();
  VP_CHECK(c, t.mjd().as_underlying_type() == x.mjd && t.sec().as_underlying_type() == x.sod, "clock-epoch",
           w + fmt("mjd %ld, %ld s instead of %ld, %ld s", t.mjd().as_underlying_type(), t.sec().as_underlying_type(), x.mjd, x.sod));
  auto tm = f.toc<microseconds>();
  VP_CHECK(c, tm.mjd().as_underlying_type() == x.mjd && tm.sec().as_underlying_type() == x.sod * 1000000L, "clock-epoch-us", w);
  for (int i = 0; i < layout(x.sys).n; i++) {
    if (spare(x.sys, i))
      continue;
    double want = x.scaled(i);
    VP_CHECK(c, std::abs(f.data(i) - want) <= (want == x.v[i] ? 0. : 2e-15 * std::abs(want)), fmt("field-%c-%d", x.sys, i),
             w + fmt("field %d (\"%s\") is %.17g instead of %.17g", i, x.f[i].c_str(), f.data(i), want));
    c.event("fields_compared");
  }
  if (std::strchr("GREC", x.sys)) {
    toe_of<seconds>(c, f, x, w);
    toe_of<milliseconds>(c, f, x, w);
    toe_of<microseconds>(c, f, x, w);
    c.event("ephemeris_epochs_compared");
  }
}

// one mandatory field unreadable
static bool spoil(vp::Rng &r, Rec &x, std::vector<std::string> &l, std::string &how) {
  switch (r.in(0, 7)) {
  case 0: {
    static const char B[] = "ABDFHKLMNOPQTUVWXYZ 0123456789gr*#>";
    l[0][0] = r.pickc(B);
    if (l[0][0] == 'M') // a letter of a system, but not of a satellite
      how = "system letter M";
    else
      how = fmt("system letter '%c'", l[0][0]);
    return true;
  }
  case 1: {
    static const char *B[] = {"  ", "xx", "00", "--", " -", ".5", "+ "};
    const char *b = B[r.in(0, 6)];
    l[0].replace(1, 2, b);
    how = fmt("satellite number \"%s\"", b);
    return true;
  }
  case 2: {
    // one date part not a number
    static const int at[] = {4, 9, 12, 15, 18, 21}, len[] = {4, 2, 2, 2, 2, 2};
    long k = r.in(0, 5);
    char ch = r.pickc("x* ?D");
    l[0].replace(static_cast<size_t>(at[k]), static_cast<size_t>(len[k]), std::string(static_cast<size_t>(len[k]), ch));
    how = fmt("date part %ld filled with '%c'", k, ch);
    return true;
  }
  case 3: {
    static const char *B[] = {"13 01", "00 10", "02 30", "04 31", "12 32", "06 00"};
    const char *b = B[r.in(0, 5)];
    l[0].replace(9, 5, b);
    how = fmt("month and day \"%s\"", b);
    return true;
  }
  case 4: { // the file ends within the record
    size_t k = static_cast<size_t>(r.in(1, static_cast<long>(l.size()) - 1));
    l.resize(k);
    how = fmt("file ends after line %zu of the record", k);
    return true;
  }
  default: {
    int i;
    do
      i = static_cast<int>(r.in(0, layout(x.sys).n - 1));
    while (spare(x.sys, i));
    std::string b;
    switch (r.in(0, 4)) {
    case 0: b = std::string(19, ' '); break;
    case 1: b = "      not a number "; break;
    case 2: b = std::string(19, '*'); break;
    case 3: b = "  D-05             "; break;
    default: b = "  -                "; break;
    }
    size_t ln = i < 3 ? 0 : static_cast<size_t>((i - 3) / 4 + 1), at = i < 3 ? 23 + 19 * static_cast<size_t>(i) : 4 + 19 * static_cast<size_t>((i - 3) % 4);
    if (r.chance(1, 4)) {
      l[ln].resize(at); // the line ends before the field
      how = fmt("line ends before field %d", i);
    } else {
      l[ln].resize(std::max(l[ln].size(), at + 19), ' ');
      l[ln].replace(at, 19, b);
      how = fmt("field %d is \"%s\"", i, b.c_str());
    }
    return true;
  }
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("n");
  std::vector<Rec> v;
  long n = r.in(1, 14);
  std::string all = join(header(r)), body;
  bool bad = r.chance(1, 2);
  std::string how;
  for (long i = 0; i < n; i++) {
    char sys = r.pickc("GRECJSI");
    Rec x = record(r, sys, anymjd(r, sys), anysod(r), r.pickc("DEde"));
    auto l = lines(r, x);
    if (bad && i + 1 == n)
      spoil(r, x, l, how);
    v.push_back(x);
    std::string one = join(l);
    if (i + 1 == n && r.chance(1, 6))
      one.pop_back();
    body += one;
  }
  all += body;
  c.desc((bad ? how + "\n" : "") + (body.size() > 5500 ? body.substr(body.size() - 5500) : body));
  p.write(all);
  try {
    NavigationRnx nav(p.path.c_str());
    NavDataFrame shared;
    int pollute = static_cast<int>(r.in(0, 3));
    for (long i = 0; i < n; i++) {
      auto &x = v[static_cast<size_t>(i)];
      NavDataFrame own;
      NavDataFrame &f = r.chance(1, 2) ? shared : own;
      if (pollute == 0)
        errno = ERANGE;
      int j = nav.read_next_record(f);
      std::string w = fmt("record %ld of %ld, %c%02d: status %d: ", i, n, x.sys, x.prn, j);
      if (bad && i + 1 == n) {
        VP_CHECK(c, j > 0, std::string("unreadable-field-accepted-") + how.substr(0, how.find_first_of(" \"")), w + how);
        c.event("unreadable_refused");
        c.nontrivial(how + x.sys);
        break;
      }
      VP_CHECK(c, j == 0, std::string("record-refused-") + x.sys, w);
      if (j)
        return;
      check(c, f, x, w);
      c.event("records_decoded");
      c.nontrivial(x.f[0] + x.f[3] + x.sys);
    }
    if (!bad) {
      NavDataFrame f;
      VP_CHECK(c, nav.read_next_record(f) < 0, "end-not-reported", "");
    }
  } catch (std::exception &e) {
    c.fail("valid-file-refused", e.what());
  }
  c.sample(body.substr(0, 700));
}
