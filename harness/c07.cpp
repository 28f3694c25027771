// C07: fixed-column text helpers read exactly their columns
#include "vp.hpp"
#include "nvarstr.hpp"
#include "rinex.hpp"
#include <cerrno>
#include <memory>
using namespace ngpt;
using ngpt::str_algorithm_details::StrSearchPolicyEnd;
using ngpt::str_algorithm_details::StrSearchPolicyStart;

struct CStr {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit CStr(const std::string &s) : p(new char[s.size() + 1]), n(s.size()) { std::memcpy(p.get(), s.c_str(), n + 1); }
  operator const char *() const { return p.get(); }
  char *get() { return p.get(); }
  std::string str() const { return std::string(p.get(), n); }
};

static void trims(vp::Case &c, const std::string &t, bool limited, size_t lim) {
  c.desc("'" + vp::esc(t) + "'" + (limited ? vp::fmt(" limit %zu", lim) : ""));
  CStr p(t);
  std::string s = limited ? t.substr(0, lim) : t;
  std::string d = c.what;
  size_t pos = 777;
  // from the start: up to the first blank
  size_t cut = s.find(' ');
  if (cut == std::string::npos)
    cut = s.size();
  std::string g = limited ? rtrim<StrSearchPolicyStart>(p, pos, lim) : rtrim<StrSearchPolicyStart>(p, pos);
  VP_CHECK(c, g == s.substr(0, cut) && pos == cut, "rtrim-start", d + vp::fmt(": '%s' cut at %zu", vp::esc(g).c_str(), pos));
  pos = 777;
  g = limited ? rtrim(p, pos, lim) : rtrim(p, pos);
  VP_CHECK(c, g == s.substr(0, cut) && pos == cut, "rtrim-default", d);
  // from the end: without trailing blanks
  cut = s.find_last_not_of(' ') + 1;
  pos = 777;
  g = limited ? rtrim<StrSearchPolicyEnd>(p, pos, lim) : rtrim<StrSearchPolicyEnd>(p, pos);
  VP_CHECK(c, g == s.substr(0, cut) && pos == cut, "rtrim-end", d + vp::fmt(": '%s' cut at %zu", vp::esc(g).c_str(), pos));
  // left
  cut = s.find_first_not_of(' ');
  if (cut == std::string::npos)
    cut = s.size();
  pos = 777;
  g = limited ? ltrim(p, pos, lim) : ltrim(p, pos);
  VP_CHECK(c, g == s.substr(cut) && pos == cut, "ltrim", d + vp::fmt(": '%s' cut at %zu", vp::esc(g).c_str(), pos));
  bool e = s.find_first_not_of(' ') == std::string::npos;
  VP_CHECK(c, (limited ? string_is_empty(p, lim) : string_is_empty(p)) == e, e ? "empty-denied" : "empty-claimed", d);
  VP_CHECK(c, p.str() == t, "text-altered", d);
  c.event("trims");
  c.nontrivial(d);
}

template <int N, int M> static void cols(vp::Case &c) {
  // N columns of M characters
  std::string line;
  std::vector<double> want;
  bool ok = true;
  vp::Rng &r = c.rng;
  int bad = r.chance(1, 2) ? static_cast<int>(r.in(0, N - 1)) : -1;
  bool fortran = r.chance(1, 3);
  for (int i = 0; i < N; i++) {
    std::string f;
    double v = 0;
    if (i == bad) {
      switch (r.in(0, 6)) {
      case 4: // damaged in one character
        f = std::string(M - 3, ' ') + vp::fmt("%3ld", r.in(-99, 999));
        f[M - 1 - static_cast<size_t>(r.in(0, 2))] = r.pickc("*?#:x&");
        break;
      case 5: f = std::string(M - 4, ' ') + vp::fmt("%ld %02ld", r.in(1, 9), r.in(0, 99)); break; // two of them
      case 6: f = r.pick(std::vector<std::string>{" nan", " inf", "0x1f", "-nan", "+inf"}) + std::string(M - 4, ' '); break;
      case 0: f = std::string(M, ' '); break;
      case 1: f = std::string(M - 1, ' ') + "-"; break;
      case 2: f = std::string(M, 'x'); break;
      default: f = std::string(M - 2, ' ') + "+ "; break;
      }
      ok = false;
    } else {
      int kind = static_cast<int>(r.in(0, 4));
      std::string num;
      if (kind == 0) { // full-width digits, nothing between columns
        for (int k = 0; k < M; k++)
          num += static_cast<char>('0' + r.in(1, 9));
        num[r.in(1, M - 2)] = '.';
      } else if (kind == 1) { // full-width negative
        num = "-";
        for (int k = 1; k < M; k++)
          num += static_cast<char>('0' + r.in(1, 9));
        num[r.in(2, M - 2)] = '.';
      } else if (kind == 2 && M >= 12) {
        num = vp::fmt("%*.*e", M, M - 8, r.uni(-10, 10));
      } else if (kind == 3) {
        num = vp::fmt("%ld", r.in(-99, 99));
        if (r.chance(1, 2))
          num.resize(M, ' '); // left-justified
      } else
        num = vp::fmt("%.*f", M > 8 ? 3 : 1, r.uni(-99, 99));
      f = std::string(M > static_cast<int>(num.size()) ? M - num.size() : 0, ' ') + num;
      v = std::strtod(f.c_str(), nullptr);
      if (fortran)
        for (auto &ch : f)
          if (ch == 'e')
            ch = r.chance(1, 2) ? 'D' : 'd';
    }
    line += f;
    if (ok)
      want.push_back(v);
  }
  // the line may go on, or be cut
  int tail = static_cast<int>(r.in(0, 3));
  if (tail == 1)
    line += " 123.5  77";
  else if (tail == 2)
    line += "987654321";
  else if (tail == 3 && r.chance(1, 2)) {
    // cut at a column boundary: the later columns are missing
    size_t keep = static_cast<size_t>(r.in(0, N - 1));
    line.resize(keep * M);
    if (want.size() >= keep) {
      want.resize(keep);
      ok = false;
    }
  } else if (tail == 3) {
    // trailing blanks of the line trimmed
    std::string t = line;
    t.erase(t.find_last_not_of(' ') + 1);
    line = t;
  }
  c.desc(vp::fmt("%d columns of %d: '", N, M) + vp::esc(line) + "'");
  if (r.chance(1, 400))
    c.sample(c.what);
  CStr p(line);
  if (fortran) {
    __for2cpp__(p.get());
    std::string w = line;
    for (auto &ch : w)
      if (ch == 'D' || ch == 'd')
        ch = 'E';
    VP_CHECK(c, p.str() == w, "fortran-exponents", "'" + p.str() + "'");
  }
  for (int which = 0; which < 2; which++) {
    double d[N + 2];
    for (double &x : d)
      x = -987654.25;
    errno = 0;
    bool g = which ? __char2double__<M>(p, d, N) : __char2double__<N, M>(p, d);
    errno = 0;
    VP_CHECK(c, g == ok, ok ? "columns-refused" : "columns-invented", c.what + vp::fmt(" variant %d, got %.17g %.17g", which, d[0], N > 1 ? d[1] : 0.));
    if (ok && g)
      for (int i = 0; i < N; i++)
        VP_CHECK(c, d[i] == want[i], "column-value", c.what + vp::fmt(" column %d is %.17g instead of %.17g", i, d[i], want[i]));
    else if (g == ok)
      for (size_t i = 0; i < want.size(); i++)
        VP_CHECK(c, d[i] == want[i], "column-value", c.what + vp::fmt(" column %zu is %.17g instead of %.17g", i, d[i], want[i]));
    VP_CHECK(c, d[N] == -987654.25 && d[N + 1] == -987654.25, "column-overrun", c.what);
    c.event(ok ? "column_sets_read" : "column_sets_refused");
  }
  c.nontrivial(line);
}

long vp_cases(int tier) { return 1 + 256 + (tier ? 600000 : 60000); }

void vp_case(vp::Case &c) {
  if (c.idx == 0) {
    c.desc("two-digit years");
    for (int y = 0; y < 100; y++) {
      int w = y < 80 ? 2000 + y : 1900 + y;
      VP_CHECK(c, rinex::four2two_digit_year(y) == w, "year", vp::fmt("%d -> %d", y, rinex::four2two_digit_year(y)));
      c.event("years");
    }
    return;
  }
  if (c.idx <= 256) {
    // short texts over {blank, letter}, every limit
    int bits = static_cast<int>(c.idx - 1);
    for (int len = 0; len <= 8; len++) {
      std::string t;
      for (int i = 0; i < len; i++)
        t += (bits >> i) & 1 ? ' ' : (c.idx % 3 == 1 ? "\t\r\n\v\f\xa0\x01_"[i] : static_cast<char>('a' + i));
      trims(c, t, false, 0);
      for (size_t l = 0; l <= 10; l++)
        trims(c, t, true, l);
    }
    return;
  }
  switch (c.rng.in(0, 9)) {
  case 0: cols<1, 14>(c); break;
  case 1: cols<3, 14>(c); break;
  case 2: cols<3, 19>(c); break;
  case 3: cols<4, 19>(c); break;
  case 4: cols<2, 5>(c); break;
  case 5: cols<7, 10>(c); break;
  case 6: cols<4, 20>(c); break;
  case 7: {
    std::string t;
    long n = c.rng.in(0, 120);
    for (long i = 0; i < n; i++)
      t += c.rng.chance(1, 2) ? static_cast<char>(c.rng.in(1, 255)) : c.rng.pickc("DdEe+-. 0123456789");
    CStr p(t);
    std::string w = t;
    for (auto &ch : w)
      if (ch == 'D' || ch == 'd')
        ch = 'E';
    c.desc("for2cpp '" + vp::esc(t) + "'");
    __for2cpp__(p.get());
    VP_CHECK(c, p.str() == w, "fortran-exponents", "'" + vp::esc(p.str()) + "'");
    c.event("exponent_rewrites");
    break;
  }
  default: {
    std::string t;
    long n = c.rng.in(0, 120);
    int dens = static_cast<int>(c.rng.in(0, 3));
    bool white = c.rng.chance(1, 5); // only a blank is a blank
    for (long i = 0; i < n; i++)
      t += white ? (c.rng.chance(4, 5) ? ' ' : "\t\r\n\v\f\xa0"[c.rng.in(0, 5)]) : c.rng.chance(dens, 3) ? ' ' : static_cast<char>(c.rng.chance(1, 8) ? c.rng.in(1, 255) : c.rng.in(33, 126));
    if (c.rng.chance(1, 2))
      t += std::string(c.rng.in(0, 12), ' ');
    if (c.rng.chance(1, 2))
      t = std::string(c.rng.in(0, 12), ' ') + t;
    trims(c, t, false, 0);
    for (int k = 0; k < 4; k++)
      trims(c, t, true, static_cast<size_t>(c.rng.in(0, static_cast<long>(t.size()) + 5)));
  }
  }
}
