// Damage done to a file: truncation, line, byte and field changes.
#ifndef VP_DAMAGE_HPP
#define VP_DAMAGE_HPP
#include "vp.hpp"

namespace dm {
using vp::fmt;
/// offset of the first byte at which two texts differ
inline size_t first_diff(const std::string &a, const std::string &b) {
  size_t n = std::min(a.size(), b.size());
  return static_cast<size_t>(std::mismatch(a.begin(), a.begin() + static_cast<long>(n), b.begin()).first - a.begin());
}
struct Span {
  size_t at, n; ///< n without the newline
};
inline std::vector<Span> split(const std::string &s) {
  std::vector<Span> o;
  size_t b = 0;
  while (b < s.size()) {
    size_t e = s.find('\n', b);
    if (e == std::string::npos)
      e = s.size();
    o.push_back({b, e - b});
    b = e + 1;
  }
  return o;
}
inline std::string number(vp::Rng &r) {
  static const char *N[] = {"-1",  "0",    "1",     "2",   "-0",  "99",    "999",      "9999",       "99999", "-99999", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "1e308", "-1e308",
                            "nan", "inf", "-inf", "1e9", "1e400", "1e-400", ".", "-", "+", "0x7f", "1D99", "-1D99", "1e19", "-1e19", "16", "17", "86", "100", "128", "255", "256"};
  return N[r.in(0, static_cast<long>(sizeof N / sizeof *N) - 1)];
}
inline char byte(vp::Rng &r) {
  switch (r.in(0, 5)) {
  case 0: return static_cast<char>(r.in(0, 255));
  case 1: return static_cast<char>('0' + r.in(0, 9));
  case 2: return r.pickc("GRECJSIMPVEDCLS>*#+%/");
  case 3: return r.pickc(" -.,:+eEdD");
  case 4: return r.chance(1, 3) ? '\0' : (r.chance(1, 2) ? '\xff' : '\t');
  default: return static_cast<char>(r.in('A', 'z'));
  }
}
/// one change; the text stays as it is when it has no place for it
inline std::string change(vp::Rng &r, std::string s, std::string &how) {
  auto l = split(s);
  if (s.empty() || l.empty()) {
    how += " nothing left;";
    return s;
  }
  size_t k = static_cast<size_t>(r.chance(1, 3) ? r.in(0, std::min<long>(12, static_cast<long>(l.size()) - 1)) : r.in(0, static_cast<long>(l.size()) - 1));
  Span x = l[k];
  std::string t = s.substr(x.at, x.n);
  auto with = [&](const std::string &n) { return s.substr(0, x.at) + n + s.substr(x.at + x.n); };
  switch (r.in(0, 15)) {
  case 0: {
    size_t c = static_cast<size_t>(r.in(0, static_cast<long>(s.size())));
    how += fmt(" cut at %zu;", c);
    return s.substr(0, c);
  }
  case 1:
    how += fmt(" line %zu dropped;", k);
    return s.substr(0, x.at) + s.substr(std::min(s.size(), x.at + x.n + 1));
  case 2:
    how += fmt(" line %zu doubled;", k);
    return s.substr(0, x.at) + t + "\n" + s.substr(x.at);
  case 3: {
    size_t n = static_cast<size_t>(r.in(0, static_cast<long>(x.n)));
    how += fmt(" line %zu shortened to %zu;", k, n);
    return with(t.substr(0, n));
  }
  case 4: {
    size_t n = static_cast<size_t>(r.chance(1, 3) ? r.in(1, 3000) : r.in(1, 90));
    how += fmt(" line %zu longer by %zu;", k, n);
    return with(t + std::string(n, r.chance(1, 2) ? ' ' : byte(r)));
  }
  case 5: {
    size_t q = static_cast<size_t>(r.in(0, static_cast<long>(l.size()) - 1));
    how += fmt(" line %zu copied over line %zu;", q, k);
    return with(s.substr(l[q].at, l[q].n));
  }
  case 6: {
    size_t n = static_cast<size_t>(r.in(2, 20));
    size_t e = std::min(l.size() - 1, k + n);
    how += fmt(" lines %zu-%zu dropped;", k, e);
    return s.substr(0, x.at) + s.substr(std::min(s.size(), l[e].at + l[e].n + 1));
  }
  case 7:
  case 8:
  case 9: {
    // a number of the line replaced, in its columns
    std::vector<Span> w;
    for (size_t i = 0; i < t.size(); i++)
      if (std::isdigit(static_cast<unsigned char>(t[i]))) {
        size_t j = i;
        while (j < t.size() && std::strchr("0123456789.-+eEdD", t[j]) && t[j])
          j++;
        w.push_back({i, j - i});
        i = j;
      }
    if (w.empty()) {
      how += " no number;";
      return s;
    }
    Span q = r.pick(w);
    std::string v = number(r);
    if (r.chance(3, 4)) { // right-justified, same columns
      while (v.size() < q.n)
        v.insert(0, " ");
      size_t b = q.at + q.n >= v.size() ? q.at + q.n - v.size() : 0;
      how += fmt(" line %zu columns %zu-%zu: %s;", k, b, q.at + q.n, v.c_str());
      return with(t.substr(0, b) + v + t.substr(q.at + q.n));
    }
    how += fmt(" line %zu column %zu: %s inserted for %zu;", k, q.at, v.c_str(), q.n);
    return with(t.substr(0, q.at) + v + t.substr(q.at + q.n));
  }
  case 10: {
    size_t a = static_cast<size_t>(r.in(0, static_cast<long>(x.n))), b = std::min(x.n, a + static_cast<size_t>(r.in(1, 20)));
    char f = r.chance(1, 2) ? ' ' : r.pickc("9-.x0*");
    how += fmt(" line %zu columns %zu-%zu filled with '%c';", k, a, b, f);
    std::string n = t;
    for (size_t i = a; i < b; i++)
      n[i] = f;
    return with(n);
  }
  case 11: {
    size_t a = static_cast<size_t>(r.in(0, static_cast<long>(x.n)));
    std::string z;
    for (long i = r.in(1, 4); i > 0; i--)
      z += byte(r);
    how += fmt(" line %zu column %zu: %s inserted;", k, a, vp::esc(z).c_str());
    return with(t.substr(0, a) + z + t.substr(a));
  }
  case 12: {
    size_t a = static_cast<size_t>(r.in(0, static_cast<long>(x.n)));
    size_t n = static_cast<size_t>(r.in(1, 4));
    how += fmt(" line %zu column %zu: %zu bytes removed;", k, a, n);
    return with(t.substr(0, a) + (a + n < t.size() ? t.substr(a + n) : ""));
  }
  case 13: {
    if (r.chance(1, 2)) {
      how += fmt(" line %zu emptied;", k);
      return with("");
    }
    how += fmt(" line %zu joined with the next;", k);
    return s.substr(0, x.at + x.n) + s.substr(std::min(s.size(), x.at + x.n + 1));
  }
  case 14: { // the first character of a record: another satellite system, or none
    std::vector<Span> w;
    for (const auto &q : l)
      if (q.n && !std::isspace(static_cast<unsigned char>(s[q.at])) && !std::isdigit(static_cast<unsigned char>(s[q.at])))
        w.push_back(q);
    if (w.empty()) {
      how += " no record;";
      return s;
    }
    size_t at = r.pick(w).at;
    char z = r.chance(1, 5) ? byte(r) : r.pickc("GRECJSIMMM>*PV X");
    how += fmt(" record at %zu: %s;", at, vp::esc(std::string(1, z)).c_str());
    s[at] = z;
    return s;
  }
  default: {
    size_t at = static_cast<size_t>(r.in(0, static_cast<long>(s.size()) - 1));
    if (r.chance(1, 2) && x.n)
      at = x.at + static_cast<size_t>(r.in(0, static_cast<long>(x.n) - 1));
    char z = byte(r);
    how += fmt(" byte %zu: %s;", at, vp::esc(std::string(1, z)).c_str());
    s[at] = z;
    return s;
  }
  }
}
inline std::string garbage(vp::Rng &r) {
  std::string s;
  long n = r.in(0, 3000);
  for (long i = 0; i < n; i++)
    s += r.chance(1, 40) ? '\n' : byte(r);
  return s;
}
inline std::string changes(vp::Rng &r, std::string s, std::string &how) {
  if (r.chance(1, 100)) {
    how = " garbage";
    return garbage(r);
  }
  for (long n = r.chance(1, 2) ? 1 : r.in(2, 5); n > 0; n--)
    s = change(r, s, how);
  return s;
}
/// One case: a base file, and either every truncation of it or random changes.
/// run(text, d, how): d = offset of the first byte that differs.
template <typename F> void damage(vp::Case &c, const std::string &base, bool enumerate, long n, F run) {
  if (enumerate) {
    // every one of them up to about 5 kB; of longer files a part, 12 MB read in all
    const size_t step = 1 + base.size() * base.size() / 24000000;
    for (size_t k = step > 1 ? static_cast<size_t>(c.rng.in(0, static_cast<long>(step) - 1)) : 0; k <= base.size(); k += step) {
      run(base.substr(0, k), k, fmt(" cut at %zu", k));
      c.event("truncations");
    }
    return;
  }
  for (long k = 0; k < n; k++) {
    std::string how;
    std::string t = changes(c.rng, base, how);
    run(t, first_diff(base, t), how);
    c.event("alterations");
  }
}
} // namespace dm
#endif
