// C26: the orbit reader survives damaged files
#include "damage.hpp"
#include "sp3gen.hpp"
using namespace ngpt;
using namespace sg;

long vp_cases(int tier) { return tier ? 6000 : 400; }

static std::string show(const datetime<microseconds> &t, const std::vector<Sp3EpochSvRecord> &v, int n) {
  std::string s = fmt("%ld %ld:", t.mjd().as_underlying_type(), t.sec().as_underlying_type());
  for (int i = 0; i < n && static_cast<size_t>(i) < v.size(); i++) {
    s += fmt(" %c%02d %d", satsys_to_char(v[i].s_), v[i].prn_, v[i].flag_.bits_);
    for (double x : v[i].vals_)
      s += fmt(" %.6f", x);
  }
  return s;
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("s");
  bool en = c.idx % 4 == 0;
  File f;
  basics(r, f);
  if (en || r.chance(3, 4)) {
    if (f.nsat > 12) {
      f.nsat = 12;
      f.sats.resize(12);
    }
    header(r, f);
    while (f.head.size() > 40)
      f.head.pop_back();
  }
  epochs(r, f, static_cast<int>(en ? r.in(1, 2) : r.in(1, 12)));
  std::string base = join(f.head);
  size_t hend = base.size();
  std::vector<size_t> end;
  for (auto &e : f.ep) {
    base += join(lines(r, f, e));
    end.push_back(base.size());
  }
  base += "EOF\n";
  // what ends an epoch: the next one's first character, or EOF
  if (!end.empty())
    end.back() += 2;
  p.write(base);
  std::vector<std::string> want;
  try {
    Sp3c s(p.path.c_str());
    auto v = s.allocate_epoch_vector();
    datetime<microseconds> t;
    int n, st;
    while ((st = s.get_next_epoch(t, v, n)) <= 0) {
      want.push_back(show(t, v, n));
      if (st < 0)
        break;
    }
  } catch (std::exception &) {
  }
  VP_CHECK(c, want.size() == end.size(), "undamaged-file", fmt("%zu of %zu epochs\n", want.size(), end.size()) + base.substr(0, 3000));
  dm::damage(c, base, en, 40, [&](const std::string &t, size_t d, const std::string &how) {
    c.desc("damage:" + how + "\n" + t.substr(0, 8000));
    p.write(t);
    const size_t limit = dm::split(t).size() + 8;
    try {
      Sp3c s(p.path.c_str());
      c.event("headers_accepted");
      VP_CHECK(c, s.num_sats() >= 0, "negative-satellites", fmt("%d", s.num_sats()));
      auto v = s.allocate_epoch_vector();
      datetime<microseconds> e;
      for (int pass = 0; pass < 2; pass++) {
        size_t k = 0, calls = 0;
        int n = 0, st = 0;
        // negative: the last epoch; 1: nothing left
        while (st >= 0 && (st = s.get_next_epoch(e, v, n)) != 1 && ++calls <= limit) {
          if (st > 0) {
            c.event("errors_reported");
            continue;
          }
          VP_CHECK(c, n >= 0 && static_cast<size_t>(n) <= v.size(), "record-count", fmt("%d of %zu", n, v.size()));
          // the record type in the first column ends an epoch
          if (k < end.size() && d > hend && end[k] < d && k == calls - 1) {
            VP_CHECK(c, show(e, v, n) == want[k], "epoch-before-damage", fmt("epoch %zu: %s instead of %s", k, show(e, v, n).c_str(), want[k].c_str()));
            c.event("epochs_before_damage");
          }
          k++;
        }
        VP_CHECK(c, calls <= limit, "no-end", fmt("%zu calls for %zu lines", calls, limit - 8));
        size_t intact = 0;
        while (d > hend && intact < end.size() && end[intact] < d)
          intact++;
        VP_CHECK(c, k >= intact, "epoch-before-damage-lost", fmt("%zu epochs, %zu before the damage", k, intact));
        c.event("ends_reported");
        auto eof = t.find("\nEOF");
        if (r.chance(1, 2) && (st > 0 || t.find('\n', eof + 1) + 1 >= t.size())) // nothing behind an EOF line
          VP_CHECK(c, s.get_next_epoch(e, v, n) > 0, "epoch-after-the-end", "");
        s.rewind();
      }
    } catch (std::exception &e) {
      c.event("headers_refused");
      VP_CHECK(c, d <= hend, "refused-for-later-damage", e.what());
    }
    c.nontrivial(how + t.substr(0, 400));
  });
  c.sample(base.substr(0, 600));
}
