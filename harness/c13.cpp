// C13: orbit-file headers are validated and reported truthfully
#include "sp3gen.hpp"
#include "ggdatetime/datetime_write.hpp"
using namespace ngpt;
using namespace sg;

static std::string strip(std::string s) {
  s.erase(s.find_last_not_of(" \n\0") + 1);
  size_t i = s.find_first_not_of(" ");
  return i == std::string::npos ? "" : s.substr(i);
}
static std::string member(const std::string &all, const char *lab) {
  size_t i = all.find(std::string("\n") + lab);
  if (i == std::string::npos)
    return "<missing>";
  i = all.find(':', i);
  return strip(all.substr(i + 1, all.find('\n', i) - i - 1));
}
static std::string body(vp::Rng &r, File &f) {
  epochs(r, f, static_cast<int>(r.in(0, 2)));
  std::string s;
  for (auto &e : f.ep)
    s += join(lines(r, f, e));
  return s + "EOF\n";
}
/// spoil a header so that it must be refused; says how
static std::string spoil(vp::Rng &r, File &f) {
  auto &h = f.head;
  auto find = [&](const char *p, int nth = 0) {
    size_t n = std::strlen(p);
    for (size_t i = 2; i < h.size(); i++)
      if (!h[i].compare(0, n, p) && nth-- == 0)
        return i;
    return h.size();
  };
  auto drop = [&](size_t i) { h.erase(h.begin() + static_cast<long>(i)); };
  switch (r.in(0, 24)) {
  case 0: h[0][0] = r.pickc("*+% x"); return "first character";
  case 1: h[0][1] = r.pickc("abeCD #"); return "version";
  case 2: drop(0); return "first line missing";
  case 3: drop(1); return "second line missing";
  case 4: {
    // another calendar date
    File g = f;
    g.start.mjd += r.chance(1, 2) ? r.in(1, 4000) : -r.in(1, 4000);
    h[0] = line1(g);
    return "calendar day";
  }
  case 5: {
    File g = f;
    long d = r.chance(1, 2) ? 100 : r.in(100, 86399000000L);
    g.start.us = (g.start.us + d) % 86400000000L;
    h[0] = line1(g);
    return "calendar time";
  }
  case 6: {
    File g = f;
    g.start.mjd += 7 * (r.chance(1, 2) ? 1 : -1);
    h[1] = line2(g).substr(0, 7) + h[1].substr(7);
    return "week";
  }
  case 7: {
    long w = (f.start.mjd - 44244) / 7;
    double sow = static_cast<double>((f.start.mjd - 44244 - w * 7) * 86400000000L + f.start.us) / 1e6;
    sow += r.chance(1, 2) ? (r.chance(1, 2) ? 1e-4 : 86400.) : -86400.;
    h[1].replace(8, 15, fmt("%15.8f", sow));
    return "seconds of week";
  }
  case 8: h[1].replace(39, 5, fmt("%5ld", f.start.mjd + (r.chance(1, 2) ? 1 : -1))); return "modified Julian day";
  case 9: {
    double fr = static_cast<double>(f.start.us) / 86400e6;
    double d = r.chance(1, 2) ? 1e-9 : 0.25;
    fr = fr + d < 1 ? fr + d : fr - d;
    h[1].replace(45, 15, fmt("%15.13f", fr));
    return "fraction of day";
  }
  case 10: h[0].replace(8, 2, r.chance(1, 2) ? "13" : " 0"); return "month";
  case 11: h[0].replace(11, 2, r.chance(1, 2) ? "32" : " 0"); return "day";
  case 12:
  case 13: {
    const char *p = r.chance(1, 2) ? "+ " : "++";
    while (find(p) < h.size())
      drop(find(p));
    return std::string("no line ") + p;
  }
  case 14: h[find("+ ")].replace(2, 5, r.chance(1, 2) ? "   0 " : "     "); return "no satellites";
  case 15: drop(find("%c", static_cast<int>(r.in(0, 1)))); return "%c line missing";
  case 16: drop(find("%f", static_cast<int>(r.in(0, 1)))); return "%f line missing";
  case 17: drop(find("%i", static_cast<int>(r.in(0, 1)))); return "%i line missing";
  case 18: {
    // header cut
    size_t n = static_cast<size_t>(r.in(0, static_cast<long>(find("%i", 1)) - 1));
    h.resize(n);
    f.ep.clear();
    return fmt("only %zu lines", n);
  }
  case 19: h[find("%i", 1)][0] = ' '; return "%i letter";
  case 20: h[find("%f", 1)][1] = 'i'; return "%f letter";
  case 21: h.insert(h.end(), "/ no comment"); return "comment without *";
  case 22: h[1][1] = ' '; return "second line";
  case 23: {
    std::swap(h[0], h[1]);
    return "first lines swapped";
  }
  default: {
    // an accuracy line turned into something else
    size_t i = find("++", 0);
    h[i][1] = r.pickc("x0");
    return "accuracy line";
  }
  }
}

long vp_cases(int tier) { return tier ? 600000 : 24000; }

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("s");
  File f;
  basics(r, f);
  if (r.chance(1, 3)) {
    std::string t = body(r, f);
    std::string how = spoil(r, f);
    std::string all = join(f.head) + (how[0] == 'o' ? "" : t);
    c.desc(how + "\n" + all.substr(0, 3000));
    p.write(all);
    bool ok = false;
    try {
      Sp3c s(p.path.c_str());
      ok = true;
    } catch (std::exception &) {
    }
    VP_CHECK(c, !ok, "accepted:" + how.substr(0, 30), how);
    c.event("headers_refused");
    if (c.idx % 64 == 0)
      for (const char *q : {"/nonexistent/file", "/tmp"}) {
        ok = false;
        try {
          Sp3c s(q);
          ok = true;
        } catch (std::exception &) {
        }
        VP_CHECK(c, !ok, "accepted:missing", q);
      }
    return;
  }
  std::string all = join(f.head) + body(r, f);
  c.desc(all.substr(0, 3000));
  p.write(all);
  try {
    Sp3c s(p.path.c_str());
    std::string m;
    {
      vp::Capture cap(std::cout);
      s.print_members();
      m = cap.str() + "\n";
    }
    auto same = [&](const char *lab, const std::string &want) {
      std::string g = member(m, lab);
      VP_CHECK(c, g == strip(want), std::string("reported:") + lab, std::string(lab) + " '" + g + "' instead of '" + want + "'");
      c.event("fields_compared");
    };
    same("Version", std::string(1, f.version));
    Cal k = cal(f.start);
    same("Start Epoch", fmt("%04d-%02d-%02d %02d:%02d:%02ld.%06ld", k.y, k.m, k.d, k.h, k.mi, f.start.us / 1000000L % 60, f.start.us % 1000000L));
    same("# Epochs", fmt("%ld", f.nep));
    same("Coordinate S", f.crd);
    same("Orbit Type", f.orb);
    same("Agency", f.agency);
    same("Time System", f.tsys);
    VP_CHECK(c, s.num_sats() == f.nsat, "satellites", fmt("%d instead of %d", s.num_sats(), f.nsat));
    VP_CHECK(c, s.interval().as_underlying_type() == f.interval, "interval", fmt("%ld instead of %ld us", s.interval().as_underlying_type(), f.interval));
    VP_CHECK(c, s.allocate_epoch_vector().size() == static_cast<size_t>(f.nsat), "epoch-vector", "");
    c.event("headers_accepted");
    c.nontrivial(f.head[0] + f.head[1]);
  } catch (std::exception &e) {
    c.fail("valid-header-refused", std::string(e.what()) + "\n" + f.head[0] + "\n" + f.head[1]);
  }
  c.sample(f.head[0] + "\n" + f.head[1]);
}
