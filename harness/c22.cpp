// C22: observation-file headers are read completely
#include "obsgen.hpp"
using namespace ngpt;
using namespace og;

long vp_cases(int tier) { return tier ? 800000 : 32000; }

#ifndef DEBUG
#error this monitor needs the member printer
#endif

static std::string after(const std::string &out, const char *lab) {
  auto p = out.find(std::string("\n") + lab);
  if (p == std::string::npos)
    return "<no such line>";
  p += std::strlen(lab) + 1;
  return out.substr(p, out.find('\n', p) - p);
}

static void compare(vp::Case &c, const ObservationRnx &o, const Hdr &h) {
  std::string out;
  {
    vp::Capture cap(std::cout);
    o.print_members();
    out = cap.str();
  }
  auto is = [&](const char *key, const std::string &got, const std::string &want) {
    VP_CHECK(c, got == want, std::string("header-") + key, fmt("\"%s\" instead of \"%s\"", vp::esc(got).c_str(), want.c_str()));
    c.event("fields_compared");
  };
  is("marker-name", after(out, "Marker Name  :"), h.name);
  is("marker-number", after(out, "Marker Number:"), h.number);
  is("receiver-number", after(out, "Receiver Sn  :"), h.rec);
  is("receiver-type", after(out, "Receiver Type:"), h.rectype);
  std::string a = after(out, "Antenna Type :");
  std::string am = a.substr(0, 20);
  am.resize(20, ' ');
  if (h.ant.substr(16) == "    " && am.substr(16) == "NONE") // no radome given
    am.replace(16, 4, "    ");
  is("antenna", am, h.ant);
  std::string sn = a.size() > 20 ? a.substr(20) : "";
  while (!sn.empty() && sn.back() == ' ')
    sn.pop_back();
  is("antenna-serial-text", sn, h.antsn);
  is("antenna-serial", after(out, "Antenna Sn   :"), h.antsn.empty() ? "0" : "1");
  for (int i = 0; i < 3; i++) {
    double g = i == 0 ? o.x_approx() : (i == 1 ? o.y_approx() : o.z_approx());
    VP_CHECK(c, g == h.pos[i], "header-position", fmt("%d: %.17g instead of %.17g", i, g, h.pos[i]));
  }
  std::ostringstream e;
  e << std::strtod(h.ecc[0].c_str(), nullptr) << ", " << std::strtod(h.ecc[1].c_str(), nullptr) << ", " << std::strtod(h.ecc[2].c_str(), nullptr);
  is("eccentricity", after(out, "Eccentricity :"), e.str());
  is("clock-offset-flag", after(out, "Rcv Clk Off  :"), h.clk == 1 ? "Yes" : "No");
  auto t = o.time_of_first_obs();
  VP_CHECK(c, t.mjd().as_underlying_type() == h.mjd && t.sec().as_underlying_type() == h.us, "header-first-obs",
           fmt("%ld %ld instead of %ld %ld", t.mjd().as_underlying_type(), t.sec().as_underlying_type(), h.mjd, h.us));
  // observation types: the lines behind the last member
  std::map<char, std::string> want, got;
  size_t mx = 0;
  for (auto &q : h.types) {
    mx = std::max(mx, q.second.size());
    for (auto &s : q.second)
      want[q.first] += " " + s;
  }
  std::istringstream in(out.substr(out.find("Rcv Clk Off")));
  std::string l;
  std::getline(in, l);
  while (std::getline(in, l))
    if (!l.empty())
      got[l[0]] = l.substr(1);
  VP_CHECK(c, got == want, "header-types", [&] {
    std::string s;
    for (auto &q : got)
      s += fmt("%c", q.first) + q.second + "\n";
    return s;
  }());
  VP_CHECK(c, o.max_obs() == static_cast<int>(mx), "max-obs", fmt("%d instead of %zu", o.max_obs(), mx));
  for (auto &q : h.types)
    c.nontrivial(fmt("%c %zu %s", q.first, q.second.size(), h.name.c_str()));
}

// make the header unacceptable
static std::string spoil(vp::Rng &r, Hdr &h, std::string &first, std::string &last, bool &gone) {
  auto find = [&](const char *lab) -> std::string & {
    for (auto &g : h.groups)
      if (g[0].size() > 60 && !g[0].compare(60, std::strlen(lab), lab))
        return g[0];
    std::abort();
  };
  static const char *JUNK[] = {"", "    xyz", "     -", "   .", "   e+01"};
  switch (r.in(0, 14)) {
  case 0: gone = true; return "no such file";
  case 1: {
    first[20] = r.pickc("NMGCxo 0");
    return fmt("file type '%c'", first[20]);
  }
  case 2: first.replace(0, 20, fmt("%-20s", JUNK[r.in(0, 4)])); return "version unreadable";
  case 3: first[40] = r.pickc("ABDXYZ0g "); return "system of the file";
  case 4: last = r.chance(1, 2) ? "" : hl("", "END OF HEADE"); return "no end of header";
  case 5: {
    std::string s = JUNK[r.in(0, 4)];
    s.resize(14, ' ');
    find("APPROX POSITION XYZ").replace(static_cast<size_t>(14 * r.in(0, 2)), 14, s);
    return "position unreadable";
  }
  case 6: {
    std::string s = JUNK[r.in(0, 4)];
    s.resize(14, ' ');
    find("ANTENNA: DELTA H/E/N").replace(static_cast<size_t>(14 * r.in(0, 2)), 14, s);
    return "eccentricity unreadable";
  }
  case 7: {
    auto &l = find("TIME OF FIRST OBS");
    if (r.chance(1, 2)) {
      static const int at[] = {0, 6, 12, 18, 24, 30}, len[] = {6, 6, 6, 6, 6, 13};
      long k = r.in(0, 5);
      l.replace(static_cast<size_t>(at[k]), static_cast<size_t>(len[k]), std::string(static_cast<size_t>(len[k]) - 1, ' ') + "x");
    } else {
      l.replace(6, 12, r.chance(1, 2) ? "    13     1" : "     2    30");
    }
    return "first observation unreadable";
  }
  case 8: {
    // same system twice
    auto &t = h.types[static_cast<size_t>(r.in(0, static_cast<long>(h.types.size()) - 1))];
    h.groups.push_back(typelines(t.first, codes(r, static_cast<int>(r.in(1, 30)))));
    return "system announced twice";
  }
  default: {
    // one of the type records
    auto &t = h.types[static_cast<size_t>(r.in(0, static_cast<long>(h.types.size()) - 1))];
    auto want = typelines(t.first, t.second)[0];
    for (auto &g : h.groups)
      if (g[0] == want)
        switch (r.in(0, 5)) {
        case 0: g[0].replace(3, 3, r.chance(1, 2) ? "   " : " x "); return "number of types unreadable";
        case 1: g[0].replace(3, 3, r.chance(1, 2) ? "  0" : " -3"); return "number of types not positive";
        case 2: g[0].replace(3, 3, fmt("%3zu", t.second.size() + static_cast<size_t>(r.in(1, 30)))); return "fewer types than announced";
        case 3: {
          size_t k = static_cast<size_t>(r.in(0, static_cast<long>(t.second.size()) - 1));
          g[k / 13].replace(7 + 4 * (k % 13), 3, r.chance(1, 2) ? "   " : (r.chance(1, 2) ? "Q1C" : "x  "));
          return "type unreadable";
        }
        case 4: g[0][0] = r.pickc("ABDXYZ0g "); return "unknown system";
        default:
          if (g.size() > 1) {
            g.pop_back();
            return "continuation missing";
          }
          g[0][0] = r.pickc("ABDXYZ0g ");
          return "unknown system";
        }
    std::abort();
  }
  }
}

void vp_case(vp::Case &c) {
  auto &r = c.rng;
  vp::Scratch p("o");
  Hdr h;
  header(r, h);
  std::string first = version_line(r), last = hl("", "END OF HEADER") + (r.chance(1, 4) ? "   " : "") + (r.chance(1, 12) ? "" : "\n");
  bool bad = r.chance(1, 2), gone = false;
  std::string how;
  if (bad)
    how = spoil(r, h, first, last, gone);
  std::string all = text(first, h.groups, last);
  c.desc(how + "\n" + all.substr(0, 6000));
  p.write(all);
  if (gone)
    ::unlink(p.path.c_str());
  if (r.chance(1, 3))
    errno = ERANGE;
  try {
    ObservationRnx o(p.path.c_str());
    if (bad) {
      c.fail("accepted-" + how, "the file was accepted");
      return;
    }
    compare(c, o, h);
    ObservationRnx m(std::move(o));
    if (r.chance(1, 4))
      compare(c, m, h);
    c.event("headers_accepted");
  } catch (std::exception &e) {
    VP_CHECK(c, bad, "valid-header-refused", e.what());
    c.event("headers_refused");
    c.nontrivial(how + h.name);
  }
  c.sample(all.substr(0, 900));
}
