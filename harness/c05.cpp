// C05: receiver antennas keep model, radome and serial, and compare by them
#include "vp.hpp"
#include "antenna.hpp"
#include <memory>
#include <new>
using namespace ngpt;

/// reference: 20 characters of model+radome, and the serial if one was set
struct Ref {
  std::string m = std::string(20, ' ');
  bool set = false;
  std::string ser = "";
  static Ref from(const std::string &t) {
    Ref r;
    r.m = t.substr(0, 20);
    r.m.resize(20, ' ');
    if (t.size() < 20)
      r.m.replace(16, 4, "NONE");
    return r;
  }
  void serial(const std::string &t) {
    ser = t.substr(0, 20);
    ser.resize(20, ' ');
    set = true;
  }
  bool has() const { return set && ser.find_first_not_of(' ') != std::string::npos; }
  std::string text() const { return m + (set ? ser : std::string()); }
};
static std::string rstrip(std::string s) {
  s.erase(s.find_last_not_of(' ') + 1);
  return s;
}

/// exactly sized heap copy of a text: any read past it is an ASan error
struct CStr {
  std::unique_ptr<char[]> p;
  explicit CStr(const std::string &s) : p(new char[s.size() + 1]) { std::memcpy(p.get(), s.c_str(), s.size() + 1); }
  operator const char *() const { return p.get(); }
};

/// an antenna in its own heap block whose previous content was `poison`
struct Slot {
  void *raw;
  ReceiverAntenna *a = nullptr;
  Ref r;
  explicit Slot(int poison) : raw(std::malloc(sizeof(ReceiverAntenna))) {
    std::memset(raw, poison, sizeof(ReceiverAntenna));
  }
  Slot(const Slot &) = delete;
  ~Slot() {
    if (a)
      a->~ReceiverAntenna();
    std::free(raw);
  }
};

static void look(vp::Case &c, const Slot &s, const char *when) {
  const char *u = s.a->__underlying_char__();
  std::string first(u, 20);
  VP_CHECK(c, first == s.r.m, "model-text", std::string(when) + ": holds '" + vp::esc(first) + "' instead of '" + s.r.m + "'");
  std::string rest(u + 20, strnlen(u + 20, 21));
  if (s.r.set)
    VP_CHECK(c, rest == s.r.ser, "serial-text", std::string(when) + ": serial '" + vp::esc(rest) + "' instead of '" + s.r.ser + "'");
  else
    VP_CHECK(c, rstrip(rest).empty(), "serial-invented", std::string(when) + ": serial '" + vp::esc(rest) + "' was never set");
  VP_CHECK(c, s.a->has_serial() == s.r.has(), "has-serial", std::string(when) + ": '" + s.r.text() + "'");
  c.event("states_compared");
}
static void compare(vp::Case &c, const Slot &x, const Slot &y) {
  bool wm = x.r.m == y.r.m;
  bool ws = wm && x.r.has() && y.r.has() && x.r.ser == y.r.ser;
  std::string d = "'" + x.r.text() + "' / '" + y.r.text() + "'";
  VP_CHECK(c, x.a->compare_model(*y.a) == wm && y.a->compare_model(*x.a) == wm, wm ? "model-differs" : "model-same", d);
  VP_CHECK(c, x.a->is_same(*y.a) == ws && y.a->is_same(*x.a) == ws, ws ? "same-denied" : "same-claimed", d);
  c.event(ws ? "same_pairs" : (wm ? "same_model_pairs" : "different_pairs"));
}
static void serial_cmp(vp::Case &c, const Slot &x, const std::string &t) {
  if (t.size() > 20)
    return; // longer than any serial: not specified
  if (!x.r.has() && rstrip(t).empty())
    return; // no serial against no text: not specified
  bool w = x.r.has() && rstrip(t) == rstrip(x.r.ser);
  CStr p(t);
  bool g = x.a->compare_serial(p);
  VP_CHECK(c, g == w, w ? "serial-denied" : "serial-claimed", "'" + x.r.text() + "' against serial '" + t + "'");
  c.event(w ? "serials_matched" : "serials_refused");
}

static std::string model(vp::Rng &r) {
  static const char *M[] = {"TRM41249.00", "TRM41249.00     TZGD", "TRM41249.00     NONE", "AOAD/M_T        SCIT",
                            "AOAD/M_T", "LEIAT504GG      LEIS", "LEIAT504GG", "TRM41249.00     TZG", "ASH701945E_M    SCIS",
                            "TRM41249.00     TZGDextra characters beyond", "", " ", "                NONE",
                            "                    ", "JAV_GRANT-G3T   NONE", "ABCDEFGHIJKLMNOPQRST", "ABCDEFGHIJKLMNOPQRS"};
  if (r.chance(2, 3))
    return M[r.in(0, 16)];
  std::string s;
  long n = r.chance(1, 3) ? r.in(17, 23) : r.in(0, 80);
  for (long i = 0; i < n; i++)
    s += r.pickc("ABZ09/-_.+ ");
  return s;
}
static std::string serial(vp::Rng &r) {
  static const char *S[] = {"", " ", "                    ", "12345", "12345 ", " 12345", "1234", "CR620012101", "CR62001210",
                            "12345678901234567890", "1234567890123456789", "1234567890123456789X", "12345678901234567890123",
                            "                    X", "A", "a"};
  if (r.chance(2, 3))
    return S[r.in(0, 15)];
  std::string s;
  long n = r.in(0, 60);
  for (long i = 0; i < n; i++)
    s += r.pickc("ABZ09 ");
  return s;
}

long vp_cases(int tier) { return 81 * 3 + (tier ? 300000 : 30000); }

void vp_case(vp::Case &c) {
  if (c.idx < 81 * 3) {
    // every length 0..80 under three memory contents
    long len = c.idx / 3;
    int poison = c.idx % 3 == 0 ? 0x00 : (c.idx % 3 == 1 ? 0x20 : 0xAB);
    std::string t;
    for (long i = 0; i < len; i++)
      t += static_cast<char>('A' + i % 26);
    c.desc(vp::fmt("length %ld, memory 0x%02x", len, poison));
    for (int how = 0; how < 2; how++) {
      Slot s(poison);
      if (how) {
        CStr p(t);
        s.a = new (s.raw) ReceiverAntenna(static_cast<const char *>(p));
      } else
        s.a = new (s.raw) ReceiverAntenna(t);
      s.r = Ref::from(t);
      look(c, s, "constructed");
      for (long sl = 0; sl <= 60; sl++) {
        std::string st;
        for (long i = 0; i < sl; i++)
          st += static_cast<char>('0' + (i + len) % 10);
        CStr p(st);
        s.a->set_serial_nr(p);
        s.r.serial(st);
        look(c, s, "serial set");
        serial_cmp(c, s, st.substr(0, 20));
        serial_cmp(c, s, st.substr(0, 20) + "      ");
        if (sl)
          serial_cmp(c, s, st.substr(0, std::min<long>(sl, 20) - 1));
      }
    }
    c.nontrivial(vp::fmt("len%ld/%d", len, poison));
    return;
  }
  std::vector<std::unique_ptr<Slot>> v;
  std::string h;
  int n = static_cast<int>(c.rng.in(3, 24));
  for (int k = 0; k < n; k++) {
    int op = static_cast<int>(v.empty() ? 0 : c.rng.in(0, 9));
    if (op <= 2 || v.empty()) {
      static const int PO[] = {0, 0x20, 0xAB, 0x41};
      v.emplace_back(new Slot(PO[c.rng.in(0, 3)]));
      Slot &s = *v.back();
      int how = static_cast<int>(c.rng.in(0, 4));
      if (how == 0 && v.size() > 1) {
        Slot &o = *v[c.rng.in(0, static_cast<long>(v.size()) - 2)];
        h += "copy(" + o.r.text() + ") ";
        c.desc(h);
        s.a = new (s.raw) ReceiverAntenna(*o.a);
        s.r = o.r;
      } else if (how == 1 && c.rng.chance(1, 2)) {
        h += "default() ";
        c.desc(h);
        s.a = new (s.raw) ReceiverAntenna();
        s.r = Ref();
      } else {
        std::string t = model(c.rng);
        h += "new(" + t + ") ";
        c.desc(h);
        if (how & 1) {
          CStr p(t);
          s.a = new (s.raw) ReceiverAntenna(static_cast<const char *>(p));
        } else
          s.a = new (s.raw) ReceiverAntenna(t);
        s.r = Ref::from(t);
      }
      look(c, s, "constructed");
      c.nontrivial("m" + s.r.m);
    } else {
      Slot &s = *v[c.rng.in(0, static_cast<long>(v.size()) - 1)];
      if (op <= 5) {
        std::string t = serial(c.rng);
        h += "serial(" + t + ") ";
        c.desc(h);
        CStr p(t);
        s.a->set_serial_nr(p);
        s.r.serial(t);
        look(c, s, "serial set");
        c.nontrivial("s" + s.r.text());
        serial_cmp(c, s, t);
        serial_cmp(c, s, rstrip(t));
        serial_cmp(c, s, serial(c.rng));
      } else if (op == 6) {
        Slot &o = *v[c.rng.in(0, static_cast<long>(v.size()) - 1)];
        h += "assign(" + o.r.text() + ") ";
        c.desc(h);
        *s.a = *o.a;
        s.r = o.r;
        look(c, s, "assigned");
      } else if (op == 7) {
        serial_cmp(c, s, serial(c.rng));
      } else {
        Slot &o = *v[c.rng.in(0, static_cast<long>(v.size()) - 1)];
        compare(c, s, o);
      }
    }
  }
  for (auto &x : v) {
    look(c, *x, "at the end");
    for (auto &y : v)
      compare(c, *x, *y);
  }
  c.sample(h);
}
