// Coverage-guided exploration of the five readers (C25-C28, thorough tier):
// what libFuzzer keeps and changes is the text of a file; the sanitizers, the
// bound on the number of calls and the ranges of what is reported decide.
//   VP_FUZZ_KIND=antex|satellit|sp3|nav|obs   VP_FUZZ_SEED=n   VP_FUZZ_CORPUS=dir (filled with generated files)
#define VP_NO_MAIN
#include "readers.hpp"
#include <sys/mman.h>

static int KIND = 0;
static const char *NAMES[] = {"antex", "satellit", "sp3", "nav", "obs"};
static int FD = -1;
static char PATH[64];

template <typename K> static void corpus(vp::Rng &r, const char *dir, int n) {
  for (int i = 0; i < n; i++) {
    K k;
    std::string t = k.file(r);
    if (t.size() > 30000)
      continue;
    std::ofstream o(fmt("%s/%s%03d", dir, K::name, i), std::ios::binary);
    o << t;
  }
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *k = std::getenv("VP_FUZZ_KIND"), *s = std::getenv("VP_FUZZ_SEED"), *d = std::getenv("VP_FUZZ_CORPUS");
  for (int i = 0; i < 5; i++)
    if (k && !std::strcmp(k, NAMES[i]))
      KIND = i;
  FD = memfd_create("file", 0);
  std::snprintf(PATH, sizeof PATH, "/proc/self/fd/%d", FD);
  if (d) {
    vp::Rng r(s ? std::strtoull(s, nullptr, 10) : 1);
    switch (KIND) {
    case 0: corpus<KAntex>(r, d, 60); break;
    case 1: corpus<KBern>(r, d, 60); break;
    case 2: corpus<KSp3>(r, d, 60); break;
    case 3: corpus<KNav>(r, d, 60); break;
    default: corpus<KObs>(r, d, 60);
    }
    std::exit(0);
  }
  std::cout.setstate(std::ios::failbit); // what the library prints
  std::cerr.setstate(std::ios::failbit);
  return 0;
}
#define MUST(x) \
  if (!(x)) { \
    std::fprintf(stderr, "VP-ORACLE: %s\n", #x); \
    std::abort(); \
  }

static void antex(long) {
  Antex a(PATH);
  // every satellite and antenna that may be in it, at a few epochs
  datetime<seconds> at[] = {datetime<seconds>(modified_julian_day(50000), seconds(0)), datetime<seconds>(modified_julian_day(56000), seconds(86399))};
  AntennaPcoList l;
  for (char s : {'G', 'R', 'E'})
    for (int prn : {1, 7, 24})
      for (auto &t : at) {
        Satellite sv;
        int x = a.get_satellite_info(prn, char_to_satsys(s), t, sv);
        int y = a.get_antenna_pco(prn, char_to_satsys(s), t, l, &sv);
        if (!x) {
          MUST(sv.prn() == prn && sv.system() == char_to_satsys(s));
          sv.to_string();
        }
        (void)y;
      }
  for (const char *n : {"TRM59800.00     SCIS", "LEIAR25.R3      LEIT", "AOAD/M_T        NONE"}) {
    ReceiverAntenna r(n);
    a.get_antenna_pco(r, l);
    a.get_antenna_pco(r, l, true);
  }
}
static void satellit(long) {
  BernSatellit b(PATH);
  for (int svn : {701, 711, 730, 800, 0})
    for (long mjd : {51544L, 55000L, 60000L}) {
      int ch = 0, prn = 0;
      b.get_frequency_channel(svn, datetime<seconds>(modified_julian_day(mjd), seconds(7)), ch, prn);
    }
}
static void sp3(long lines) {
  Sp3c s(PATH);
  MUST(s.num_sats() > 0 && s.num_sats() < 1000);
  auto v = s.allocate_epoch_vector();
  MUST(v.size() >= static_cast<size_t>(s.num_sats()));
  for (int pass = 0; pass < 2; pass++) {
    long calls = 0;
    int st = 0, n = 0;
    datetime<microseconds> t;
    while (true) {
      st = s.get_next_epoch(t, v, n);
      if (st <= 0) {
        MUST(n >= 0 && static_cast<size_t>(n) <= v.size());
        for (int i = 0; i < n; i++)
          MUST(v[i].prn_ > 0);
      }
      if (st < 0 || ++calls > 40)
        break;
    }
    s.rewind();
  }
  (void)lines;
}
static void nav(long lines) {
  NavigationRnx x(PATH);
  NavDataFrame f;
  long calls = 0;
  int st;
  while ((st = x.read_next_record(f)) >= 0 && ++calls <= lines + 8)
    if (!st) {
      MUST(f.prn() > 0);
      try {
        double p[6], c = 0;
        f.sv_health();
        f.fit_interval();
        auto t = f.toe<milliseconds>();
        t.add_seconds(milliseconds(60000L));
        f.stateNclock(t, p, c);
        if (f.system() == SATELLITE_SYSTEM::gps)
          f.gps_ura();
        if (f.system() == SATELLITE_SYSTEM::galileo) {
          f.gal_sisa();
          f.gal_iod_nav();
        }
      } catch (std::runtime_error &) {
      }
    }
  MUST(calls <= lines + 8);
  NavigationRnx::pos_type pos;
  for (char s : {'G', 'R', 'J'}) {
    x.rewind();
    for (calls = 0; !x.find_next(pos, f, char_to_satsys(s), -1) && ++calls <= lines + 8;)
      ;
    MUST(calls <= lines + 8);
    x.rewind();
    x.find_next_valid(datetime<seconds>(modified_julian_day(58849), seconds(7200)), pos, f, char_to_satsys(s), 5);
  }
  x.rewind();
  for (calls = 0; !x.ignore_next_block() && ++calls <= lines + 8;)
    ;
  MUST(calls <= lines + 8);
}
static void obs(long lines) {
  ObservationRnx o(PATH);
  std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> req;
  for (char s : {'G', 'R', 'E', 'C', 'S'}) {
    auto y = char_to_satsys(s);
    for (const char *c : {"C1C", "L1C", "C2W", "S5Q", "C2I"})
      req[y].push_back(GnssObservable(y, ObservationCode(c)));
    req[y].push_back(GnssObservable(y, ObservationCode("C1C"), 2.5));
    req[y].back().add(y, ObservationCode("L1C"), -1.5);
  }
  auto map = o.set_read_map(req, true);
  auto v = o.initialize_epoch_vector(map);
  for (int pass = 0; pass < 2; pass++) {
    long calls = 0;
    int st, n;
    modified_julian_day d;
    double sod;
    while ((st = o.read_next_epoch(map, v, n, d, sod)) >= 0 && ++calls <= lines + 8)
      if (!st)
        MUST(n >= 0 && static_cast<size_t>(n) <= v.size());
    MUST(calls <= lines + 8);
    o.rewind();
  }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (ftruncate(FD, 0) || pwrite(FD, data, size, 0) != static_cast<ssize_t>(size))
    return 0;
  long lines = 1 + std::count(data, data + size, '\n');
  try {
    switch (KIND) {
    case 0: antex(lines); break;
    case 1: satellit(lines); break;
    case 2: sp3(lines); break;
    case 3: nav(lines); break;
    default: obs(lines);
    }
  } catch (std::exception &) { // the constructor refuses the header
  }
  return 0;
}
long vp_cases(int) { return 0; }
void vp_case(vp::Case &) {}
