// Stand-in for the ggdatetime library (not installed here), written for /verif
// from the way ggnss uses it and from its published interface:
// calendar <-> Modified Julian Day, GPS week / seconds of week, integral
// second types of three resolutions. Pure integer arithmetic.
#ifndef VP_SHIM_GGDATETIME_DTCALENDAR
#define VP_SHIM_GGDATETIME_DTCALENDAR

// headers the real library brings along and ggnss relies on
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace ngpt {

constexpr double mjd0_jd{2400000.5e0};
constexpr long j2000_mjd_l{51544L};

class year {
public:
  typedef int underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr year(int i = 1900) noexcept : y(i) {}
  constexpr int as_underlying_type() const noexcept { return y; }

private:
  int y;
};

class month {
public:
  typedef int underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr month(int i = 1) noexcept : m(i) {}
  constexpr int as_underlying_type() const noexcept { return m; }
  constexpr bool is_valid() const noexcept { return m > 0 && m < 13; }

private:
  int m;
};

namespace vp_shim {
constexpr bool leap(int y) noexcept {
  return !(y % 4) && ((y % 100) || !(y % 400));
}
constexpr int dim(int y, int m) noexcept {
  return m == 2 ? 28 + (leap(y) ? 1 : 0)
                : (m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31);
}
// days from civil, then to MJD (1970-01-01 = 40587)
constexpr long civil2mjd(long y, int m, int d) noexcept {
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400;
  long yoe = y - era * 400;
  long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
inline void mjd2civil(long mjd, int &iy, int &im, int &id) noexcept {
  long z = mjd - 40587 + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = yoe + era * 400;
  long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  long mp = (5 * doy + 2) / 153;
  id = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  im = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  iy = static_cast<int>(y + (im <= 2));
}
inline long checked(int y, int m, int d) {
  if (y < -4799)
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Year.");
  if (m < 1 || m > 12)
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Month.");
  if (d < 1 || d > dim(y, m))
    throw std::out_of_range("ngpt::cal2mjd -> Invalid Day.");
  return civil2mjd(y, m, d);
}
} // namespace vp_shim

class day_of_month {
public:
  typedef int underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr day_of_month(int i = 1) noexcept : d(i) {}
  constexpr int as_underlying_type() const noexcept { return d; }
  constexpr bool is_valid(year y, month m) const noexcept {
    return m.is_valid() && d > 0 &&
           d <= vp_shim::dim(y.as_underlying_type(), m.as_underlying_type());
  }

private:
  int d;
};

class hours {
public:
  typedef int underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr hours(int i = 0) noexcept : h(i) {}
  constexpr int as_underlying_type() const noexcept { return h; }

private:
  int h;
};

class minutes {
public:
  typedef int underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr minutes(int i = 0) noexcept : m(i) {}
  constexpr int as_underlying_type() const noexcept { return m; }

private:
  int m;
};

class gps_week {
public:
  typedef long underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr gps_week(long i = 0) noexcept : w(i) {}
  constexpr long as_underlying_type() const noexcept { return w; }
  constexpr bool operator==(gps_week o) const noexcept { return w == o.w; }
  constexpr bool operator!=(gps_week o) const noexcept { return w != o.w; }

private:
  long w;
};

class modified_julian_day {
public:
  typedef long underlying_type;
  static constexpr bool is_dt_fundamental_type{true};
  explicit constexpr modified_julian_day(long i = 0) noexcept : m(i) {}
  modified_julian_day(year y, month mm, day_of_month d)
      : m(vp_shim::checked(y.as_underlying_type(), mm.as_underlying_type(),
                           d.as_underlying_type())) {}
  constexpr long as_underlying_type() const noexcept { return m; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept {
    return modified_julian_day(m + o.m);
  }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept {
    return modified_julian_day(m - o.m);
  }
  modified_julian_day &operator++() noexcept {
    ++m;
    return *this;
  }
  modified_julian_day &operator--() noexcept {
    --m;
    return *this;
  }
  constexpr void operator+=(modified_julian_day o) noexcept { m += o.m; }
  constexpr void operator-=(modified_julian_day o) noexcept { m -= o.m; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return m == o.m; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return m != o.m; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return m < o.m; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return m <= o.m; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return m > o.m; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return m >= o.m; }
  std::tuple<year, month, day_of_month> to_ymd() const noexcept {
    int y, mm, d;
    vp_shim::mjd2civil(m, y, mm, d);
    return {year(y), month(mm), day_of_month(d)};
  }

private:
  long m;
};

namespace vp_shim {
template <long F, typename Tag> class sec_type {
public:
  typedef long underlying_type;
  static constexpr bool is_of_sec_type{true};
  static constexpr bool is_dt_fundamental_type{true};
  static constexpr long max_in_day{86400L * F};
  template <typename T> static constexpr T sec_factor() noexcept {
    return static_cast<T>(F);
  }
  explicit constexpr sec_type(long i = 0) noexcept : s(i) {}
  explicit constexpr sec_type(int i) noexcept : s(i) {}
  explicit constexpr sec_type(double d) noexcept : s(static_cast<long>(d)) {}
  constexpr sec_type(hours h, minutes mi, sec_type c) noexcept
      : s((h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) * F +
          c.s) {}
  constexpr long as_underlying_type() const noexcept { return s; }
  constexpr double to_fractional_seconds() const noexcept {
    return static_cast<double>(s) / static_cast<double>(F);
  }
  constexpr double fractional_days() const noexcept {
    return static_cast<double>(s) / static_cast<double>(max_in_day);
  }
  constexpr sec_type operator+(sec_type o) const noexcept { return sec_type(s + o.s); }
  constexpr sec_type operator-(sec_type o) const noexcept { return sec_type(s - o.s); }
  constexpr void operator+=(sec_type o) noexcept { s += o.s; }
  constexpr void operator-=(sec_type o) noexcept { s -= o.s; }
  constexpr bool operator==(sec_type o) const noexcept { return s == o.s; }
  constexpr bool operator!=(sec_type o) const noexcept { return s != o.s; }

private:
  long s;
};
struct tag_s {};
struct tag_ms {};
struct tag_us {};

template <typename T> using if_sec = std::enable_if_t<T::is_of_sec_type>;

// a*fb ? b*fa without overflow: compare in 128 bits
template <typename A, typename B> inline int cmp_sec(A a, B b) noexcept {
  __int128 x = static_cast<__int128>(a.as_underlying_type()) *
               B::template sec_factor<long>();
  __int128 y = static_cast<__int128>(b.as_underlying_type()) *
               A::template sec_factor<long>();
  return x < y ? -1 : (x > y ? 1 : 0);
}
} // namespace vp_shim

using seconds = vp_shim::sec_type<1L, vp_shim::tag_s>;
using milliseconds = vp_shim::sec_type<1000L, vp_shim::tag_ms>;
using microseconds = vp_shim::sec_type<1000000L, vp_shim::tag_us>;

// comparisons among second types of different resolution
#define VP_SEC_CMP(OP)                                                         \
  template <long F, typename T, long G, typename U>                            \
  inline bool operator OP(vp_shim::sec_type<F, T> a,                           \
                          vp_shim::sec_type<G, U> b) noexcept {                \
    return vp_shim::cmp_sec(a, b) OP 0;                                        \
  }
VP_SEC_CMP(<)
VP_SEC_CMP(<=)
VP_SEC_CMP(>)
VP_SEC_CMP(>=)
#undef VP_SEC_CMP

/// cast a second type to another (truncating if the target is coarser)
template <typename S, typename T> constexpr T cast_to(S s) noexcept {
  constexpr long fs = S::template sec_factor<long>();
  constexpr long ft = T::template sec_factor<long>();
  if constexpr (ft >= fs)
    return T(s.as_underlying_type() * (ft / fs));
  else
    return T(s.as_underlying_type() / (fs / ft));
}

template <typename S> class datetime_interval {
public:
  constexpr datetime_interval(modified_julian_day d = modified_julian_day(0),
                              S s = S(0L)) noexcept
      : d_(d), s_(s) {}
  constexpr modified_julian_day days() const noexcept { return d_; }
  constexpr S sec() const noexcept { return s_; }

private:
  modified_julian_day d_;
  S s_;
};

template <typename S, typename = vp_shim::if_sec<S>> class datetime {
public:
  typedef S sec_type;
  constexpr datetime() noexcept : mjd_(j2000_mjd_l), sec_(0L) {}
  datetime(year y, month m, day_of_month d, S s) : mjd_(y, m, d), sec_(s) {
    normalize();
  }
  datetime(year y, month m, day_of_month d, hours h = hours(0),
           minutes mi = minutes(0), S s = S(0L))
      : mjd_(y, m, d), sec_(h, mi, s) {
    normalize();
  }
  datetime(modified_julian_day d, S s = S(0L)) noexcept : mjd_(d), sec_(s) {
    normalize();
  }
  template <typename T, typename = vp_shim::if_sec<T>>
  datetime(gps_week w, T s) noexcept
      : mjd_(44244L + w.as_underlying_type() * 7L), sec_(ngpt::cast_to<T, S>(s)) {
    normalize();
  }
  static constexpr datetime max() noexcept {
    datetime d;
    d.mjd_ = modified_julian_day(2000000L);
    d.sec_ = S(S::max_in_day - 1);
    return d;
  }
  static constexpr datetime min() noexcept {
    datetime d;
    d.mjd_ = modified_julian_day(-678941L);
    d.sec_ = S(0L);
    return d;
  }
  constexpr modified_julian_day mjd() const noexcept { return mjd_; }
  constexpr S sec() const noexcept { return sec_; }
  constexpr double as_mjd() const noexcept {
    return static_cast<double>(mjd_.as_underlying_type()) +
           sec_.fractional_days();
  }
  gps_week as_gps_wsow(long &sow) const noexcept {
    long days = mjd_.as_underlying_type() - 44244L;
    long w = days >= 0 ? days / 7 : -((6 - days) / 7);
    sow = (days - w * 7) * 86400L +
          sec_.as_underlying_type() / S::template sec_factor<long>();
    return gps_week(w);
  }
  template <typename T, typename = vp_shim::if_sec<T>>
  gps_week as_gps_wsow(T &sow) const noexcept {
    long days = mjd_.as_underlying_type() - 44244L;
    long w = days >= 0 ? days / 7 : -((6 - days) / 7);
    sow = T((days - w * 7) * T::max_in_day +
            ngpt::cast_to<S, T>(sec_).as_underlying_type());
    return gps_week(w);
  }
  template <typename T> datetime<T> cast_to() const noexcept {
    return datetime<T>(mjd_, ngpt::cast_to<S, T>(sec_));
  }
  template <typename T, typename = vp_shim::if_sec<T>>
  void add_seconds(T s) noexcept {
    sec_ += ngpt::cast_to<T, S>(s);
    normalize();
  }
  template <typename T, typename = vp_shim::if_sec<T>>
  void remove_seconds(T s) noexcept {
    sec_ -= ngpt::cast_to<T, S>(s);
    normalize();
  }
  void operator+=(const datetime_interval<S> &i) noexcept {
    mjd_ += i.days();
    sec_ += i.sec();
    normalize();
  }
  void normalize() noexcept {
    long s = sec_.as_underlying_type();
    long k = s >= 0 ? s / S::max_in_day : -((S::max_in_day - 1 - s) / S::max_in_day);
    if (k) {
      mjd_ += modified_julian_day(k);
      sec_ = S(s - k * S::max_in_day);
    }
  }
  template <typename T> int vp_compare(const datetime<T> &o) const noexcept {
    if (mjd_ != o.mjd())
      return mjd_ < o.mjd() ? -1 : 1;
    return vp_shim::cmp_sec(sec_, o.sec());
  }
  std::tuple<year, month, day_of_month> as_ymd() const noexcept {
    return mjd_.to_ymd();
  }

private:
  modified_julian_day mjd_;
  S sec_;
};

#define VP_DT_CMP(OP)                                                          \
  template <typename S, typename T>                                            \
  inline bool operator OP(const datetime<S> &a, const datetime<T> &b) noexcept { \
    return a.vp_compare(b) OP 0;                                               \
  }
VP_DT_CMP(==)
VP_DT_CMP(!=)
VP_DT_CMP(<)
VP_DT_CMP(<=)
VP_DT_CMP(>)
VP_DT_CMP(>=)
#undef VP_DT_CMP

/// a-b in the finer of the two resolutions
template <typename S, typename T>
inline auto delta_sec(const datetime<S> &a, const datetime<T> &b) noexcept {
  using R = std::conditional_t<(S::template sec_factor<long>() >=
                                T::template sec_factor<long>()),
                               S, T>;
  long d = a.mjd().as_underlying_type() - b.mjd().as_underlying_type();
  return R(d * R::max_in_day + ngpt::cast_to<S, R>(a.sec()).as_underlying_type() -
           ngpt::cast_to<T, R>(b.sec()).as_underlying_type());
}

/// TAI-UTC on the given day
template <typename S> inline int dat(const datetime<S> &t) noexcept {
  static const int tab[][4] = {
      {1972, 1, 1, 10}, {1972, 7, 1, 11}, {1973, 1, 1, 12}, {1974, 1, 1, 13},
      {1975, 1, 1, 14}, {1976, 1, 1, 15}, {1977, 1, 1, 16}, {1978, 1, 1, 17},
      {1979, 1, 1, 18}, {1980, 1, 1, 19}, {1981, 7, 1, 20}, {1982, 7, 1, 21},
      {1983, 7, 1, 22}, {1985, 7, 1, 23}, {1988, 1, 1, 24}, {1990, 1, 1, 25},
      {1991, 1, 1, 26}, {1992, 7, 1, 27}, {1993, 7, 1, 28}, {1994, 7, 1, 29},
      {1996, 1, 1, 30}, {1997, 7, 1, 31}, {1999, 1, 1, 32}, {2006, 1, 1, 33},
      {2009, 1, 1, 34}, {2012, 7, 1, 35}, {2015, 7, 1, 36}, {2017, 1, 1, 37}};
  int r = 0;
  for (auto &e : tab)
    if (t.mjd().as_underlying_type() >= vp_shim::civil2mjd(e[0], e[1], e[2]))
      r = e[3];
  return r;
}

} // namespace ngpt
#endif
