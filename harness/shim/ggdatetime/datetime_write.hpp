// Stand-in for ggdatetime's writers; see dtcalendar.hpp.
#ifndef VP_SHIM_GGDATETIME_WRITE
#define VP_SHIM_GGDATETIME_WRITE
#include "dtcalendar.hpp"

namespace ngpt {
template <typename T> std::string strftime_ymd_hms(const datetime<T> &t) {
  int y, m, d;
  vp_shim::mjd2civil(t.mjd().as_underlying_type(), y, m, d);
  constexpr long f = T::template sec_factor<long>();
  long s = t.sec().as_underlying_type();
  long whole = s / f, frac = s % f;
  char buf[96];
  int digits = f == 1 ? 0 : (f == 1000 ? 3 : 6);
  int n = std::snprintf(buf, sizeof buf, "%04d-%02d-%02d %02ld:%02ld:%02ld", y,
                        m, d, whole / 3600, (whole / 60) % 60, whole % 60);
  if (digits)
    std::snprintf(buf + n, sizeof buf - n, ".%0*ld", digits, frac);
  return buf;
}
} // namespace ngpt
#endif
