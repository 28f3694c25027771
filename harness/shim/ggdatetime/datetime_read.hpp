// Stand-in for ggdatetime's readers; see dtcalendar.hpp.
#ifndef VP_SHIM_GGDATETIME_READ
#define VP_SHIM_GGDATETIME_READ
#include "dtcalendar.hpp"
#include <cerrno>

namespace ngpt {
/// "YYYY MM DD HH MM SS.SSS" with any one-character separator; throws
/// std::invalid_argument if a field is missing, std::out_of_range if the date
/// is not a calendar date.
template <typename T> datetime<T> strptime_ymd_hms(const char *str) {
  char *end;
  const char *start = str;
  int ints[5];
  for (int i = 0; i < 5; ++i) {
    errno = 0;
    long v = std::strtol(start, &end, 10);
    if (errno == ERANGE || start == end) {
      errno = 0;
      throw std::invalid_argument("Invalid date format: \"" + std::string(str) +
                                  "\" (argument #" + std::to_string(i + 1) +
                                  ").");
    }
    if (v < 0)
      v = -v;
    ints[i] = v > 1000000L ? 1000000 : static_cast<int>(v);
    start = *end ? end + 1 : end;
  }
  errno = 0;
  double secs = std::strtod(start, &end);
  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e9)) {
    errno = 0;
    throw std::invalid_argument("Invalid date format: \"" + std::string(str) +
                                "\" (argument #6).");
  }
  double units = secs * T::template sec_factor<double>();
  return datetime<T>(
      year(ints[0]), month(ints[1]), day_of_month(ints[2]), hours(ints[3]),
      minutes(ints[4]),
      T(static_cast<long>(std::floor(units * (1e0 + 1e-13) + 1e-9))));
}
template <typename T> datetime<T> strptime_ymd_hms(const std::string &s) {
  return strptime_ymd_hms<T>(s.c_str());
}
} // namespace ngpt
#endif
