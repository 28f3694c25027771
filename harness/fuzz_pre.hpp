// Included before every file of the "fuzz" build. The library takes constexpr
// std::sqrt and std::strlen for granted, which g++ has and clang++ has not.
#include <bits/stdc++.h>
namespace std {
constexpr double vp_sqrt(double x) {
  if (!__builtin_is_constant_evaluated())
    return __builtin_sqrt(x);
  double g = 1;
  while (g * g < x)
    g *= 2;
  for (int i = 0; i < 20; i++)
    g = (g + x / g) / 2;
  return g;
}
constexpr size_t vp_strlen(const char *s) { return __builtin_strlen(s); }
} // namespace std
using std::vp_sqrt;
using std::vp_strlen;
#define sqrt vp_sqrt
#define strlen vp_strlen
#undef __clang__
