// Minimal stand-in for aocommon's ImageCoordinates.
#ifndef MINI_AOCOMMON_IMAGECOORDINATES_H_
#define MINI_AOCOMMON_IMAGECOORDINATES_H_
#include <cmath>
#include <utility>
#include <vector>
namespace aocommon {
class ImageCoordinates {
 public:
  template <typename T>
  static T AngularDistance(T ra1, T dec1, T ra2, T dec2) {
    const T c = std::sin(dec1) * std::sin(dec2) + std::cos(dec1) * std::cos(dec2) * std::cos(ra1 - ra2);
    return c <= 1.0 ? std::acos(c) : 0.0;
  }
  template <typename T>
  static std::pair<T, T> MeanPosition(const std::vector<std::pair<T, T>>& list) {
    T x = 0, y = 0, z = 0;
    for (const auto& p : list) {
      x += std::cos(p.first) * std::cos(p.second);
      y += std::sin(p.first) * std::cos(p.second);
      z += std::sin(p.second);
    }
    return {std::atan2(y, x), std::atan2(z, std::sqrt(x * x + y * y))};
  }
};
}  // namespace aocommon
#endif
