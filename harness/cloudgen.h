// Cloud generators shared by the checks.
#ifndef VERIF_HARNESS_CLOUDGEN_H_
#define VERIF_HARNESS_CLOUDGEN_H_

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "builder/data/cloud_types.h"
#include "gen.h"

namespace gen {

using static_map::SimpleTime;
using static_map::data::InnerCloudType;
using static_map::data::InnerPointType;

inline SimpleTime AnyStamp(pbt::Case& c) {
  const uint32_t s = c.b() ? c.u(100) : 1500000000u + c.u(100000000);
  return SimpleTime(s, c.u(1000000000));
}

inline InnerPointType AnyPoint(pbt::Case& c, double range) {
  InnerPointType p;
  p.x = static_cast<float>(Coord(c, range));
  p.y = static_cast<float>(Coord(c, range));
  p.z = static_cast<float>(Coord(c, range));
  p.intensity = static_cast<float>(c.u(256));
  p.factor = static_cast<float>(c.u(1001)) / 1000.f;
  return p;
}

// `min` to `max` points; big clouds repeat a drawn pattern with an offset so
// that choice lists stay short.
inline InnerCloudType::Ptr AnyCloud(pbt::Case& c, size_t min, size_t max, double range = 50) {
  auto cloud = std::make_shared<InnerCloudType>();
  cloud->stamp = AnyStamp(c);
  const size_t n = c.size(min, max);
  const size_t drawn = std::min<size_t>(n, 60);
  for (size_t k = 0; k < drawn; ++k) {
    if (k > 0 && c.b(1, 12)) {
      cloud->points.push_back(cloud->points[c.u(k)]);
    } else {
      cloud->points.push_back(AnyPoint(c, range));
    }
  }
  if (n > drawn) {
    uint64_t x = c.u(1ull << 32) * 2654435761u + 1;
    auto next = [&] {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
      return (x >> 11) * (1.0 / 9007199254740992.0);
    };
    while (cloud->points.size() < n) {
      InnerPointType p;
      p.x = static_cast<float>((2 * next() - 1) * range);
      p.y = static_cast<float>((2 * next() - 1) * range);
      p.z = static_cast<float>((2 * next() - 1) * range);
      p.intensity = static_cast<float>(static_cast<int>(next() * 256));
      p.factor = static_cast<float>(next());
      cloud->points.push_back(p);
    }
  }
  return cloud;
}

inline bool SamePoint(const InnerPointType& a, const InnerPointType& b) {
  return memcmp(&a.x, &b.x, 4) == 0 && memcmp(&a.y, &b.y, 4) == 0 && memcmp(&a.z, &b.z, 4) == 0 &&
         memcmp(&a.intensity, &b.intensity, 4) == 0 && memcmp(&a.factor, &b.factor, 4) == 0;
}
inline bool SamePoints(const std::vector<InnerPointType>& a, const std::vector<InnerPointType>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (!SamePoint(a[k], b[k])) return false;
  return true;
}
inline bool SameStamp(const SimpleTime& a, const SimpleTime& b) { return a.ToNanoSec() == b.ToNanoSec(); }
inline std::string Str(const InnerPointType& p) {
  std::ostringstream o;
  o.precision(9);
  o << "(" << p.x << "," << p.y << "," << p.z << ";i" << p.intensity << ";f" << p.factor << ")";
  return o.str();
}
inline std::string Str(const std::vector<InnerPointType>& v, size_t max = 12) {
  std::ostringstream o;
  o << v.size() << " points";
  for (size_t k = 0; k < std::min(max, v.size()); ++k) o << " " << Str(v[k]);
  return o.str();
}
inline V3 P(const InnerPointType& p) { return V3(p.x, p.y, p.z); }

}  // namespace gen

#endif  // VERIF_HARNESS_CLOUDGEN_H_
