// Timed sample streams and independent geodesy for the GPS/odometry checks.
#ifndef VERIF_HARNESS_STREAMS_H_
#define VERIF_HARNESS_STREAMS_H_

#include <cstdio>
#include <fstream>
#include <memory>

#include "collect.h"

namespace gen {

using static_map::data::NavSatFixMsg;
using static_map::data::OdomMsg;

inline SimpleTime At(uint64_t ns) { return SimpleTime(static_cast<uint32_t>(ns / 1000000000), static_cast<uint32_t>(ns % 1000000000)); }

// WGS84 geodetic to earth-centred, and from there to a local ENU frame.
inline V3 Ecef(double lat, double lon, double h) {
  const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f);
  const double la = lat * M_PI / 180, lo = lon * M_PI / 180;
  const double n = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
  return V3((n + h) * std::cos(la) * std::cos(lo), (n + h) * std::cos(la) * std::sin(lo), (n * (1 - e2) + h) * std::sin(la));
}
inline V3 Enu(const V3& llh0, const V3& llh) {
  const V3 d = Ecef(llh[0], llh[1], llh[2]) - Ecef(llh0[0], llh0[1], llh0[2]);
  const double la = llh0[0] * M_PI / 180, lo = llh0[1] * M_PI / 180;
  const double sl = std::sin(la), cl = std::cos(la), so = std::sin(lo), co = std::cos(lo);
  return V3(-so * d[0] + co * d[1], -sl * co * d[0] - sl * so * d[1] + cl * d[2], cl * co * d[0] + cl * so * d[1] + sl * d[2]);
}

struct Fix {
  uint64_t ns;
  V3 llh, enu;
  int status;
};
inline uint64_t GapNs(pbt::Case& c) {
  switch (c.u(6)) {
    case 0:
      return 1 + c.u(2000);  // around a microsecond
    case 1:
      return 100000000;
    case 2:
      return 199990000;
    case 3:
      return 200010000 + c.u(3000000000ull);
    default:
      return 1000000 + c.u(190000000);
  }
}
inline uint64_t StartNs(pbt::Case& c) { return (c.b() ? 10 : 1500000000ull) * 1000000000ull + c.u(1000000000); }

// Fixes as the receiver sees them, including those before the first usable.
inline std::vector<Fix> AnyFixes(pbt::Case& c, int max) {
  std::vector<Fix> r;
  const int n = c.size(0, max);
  uint64_t ns = StartNs(c);
  V3 llh(c.oneOf<double>({31.2, 0, -45, 89.9999, -89.9}) + c.real(-0.05, 0.05), c.oneOf<double>({121.5, 0, 179.9999, -180, -70}) + c.real(-0.05, 0.05), c.real(-100, 4000));
  llh[0] = std::max(-90.0, std::min(90.0, llh[0]));
  for (int k = 0; k < n; ++k) {
    Fix f;
    f.ns = ns;
    f.llh = llh;
    f.status = c.b(4, 5) ? 0 : c.oneOf<int>({-1, -1, 1, 2});
    r.push_back(f);
    ns += GapNs(c);
    llh[0] = std::max(-90.0, std::min(90.0, llh[0] + c.real(-1e-4, 1e-4)));
    llh[1] += c.real(-1e-4, 1e-4);
    llh[2] += c.real(-1, 1);
  }
  return r;
}
inline void Send(DataCollector* d, const Fix& f) {
  NavSatFixMsg m;
  m.header.seq = 0;
  m.header.stamp = At(f.ns);
  m.status.status = static_cast<int8_t>(f.status);
  m.status.service = 1;
  m.latitude = f.llh[0];
  m.longtitude = f.llh[1];
  m.altitude = f.llh[2];
  d->AddSensorData(m);
}

// What the collector has to know about GPS.
struct GpsModel {
  bool has_ref = false;
  V3 ref;
  std::vector<Fix> all;       // everything since the first usable fix
  size_t first = 0;           // samples before this one may be gone
  bool gone = false;          // ... and are known to be gone
  void Add(Fix f) {
    if (!has_ref) {
      if (f.status != 0) return;
      has_ref = true;
      ref = f.llh;
    }
    f.enu = Enu(ref, f.llh);
    all.push_back(f);
  }
  // 0 nothing, 1 value, 2 either
  int Expect(uint64_t t, double threshold, V3* v, double* slack = nullptr) const {
    if (all.empty()) return 0;
    if (all.size() == 1) {
      const double dt = std::fabs(static_cast<double>(static_cast<int64_t>(t - all[0].ns))) * 1e-9;
      *v = all[0].enu;
      if (std::fabs(dt - threshold) < 1e-5) return all[0].status == 0 ? 2 : 0;
      return dt <= threshold && all[0].status == 0 ? 1 : 0;
    }
    if (t < all.front().ns || t > all.back().ns) return 0;
    int usable = 0, intervals = 0;
    for (size_t k = 0; k + 1 < all.size(); ++k) {
      if (t < all[k].ns || t > all[k + 1].ns) continue;
      ++intervals;
      const double gap = (all[k + 1].ns - all[k].ns) * 1e-9;
      if (gap > 0.2 || all[k].status != 0 || all[k + 1].status != 0) continue;
      ++usable;
      if (slack && gap < 2e-6) *slack = std::max(*slack, (all[k + 1].enu - all[k].enu).norm());
      *v = all[k].enu + (all[k + 1].enu - all[k].enu) * ((t - all[k].ns) * 1e-9 / gap);
    }
    int r = usable == 0 ? 0 : usable == intervals ? 1 : 2;
    if (t < all[first].ns) r = gone ? 0 : r == 0 ? 0 : 2;
    return r;
  }
};
template <typename S>
inline uint64_t QueryNs(pbt::Case& c, const std::vector<S>& s, uint64_t start) {
  if (s.empty()) return start + c.u(1000000000);
  const size_t k = c.u(s.size());
  switch (c.u(5)) {
    case 0:
      return s[k].ns;
    case 1:
      return s[k].ns + 1;
    case 2:
      return s[k].ns - 1 - c.u(2000000);
    case 3:
      return s.back().ns + c.u(600000000);
    default:
      return k + 1 < s.size() ? s[k].ns + c.u(s[k + 1].ns - s[k].ns + 1) : s[k].ns + c.u(1000000);
  }
}
inline void QueryGps(pbt::Case& c, DataCollector* d, GpsModel* m, uint64_t t, double threshold, bool trim) {
  V3 want;
  double slack = 0;  // samples up to two microseconds apart count as one moment
  const int e = m->Expect(t, threshold, &want, &slack);
  std::unique_ptr<V3> got = trim ? d->InterpolateGps(At(t), threshold, true) : d->InterpolateGps(At(t), threshold);
  c.label(e == 0 ? "nothing" : e == 1 ? "position" : "either");
  if (e == 0) REQUIRE(!got, "a position at " << t << " which no pair of usable fixes covers: " << got->transpose());
  if (e == 1) REQUIRE(got, "no position at " << t << ", expected " << want.transpose());
  if (got) {
    REQUIRE((*got - want).norm() < 1e-4 + slack, "position " << got->transpose() << " at " << t << ", expected " << want.transpose());
  }
  // everything before the pair around t may be dropped now
  if (trim && m->all.size() > 1 && t >= m->all.front().ns && t <= m->all.back().ns) {
    for (size_t k = 0; k + 1 < m->all.size(); ++k)
      if (m->all[k + 1].ns <= t && k + 1 < m->all.size() - 1 && k + 1 > m->first) {
        m->first = k + 1;
        m->gone = false;
      }
  }
}

}  // namespace gen

#endif  // VERIF_HARNESS_STREAMS_H_
