// Frames, submaps and trajectories for the map checks.
#ifndef VERIF_HARNESS_MAPS_H_
#define VERIF_HARNESS_MAPS_H_

#include <array>
#include <map>

#include "builder/frame.h"
#include "builder/submap.h"
#include "builder/trajectory.h"
#include "cloudgen.h"

namespace gen {

using static_map::Frame;
using static_map::FrameId;
using static_map::Submap;
using static_map::SubmapId;
using static_map::SubmapOptions;
using static_map::data::InnerPointCloudData;

inline std::shared_ptr<Frame> MakeFrame(const InnerCloudType::Ptr& cloud, const M4& pose) {
  auto f = std::make_shared<Frame>();
  f->SetCloud(std::make_shared<InnerPointCloudData>(cloud));
  f->SetTimeStamp(cloud->stamp);
  f->SetGlobalPose(pose);
  return f;
}

inline InnerPointType Moved(const M4& t, const InnerPointType& p) {
  InnerPointType q = p;
  const V3 v = Rot(t) * P(p) + Trans(t);
  q.x = v[0], q.y = v[1], q.z = v[2];
  return q;
}

// Every point of `want` at the same place in `got`.
inline void SameCloud(const std::vector<InnerPointType>& got, const std::vector<InnerPointType>& want, double tol, const std::string& what) {
  REQUIRE(got.size() == want.size(), what << ": " << got.size() << " points instead of " << want.size());
  for (size_t k = 0; k < got.size(); ++k) {
    REQUIRE((P(got[k]) - P(want[k])).norm() <= tol, what << ": point " << k << " is " << Str(got[k]) << " instead of " << Str(want[k]));
    REQUIRE(got[k].intensity == want[k].intensity && got[k].factor == want[k].factor, what << ": attributes of point " << k << ": " << Str(got[k]) << " instead of " << Str(want[k]));
  }
}

// Mean point per voxel, as a down-sampled cloud should look like.
inline std::map<std::array<long, 3>, std::vector<InnerPointType>> Voxels(const std::vector<InnerPointType>& pts, float size) {
  std::map<std::array<long, 3>, std::vector<InnerPointType>> v;
  for (const auto& p : pts) v[{std::lround(p.x / size), std::lround(p.y / size), std::lround(p.z / size)}].push_back(p);
  return v;
}

}  // namespace gen

#endif  // VERIF_HARNESS_MAPS_H_
