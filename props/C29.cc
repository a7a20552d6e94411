#include "maps.h"

using namespace gen;

// How far points may lie from a voxel border to be certain of their voxel.
static bool Clear(const std::vector<InnerPointType>& pts, float size, double tol) {
  for (const auto& p : pts)
    for (double x : {p.x, p.y, p.z}) {
      const double f = x / size + 0.5;
      if (std::fabs(f - std::round(f)) * size < tol) return false;
    }
  return true;
}

static void Assemble(pbt::Case& c) {
  SubmapOptions o;
  o.frame_count = 1 + c.u(8);
  o.enable_voxel_filter = c.b(1, 3);
  o.voxel_size = c.oneOf<float>({0.1f, 0.5f, 2.f});
  o.enable_check = c.b();
  Submap s(o);
  SubmapId id{static_cast<int>(c.u(5)), static_cast<int>(c.u(1000))};
  s.SetId(id);
  REQUIRE(s.GetId() == id, "id");
  const bool big = c.b(1, 10);
  const double range = c.oneOf<double>({5, 30, 80});
  const M4 first_pose = AnyPose(c, c.b(1, 4) ? 2000 : 50);
  c.note() << o.frame_count << " frames" << (o.enable_voxel_filter ? ", voxels" : "") << ", first pose " << gen::Str(first_pose) << " ";
  std::vector<InnerPointType> want;
  std::vector<M4> rel;
  std::vector<std::shared_ptr<Frame>> frames;
  std::vector<std::vector<InnerPointType>> originals;
  double reach = range;
  M4 pose = first_pose;
  for (int k = 0; k < o.frame_count; ++k) {
    REQUIRE(!s.Full(), "full after " << k << " of " << o.frame_count << " frames");
    if (k > 0) pose = c.b(1, 5) ? AnyPose(c, 50) : M4(pose * Motion(c, 0.4, 3));
    auto cloud = AnyCloud(c, 1, big ? 600 : 20, range);
    auto f = MakeFrame(cloud, pose);
    const SimpleTime stamp = AnyStamp(c);
    if (c.b(1, 3)) f->SetTimeStamp(stamp);
    s.InsertFrame(f);
    frames.push_back(f);
    rel.push_back(Inv(first_pose) * pose);
    reach = std::max(reach, Trans(rel.back()).norm() + 2 * range);
    originals.push_back(cloud->points);
    for (const auto& p : cloud->points) want.push_back(Moved(rel.back(), p));
    REQUIRE(PoseDist(s.GlobalPose(), first_pose) < 1e-9 * (1 + Trans(first_pose).norm()), "pose of the submap after frame " << k);
    REQUIRE(SameStamp(s.GetTimeStamp(), frames[0]->GetTimeStamp()), "time of the submap");
  }
  const double tol = 1e-5 * (1 + reach) + 1e-9 * Trans(first_pose).norm();
  REQUIRE(s.Full(), "not full after " << o.frame_count << " frames");
  if (o.frame_count > 1) c.nontrivial();
  for (int k = 0; k < o.frame_count; ++k) {
    const FrameId want_id{id.trajectory_index, id.submap_index, k};
    REQUIRE(frames[k]->id_ == want_id, "id of frame " << k << " is " << frames[k]->id_.DebugString());
    REQUIRE(s.GetFrame(want_id) == frames[k] && s.GetFrames().at(k) == frames[k], "frame " << k << " is not found by its id");
    REQUIRE(PoseDist(frames[k]->LocalPose(), rel[k]) < 1e-9 * (1 + Trans(first_pose).norm() + reach), "pose of frame " << k << " in the submap");
    REQUIRE(SamePoints(frames[k]->Cloud()->GetInnerCloud()->points, originals[k]), "the cloud of frame " << k << " changed");
  }
  REQUIRE(s.GetFrames().size() == frames.size(), "number of frames");
  for (const FrameId& bad : {FrameId{id.trajectory_index, id.submap_index, o.frame_count}, FrameId{id.trajectory_index, id.submap_index, -1},
                             FrameId{id.trajectory_index, id.submap_index + 1, 0}, FrameId{id.trajectory_index + 1, id.submap_index, 0}})
    REQUIRE(s.GetFrame(bad) == nullptr, "frame for the unknown id " << bad.DebugString());
  auto got = s.Cloud()->GetInnerCloud();
  REQUIRE(SameStamp(got->stamp, originals.empty() ? got->stamp : frames[0]->Cloud()->GetInnerCloud()->stamp), "time of the submap cloud");
  REQUIRE(s.Cloud()->GetEigenCloud() != nullptr, "no cloud for matching");
  if (!o.enable_voxel_filter) {
    SameCloud(got->points, want, tol, "submap cloud");
    if (want.size() >= 40) REQUIRE(s.Cloud()->GetEigenCloud()->HasNormals() || s.Cloud()->GetEigenCloud()->points.cols() == 0, "no normals");
  } else if (Clear(want, o.voxel_size, tol)) {
    c.label("down-sampled");
    auto v = Voxels(want, o.voxel_size);
    REQUIRE(got->points.size() == v.size(), got->points.size() << " points for " << v.size() << " voxels of " << o.voxel_size << ": " << gen::Str(want) << " became " << gen::Str(got->points));
    auto g = Voxels(got->points, o.voxel_size);
    for (auto& kv : v) {
      V3 m = V3::Zero();
      double in = 0;
      for (auto& p : kv.second) m += P(p), in += p.intensity;
      m /= kv.second.size();
      in /= kv.second.size();
      bool found = false;
      for (auto& p : got->points)
        if ((P(p) - m).norm() <= 2 * tol && std::fabs(p.intensity - in) < 1e-2) found = true;
      REQUIRE(found, "no point for the mean " << m.transpose() << " of a voxel");
    }
  }
  // pose updates
  const int updates = c.u(4);
  for (int k = 0; k < updates; ++k) {
    const M4 now = AnyPose(c, 100);
    s.SetGlobalPose(now);
    REQUIRE(PoseDist(s.GlobalPose(), now) < 1e-9 * (1 + Trans(now).norm()), "pose set");
    REQUIRE((s.GlobalTranslation() - Trans(now)).norm() == 0 && PoseDist(Pose(s.GlobalRotation(), s.GlobalTranslation()), s.GlobalPose()) == 0, "parts of the pose");
    s.UpdateInnerFramePose();
    for (int j = 0; j < o.frame_count; ++j) {
      const M4 w = now * rel[j];
      REQUIRE(PoseDist(frames[j]->GlobalPose(), w) < 1e-8 * (1 + Trans(first_pose).norm() + Trans(w).norm() + reach), "frame " << j << " after a pose update");
      REQUIRE(PoseDist(frames[j]->LocalPose(), rel[j]) < 1e-9 * (1 + Trans(first_pose).norm() + reach), "relative pose of frame " << j << " after a pose update");
    }
    SameCloud(s.Cloud()->GetInnerCloud()->points, got->points, 0, "cloud after a pose update");
  }
}

// Additional data of a frame.
static void Extras(pbt::Case& c) {
  SubmapOptions o;
  Submap s(o);
  SubmapId id{0, 0};
  s.SetId(id);
  bool gps = false, odom = false;
  V3 enu;
  M4 od, next = M4::Identity(), last = M4::Identity();
  std::vector<SubmapId> con;
  const int n = 1 + c.u(12);
  for (int k = 0; k < n; ++k) {
    switch (c.u(6)) {
      case 0:
        enu = Vec(c, 1000);
        s.SetRelatedGpsInENU(enu);
        gps = true;
        break;
      case 1:
        od = AnyPose(c);
        s.SetRelatedOdom(od);
        odom = true;
        break;
      case 2:
        next = AnyPose(c);
        s.SetTransformToNext(next);
        break;
      case 3:
        last = AnyPose(c);
        s.SetTransformFromLast(last);
        break;
      case 4: {
        SubmapId other{static_cast<int>(c.u(3)), static_cast<int>(c.u(30))};
        s.AddConnectedSubmap(other);
        con.push_back(other);
        break;
      }
      default: {
        id = SubmapId{static_cast<int>(c.u(3)), static_cast<int>(c.u(30))};
        s.SetId(id);
      }
    }
    REQUIRE(s.GetId() == id && !(s.GetId() != id) && !(s.GetId() < id), "id");
    REQUIRE(s.HasGps() == gps && s.HasOdom() == odom, "has gps/odometry");
    if (gps) REQUIRE(s.GetRelatedGpsInENU() == enu, "gps position");
    if (odom) REQUIRE(s.GetRelatedOdom() == od, "odometry pose");
    REQUIRE(s.TransformToNext() == next && s.TransformFromLast() == last, "transforms");
    REQUIRE(s.GetConnected() == con, "connections");
    if (gps || odom || !con.empty()) c.nontrivial();
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C29";
  s.rule = "submaps of 1-8 frames (1-600 points each) with any rigid poses up to 2000 m, with and without down-sampling, followed by pose updates, against an own union; extras: sequences of setting GPS, odometry, transforms, ids and connections; non-trivial with more than one frame or any extra set";
  s.assumptions = {"frames have at least one point", "down-sampling is compared when no point is at a voxel border"};
  s.subs.push_back({"assemble", Assemble, 5000, 60000});
  s.subs.push_back({"extras", Extras, 5000, 50000});
  return s;
}
