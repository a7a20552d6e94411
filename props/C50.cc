#include <map>
#include <set>
#include "maps.h"

using namespace gen;
using static_map::FrameBase;

// Identifiers from a small range, so that many of them agree in part.
static void Ids(pbt::Case& c) {
  const int top = c.oneOf<int>({1, 2, 12, 120, 100000});
  auto number = [&] { return static_cast<int>(c.u(top + 1)); };
  const int n = 2 + c.u(20);
  std::vector<FrameId> f;
  std::vector<SubmapId> s;
  for (int k = 0; k < n; ++k) {
    f.push_back({number(), number(), number()});
    s.push_back({number(), number()});
    if (k > 0 && c.b(1, 3)) {  // one number differs at most
      const FrameId other = f[c.u(k)];
      f[k] = other;
      (c.b(1, 3) ? f[k].trajectory_index : c.b() ? f[k].submap_index : f[k].frame_index) = number();
      const SubmapId from = s[c.u(k)];
      s[k] = from;
      (c.b() ? s[k].trajectory_index : s[k].submap_index) = number();
    }
    c.note() << f[k].DebugString() << " " << s[k].DebugString() << " ";
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const std::vector<int> a{f[i].trajectory_index, f[i].submap_index, f[i].frame_index}, b{f[j].trajectory_index, f[j].submap_index, f[j].frame_index};
      REQUIRE((f[i] == f[j]) == (a == b), "frames " << f[i].DebugString() << " and " << f[j].DebugString() << (a == b ? " differ" : " are equal"));
      REQUIRE((f[i] != f[j]) == (a != b), "frames " << f[i].DebugString() << " and " << f[j].DebugString() << ": inequality");
      REQUIRE((f[i] < f[j]) == (a < b), "frames " << f[i].DebugString() << " and " << f[j].DebugString() << ": order");
      REQUIRE((f[i].DebugString() == f[j].DebugString()) == (a == b), "names of frames " << f[i].DebugString() << " and " << f[j].DebugString());
      const std::vector<int> p{s[i].trajectory_index, s[i].submap_index}, q{s[j].trajectory_index, s[j].submap_index};
      REQUIRE((s[i] == s[j]) == (p == q), "submaps " << s[i].DebugString() << " and " << s[j].DebugString() << (p == q ? " differ" : " are equal"));
      REQUIRE((s[i] != s[j]) == (p != q), "submaps " << s[i].DebugString() << " and " << s[j].DebugString() << ": inequality");
      REQUIRE((s[i] < s[j]) == (p < q), "submaps " << s[i].DebugString() << " and " << s[j].DebugString() << ": order");
      REQUIRE((s[i].DebugString() == s[j].DebugString()) == (p == q), "names of submaps " << s[i].DebugString() << " and " << s[j].DebugString());
      if (i != j && a != b && (a[0] == b[0] || a[2] == b[2])) c.nontrivial();
    }
}

// Frames and submaps return what they were given last, whatever else was set.
static void Keep(pbt::Case& c) {
  std::unique_ptr<FrameBase> owner;
  const bool submap = c.b(1, 3);
  if (submap)
    owner.reset(new Submap(SubmapOptions()));
  else
    owner.reset(new Frame);
  FrameBase& f = *owner;
  M4 global = M4::Identity(), local = global, next = global, last = global, odom = global;
  V3 enu = V3::Zero();
  bool has_enu = false, has_odom = false;
  SimpleTime stamp;
  static_map::descriptor::M2dp::Descriptor desc;
  std::set<int> kinds;
  const int n = 1 + c.u(12);
  for (int k = 0; k <= n; ++k) {
    const double size = 1 + Trans(global).norm() + Trans(local).norm();
    REQUIRE((f.GlobalPose() - global).cwiseAbs().maxCoeff() < 1e-9 * size, "global pose");
    REQUIRE((f.LocalPose() - local).cwiseAbs().maxCoeff() < 1e-9 * size, "local pose");
    REQUIRE((f.GlobalRotation() - Rot(global)).cwiseAbs().maxCoeff() < 1e-9, "rotation of the global pose");
    REQUIRE((f.GlobalTranslation() - Trans(global)).norm() < 1e-9 * size, "translation of the global pose");
    REQUIRE((f.LocalRotation() - Rot(local)).cwiseAbs().maxCoeff() < 1e-9, "rotation of the local pose");
    REQUIRE((f.LocalTranslation() - Trans(local)).norm() < 1e-9 * size, "translation of the local pose");
    const Eigen::VectorXd six = f.GlobalPoseIn6Dof();
    REQUIRE(six.size() == 6, six.size() << " numbers");
    REQUIRE(PoseDist(Pose(Rpy(six[3], six[4], six[5]), V3(six[0], six[1], six[2])), global) < 1e-6 * size, "pose in six numbers " << six.transpose() << " of " << gen::Str(global));
    REQUIRE(PoseDist(f.TransformToNext(), next) < 1e-9 * (1 + Trans(next).norm()), "transform to the next");
    REQUIRE(PoseDist(f.TransformFromLast(), last) < 1e-9 * (1 + Trans(last).norm()), "transform from the last");
    REQUIRE(f.HasGps() == has_enu, (has_enu ? "no position" : "a position out of nowhere"));
    if (has_enu) REQUIRE(f.GetRelatedGpsInENU() == enu, "position");
    REQUIRE(f.HasOdom() == has_odom, (has_odom ? "no odometry" : "odometry out of nowhere"));
    if (has_odom) REQUIRE(PoseDist(f.GetRelatedOdom(), odom) < 1e-9 * (1 + Trans(odom).norm()), "odometry");
    REQUIRE(SameStamp(f.GetTimeStamp(), stamp), "time");
    REQUIRE(f.GetDescriptor().size() == desc.size() && f.GetDescriptor() == desc, "descriptor");
    if (k == n) break;
    const int kind = c.u(8);
    kinds.insert(kind);
    switch (kind) {
      case 0: f.SetGlobalPose(global = AnyPose(c, 1000)); break;
      case 1: f.SetLocalPose(local = AnyPose(c, 100)); break;
      case 2: f.SetTransformToNext(next = AnyPose(c, 10)); break;
      case 3: f.SetTransformFromLast(last = AnyPose(c, 10)); break;
      case 4: f.SetRelatedGpsInENU(enu = VecFine(c, 1000)), has_enu = true; break;
      case 5: f.SetRelatedOdom(odom = AnyPose(c, 1000)), has_odom = true; break;
      case 6: f.SetTimeStamp(stamp = AnyStamp(c)); break;
      default:
        desc.resize(10 + c.u(10));
        for (int i = 0; i < desc.size(); ++i) desc[i] = c.u(1000) / 100.f;
        f.SetDescriptor(desc);
    }
    c.note() << "set " << kind << "; ";
  }
  if (kinds.size() > 3) c.nontrivial();
  c.label(submap ? "submap" : "frame");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C50";
  s.rule = "identifiers: up to 21 of each kind, often differing in one number only, every pair compared; frames and submaps: up to 12 values set in any order, everything read back after each; non-trivial when different identifiers agree in a number, or more than three kinds of values were set";
  s.assumptions = {"numbers of identifiers are not negative", "poses are rigid"};
  s.subs.push_back({"identifiers", Ids, 20000, 300000});
  s.subs.push_back({"keep", Keep, 20000, 300000});
  return s;
}
