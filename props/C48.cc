#include <map>
#include "gen.h"
#include "pbt.h"
#include "ros_node/tf_bridge.h"
#include "ros_node/urdf_reader.h"
#include "urdf/model.h"

namespace {

using gen::M4;

M4 AnyPose(pbt::Case& c) {
  gen::V3 axis(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
  if (axis.norm() < 1e-3) axis = gen::V3(1, 0, 0);
  const double turn = c.b(1, 4) ? c.oneOf<double>({0, M_PI, M_PI / 2, -M_PI / 2}) : c.real(-M_PI, M_PI);
  return gen::Pose(gen::Exp(axis.normalized() * turn), gen::V3(c.real(-5, 5), c.real(-5, 5), c.real(-5, 5)));
}

struct Frame {
  std::string name;
  int parent = -1;
  bool fixed = true;
  M4 pose = M4::Identity();  // in the parent
};

// A robot: a tree of named parts, some joints fixed and some not.
std::vector<Frame> MakeRobot(pbt::Case& c, bool all_fixed) {
  std::vector<Frame> f;
  const int n = c.size(2, 9);
  for (int k = 0; k < n; ++k) {
    Frame x;
    x.name = std::string(k == 0 ? "base" : c.oneOf<std::string>({"lidar", "imu", "a/b", "gps"})) + std::to_string(k);
    if (k > 0) {
      x.parent = c.b(1, 2) ? k - 1 : static_cast<int>(c.u(k));
      x.fixed = all_fixed || !c.b(1, 4);
      x.pose = AnyPose(c);
    }
    f.push_back(x);
  }
  return f;
}

// Pose of a frame in the topmost frame reached through fixed joints.
int Top(const std::vector<Frame>& f, int k, M4* pose) {
  *pose = M4::Identity();
  while (f[k].parent >= 0 && f[k].fixed) {
    *pose = f[k].pose * *pose;
    k = f[k].parent;
  }
  return k;
}

gen::V3 Xyz(const M4& m) { return gen::Trans(m); }

void Robot(pbt::Case& c) {
  const std::vector<Frame> f = MakeRobot(c, c.b());
  std::vector<urdf::LinkSharedPtr> links;
  for (const Frame& x : f) {
    auto l = std::make_shared<urdf::Link>();
    l->name = x.name;
    if (x.parent >= 0) {
      l->parent = links[x.parent];
      l->parent_joint = std::make_shared<urdf::Joint>();
      if (x.fixed) {
        l->parent_joint->type = urdf::Joint::FIXED;
      } else {
        switch (c.u(3)) {
          case 0: l->parent_joint->type = urdf::Joint::REVOLUTE; break;
          case 1: l->parent_joint->type = urdf::Joint::PRISMATIC; break;
          default: l->parent_joint->type = urdf::Joint::CONTINUOUS;
        }
      }
      const Eigen::Quaterniond q(gen::Rot(x.pose));
      auto& p = l->parent_joint->parent_to_joint_origin_transform;
      p.position.x = x.pose(0, 3);
      p.position.y = x.pose(1, 3);
      p.position.z = x.pose(2, 3);
      p.rotation.w = q.w();
      p.rotation.x = q.x();
      p.rotation.y = q.y();
      p.rotation.z = q.z();
    }
    links.push_back(l);
  }
  urdf::Files()["robot.urdf"] = links;
  // The library lists the parts in an order of its own.
  for (size_t k = links.size(); k > 1; --k) std::swap(urdf::Files()["robot.urdf"][k - 1], urdf::Files()["robot.urdf"][c.u(k)]);

  tf2_ros::Buffer buffer;
  const auto list = static_map_ros::ReadStaticTransformsFromUrdf("robot.urdf", &buffer);
  size_t fixed = 0;
  for (const Frame& x : f) fixed += x.parent >= 0 && x.fixed;
  REQUIRE(list.size() == fixed, list.size() << " transforms for " << fixed << " fixed joints");
  REQUIRE(buffer.edges.size() == fixed, "the frame buffer got " << buffer.edges.size() << " of " << fixed << " transforms");
  REQUIRE(buffer.all_static, "a fixed joint was not entered as static");
  for (const auto& s : list) {
    const Frame* x = nullptr;
    for (const Frame& y : f) if (y.name == s.child_frame_id) x = &y;
    REQUIRE(x && x->parent >= 0 && x->fixed, "a transform for something else: " << s.child_frame_id);
    REQUIRE(s.header.frame_id == f[x->parent].name, s.child_frame_id << " hangs on " << s.header.frame_id);
    const auto& t = s.transform;
    REQUIRE(gen::V3(t.translation.x, t.translation.y, t.translation.z) == Xyz(x->pose), "moved: " << s.child_frame_id);
    REQUIRE((Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z).toRotationMatrix() - gen::Rot(x->pose)).cwiseAbs().maxCoeff() < 1e-9,
            "turned: " << s.child_frame_id);
  }

  // Where is one part seen from another?
  tf::TransformListener listener;
  listener.buffer = buffer;
  int deep = 0;
  c.list(4, 10, [&] {
    const int a = c.u(f.size()), b = c.u(f.size());
    M4 pa, pb;
    const int ta = Top(f, a, &pa), tb = Top(f, b, &pb);
    if (ta != tb) return;
    // A part with neither a fixed joint nor a fixed child is unknown.
    if (!buffer.canTransform(f[a].name, f[b].name, ros::Time(0))) return;
    const M4 want = gen::Inv(pa) * pb;
    const M4 got = static_map_ros::LoopUpTransfrom(f[a].name, f[b].name, buffer);
    REQUIRE(gen::PoseDist(got, want) < 1e-6, f[b].name << " seen from " << f[a].name << ":\n" << got << "\nexpected\n" << want);
    // The same question asked on the network, answered after some time.
    const int late = c.b(1, 3) ? static_cast<int>(c.u(30)) : 0;
    listener.refuse = late;
    const M4 net = static_map_ros::LoopUpTransfrom(f[a].name, f[b].name, listener);
    REQUIRE(gen::PoseDist(net, want) < 1e-6, f[b].name << " seen from " << f[a].name << " (late by " << late << ")");
    REQUIRE(gen::IsRigid(got, 1e-6) && gen::IsRigid(net, 1e-6), "not a rigid pose");
    if (a != b) ++deep;
  });
  if (deep) c.nontrivial();
  c.note() << f.size() << " parts, " << deep << " questions";
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C48";
  s.rule = "at least one question about two different parts of the robot";
  s.assumptions = {"the robot description and frame libraries are replaced by in-memory ones with the same interface; reading the XML is theirs",
                   "the answer comes within the documented number of attempts"};
  s.subs.push_back({"robot", Robot, 40000, 400000});
  return s;
}
