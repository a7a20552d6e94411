#include <unistd.h>
#include "maps.h"
#include "registrators/icp_fast.h"
#include "registrators/ndt.h"
#include "registrators/ndt_gicp.h"
#include "scene.h"

using namespace gen;
namespace reg = static_map::registrator;

namespace {

struct Method {
  const char* name;
  reg::Type type;
};
const std::vector<Method> kMethods = {{"icp", reg::kFastIcp}, {"ndt", reg::kNdt}, {"ndt+gicp", reg::kNdtWithGicp}};

std::shared_ptr<InnerPointCloudData> Data(const InnerCloudType::Ptr& cloud, bool normals) {
  auto d = std::make_shared<InnerPointCloudData>(cloud);
  if (normals) d->CalculateNormals();
  return d;
}


struct Limit {
  double t, r;
};
Limit LimitOf(reg::Type t) {
  switch (t) {
    case reg::kFastIcp:
      return {0.08, 0.02};
    case reg::kNdt:
      return {0.3, 0.1};
    default:
      return {0.03, 0.01};
  }
}

// Two views of one scene.
struct Pair {
  Method m;
  M4 motion, off, at;
  std::shared_ptr<InnerPointCloudData> target, source;
  std::vector<InnerPointType> target_before, source_before;
  Eigen::MatrixXd target_eigen;
  bool same;

  Pair(pbt::Case& c, const Method& method, double spread) : m(method) {
    const Scene scene(c);
    const double density = m.type == reg::kNdt ? 14 : 9;
    same = c.b();
    const double noise = c.oneOf<double>({0, 0.005, 0.01});
    const uint64_t seed = c.u(0);
    // clouds far away from their origin too
    const V3 far = c.b(1, 4) ? V3(c.i(-40, 40), c.i(-40, 40), c.i(-10, 10)) : V3(0, 0, 0);
    auto turn = [&](double a, double b) {
      const double r = c.real(-a, a), p = c.real(-a, a), y = c.real(-b, b);
      return Rpy(r, p, y);
    };
    auto move = [&](double a, double b) {
      const double x = c.real(-a, a), y = c.real(-a, a), z = c.real(-b, b);
      return V3(x, y, z);
    };
    const M3 r0 = turn(0.05, 3);
    const M4 tp = Pose(r0, move(1, 0.1) + V3(0, 0, 1.2) + far);
    const M3 r1 = turn(0.03, 0.3);
    motion = Pose(r1, move(1, 0.1));
    const M3 r2 = turn(0.02 * spread, 0.05 * spread);
    const M4 err = Pose(r2, move(0.2 * spread, 0.05 * spread));
    target = Data(View(scene.Sample(seed, density, noise), tp), m.type == reg::kFastIcp);
    source = Data(View(scene.Sample(same ? seed : seed + 1, density, noise), tp * motion), false);
    // the guess is off by that much at the centre of the cloud
    V3 mid(0, 0, 0);
    for (const auto& p : source->GetInnerCloud()->points) mid += P(p);
    at = Pose(M3::Identity(), mid / source->GetInnerCloud()->points.size());
    off = at * err * Inv(at);
    if (far.norm() > 0) c.label("far from the origin");
    target_before = target->GetInnerCloud()->points;
    source_before = source->GetInnerCloud()->points;
    if (m.type == reg::kFastIcp) target_eigen = target->GetEigenCloud()->points;
    c.note() << m.name << ", " << source_before.size() << " points, motion of " << Trans(motion).norm() << " m and "
             << AngleOf(Rot(motion)) << " rad, guess off by " << Trans(err).norm() << " m and " << AngleOf(Rot(err)) << " rad";
  }
  void Untouched() const {
    SameCloud(target->GetInnerCloud()->points, target_before, 0, "target after aligning");
    SameCloud(source->GetInnerCloud()->points, source_before, 0, "source after aligning");
    if (m.type == reg::kFastIcp)
      REQUIRE(target->GetEigenCloud()->points == target_eigen, "target representation changed by aligning");
  }
};

double Shift(const std::vector<InnerPointType>& cloud, const M4& a, const M4& b) {
  const M4 d = a - b;
  double sum = 0;
  for (const auto& p : cloud) sum += (Rot(d) * P(p) + Trans(d)).norm();
  return sum / cloud.size();
}

void Near(const Pair& p, const M4& got, const M4& want, const std::string& what, double factor = 1) {
  const Method& m = p.m;
  REQUIRE(IsRigid(got, 1e-4), m.name << " " << what << ": not a rigid pose\n" << got);
  const double dt = Shift(p.source_before, got, want), da = Angle(Rot(got), Rot(want));
  REQUIRE(dt <= LimitOf(m.type).t * factor && da <= LimitOf(m.type).r * factor,
          m.name << " " << what << ": points off by " << dt << " m, turned by " << da << " rad");
}

// A matcher with options as they come from a configuration file.
std::shared_ptr<reg::Interface> Make(pbt::Case& c, const Method& m, pugi::xml_document* doc) {
  reg::MatcherOptions options;
  options.type = m.type;
  auto node = doc->append_child("registrator_options");
  auto param = [&](const char* name, const std::string& value) {
    auto p = node.append_child("param");
    p.append_attribute("name") = name;
    p.text() = value.c_str();
    c.label(std::string(name) + " given");
  };
  if (m.type == reg::kFastIcp) {
    if (c.b(1, 4)) param("max_iteration", c.oneOf<const char*>({"40", "60", "200"}));
    if (c.b(1, 4)) param("dist_outlier_ratio", c.oneOf<const char*>({"0.6", "0.8", "0.95", "1"}));
  } else if (m.type == reg::kNdtWithGicp) {
    if (c.b(1, 4)) param("use_ndt", c.oneOf<const char*>({"false", "true"}));
    if (c.b(1, 4)) param("using_voxel_filter", c.oneOf<const char*>({"false", "true"}));
    if (c.b(1, 4)) param("voxel_resolution", c.oneOf<const char*>({"0.1", "0.3"}));
  }
  if (node.first_child() || c.b()) options.registrator_options_node = node;
  auto matcher = reg::CreateMatcher(options, c.b(1, 8));
  REQUIRE(matcher && matcher->GetType() == m.type, "matcher of the wrong type");
  return matcher;
}

double Align(const std::shared_ptr<reg::Interface>& matcher, const Pair& p, const M4& guess, M4* result) {
  matcher->SetInputTarget(p.target);
  matcher->SetInputSource(p.source);
  *result = M4::Zero();
  matcher->Align(guess, *result);
  const double score = matcher->GetFitnessScore();
  REQUIRE(std::isfinite(score) && score >= 0 && score <= 1.0000001, p.m.name << ": score " << score);
  return score;
}

void Recover(pbt::Case& c) {
  const Pair p(c, c.pick(kMethods), 1);
  pugi::xml_document doc;
  auto matcher = Make(c, p.m, &doc);
  if (c.b(1, 3)) {  // the object has been used for something else before
    const Pair before(c, p.m, 1);
    M4 r;
    Align(matcher, before, before.motion * before.off, &r);
    Near(before, r, before.motion, "earlier use");
    c.label("used before");
  }
  M4 result, again;
  const double good = Align(matcher, p, p.motion * p.off, &result);
  Near(p, result, p.motion, "result");
  p.Untouched();
  c.label(p.m.name);
  if (AngleOf(Rot(p.motion)) > 0.02 && Trans(p.motion).norm() > 0.1) c.nontrivial();
  if (c.b(1, 4)) {
    const double s = Align(matcher, p, p.motion * p.off, &again);
    REQUIRE(PoseDist(result, again) < 1e-4 && std::fabs(s - good) < 1e-4, p.m.name << ": aligning again gives another result");
  }
  // a wrong alignment scores lower
  const double yaw = c.oneOf<double>({-1, 1}) * c.real(1, 2);
  const M4 wrong = p.motion * p.at * Pose(Rz(yaw), V3(c.real(-2, 2), c.real(-2, 2), 0.5)) * Inv(p.at);
  const double bad = Align(matcher, p, wrong, &again);
  if (Shift(p.source_before, again, p.motion) > 0.8) {
    REQUIRE(bad < good, p.m.name << ": a wrong alignment scores " << bad << ", the right one " << good);
    c.label("wrong alignment compared");
  }
}

void Self(pbt::Case& c) {
  Pair p(c, c.pick(kMethods), 1);
  p.source = Data(p.target->GetInnerCloud(), false);
  p.source_before = p.target_before;
  pugi::xml_document doc;
  auto matcher = Make(c, p.m, &doc);
  M4 result;
  Align(matcher, p, M4::Identity(), &result);
  Near(p, result, M4::Identity(), "cloud with itself", p.m.type == reg::kNdt ? 0.7 : 0.5);
  p.Untouched();
  c.nontrivial();
  c.label(p.m.name);
}

// The source was taken while moving; the registration undoes that itself.
void Compensate(pbt::Case& c) {
  Pair p(c, kMethods[0], 1);
  const V3 mean = p.target->GetEigenCloud()->points.rowwise().mean();
  const M4 tm = Pose(M3::Identity(), mean);
  const M4 guess = p.motion;
  // residual motion over the sweep, on top of the guess
  const M4 x = p.off;
  auto cloud = p.source->GetInnerCloud();
  for (size_t k = 0; k < cloud->points.size(); ++k) {
    InnerPointType& q = cloud->points[k];
    const V3 at = Rot(p.motion) * P(q) + Trans(p.motion);  // in the target frame
    const M4 back = Inv(guess) * tm * Inv(Interp(M4::Identity(), x, q.factor)) * Inv(tm);
    const V3 v = Rot(back) * at + Trans(back);
    q.x = v[0], q.y = v[1], q.z = v[2];
  }
  p.source = Data(cloud, false);
  p.source_before = cloud->points;
  pugi::xml_document doc;
  auto matcher = Make(c, p.m, &doc);
  matcher->EnableInnerCompensation();
  M4 result;
  Align(matcher, p, guess, &result);
  Near(p, result, tm * x * Inv(tm) * guess, "while moving", 1.5);
  p.Untouched();
  if (Shift(p.source_before, x, M4::Identity()) > 0.05) c.nontrivial();
  if (c.b(1, 3)) {
    // switched off again, a still view is matched as usual
    const Pair still(c, kMethods[0], 1);
    matcher->DisableInnerCompensation();
    Align(matcher, still, still.motion * still.off, &result);
    Near(still, result, still.motion, "after moving");
  }
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C36";
  s.rule = "two views that differ by more than 0.1 m and 0.02 rad, a cloud against itself, or a view distorted by motion";
  s.assumptions = {"the pointmatcher-based method cannot be built here and is not exercised",
                   "nearest neighbours come from an exact stand-in for libnabo"};
  s.subs.push_back({"recover", Recover, 1200, 12000, 120, 8, 50});
  s.subs.push_back({"self", Self, 300, 3000, 120, 8, 50});
  s.subs.push_back({"compensate", Compensate, 300, 3000, 120, 8, 50});
  return s;
}
