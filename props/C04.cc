#include <algorithm>
#include "common/math.h"
#include "gen.h"

using namespace gen;
namespace cm = static_map::common;

template <typename T>
static void Interpolate(pbt::Case& c) {
  const M4 a = AnyPose(c, 100);
  M4 rel = c.b(1, 4) ? Motion(c, 1e-3, 0.01) : Motion(c, M_PI - 0.02, 50);
  if (c.b(1, 16)) rel = M4::Identity();
  const M4 b = a * rel;
  float f;
  switch (c.u(4)) {
    case 0: f = 0.f; break;
    case 1: f = 1.f; break;
    default: f = static_cast<float>(c.real(0, 1));
  }
  const double total = AngleOf(Rot(rel));
  c.note() << "angle " << total << " fraction " << f << " from " << Str(a) << " to " << Str(b);
  c.label(f == 0 ? "start" : (f == 1 ? "end" : "inside"));
  if (total > 1e-4 && f > 0 && f < 1) c.nontrivial();
  const double tol = sizeof(T) == 4 ? 3e-4 : 1e-9;
  const double ttol = sizeof(T) == 4 ? 1e-4 : 1e-5;  // the fraction itself is a float
  const Eigen::Matrix<T, 4, 4> r = cm::InterpolateTransform<T>(a.cast<T>(), b.cast<T>(), f);
  const M4 rd = r.template cast<double>();
  REQUIRE(IsRigid(rd, sizeof(T) == 4 ? 2e-5 : 1e-9), "not rigid: " << Str(rd));
  const M4 want = Interp(a, b, f);
  REQUIRE((Trans(rd) - Trans(want)).norm() <= ttol, "translation " << Trans(rd).transpose() << " want " << Trans(want).transpose());
  if (f == 0) REQUIRE((Rot(rd) - Rot(a)).cwiseAbs().maxCoeff() <= tol, "start rotation");
  if (f == 1) REQUIRE((Rot(rd) - Rot(b)).cwiseAbs().maxCoeff() <= tol, "end rotation");
  REQUIRE(std::fabs(Angle(Rot(a), Rot(rd)) - f * total) <= 2 * tol, "turned " << Angle(Rot(a), Rot(rd)) << " want " << f * total);
  // near a half turn the geodesic amplifies input rounding
  const double amp = 1 / std::max(0.02, M_PI - total);
  REQUIRE(Angle(Rot(rd), Rot(want)) <= tol * (1 + amp), "off the geodesic by " << Angle(Rot(rd), Rot(want)));
}

template <typename T>
static std::vector<Eigen::Matrix<T, 4, 4>> CastAll(const std::vector<M4>& v) {
  std::vector<Eigen::Matrix<T, 4, 4>> r;
  for (auto& m : v) r.push_back(m.cast<T>());
  return r;
}

template <typename T>
static void Average(pbt::Case& c) {
  const double tol = sizeof(T) == 4 ? 1e-4 : 1e-9;
  const double ro = AnyAngle(c), pi = c.real(-1, 1), ya = AnyAngle(c);
  const M4 base = Pose(Rpy(ro, pi, ya), Vec(c, 100));
  const size_t n = c.size(1, 8);
  const double spread = c.oneOf<double>({0, 0.01, 0.1});
  std::vector<M4> v;
  V3 mean(0, 0, 0);
  double delta = 0;
  for (size_t k = 0; k < n; ++k) {
    v.push_back(base * Pose(Exp(Unit(c) * (spread * c.real(0, 1))), VecFine(c, 10 * spread)));
    mean += Trans(v.back());
  }
  mean /= n;
  for (auto& x : v)
    for (auto& y : v) delta = std::max(delta, Angle(Rot(x), Rot(y)));
  c.note() << n << " poses around rpy " << ro << " " << pi << " " << ya << " spread " << delta;
  c.label(spread == 0 ? "identical" : "cluster");
  if (std::fabs(std::fabs(ya) - M_PI) < 0.1 || std::fabs(std::fabs(ro) - M_PI) < 0.1) c.label("near wrap");
  if (n > 1) c.nontrivial();
  const M4 avg = cm::AverageTransforms<T>(CastAll<T>(v)).template cast<double>();
  REQUIRE(IsRigid(avg, sizeof(T) == 4 ? 2e-5 : 1e-9), "not rigid");
  REQUIRE((Trans(avg) - mean).norm() <= tol * 10, "translation " << Trans(avg).transpose() << " want " << mean.transpose());
  if (spread == 0) REQUIRE(Angle(Rot(avg), Rot(base)) <= 10 * tol, "average of identical poses is off by " << Angle(Rot(avg), Rot(base)));
  if (n == 2) {
    const double d = Angle(Rot(v[0]), Rot(v[1]));
    for (auto& x : v)
      REQUIRE(Angle(Rot(avg), Rot(x)) <= d / 2 + 4 * d * d + 10 * tol, "midpoint is " << Angle(Rot(avg), Rot(x)) << " from a pose, distance " << d);
  }
  for (auto& x : v) REQUIRE(Angle(Rot(avg), Rot(x)) <= delta + 4 * delta * delta + 10 * tol, "outside the cluster by " << Angle(Rot(avg), Rot(x)) << " spread " << delta);
  std::vector<M4> rev(v.rbegin(), v.rend());
  const M4 avg2 = cm::AverageTransforms<T>(CastAll<T>(rev)).template cast<double>();
  REQUIRE(PoseDist(avg, avg2) <= 20 * tol + 4 * delta * delta, "order changes the average by " << PoseDist(avg, avg2));
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C04";
  s.rule = "pose pairs with relative angle up to pi-0.02 and fractions 0, 1 and inside; clusters of 1-8 poses with spread up to 0.1 rad; non-trivial: strictly inside fraction with a real turn, or at least two poses";
  s.assumptions = {"averaging is judged for pitch up to 1 rad and clusters within 0.2 rad"};
  s.subs.push_back({"interpolate_double", Interpolate<double>, 60000, 800000, 20, 8, 10000});
  s.subs.push_back({"interpolate_float", Interpolate<float>, 60000, 800000, 20, 8, 10000});
  s.subs.push_back({"average_double", Average<double>, 40000, 500000, 20, 8, 10000});
  s.subs.push_back({"average_float", Average<float>, 40000, 500000, 20, 8, 10000});
  return s;
}
