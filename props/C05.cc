#include <set>
#include <tuple>
#include "common/math.h"
#include "gen.h"

using namespace gen;
namespace cm = static_map::common;

static double SegDist(const V3& p, const V3& a, const V3& b) {
  const V3 d = b - a;
  const double l = d.squaredNorm();
  double t = l > 0 ? (p - a).dot(d) / l : 0;
  t = std::min(1.0, std::max(0.0, t));
  return (a + t * d - p).norm();
}

static void Ray(pbt::Case& c) {
  const float step = c.b() ? c.oneOf<float>({1.f, 0.5f, 0.1f, 0.2f, 0.25f}) : static_cast<float>(c.real(0.02, 3));
  const double range = step * c.oneOf<double>({3, 30, 300});
  Eigen::Vector3f a, b;
  for (int k = 0; k < 3; ++k) {
    a[k] = c.b(1, 3) ? static_cast<float>(c.i(-20, 20)) * step : static_cast<float>(c.real(-range, range));
    switch (c.u(5)) {
      case 0: b[k] = a[k]; break;
      case 1: b[k] = static_cast<float>(c.i(-20, 20)) * step; break;
      default: b[k] = static_cast<float>(c.real(-range, range));
    }
  }
  const bool dda = c.b();
  c.note() << (dda ? "dda " : "bresenham ") << a.transpose() << " -> " << b.transpose() << " step " << step;
  const std::vector<Eigen::Vector3i> v =
      dda ? cm::VoxelCastingDDA(a, b, step) : cm::VoxelCastingBresenham(a, b, step);
  REQUIRE(!v.empty(), "no voxel");
  auto contains = [&](const Eigen::Vector3i& i, const Eigen::Vector3f& p) {
    for (int k = 0; k < 3; ++k) {
      const double tol = 2e-6 * (std::fabs(p[k]) + step);
      if (p[k] < i[k] * static_cast<double>(step) - tol || p[k] > (i[k] + 1) * static_cast<double>(step) + tol) return false;
    }
    return true;
  };
  REQUIRE(contains(v.front(), a), "first voxel " << v.front().transpose() << " does not hold the start");
  REQUIRE(contains(v.back(), b), "last voxel " << v.back().transpose() << " does not hold the end");
  if (v.size() > 2) c.nontrivial();
  c.label(v.size() == 1 ? "single voxel" : (v.size() < 10 ? "short" : "long"));
  const Eigen::Vector3i dir = v.back() - v.front();
  std::set<std::tuple<int, int, int>> seen;
  for (size_t k = 0; k < v.size(); ++k) {
    REQUIRE(seen.insert(std::make_tuple(v[k][0], v[k][1], v[k][2])).second, "voxel repeats");
    const V3 centre = (v[k].cast<double>() + V3(0.5, 0.5, 0.5)) * step;
    const double d = SegDist(centre, a.cast<double>(), b.cast<double>());
    REQUIRE(d <= (std::sqrt(3.0) + 1) * step, "voxel " << v[k].transpose() << " is " << d << " from the segment");
    if (k == 0) continue;
    const Eigen::Vector3i s = v[k] - v[k - 1];
    REQUIRE(s.cwiseAbs().maxCoeff() == 1, "jump " << s.transpose());
    for (int j = 0; j < 3; ++j) REQUIRE(s[j] == 0 || (s[j] > 0) == (dir[j] > 0), "moves away from the end on axis " << j);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C05";
  s.rule = "segments with ends on and off the grid, in every octant, with equal coordinates, up to 300 voxels per axis, both traversal routines; non-trivial when at least three voxels are visited";
  s.assumptions = {"coordinates are finite and below 300 voxels per axis", "a point on a voxel face may belong to either voxel"};
  s.subs.push_back({"ray", Ray, 200000, 2000000, 20, 8, 10000});
  return s;
}
