#include "cloudgen.h"

using namespace gen;
using static_map::data::EigenPointCloud;

static void Compensate(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 80);
  EigenPointCloud e(in->points);
  const size_t n = in->points.size();
  REQUIRE(e.factors.size() == n, "factors");
  for (size_t k = 0; k < n; ++k)
    REQUIRE(std::fabs(e.factors[k] - static_cast<double>(k) / n) < 1e-12, "factor " << k << " is " << e.factors[k]);
  const bool custom = c.b();
  if (custom)
    for (size_t k = 0; k < n; ++k) e.factors[k] = k < 30 ? c.oneOf<double>({0, 1, 0.5, c.real(0, 1)}) : 0.25;
  M4 t = Motion(c, c.oneOf<double>({0.1, 1, 2.5}), 5);
  if (c.b(1, 8)) t = M4::Identity();
  c.note() << n << " points, " << (custom ? "drawn" : "even") << " fractions, motion " << Str(t);
  if (PoseDist(t, M4::Identity()) > 1e-3) c.nontrivial();
  c.label(custom ? "custom" : "even");
  const Eigen::MatrixXd p0 = e.points;
  const std::vector<double> f = e.factors;
  e.ApplyMotionCompensation(t);
  REQUIRE(e.points.cols() == p0.cols(), "size");
  for (size_t k = 0; k < n; ++k) {
    const M4 m = Interp(M4::Identity(), t, f[k]);
    const V3 q = p0.col(k);
    const V3 want = m.block<3, 3>(0, 0) * q + m.block<3, 1>(0, 3);
    REQUIRE((e.points.col(k) - want).norm() <= 1e-5 * (1 + q.norm()), "point " << k << " with fraction " << f[k] << " is at "
                                                                  << e.points.col(k).transpose() << " want " << want.transpose());
  }
  REQUIRE(e.factors == f, "fractions changed");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C12";
  s.rule = "clouds of 1-200 points with the fractions of a fresh cloud or drawn ones (0, 1, ties, arbitrary) and sweep motions of up to 5 m and 2.5 rad; oracle is constant-velocity interpolation (linear position, geodesic rotation) in double; non-trivial when the motion is not the identity";
  s.assumptions = {"1e-5 relative tolerance for the interpolated rotation"};
  s.subs.push_back({"compensate", Compensate, 10000, 150000});
  return s;
}
