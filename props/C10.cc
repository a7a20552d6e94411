#include "cloudgen.h"

using namespace gen;
using static_map::data::EigenPointCloud;
using static_map::data::InnerPointCloudData;

static double Tol(const M4& t, const V3& p) { return 2e-6 * (p.cwiseAbs().sum() + t.block<3, 1>(0, 3).cwiseAbs().sum() + 1); }

static void Inner(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 0, 300, 100);
  const M4 t = AnyPose(c, 1000);
  c.note() << Str(in->points, 3) << " by " << Str(t);
  if (!in->points.empty() && PoseDist(t, M4::Identity()) > 1e-3) c.nontrivial();
  InnerCloudType a = *in, out;
  if (c.b()) out.points.resize(c.u(5));
  a.ApplyTransformInplace(t);
  in->ApplyTransformToOutput(t, &out);
  REQUIRE(a.points.size() == in->points.size() && out.points.size() == in->points.size(), "size changed");
  REQUIRE(SameStamp(a.stamp, in->stamp) && SameStamp(out.stamp, in->stamp), "stamp changed");
  for (size_t k = 0; k < in->points.size(); ++k) {
    const V3 q = P(in->points[k]);
    const V3 want = t.block<3, 3>(0, 0) * q + t.block<3, 1>(0, 3);
    const double tol = Tol(t, q);
    for (const InnerCloudType* o : {static_cast<const InnerCloudType*>(&a), static_cast<const InnerCloudType*>(&out)}) {
      REQUIRE((P(o->points[k]) - want).norm() <= tol, "point " << k << " is at " << P(o->points[k]).transpose() << " want " << want.transpose());
      REQUIRE(o->points[k].intensity == in->points[k].intensity && o->points[k].factor == in->points[k].factor, "attributes of point " << k);
    }
  }
}

static void Eigen_(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 100);
  const M4 t = AnyPose(c, 1000);
  EigenPointCloud e(in->points);
  const bool normals = c.b();
  if (normals) {
    // filled by hand, so that this does not depend on the estimation
    e.normals.resize(3, e.points.cols());
    for (int k = 0; k < e.points.cols(); ++k) e.normals.col(k) = k < 20 ? Unit(c) : V3(0, 0, 1);
  }
  const Eigen::MatrixXd p0 = e.points, n0 = e.normals;
  c.note() << p0.cols() << " points" << (normals ? " with normals" : "") << " by " << Str(t);
  c.nontrivial();
  c.label(normals ? "normals" : "plain");
  e.ApplyTransform(t);
  REQUIRE(e.points.cols() == p0.cols() && e.points.rows() == 3, "shape");
  REQUIRE(e.HasNormals() == normals, "normals appeared or vanished");
  for (int k = 0; k < p0.cols(); ++k) {
    const V3 want = t.block<3, 3>(0, 0) * p0.col(k) + t.block<3, 1>(0, 3);
    REQUIRE((e.points.col(k) - want).norm() <= 1e-9 * (1 + want.norm()), "point " << k);
    if (normals) {
      const V3 wn = t.block<3, 3>(0, 0) * n0.col(k);
      REQUIRE((e.normals.col(k) - wn).norm() <= 1e-9, "normal " << k << " is " << e.normals.col(k).transpose() << " want " << wn.transpose());
    }
  }
}

// The holder moves both of its clouds, and moving back restores them.
static void Holder(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 100);
  const InnerCloudType before = *in;
  InnerPointCloudData h(in);
  M4 sum = M4::Identity();
  const int n = 1 + c.u(3);
  for (int k = 0; k < n; ++k) {
    const M4 t = AnyPose(c, 200);
    h.TransformCloud(t);
    sum = t * sum;
  }
  c.note() << before.points.size() << " points, " << n << " transforms, total " << Str(sum);
  c.nontrivial();
  REQUIRE(SameStamp(h.GetTime(), before.stamp), "time");
  auto inner = h.GetInnerCloud();
  auto eig = h.GetEigenCloud();
  REQUIRE(inner->points.size() == before.points.size() && eig->points.cols() == static_cast<int>(before.points.size()), "size");
  for (size_t k = 0; k < before.points.size(); ++k) {
    const V3 q = P(before.points[k]);
    const V3 want = sum.block<3, 3>(0, 0) * q + sum.block<3, 1>(0, 3);
    const double tol = 2e-6 * n * (q.cwiseAbs().sum() + 600 * n);
    REQUIRE((P(inner->points[k]) - want).norm() <= tol, "inner point " << k);
    REQUIRE((eig->points.col(k) - want).norm() <= 1e-7, "eigen point " << k);
    REQUIRE(inner->points[k].intensity == before.points[k].intensity, "intensity " << k);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C10";
  s.rule = "clouds of up to 300 points moved by arbitrary poses (any rotation, up to 1 km), in place, into another cloud, as Eigen cloud with and without normals, and through the holder with up to three chained moves; oracle R*p+t in double; non-trivial when the pose moves something";
  s.assumptions = {"single precision clouds may be off by 2e-6 of the coordinate sizes"};
  s.subs.push_back({"inner", Inner, 8000, 150000});
  s.subs.push_back({"eigen", Eigen_, 6000, 100000});
  s.subs.push_back({"holder", Holder, 4000, 60000});
  return s;
}
