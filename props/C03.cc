#include "common/math.h"
#include "gen.h"

using namespace gen;
namespace cm = static_map::common;

template <typename T>
struct Tol;
template <>
struct Tol<double> {
  static double base() { return 1e-10; }
  static double eps() { return 2.3e-16; }
  static const char* name() { return "double"; }
};
template <>
struct Tol<float> {
  static double base() { return 2e-5; }
  static double eps() { return 1.2e-7; }
  static const char* name() { return "float"; }
};
static double Wrap(double d) { return std::remainder(d, 2 * M_PI); }

template <typename T>
static void Encodings(pbt::Case& c) {
  const M3 r = AnyRotation(c);
  const V3 t = Vec(c, 1000);
  const Eigen::Matrix<T, 3, 3> R = r.cast<T>();
  c.note() << Tol<T>::name() << " rotation " << r.row(0) << "|" << r.row(1) << "|" << r.row(2) << " t " << t.transpose();
  if (AngleOf(r) > 1e-3) c.nontrivial();
  // decomposition rebuilds the rotation as yaw * pitch * roll
  const Eigen::Matrix<T, 3, 1> e = cm::RotationMatrixToEulerAngles<T>(R);
  REQUIRE(e.allFinite(), "angles " << e.transpose());
  REQUIRE(std::fabs(e[1]) <= M_PI / 2 + 1e-5 && std::fabs(e[0]) <= M_PI + 1e-5 && std::fabs(e[2]) <= M_PI + 1e-5,
          "angle ranges " << e.transpose());
  const double sy = std::hypot(R(0, 0), R(1, 0));
  const double tol = Tol<T>::base() + (sy < 1.01e-6 ? 1e-5 : 20 * Tol<T>::eps() / sy);
  c.label(sy < 1e-6 ? "singular" : (sy < 1e-2 ? "near singular" : "regular"));
  const M3 back = Rpy(e[0], e[1], e[2]);
  REQUIRE((back - r).cwiseAbs().maxCoeff() <= tol, "angles " << e.transpose() << " rebuild with error " << (back - r).cwiseAbs().maxCoeff());
  // matrix <-> quaternion <-> angles
  const Eigen::Quaternion<T> q = cm::EulerAnglesToQuaternion<T>(e);
  REQUIRE(std::fabs(q.norm() - 1) < Tol<T>::base(), "quaternion norm");
  REQUIRE((q.toRotationMatrix().template cast<double>() - back).cwiseAbs().maxCoeff() <= 10 * Tol<T>::base(), "quaternion of angles");
  REQUIRE((cm::EulerAnglesToRotationMatrix<T>(e).template cast<double>() - back).cwiseAbs().maxCoeff() <= 10 * Tol<T>::base(), "matrix of angles");
  Eigen::Quaternion<T> q2(R);
  const Eigen::Matrix<T, 3, 1> e2 = cm::QuaternionToEulers<T>(q2);
  REQUIRE((Rpy(e2[0], e2[1], e2[2]) - r).cwiseAbs().maxCoeff() <= 4 * tol + 10 * Tol<T>::base(), "angles of quaternion");
  // 4x4 <-> 6-vector
  Eigen::Matrix<T, 4, 4> m = Eigen::Matrix<T, 4, 4>::Identity();
  m.template block<3, 3>(0, 0) = R;
  m.template block<3, 1>(0, 3) = t.cast<T>();
  const Eigen::Matrix<T, 6, 1> v6 = cm::TransformToVector6<T>(m);
  for (int k = 0; k < 3; ++k) REQUIRE(v6[k] == m(k, 3), "translation of the 6-vector");
  REQUIRE((Rpy(v6[3], v6[4], v6[5]) - r).cwiseAbs().maxCoeff() <= tol, "angles of the 6-vector");
  const Eigen::Matrix<T, 4, 4> mb = cm::Vector6ToTransform<T>(v6);
  REQUIRE((mb.template cast<double>() - m.template cast<double>()).cwiseAbs().maxCoeff() <= tol + 10 * Tol<T>::base(), "6-vector back to pose");
  for (int k = 0; k < 3; ++k) REQUIRE(mb(k, 3) == m(k, 3), "translation changed");
  REQUIRE(mb(3, 0) == 0 && mb(3, 1) == 0 && mb(3, 2) == 0 && mb(3, 3) == 1, "bottom row");
  REQUIRE(cm::Rotation<T>(m) == R, "rotation part");
  const Eigen::Matrix<T, 3, 1> tp = cm::Translation<T>(m);
  REQUIRE(tp == (m.template block<3, 1>(0, 3)), "translation part");
}

template <typename T>
static void Numbers(pbt::Case& c) {
  const double lim = M_PI / 2 - 0.05;
  const double ro = AnyAngle(c), pi = AnyAngle(c, lim), ya = AnyAngle(c);
  const V3 t = Vec(c, 1000);
  c.note() << Tol<T>::name() << " rpy " << ro << " " << pi << " " << ya << " t " << t.transpose();
  c.nontrivial();
  Eigen::Matrix<T, 6, 1> v;
  v << T(t[0]), T(t[1]), T(t[2]), T(ro), T(pi), T(ya);
  const Eigen::Matrix<T, 4, 4> m = cm::Vector6ToTransform<T>(v);
  REQUIRE((Rot(m.template cast<double>()) - Rpy(ro, pi, ya)).cwiseAbs().maxCoeff() <= 10 * Tol<T>::base(), "pose from numbers");
  const Eigen::Matrix<T, 6, 1> w = cm::TransformToVector6<T>(m);
  const double tol = 100 * Tol<T>::base() + 20 * Tol<T>::eps() / std::cos(pi);
  for (int k = 0; k < 3; ++k) REQUIRE(w[k] == v[k], "translation " << k);
  for (int k = 3; k < 6; ++k)
    REQUIRE(std::fabs(Wrap(w[k] - v[k])) <= tol, "angle " << k << ": " << v[k] << " came back as " << w[k]);
  const Eigen::Matrix<T, 3, 1> e(v[3], v[4], v[5]);
  const Eigen::Matrix<T, 3, 1> e1 = cm::RotationMatrixToEulerAngles<T>(cm::EulerAnglesToRotationMatrix<T>(e));
  const Eigen::Matrix<T, 3, 1> e2 = cm::QuaternionToEulers<T>(cm::EulerAnglesToQuaternion<T>(e));
  for (int k = 0; k < 3; ++k) {
    REQUIRE(std::fabs(Wrap(e1[k] - e[k])) <= tol, "angle " << k << " via matrix: " << e[k] << " -> " << e1[k]);
    REQUIRE(std::fabs(Wrap(e2[k] - e[k])) <= tol, "angle " << k << " via quaternion: " << e[k] << " -> " << e2[k]);
  }
}

template <typename T>
static void Normalize(pbt::Case& c) {
  const M3 r = AnyRotation(c);
  const V3 t = Vec(c, 1000);
  M3 drift = M3::Zero();
  const double amount = c.oneOf<double>({0, 1e-6, 1e-4, 1e-3});
  for (int k = 0; k < 9; ++k) drift(k / 3, k % 3) = c.real(-1, 1) * amount;
  Eigen::Matrix<T, 4, 4> m = Eigen::Matrix<T, 4, 4>::Identity();
  m.template block<3, 3>(0, 0) = (r + drift).cast<T>();
  m.template block<3, 1>(0, 3) = t.cast<T>();
  const Eigen::Matrix<T, 4, 4> before = m;
  c.note() << Tol<T>::name() << " drift " << amount << " on " << r.row(0) << "|" << r.row(1) << "|" << r.row(2);
  c.label(amount == 0 ? "no drift" : "drift");
  if (amount > 0) c.nontrivial();
  cm::NormalizeRotation<T>(m);
  REQUIRE(IsRigid(m.template cast<double>(), Tol<T>::base()), "not a proper rotation after normalisation");
  REQUIRE((Rot(m.template cast<double>()) - r).cwiseAbs().maxCoeff() <= 6 * amount + Tol<T>::base(),
          "moved away from the drifted rotation by " << (Rot(m.template cast<double>()) - r).cwiseAbs().maxCoeff());
  REQUIRE((m.template block<3, 1>(0, 3) == before.template block<3, 1>(0, 3)), "translation changed");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C03";
  s.rule = "rotations from yaw-only, small, Euler-grid (quarter turns, singular pitch) and uniform axis-angle families with translations up to 1 km, in float and double; non-trivial unless the rotation is (nearly) the identity or no drift is applied";
  s.assumptions = {"near the pitch singularity the tolerance grows as machine epsilon over cos(pitch)"};
  s.subs.push_back({"encodings_double", Encodings<double>, 60000, 1000000, 20, 8, 10000});
  s.subs.push_back({"encodings_float", Encodings<float>, 60000, 1000000, 20, 8, 10000});
  s.subs.push_back({"numbers_double", Numbers<double>, 60000, 1000000, 20, 8, 10000});
  s.subs.push_back({"numbers_float", Numbers<float>, 60000, 1000000, 20, 8, 10000});
  s.subs.push_back({"normalize_double", Normalize<double>, 30000, 400000, 20, 8, 10000});
  s.subs.push_back({"normalize_float", Normalize<float>, 30000, 400000, 20, 8, 10000});
  return s;
}
