// Shared generators and independent reference geometry.
#ifndef VERIF_HARNESS_GEN_H_
#define VERIF_HARNESS_GEN_H_

#include <Eigen/Dense>
#include <cmath>
#include <vector>

#include "pbt.h"

namespace gen {

using M3 = Eigen::Matrix3d;
using M4 = Eigen::Matrix4d;
using V3 = Eigen::Vector3d;

// --- independent rotation arithmetic (no use of the code under test) ---
inline M3 Rx(double a) {
  M3 m;
  m << 1, 0, 0, 0, std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a);
  return m;
}
inline M3 Ry(double a) {
  M3 m;
  m << std::cos(a), 0, std::sin(a), 0, 1, 0, -std::sin(a), 0, std::cos(a);
  return m;
}
inline M3 Rz(double a) {
  M3 m;
  m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
  return m;
}
inline M3 Rpy(double r, double p, double y) { return Rz(y) * Ry(p) * Rx(r); }
inline M3 Skew(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
inline M3 Exp(const V3& w) {
  const double t = w.norm();
  if (t < 1e-12) return M3::Identity() + Skew(w);
  const M3 k = Skew(w / t);
  return M3::Identity() + std::sin(t) * k + (1 - std::cos(t)) * k * k;
}
// rotation angle in [0, pi], accurate near 0
inline double AngleOf(const M3& r) {
  const V3 s(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
  return std::atan2(s.norm() / 2, (r.trace() - 1) / 2);
}
inline V3 Log(const M3& r) {  // valid away from pi
  const V3 s(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
  const double t = AngleOf(r);
  const double n = s.norm();
  if (n < 1e-12) return s / 2;
  return s / n * t;
}
inline double Angle(const M3& a, const M3& b) { return AngleOf(a.transpose() * b); }
inline M4 Pose(const M3& r, const V3& t) {
  M4 m = M4::Identity();
  m.block<3, 3>(0, 0) = r;
  m.block<3, 1>(0, 3) = t;
  return m;
}
inline M3 Rot(const M4& m) { return m.block<3, 3>(0, 0); }
inline V3 Trans(const M4& m) { return m.block<3, 1>(0, 3); }
inline M4 Inv(const M4& m) {
  return Pose(Rot(m).transpose(), -Rot(m).transpose() * Trans(m));
}
// geodesic interpolation, valid for relative angles away from pi
inline M4 Interp(const M4& a, const M4& b, double f) {
  return Pose(Rot(a) * Exp(Log(Rot(a).transpose() * Rot(b)) * f),
              Trans(a) + (Trans(b) - Trans(a)) * f);
}
inline bool IsRigid(const M4& m, double tol) {
  return (Rot(m) * Rot(m).transpose() - M3::Identity()).cwiseAbs().maxCoeff() < tol &&
         std::fabs(Rot(m).determinant() - 1) < 3 * tol && m(3, 0) == 0 && m(3, 1) == 0 &&
         m(3, 2) == 0 && m(3, 3) == 1 && m.allFinite();
}
inline double PoseDist(const M4& a, const M4& b) {
  return (a - b).cwiseAbs().maxCoeff();
}

// --- generators ---
// coordinate: integers, halves, fine values
inline double Coord(pbt::Case& c, double range) {
  switch (c.u(4)) {
    case 0:
      return static_cast<double>(c.i(-static_cast<int64_t>(range), static_cast<int64_t>(range)));
    case 1:
      return 0.5 * c.i(-static_cast<int64_t>(2 * range), static_cast<int64_t>(2 * range));
    case 2:
      return c.real(-1, 1);
    default:
      return c.real(-range, range);
  }
}
inline V3 Vec(pbt::Case& c, double range) {
  const double x = Coord(c, range), y = Coord(c, range), z = Coord(c, range);
  return V3(x, y, z);
}
// fine vector with independent components
inline V3 VecFine(pbt::Case& c, double range) {
  const double x = c.real(-range, range), y = c.real(-range, range), z = c.real(-range, range);
  return V3(x, y, z);
}
// unit vector
inline V3 Unit(pbt::Case& c) {
  const double z = c.real(-1, 1), a = c.real(-M_PI, M_PI);
  const double r = std::sqrt(std::max(0.0, 1 - z * z));
  return V3(r * std::cos(a), r * std::sin(a), z);
}
// angle with emphasis on multiples of a quarter turn
inline double AnyAngle(pbt::Case& c, double range = M_PI) {
  if (c.b(1, 6)) {
    const double q = c.i(-4, 4) * M_PI / 4;
    if (std::fabs(q) <= range) return q;
  }
  return c.real(-range, range);
}
inline M3 AnyRotation(pbt::Case& c) {
  switch (c.u(4)) {
    case 0:
      return Rz(AnyAngle(c));
    case 1:
      return Exp(Unit(c) * c.real(0, 0.2));
    case 2: {
      const double r = AnyAngle(c), p = AnyAngle(c, M_PI / 2), y = AnyAngle(c);
      return Rpy(r, p, y);
    }
    default:
      return Exp(Unit(c) * c.real(0, M_PI));
  }
}
// now and then no translation, no rotation, or hardly any of both
inline M4 MaybeDegenerate(pbt::Case& c, const M4& m) {
  switch (c.u(12)) {
    case 9:
      return Pose(Rot(m), V3(0, 0, 0));
    case 10:
      return Pose(M3::Identity(), Trans(m));
    case 11: {
      const double s = std::pow(10, -c.real(1, 6));
      return Pose(Exp(Unit(c) * s), VecFine(c, s));
    }
    default:
      return m;
  }
}
inline M4 AnyPose(pbt::Case& c, double range = 100) {
  const M3 r = AnyRotation(c);
  return MaybeDegenerate(c, Pose(r, Vec(c, range)));
}
// A motion with bounded angle and translation.
inline M4 Motion(pbt::Case& c, double max_angle, double max_trans) {
  const V3 axis = Unit(c);
  const double a = c.real(0, max_angle);
  const V3 t = VecFine(c, max_trans);
  return MaybeDegenerate(c, Pose(Exp(axis * a), t));
}
inline std::string Str(const M4& m) {
  std::ostringstream o;
  o << m.format(Eigen::IOFormat(6, 0, ",", ";", "", "", "[", "]"));
  return o.str();
}

}  // namespace gen

#endif  // VERIF_HARNESS_GEN_H_
