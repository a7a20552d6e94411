#include "common/math.h"
#include "gen.h"

using namespace gen;
namespace cm = static_map::common;

// eigenvalues of a symmetric 3x3 matrix by cyclic Jacobi rotations
static double SmallestEigen(M3 a) {
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int p = 0; p < 3; ++p)
      for (int q = p + 1; q < 3; ++q) {
        off += std::fabs(a(p, q));
        if (std::fabs(a(p, q)) < 1e-300) continue;
        const double th = 0.5 * std::atan2(2 * a(p, q), a(q, q) - a(p, p));
        M3 j = M3::Identity();
        j(p, p) = j(q, q) = std::cos(th);
        j(p, q) = std::sin(th);
        j(q, p) = -std::sin(th);
        a = j.transpose() * a * j;
      }
    if (off == 0) break;
  }
  return std::min(a(0, 0), std::min(a(1, 1), a(2, 2)));
}

template <typename T>
static void Angles(pbt::Case& c) {
  T x;
  switch (c.u(3)) {
    case 0: x = static_cast<T>(c.i(-12, 12) * M_PI / 4); break;
    case 1: x = static_cast<T>(c.real(-7, 7)); break;
    default: x = static_cast<T>(c.real(-200, 200));
  }
  c.note() << "angle " << x;
  if (std::fabs(x) > M_PI) c.nontrivial();
  const T r = cm::NormalizeAngleDifference<T>(x);
  const double tol = sizeof(T) == 4 ? 1e-4 : 1e-10;
  REQUIRE(std::fabs(r) <= M_PI + (sizeof(T) == 4 ? 1e-6 : 1e-14), "outside the interval: " << r);
  REQUIRE(std::fabs(std::remainder(static_cast<double>(r) - static_cast<double>(x), 2 * M_PI)) <= tol, "not equivalent: " << r);
  const double d = c.real(-720, 720);
  REQUIRE(std::fabs(cm::DegToRad(d) - d * M_PI / 180) < 1e-12, "degrees to radians");
  REQUIRE(std::fabs(cm::RadToDeg(cm::DegToRad(d)) - d) < 1e-9, "degrees round trip");
  REQUIRE(std::fabs(cm::RadToDeg(M_PI) - 180) < 1e-12, "half turn");
}

static void Arith(pbt::Case& c) {
  const int lo = c.i(-50, 50), hi = lo + c.u(60), v = c.i(-120, 120);
  const int w = v < lo ? lo : (v > hi ? hi : v);
  c.note() << "clamp " << v << " to [" << lo << "," << hi << "]";
  if (v < lo || v > hi) c.nontrivial();
  REQUIRE(cm::Clamp<int>(v, lo, hi) == w, "int clamp");
  REQUIRE(cm::Clamp<double>(v * 0.25, lo * 0.25, hi * 0.25) == w * 0.25, "double clamp");
  REQUIRE(cm::Clamp<float>(v * 0.25f, lo * 0.25f, hi * 0.25f) == w * 0.25f, "float clamp");
  const int e = c.u(9), b = c.i(-7, 7);
  int64_t p = 1;
  for (int k = 0; k < e; ++k) p *= b;
  REQUIRE(cm::Power<int64_t>(b, e) == p, "power " << b << "^" << e);
  REQUIRE(cm::Power<double>(b * 0.5, e) == static_cast<double>(p) / (1 << e), "power of halves");
  REQUIRE(cm::Pow2<int>(b) == b * b, "square");
}

template <typename T>
static void Plane(pbt::Case& c) {
  const V3 n = Unit(c), o = Vec(c, 50);
  V3 u = n.unitOrthogonal(), w = n.cross(u);
  const double noise = c.oneOf<double>({0, 0.01, 0.1});
  const size_t num = c.size(3, 40);
  std::vector<Eigen::Matrix<T, 3, 1>> pts;
  V3 mean(0, 0, 0);
  for (size_t k = 0; k < num; ++k) {
    const double pu = c.real(-5, 5), pw = c.real(-5, 5), pn = c.real(-1, 1) * noise;
    const V3 p = o + u * pu + w * pw + n * pn;
    pts.push_back(p.cast<T>());
    mean += pts.back().template cast<double>();
  }
  mean /= num;
  M3 cov = M3::Zero();
  for (auto& p : pts) {
    const V3 d = p.template cast<double>() - mean;
    cov += d * d.transpose();
  }
  const double best = std::max(0.0, SmallestEigen(cov));
  c.note() << num << " points near plane n=" << n.transpose() << " through " << o.transpose() << " noise " << noise;
  const auto r = cm::PlaneFitting<T>(pts);
  const V3 cen = r.first.template cast<double>(), nor = r.second.template cast<double>();
  const double eps = sizeof(T) == 4 ? 1e-5 : 1e-12;
  REQUIRE((cen - mean).norm() <= 60 * eps * 10, "centroid " << cen.transpose() << " want " << mean.transpose());
  REQUIRE(std::fabs(nor.norm() - 1) <= 100 * eps, "normal length " << nor.norm());
  double sum = 0;
  for (auto& p : pts) sum += std::pow((p.template cast<double>() - mean).dot(nor), 2);
  c.nontrivial();
  REQUIRE(sum <= best + 1e-3 * best + cov.trace() * 100 * eps * eps + cov.trace() * eps * (sizeof(T) == 4 ? 1 : 1e-2),
          "summed squared distance " << sum << " but the best plane has " << best);
}

template <int N>
static void Line(pbt::Case& c) {
  Eigen::Matrix<double, N, 1> p, o, d;
  for (int k = 0; k < N; ++k) {
    p[k] = Coord(c, 50);
    o[k] = Coord(c, 50);
    d[k] = Coord(c, 5);
  }
  if (d.norm() < 1e-3) c.discard();
  c.note() << "point " << p.transpose() << " line " << o.transpose() << " direction " << d.transpose();
  c.label(std::fabs(d.norm() - 1) < 1e-9 ? "unit direction" : "scaled direction");
  c.nontrivial();
  // minimise |o + t d - p| in closed form
  const double t = (p - o).dot(d) / d.squaredNorm();
  const double want = (o + t * d - p).norm();
  const double got = cm::DistanceToLine<N>(p, o, d);
  REQUIRE(std::fabs(got - want) <= 1e-9 * (1 + (p - o).norm()), "distance " << got << " want " << want);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C06";
  s.rule = "angles incl. multiples of a quarter turn, intervals with values on both sides, noisy and exact planes, lines with unit and scaled directions; trivial are angles already in range and unclamped values";
  s.subs.push_back({"angles_double", Angles<double>, 60000, 500000, 20, 8, 10000});
  s.subs.push_back({"angles_float", Angles<float>, 60000, 500000, 20, 8, 10000});
  s.subs.push_back({"arith", Arith, 60000, 500000, 20, 8, 10000});
  s.subs.push_back({"plane_double", Plane<double>, 30000, 300000, 20, 8, 10000});
  s.subs.push_back({"plane_float", Plane<float>, 30000, 300000, 20, 8, 10000});
  s.subs.push_back({"line2", Line<2>, 40000, 300000, 20, 8, 10000});
  s.subs.push_back({"line3", Line<3>, 40000, 300000, 20, 8, 10000});
  return s;
}
