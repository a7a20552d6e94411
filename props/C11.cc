#include <map>
#include <set>
#include "cloudgen.h"

using namespace gen;
using static_map::data::EigenPointCloud;

struct Group {
  std::vector<int> ids;
  V3 mean;
  Eigen::Vector3d lambda;  // of the covariance, ascending
  V3 dir;                  // least variance
};

// Recursive median split along the widest side until at most seven points are left.
static void Split(const Eigen::MatrixXd& p, std::vector<int> ids, V3 lo, V3 hi, std::vector<Group>* out) {
  if (ids.size() <= 7) {
    Group g;
    g.ids = ids;
    g.mean.setZero();
    for (int i : ids) g.mean += p.col(i);
    g.mean /= ids.size();
    Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
    for (int i : ids) cov += (p.col(i) - g.mean) * (p.col(i) - g.mean).transpose();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
    g.lambda = es.eigenvalues();
    g.dir = es.eigenvectors().col(0);
    out->push_back(g);
    return;
  }
  int dim;
  (hi - lo).maxCoeff(&dim);
  std::sort(ids.begin(), ids.end(), [&](int a, int b) { return p(dim, a) < p(dim, b); });
  const size_t left = ids.size() - ids.size() / 2;
  const double cut = p(dim, ids[left]);
  V3 lhi = hi, rlo = lo;
  lhi[dim] = cut;
  rlo[dim] = cut;
  Split(p, std::vector<int>(ids.begin(), ids.begin() + left), lo, lhi, out);
  Split(p, std::vector<int>(ids.begin() + left, ids.end()), rlo, hi, out);
}
static std::vector<Group> Groups(const Eigen::MatrixXd& p) {
  std::vector<int> ids(p.cols());
  for (int k = 0; k < p.cols(); ++k) ids[k] = k;
  std::vector<Group> g;
  Split(p, ids, p.rowwise().minCoeff(), p.rowwise().maxCoeff(), &g);
  return g;
}
static bool AllDistinct(const Eigen::MatrixXd& p) {
  for (int d = 0; d < 3; ++d) {
    std::set<double> s;
    for (int k = 0; k < p.cols(); ++k)
      if (!s.insert(p(d, k)).second) return false;
  }
  return true;
}
static void UnitNormals(const EigenPointCloud& e) {
  REQUIRE(e.normals.cols() == e.points.cols(), e.normals.cols() << " normals for " << e.points.cols() << " points");
  for (int k = 0; k < e.normals.cols(); ++k) {
    REQUIRE(e.normals.col(k).allFinite() && e.points.col(k).allFinite(), "normal " << e.normals.col(k).transpose() << " at " << e.points.col(k).transpose());
    REQUIRE(std::fabs(e.normals.col(k).norm() - 1) < 1e-6, "normal of length " << e.normals.col(k).norm());
  }
}
// Matches the retained points with the expected groups; returns group of each point.
static std::vector<int> Match(const EigenPointCloud& e, const std::vector<Group>& g, const std::set<int>& maybe_dropped, double tol) {
  std::vector<int> r(e.points.cols(), -1), used(g.size(), 0);
  for (int k = 0; k < e.points.cols(); ++k) {
    for (size_t j = 0; j < g.size(); ++j)
      if (!used[j] && (g[j].mean - e.points.col(k)).norm() <= tol) {
        used[j] = 1;
        r[k] = j;
        break;
      }
    REQUIRE(r[k] >= 0, "retained point " << e.points.col(k).transpose() << " is not the centre of one of the " << g.size() << " neighbourhoods");
  }
  for (size_t j = 0; j < g.size(); ++j)
    REQUIRE(used[j] || maybe_dropped.count(j), "neighbourhood around " << g[j].mean.transpose() << " of " << g[j].ids.size() << " points has no normal");
  return r;
}

static void Plane(pbt::Case& c) {
  const V3 n = Unit(c);
  V3 u = n.unitOrthogonal(), v = n.cross(u);
  double off = 0;
  switch (c.u(4)) {
    case 0: off = 0; break;  // through the origin
    case 1: off = c.real(-1e-6, 1e-6); break;
    case 2: off = c.real(-0.1, 0.1); break;
    default: off = c.real(-60, 60);
  }
  const V3 centre = c.b() ? V3(u * c.real(-50, 50) + v * c.real(-50, 50)) : V3(V3::Zero());
  const int count = c.size(3, 150);
  std::vector<InnerPointType> pts(count);
  Eigen::MatrixXd exact(3, count);
  uint64_t x = c.u(1ull << 30) + 88172645463325252ull;
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) * (1.0 / 9007199254740992.0);
  };
  const double range = c.oneOf<double>({1, 5, 40});
  for (int k = 0; k < count; ++k) exact.col(k) = centre + n * off + u * (2 * rnd() - 1) * range + v * (2 * rnd() - 1) * range;
  for (int k = 0; k < count; ++k) {
    pts[k].x = exact(0, k);
    pts[k].y = exact(1, k);
    pts[k].z = exact(2, k);
  }
  EigenPointCloud e(pts);
  const bool dbl = c.b();
  if (dbl) e.points = exact;
  const Eigen::MatrixXd in = e.points;
  c.note() << count << " points on the plane with normal " << n.transpose() << " at " << off << " from the origin, range " << range;
  c.label(off == 0 ? "through origin" : (std::fabs(off) < 1e-6 ? "almost through origin" : "off origin"));
  e.CalculateNormals();
  REQUIRE(e.HasNormals() || e.points.cols() == 0, "no normals");
  UnitNormals(e);
  int checked = 0;
  // axis-aligned planes have ties in one coordinate: only the normals are judged
  const bool tie = !AllDistinct(in);
  std::vector<Group> g;
  std::vector<int> of;
  if (!tie) {
    g = Groups(in);
    std::set<int> thin;
    for (size_t j = 0; j < g.size(); ++j)
      if (g[j].lambda[1] < 1e-9 * g[j].lambda[2]) thin.insert(j);
    of = Match(e, g, thin, 1e-6);
  }
  for (int k = 0; k < e.points.cols(); ++k) {
    const V3 p = e.points.col(k);
    REQUIRE(std::fabs((p - centre).dot(n) - off) <= 1e-5 * (1 + range + centre.norm() + std::fabs(off)), "retained point off the plane");
    if (!tie) {
      const Group& q = g[of[k]];
      // extent of the neighbourhood across its shorter side, against the rounding of the coordinates
      const double width = std::sqrt(std::max(0., q.lambda[1]) / q.ids.size());
      const double dist = std::fabs(off) + 1e-300;
      const double noise = (dbl ? 1e-13 : 1e-6) * (1 + p.norm());
      if (width < 100 * noise) continue;
      // plane fits of the form n.x = 1 amplify noise close to the origin
      if (std::fabs(off) > 1e-7 && !dbl && dist < 1e4 * noise) continue;
      const double tol = 1e-3 + 20 * noise / width;
      const double ang = std::acos(std::min(1., std::fabs(V3(e.normals.col(k)).dot(n))));
      REQUIRE(ang <= tol, "normal " << e.normals.col(k).transpose() << " of a neighbourhood of " << q.ids.size() << " points is " << ang << " rad off");
      ++checked;
    }
  }
  if (checked) c.nontrivial();
}

// Rough surfaces and blobs: which points are kept, and near-planar neighbourhoods.
static void General(pbt::Case& c) {
  const int count = c.size(1, 300);
  Eigen::MatrixXd in(3, count);
  uint64_t x = c.u(1ull << 30) + 88172645463325252ull;
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) * (2.0 / 9007199254740992.0) - 1;
  };
  const V3 base = Vec(c, 40), n = Unit(c), u = n.unitOrthogonal(), v = n.cross(u);
  const double rough = c.oneOf<double>({1e-4, 1e-2, 1});
  for (int k = 0; k < count; ++k) in.col(k) = base + u * rnd() * 20 + v * rnd() * 5 + n * rnd() * rough * 5;
  if (!AllDistinct(in)) c.discard();
  const std::vector<InnerPointType> filler(count);
  EigenPointCloud e(filler);
  e.points = in;
  c.note() << count << " points around " << base.transpose() << " roughness " << rough;
  e.CalculateNormals();
  UnitNormals(e);
  const std::vector<Group> g = Groups(in);
  std::set<int> small;
  for (size_t j = 0; j < g.size(); ++j)
    if (g[j].ids.size() < 3) small.insert(j);
  const std::vector<int> of = Match(e, g, small, 1e-9 * (1 + base.norm()));
  for (int k : of) REQUIRE(!small.count(k), "normal from " << g[k].ids.size() << " points");
  for (int k = 0; k < e.points.cols(); ++k) {
    const Group& q = g[of[k]];
    const double sigma = std::sqrt(std::max(0., q.lambda[0]) / q.ids.size()), width = std::sqrt(q.lambda[1] / q.ids.size());
    const double dist = std::fabs(q.mean.dot(q.dir));
    if (sigma > 1e-2 * width || dist < 1000 * sigma) continue;
    c.nontrivial();
    const double ang = std::acos(std::min(1., std::fabs(V3(e.normals.col(k)).dot(q.dir))));
    REQUIRE(ang < 0.2, "normal " << ang << " rad off the best plane of its neighbourhood");
  }
}

static void Degenerate(pbt::Case& c) {
  // all points equal, or on a line parallel to an axis: there is no surface
  const int count = c.size(1, 60);
  std::vector<InnerPointType> pts(count);
  const int kind = c.u(2), axis = c.u(3);
  InnerPointType base;
  base.x = c.i(-20, 20);
  base.y = c.i(-20, 20);
  base.z = c.i(-20, 20);
  for (auto& p : pts) {
    p = base;
    if (kind) (axis == 0 ? p.x : axis == 1 ? p.y : p.z) += c.i(-100, 100);
  }
  c.note() << count << (kind ? " points on a line" : " equal points");
  c.nontrivial();
  EigenPointCloud e(pts);
  e.CalculateNormals();
  REQUIRE(e.points.cols() == 0 && e.normals.cols() == 0, e.points.cols() << " normals of a set without a surface");
}

// The same object filled again behaves like a new one.
static void Reuse(pbt::Case& c) {
  EigenPointCloud e;
  const int rounds = 2 + c.u(2);
  for (int r = 0; r < rounds; ++r) {
    InnerCloudType::Ptr cl = AnyCloud(c, 1, 120, 30);
    EigenPointCloud fresh(cl->points);
    e.FromPointCloud(cl->points);
    REQUIRE(!e.HasNormals(), "a newly filled cloud has normals");
    const bool norm = r + 1 == rounds || c.b(2, 3);
    c.note() << cl->points.size() << " points" << (norm ? " + normals; " : "; ");
    if (norm) {
      fresh.CalculateNormals();
      e.CalculateNormals();
      if (r > 0) c.nontrivial();
    }
    REQUIRE(e.points.cols() == fresh.points.cols() && e.normals.cols() == fresh.normals.cols(),
            e.points.cols() << " points and " << e.normals.cols() << " normals, a new object gives " << fresh.points.cols() << " and " << fresh.normals.cols());
    REQUIRE((e.points - fresh.points).cwiseAbs().sum() == 0 && (e.normals - fresh.normals).cwiseAbs().sum() == 0, "values differ from those of a new object");
    if (norm) UnitNormals(e);
    // the fractions stay usable
    if (e.points.cols() > 0) {
      REQUIRE(static_cast<int>(e.factors.size()) == e.points.cols(), e.factors.size() << " fractions for " << e.points.cols() << " points");
      EigenPointCloud copy = e;
      copy.ApplyMotionCompensation(M4::Identity());
      REQUIRE((copy.points - e.points).cwiseAbs().maxCoeff() < 1e-5, "identity motion moved points");
      // and a second estimation works on what is left
      if (norm && c.b(1, 4)) {
        copy.CalculateNormals();
        UnitNormals(copy);
        REQUIRE(copy.points.cols() <= e.points.cols(), "points appeared");
      }
    }
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C11";
  s.rule = "exact planes of any orientation and offset (also through the origin) sampled with 3-150 points, rough surfaces with up to 300 points, point sets without a surface, refilled objects; a reference median split gives the neighbourhoods; non-trivial when a normal is compared with a known plane, or an object is reused";
  s.assumptions = {"directions are judged only for neighbourhoods wider than 100 times the coordinate rounding and, for rough surfaces, nearly flat and far from the origin (the estimator fits n.x = 1)"};
  s.subs.push_back({"plane", Plane, 10000, 150000});
  s.subs.push_back({"general", General, 6000, 80000});
  s.subs.push_back({"degenerate", Degenerate, 4000, 40000});
  s.subs.push_back({"reuse", Reuse, 4000, 60000});
  return s;
}
