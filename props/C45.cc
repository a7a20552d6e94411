#include <map>
#include <set>
#include "filtergen.h"
#include "pre_processors/random_sample_with_plane_detect.h"

using namespace gen;
typedef pcl::PointXYZI Pt;
typedef pcl::PointCloud<Pt> Cloud;

struct Scene {
  Cloud::Ptr cloud{new Cloud};
  std::set<int> planes;  // indices a plane search has to return
};
// Cells at least one cell away from the origin (so that all roundings agree),
// each filled with a plane, a scatter, or a few points.
static Scene AnyScene(pbt::Case& c, float leaf, size_t min_n, bool with_planes) {
  Scene s;
  const int nc = 1 + c.u(6);
  std::set<std::vector<int>> used;
  struct Item {
    Pt p;
    bool plane;
  };
  std::vector<Item> items;
  for (int k = 0; k < nc; ++k) {
    std::vector<int> cell;
    for (int j = 0; j < 2; ++j) cell.push_back(c.b() ? 1 + static_cast<int>(c.u(4)) : -2 - static_cast<int>(c.u(4)));
    cell.push_back(c.oneOf<int>({0, -2, -3, 1, 2}));
    if (!used.insert(cell).second) continue;
    const int kind = c.u(3);  // 0 sparse, 1 flat, 2 scatter
    const bool low = cell[2] <= 0;
    size_t n = kind == 0 ? c.u(low ? min_n : 2 * min_n) : (low ? min_n : 2 * min_n) + c.u(20);
    if (!with_planes && kind == 1) n = 0;
    uint64_t x = c.u(1u << 30) + 88172645463325252ull;
    auto rnd = [&] {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
      return (x >> 11) * (1.0 / 9007199254740992.0);
    };
    const int tilt = c.u(3);  // upper planes: level, x-z or y-z wall
    if (kind == 2 && n < 40 && !low) n = 40;
    for (size_t i = 0; i < n; ++i) {
      double u[3] = {0.05 + 0.9 * rnd(), 0.05 + 0.9 * rnd(), 0.05 + 0.9 * rnd()};
      if (kind == 1) {
        if (low)
          u[2] = 0.3 + 0.5 * 0.2 / leaf * rnd();
        else
          u[tilt] = 0.5 + 0.004 * rnd();
      }
      if (kind == 2 && i < 2) u[2] = i ? 0.95 : 0.05;  // spread for sure
      Item it;
      it.p.x = static_cast<float>((cell[0] + u[0]) * leaf);
      it.p.y = static_cast<float>((cell[1] + u[1]) * leaf);
      it.p.z = static_cast<float>((cell[2] + u[2]) * leaf);
      it.p.intensity = items.size();
      it.plane = kind == 1;
      items.push_back(it);
    }
  }
  for (size_t k = items.size(); k > 1; --k) std::swap(items[k - 1], items[c.u(k)]);
  for (auto& it : items) {
    if (it.plane) s.planes.insert(s.cloud->size());
    s.cloud->push_back(it.p);
  }
  return s;
}

static void Detect(pbt::Case& c) {
  static_map::PlaneDetector<Pt> det;
  const float leaf = static_cast<float>(c.oneOf<double>({0.8, 1, 2}));
  const size_t min_n = 5 + c.u(8);
  det.SetLeafSize(leaf);
  det.SetMinPointNumInVoxel(min_n);
  const int runs = 1 + c.u(3);
  for (int r = 0; r < runs; ++r) {
    Scene s = AnyScene(c, leaf, min_n, true);
    if (s.cloud->empty()) continue;
    c.note() << "leaf " << leaf << " min " << min_n << ": " << s.cloud->size() << " points, " << s.planes.size() << " on planes; ";
    if (!s.planes.empty() && s.planes.size() < s.cloud->size()) c.nontrivial();
    det.SetInputCloud(s.cloud);
    std::vector<int> got;
    det.Detect(got);
    std::set<int> g(got.begin(), got.end());
    REQUIRE(g.size() == got.size(), "repeated index");
    REQUIRE(g == s.planes, g.size() << " indices, expected " << s.planes.size());
  }
}

static void Sample(pbt::Case& c) {
  static_map::RandomSamplerWithPlaneDetect<Pt> f;
  const float leaf = 0.8f;
  size_t min_n = 10;
  if (c.b()) f.SetMinPointNumInVoxel(min_n = 5 + c.u(8));
  const float rate = static_cast<float>(c.oneOf<double>({0.1, 0.25, 0.5, 0.9, 1}));
  f.SetSamplingRate(rate);
  const int runs = 1 + c.u(3);
  for (int r = 0; r < runs; ++r) {
    Scene s = AnyScene(c, leaf, min_n, c.b(2, 3));
    if (s.cloud->empty()) continue;
    c.note() << "rate " << rate << ": " << s.cloud->size() << " points, " << s.planes.size() << " on planes; ";
    if (rate < 1) c.nontrivial();
    c.label(s.planes.empty() ? "no plane" : "planes");
    const Cloud before = *s.cloud;
    f.SetInputCloud(s.cloud);
    Cloud::Ptr out(new Cloud);
    f.Filter(out);
    size_t at = 0, others = 0;
    std::set<int> kept;
    for (auto& p : out->points) {  // in order and unmodified
      while (at < before.size() && !(before[at].x == p.x && before[at].y == p.y && before[at].z == p.z && before[at].intensity == p.intensity)) ++at;
      REQUIRE(at < before.size(), "an output point is not the next input point");
      kept.insert(at);
      if (!s.planes.count(at)) ++others;
      ++at;
    }
    for (int k : s.planes) REQUIRE(kept.count(k), "plane point " << k << " dropped");
    const double total = before.size() - s.planes.size();
    REQUIRE(std::fabs(others - rate * total) <= 1 + 1e-3 * total, others << " of " << total << " other points kept at rate " << rate);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C45";
  s.rule = "up to six cells, each with a level or upright plane, a scatter or too few points, one to three clouds per object; non-trivial when there are planes and other points, or points are thinned";
  s.assumptions = {"points stay clear of cell borders; planes are exact to 4 mm, scatters fill the cell", "the share of the other points is met within one point"};
  s.subs.push_back({"detect", Detect, 4000, 60000});
  s.subs.push_back({"sample", Sample, 4000, 60000});
  return s;
}
