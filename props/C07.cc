#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include "common/bounding_box.h"
#include "common/octree.h"
#include "gen.h"

using namespace gen;
using static_map::common::BoundingBox;
using static_map::common::CubeBoundingBox;
using static_map::common::Octree;
using static_map::common::OctreeConfig;

static double Size(pbt::Case& c) {
  return c.b() ? c.oneOf<double>({1, 2, 10, 100, 0.1, 0.3}) : c.real(0.05, 300);
}

static void Cube(pbt::Case& c) {
  const V3 o = Vec(c, 1000);
  const double size = Size(c), h = size / 2;
  c.note() << "cube centre " << o.transpose() << " size " << size;
  const bool corners = c.b();
  const CubeBoundingBox box = corners ? CubeBoundingBox(V3(o - V3(h, h, h)), V3(o + V3(h, h, h))) : CubeBoundingBox(o, size);
  const double eps = 1e-11 * (size + o.cwiseAbs().maxCoeff());
  REQUIRE((box.GetCenter() - o).norm() <= eps, "centre");
  const std::vector<CubeBoundingBox> sub = box.GenerateSubBoxes();
  REQUIRE(sub.size() == 8, "number of sub-cubes");
  c.nontrivial();
  // every octant centre is the centre of exactly one sub-cube
  for (int k = 0; k < 8; ++k) {
    const V3 oc = o + V3((k & 1) ? h / 2 : -h / 2, (k & 2) ? h / 2 : -h / 2, (k & 4) ? h / 2 : -h / 2);
    int hits = 0;
    for (auto& s : sub) hits += (s.GetCenter() - oc).norm() <= eps;
    REQUIRE(hits == 1, "octant " << k << " is covered by " << hits << " sub-cubes");
  }
  const double slack = eps;
  for (int k = 0; k < 12; ++k) {
    V3 p;
    for (int j = 0; j < 3; ++j) {
      switch (c.u(4)) {
        case 0: p[j] = o[j] + h * c.i(-2, 2) / 2.0; break;  // faces and centre planes
        case 1: p[j] = o[j] + h * c.real(-1.2, 1.2); break;
        default: p[j] = o[j] + h * c.real(-0.99, 0.99);
      }
    }
    const V3 d = (p - o).cwiseAbs();
    const bool inside = d.maxCoeff() <= h - slack, outside = d.maxCoeff() > h + slack;
    const int idx = box.GetSubBoxIndexForPoint(p);
    c.label(inside ? "inside" : (outside ? "outside" : "face"));
    if (inside) {
      REQUIRE(box.ContainsPoint(p), "inside point not contained");
      REQUIRE(idx >= 0 && idx < 8, "index " << idx);
    }
    if (outside) {
      REQUIRE(!box.ContainsPoint(p), "outside point contained");
      REQUIRE(idx == -1, "outside point got index " << idx);
      for (auto& s : sub) REQUIRE(!s.ContainsPoint(p), "outside point inside a sub-cube");
    }
    if (idx >= 0) {
      const V3 q = (p - sub[idx].GetCenter()).cwiseAbs();
      REQUIRE(q.maxCoeff() <= h / 2 + slack, "sub-cube " << idx << " does not hold " << p.transpose());
      if (q.maxCoeff() < h / 2 - slack) {
        REQUIRE(sub[idx].ContainsPoint(p), "sub-cube " << idx << " denies " << p.transpose());
        for (int j = 0; j < 8; ++j) REQUIRE(j == idx || !sub[j].ContainsPoint(p), "interior point in two sub-cubes");
      }
    }
  }
  // general boxes
  const V3 ext(Size(c), Size(c), Size(c));
  const BoundingBox bb(o, V3(o + ext));
  for (int k = 0; k < 8; ++k) {
    V3 p;
    for (int j = 0; j < 3; ++j) {
      switch (c.u(5)) {
        case 0: p[j] = o[j]; break;
        case 1: p[j] = (o + ext)[j]; break;
        case 2: p[j] = std::nextafter(o[j], -1e9); break;
        case 3: p[j] = std::nextafter((o + ext)[j], 1e9); break;
        default: p[j] = o[j] + ext[j] * c.real(-0.5, 1.5);
      }
    }
    bool want = true;
    for (int j = 0; j < 3; ++j) want = want && p[j] >= o[j] && p[j] <= (o + ext)[j];
    REQUIRE(bb.ContainsPoint(p) == want, "box says " << bb.ContainsPoint(p) << " for " << p.transpose());
  }
}

typedef std::vector<std::pair<std::vector<double>, int>> Leaves;

static Leaves Dump(Octree& t) {
  std::ostringstream os;
  std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  const auto prec = std::cout.precision(17);
  t.RecursiveOutput();
  std::cout.precision(prec);
  std::cout.rdbuf(old);
  Leaves r;
  std::istringstream is(os.str());
  for (std::string line; std::getline(is, line);) {
    std::replace(line.begin(), line.end(), ':', ' ');
    std::istringstream ls(line);
    double x, y, z;
    int d;
    if (!(ls >> x >> y >> z >> d)) pbt::fail("unreadable octree line: " + line);
    r.push_back({{x, y, z}, d});
  }
  return r;
}

struct Ref {
  int max_depth, cap;
  std::map<int, int> depth;  // point index -> leaf depth
  int deepest = 0;
  void Split(int d, const std::vector<int>& pts, const std::vector<Eigen::Matrix<int64_t, 3, 1>>& g, int bit) {
    if (d == max_depth || static_cast<int>(pts.size()) <= cap) {
      for (int p : pts) depth[p] = d;
      deepest = std::max(deepest, d);
      return;
    }
    std::vector<int> sub[8];
    for (int p : pts) {
      int k = 0;
      for (int j = 0; j < 3; ++j) k |= ((g[p][j] >> bit) & 1) << j;
      sub[k].push_back(p);
    }
    for (auto& s : sub) Split(d + 1, s, g, bit - 1);
  }
};

static void Tree(pbt::Case& c) {
  OctreeConfig cfg;
  cfg.center = Vec(c, 500);
  cfg.max_size = Size(c);
  cfg.max_depth = c.u(9);
  cfg.max_num_points_in_voxel = 1 + c.u(6);
  Octree tree(cfg);
  const int rounds = 1 + c.u(2);
  for (int round = 0; round < rounds; ++round) {
    const bool exact = c.b(2, 3);  // cell centres of a fine grid: depths are predictable
    const size_t n = c.size(0, 60);
    Eigen::MatrixXd m(3 + (c.b(1, 8) ? 1 : 0), n);
    m.setZero();
    std::vector<Eigen::Matrix<int64_t, 3, 1>> g;
    const int bits = 12;
    std::vector<char> surely_inside(n, 1);
    for (size_t k = 0; k < n; ++k) {
      if (k > 0 && c.b(1, 8)) {
        const size_t j = c.u(k);
        m.col(k) = m.col(j);
        surely_inside[k] = surely_inside[j];
        if (exact) g.push_back(g[j]);
        continue;
      }
      if (exact) {
        Eigen::Matrix<int64_t, 3, 1> q;
        const int cluster = c.u(3) ? 0 : 8;  // close together half of the time
        for (int j = 0; j < 3; ++j) q[j] = c.u(1 << (bits - cluster));
        g.push_back(q);
        for (int j = 0; j < 3; ++j) m(j, k) = cfg.center[j] + cfg.max_size * ((q[j] + 0.5) / (1 << bits) - 0.5);
      } else {
        for (int j = 0; j < 3; ++j) {
          if (c.b(1, 3)) {
            m(j, k) = cfg.center[j] + cfg.max_size * (c.i(-16, 16) / 32.0);  // on split planes
          } else {
            m(j, k) = cfg.center[j] + cfg.max_size * c.real(-0.6, 0.6);
          }
          if (std::fabs(m(j, k) - cfg.center[j]) > cfg.max_size / 2 * (1 - 1e-9) - 1e-9) surely_inside[k] = 0;
        }
      }
    }
    c.note() << "octree centre " << cfg.center.transpose() << " size " << cfg.max_size << " depth<=" << cfg.max_depth
             << " cap " << cfg.max_num_points_in_voxel << " with " << n << (exact ? " grid" : " free") << " points; ";
    tree.InitWithPointCloud(m);
    const Leaves leaves = Dump(tree);
    std::multiset<std::vector<double>> have, all;
    for (auto& l : leaves) {
      have.insert(l.first);
      REQUIRE(l.second >= 0 && l.second <= cfg.max_depth, "leaf at depth " << l.second);
    }
    std::map<std::vector<double>, size_t> want;
    for (size_t k = 0; k < n; ++k) {
      const std::vector<double> p = {m(0, k), m(1, k), m(2, k)};
      all.insert(p);
      if (surely_inside[k]) ++want[p];
    }
    for (auto& w : want)
      REQUIRE(have.count(w.first) == all.count(w.first),
              "point " << w.first[0] << "," << w.first[1] << "," << w.first[2] << " given " << all.count(w.first) << " times is held " << have.count(w.first) << " times");
    for (auto& h : have) REQUIRE(all.count(h), "invented point");
    if (static_cast<int>(n) > cfg.max_num_points_in_voxel && cfg.max_depth > 0) c.nontrivial();
    c.label(exact ? "grid" : "free");
    if (exact) {
      Ref ref{cfg.max_depth, cfg.max_num_points_in_voxel};
      std::vector<int> ids(n);
      for (size_t k = 0; k < n; ++k) ids[k] = k;
      ref.Split(0, ids, g, bits - 1);
      std::map<std::vector<double>, int> depth;
      for (size_t k = 0; k < n; ++k) depth[{m(0, k), m(1, k), m(2, k)}] = ref.depth[k];
      for (auto& l : leaves)
        REQUIRE(depth[l.first] == l.second, "leaf depth " << l.second << " want " << depth[l.first]);
      REQUIRE(tree.GetMaxDepth() == ref.deepest, "reported depth " << tree.GetMaxDepth() << " want " << ref.deepest);
    }
    REQUIRE(tree.GetMaxDepth() <= cfg.max_depth, "reported depth");
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C07";
  s.rule = "cubes at arbitrary positions within 1 km with probe points on faces, centre planes, inside and outside; octrees over 0-60 grid, clustered, duplicated, boundary and out-of-cube points, one or two builds per object; non-trivial when a split is needed";
  s.assumptions = {"points within 1e-9 of the root cube's surface may count as inside or outside"};
  s.subs.push_back({"cube", Cube, 60000, 1000000, 20, 8, 5000});
  s.subs.push_back({"tree", Tree, 30000, 400000, 20, 8, 2000});
  return s;
}
