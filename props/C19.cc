#include <map>
#include <queue>
#include <set>
#include "filtergen.h"

using namespace gen;

struct Cfg {
  double top = 30, btm = -15, off[3] = {0, 0, 0};
  int rows = 40, cols = 1800;
};
struct Ref {
  std::map<std::pair<int, int>, int> pixel;
  std::map<std::pair<int, int>, double> range;
  std::vector<int> inliers;
};
// False when a point is too close to a cell border to tell.
static bool Project(const Cfg& g, const std::vector<InnerPointType>& pts, Ref* r) {
  for (size_t i = 0; i < pts.size(); ++i) {
    const double x = pts[i].x + g.off[0], y = pts[i].y + g.off[1], z = pts[i].z + g.off[2];
    const double d = std::hypot(x, y);
    if (std::fabs(d - 0.01) < 1e-4) return false;
    if (d < 0.01) continue;
    const double row = (std::atan2(z, d) * 180 / M_PI - g.btm) / ((g.top - g.btm) / g.rows);
    double az = std::atan2(y, x);
    if (az < 0) az += 2 * M_PI;
    const double col = az / (2 * M_PI / g.cols);
    if (std::fabs(row - std::round(row)) < 1e-3) return false;
    if (std::fabs(col - std::floor(col) - 0.5) < 1e-2) return false;
    const int ri = static_cast<int>(std::floor(row));
    if (ri < 0 || ri >= g.rows) continue;
    const int ci = static_cast<int>(std::lround(col)) % g.cols;
    const auto key = std::make_pair(ri, ci);
    if (r->pixel.count(key)) continue;
    r->pixel[key] = i;
    r->range[key] = std::sqrt(x * x + y * y + z * z);
    r->inliers.push_back(i);
  }
  return true;
}
// Components of at least 20 pixels; false when a link is too close to call.
static bool Clusters(const Cfg& g, const Ref& r, std::set<std::set<int>>* out) {
  const double hres = 2 * M_PI / g.cols, vres = (g.top - g.btm) / g.rows / 180 * M_PI, thr = 10 / 180. * M_PI;
  std::set<std::pair<int, int>> done;
  for (auto& kv : r.pixel) {
    if (done.count(kv.first)) continue;
    std::set<int> comp;
    std::queue<std::pair<int, int>> q;
    q.push(kv.first);
    done.insert(kv.first);
    while (!q.empty()) {
      const auto cur = q.front();
      q.pop();
      comp.insert(r.pixel.at(cur));
      static const int step[6][2] = {{0, 1}, {0, -1}, {0, 2}, {0, -2}, {1, 0}, {-1, 0}};
      for (auto& s : step) {
        auto nb = std::make_pair(cur.first + s[0], (cur.second + s[1] + g.cols) % g.cols);
        if (!r.pixel.count(nb)) continue;
        const double a = s[0] == 0 ? hres : vres;
        const double d1 = std::max(r.range.at(cur), r.range.at(nb)), d2 = std::min(r.range.at(cur), r.range.at(nb));
        const double beta = std::atan2(d2 * std::sin(a), d1 - d2 * std::cos(a));
        if (std::fabs(beta - thr) < 1e-3) return false;
        if (beta > thr && done.insert(nb).second) q.push(nb);
      }
    }
    if (comp.size() >= 20) out->insert(comp);
  }
  return true;
}

static Cfg AnyCfg(pbt::Case& c, FilterCfg* f) {
  Cfg g;
  f->name = "RangeImage";
  if (c.b()) f->F("top_angle", g.top = 5 + static_cast<double>(c.u(40)));
  if (c.b()) f->F("btm_angle", g.btm = -5 - static_cast<double>(c.u(40)));
  const char* ax[] = {"offset_x", "offset_y", "offset_z"};
  for (int k = 0; k < 3; ++k)
    if (c.b(1, 3)) f->F(ax[k], g.off[k] = c.i(-2, 2));
  if (c.b(2, 3)) f->I("vertical_line_num", g.rows = 4 + c.u(40));
  if (c.b(2, 3)) f->I("horizontal_line_num", g.cols = 24 + c.u(400));
  return g;
}

// Surfaces at drawn depth over rectangles of the image.
static InnerCloudType::Ptr Scene(pbt::Case& c, const Cfg& g) {
  InnerCloudType::Ptr in = std::make_shared<InnerCloudType>();
  in->stamp = AnyStamp(c);
  const int n = 1 + c.u(4);
  uint64_t x = c.u(1u << 30) + 88172645463325252ull;
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) * (2.0 / 9007199254740992.0) - 1;
  };
  for (int k = 0; k < n; ++k) {
    const int r0 = c.u(g.rows), rh = 1 + c.u(10), c0 = c.u(g.cols), cw = 1 + c.u(30);
    const double depth = 2 + c.real(0, 40);
    for (int r = r0; r < std::min(g.rows, r0 + rh); ++r)
      for (int j = c0; j < c0 + cw; ++j) {
        const double el = (g.btm + (r + 0.5 + 0.3 * rnd()) * (g.top - g.btm) / g.rows) * M_PI / 180;
        const double az = (j + 0.3 * rnd()) * 2 * M_PI / g.cols;
        InnerPointType p;
        p.x = static_cast<float>(depth * std::cos(el) * std::cos(az) - g.off[0]);
        p.y = static_cast<float>(depth * std::cos(el) * std::sin(az) - g.off[1]);
        p.z = static_cast<float>(depth * std::sin(el) - g.off[2]);
        p.intensity = in->points.size();
        in->points.push_back(p);
      }
  }
  // stray and out-of-view points
  const int s = c.u(10);
  for (int k = 0; k < s; ++k) in->points.push_back(AnyPoint(c, 20));
  return in;
}

static void Image(pbt::Case& c) {
  FilterCfg f;
  const Cfg g = AnyCfg(c, &f);
  FilterPtr base = Build(f);
  auto ri = std::dynamic_pointer_cast<flt::RangeImage>(base);
  const int rounds = 1 + c.u(3);
  for (int k = 0; k < rounds; ++k) {
    InnerCloudType::Ptr in = Scene(c, g);
    Ref ref;
    std::set<std::set<int>> want;
    if (!Project(g, in->points, &ref) || !Clusters(g, ref, &want)) {
      if (k == 0) c.discard();
      return;
    }
    const InnerCloudType before = *in;
    c.note() << f.Xml() << " " << in->points.size() << " points, " << want.size() << " clusters; ";
    if (want.size() > 1 || k > 0) c.nontrivial();
    c.label(std::to_string(std::min<size_t>(3, want.size())) + " clusters");
    InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
    ri->SetInputCloud(in);
    ri->Filter(out);
    REQUIRE(SamePoints(before.points, in->points), "the input was changed");
    REQUIRE(SameStamp(out->stamp, in->stamp), "stamp");
    REQUIRE(ri->Inliers() == ref.inliers, "kept " << ri->Inliers().size() << " points, expected " << ref.inliers.size());
    REQUIRE(out->points.size() == ref.inliers.size(), "output size");
    for (size_t j = 0; j < ref.inliers.size(); ++j) REQUIRE(SamePoint(out->points[j], in->points[ref.inliers[j]]), "output " << j);
    if (c.b(1, 5)) continue;  // no clustering for this cloud
    pcl::PointCloud<pcl::PointXYZL>::Ptr lab(new pcl::PointCloud<pcl::PointXYZL>);
    ri->DepthCluster(lab);
    std::map<uint32_t, std::multiset<std::vector<float>>> got;
    for (auto& p : lab->points) got[p.label].insert({p.x, p.y, p.z});
    std::multiset<std::multiset<std::vector<float>>> a, b;
    for (auto& kv : got) a.insert(kv.second);
    for (auto& w : want) {
      std::multiset<std::vector<float>> m;
      for (int i : w) m.insert({in->points[i].x, in->points[i].y, in->points[i].z});
      b.insert(m);
    }
    REQUIRE(a == b, got.size() << " clusters with " << lab->size() << " points, expected " << want.size());
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C19";
  s.rule = "sensor configurations with 4-43 rows and 24-1800 columns, scenes of up to four patches at different depth plus stray points, one to three clouds per object; projection and connected components are recomputed in double; non-trivial when there are several clusters or the object is reused";
  s.assumptions = {"cases with a point closer than 1e-3 rows / 1e-2 columns to a cell border or a link within 1e-3 rad of the cluster threshold are discarded", "clusters of fewer than 20 returns are not reported"};
  s.subs.push_back({"image", Image, 3000, 50000});
  return s;
}
