#include <omp.h>
#include <unistd.h>
#include <array>
#include <bitset>
#include <map>
#include "builder/multi_resolution_voxel_map.h"
#include "cloudgen.h"
#include "common/math.h"

using namespace gen;
using static_map::MrvmSettings;
using static_map::MultiResolutionVoxelMap;
using Key = std::array<int, 3>;
using Levels = std::bitset<256>;  // values the quantised probability may have

struct Cell {
  Levels level;
  int max_intensity = 0;
  std::vector<InnerPointType> points;
};

// One update of a quantised probability; both neighbours where rounding decides.
struct Update {
  explicit Update(double p) {
    for (int k = 0; k < 256; ++k) {
      const double q = k / 256.0;
      const double odd = q == 0 ? -1e9 : std::log(q / (1 - q)) + std::log(p / (1 - p));
      double r = 1 - 1 / (1 + std::exp(odd));
      r = std::min(0.9, std::max(0.1, r)) * 256;
      to[k] = {static_cast<int>(r - 1e-3), static_cast<int>(r + 1e-3)};
    }
  }
  Levels operator()(const Levels& in) const {
    Levels out;
    for (int k = 0; k < 256; ++k)
      if (in[k]) out.set(to[k].first), out.set(to[k].second);
    return out;
  }
  std::array<std::pair<int, int>, 256> to;
};

struct Model {
  Model(const MrvmSettings& s)
      : set(s), hit(std::min(0.9, std::max(0.501, (double)s.hit_prob))), miss(std::min(0.499, std::max(0.1, (double)s.miss_prob))) {}
  Key Of(const V3& p) const {
    const float r = set.high_resolution;
    return {(int)std::floor((float)p[0] / r), (int)std::floor((float)p[1] / r), (int)std::floor((float)p[2] / r)};
  }
  void Insert(const std::vector<InnerPointType>& pts, const V3& origin, bool in_order) {
    const Eigen::Vector3f o((float)origin[0], (float)origin[1], (float)origin[2] + set.z_offset);
    std::map<Key, int> hits, crossed, before;
    for (const auto& p : pts) {
      const Key end = Of(P(p));
      ++hits[end];
      Cell& cell = cells.insert({end, Fresh()}).first->second;
      cell.points.push_back(p);
      cell.max_intensity = std::max(cell.max_intensity, static_cast<int>(p.intensity));
      for (const auto& v : static_map::common::VoxelCastingBresenham(o, Eigen::Vector3f(p.x, p.y, p.z), set.high_resolution)) {
        const Key k = {v[0], v[1], v[2]};
        if (k == end) continue;
        ++crossed[k];
        if (!hits.count(k) || !in_order) ++before[k];
      }
    }
    for (auto& h : crossed)
      if (!hits.count(h.first)) {
        auto it = cells.find(h.first);
        if (it == cells.end()) continue;
        for (int n = 0; n < h.second; ++n) it->second.level = miss(it->second.level);
      }
    for (auto& h : hits) {
      // rays of the same scan through a voxel that is hit may or may not count;
      // they do not count when they come later
      Cell& cell = cells[h.first];
      const int m = before.count(h.first) ? before[h.first] : 0;
      if (crossed.count(h.first)) ++mixed;
      std::vector<Levels> row(m + 1);
      row[0] = cell.level;
      for (int j = 1; j <= m; ++j) row[j] = miss(row[j - 1]);
      for (int n = 0; n < h.second; ++n) {
        row[0] = hit(row[0]);
        for (int j = 1; j <= m; ++j) row[j] = hit(row[j]) | miss(row[j - 1]);
      }
      Levels all;
      for (auto& r : row) all |= r;
      cell.level = all;
    }
  }
  static Cell Fresh() {
    Cell f;
    f.level.set(128);
    return f;
  }
  MrvmSettings set;
  Update hit, miss;
  std::map<Key, Cell> cells;
  int mixed = 0;
};

static bool Near(const V3& a, const V3& b, double tol) { return (a - b).cwiseAbs().maxCoeff() <= tol; }
static int Shade(int intensity) { return std::min(255, static_cast<int>(static_cast<uint32_t>(intensity) * 1.4)); }

struct Out {
  V3 p;
  float intensity;
  int r = 0, g = 0, b = 0;
};

static void Compare(const Model& m, double threshold, const std::vector<Out>& out, bool rgb, std::string* what) {
  std::map<Key, std::vector<Out>> got;
  const int lim_lo = static_cast<int>(std::floor(threshold * 256 - 1e-3)), lim_hi = static_cast<int>(std::floor(threshold * 256 + 1e-3));
  const double tol = m.set.output_average ? 1e-4 : 0;
  for (const auto& o : out) {
    Key k = m.Of(o.p);
    if (m.set.output_average && !m.cells.count(k)) {
      // a mean may be rounded across the border
      for (int dx = -1; dx <= 1; ++dx)
        for (int dy = -1; dy <= 1; ++dy)
          for (int dz = -1; dz <= 1; ++dz) {
            const Key n = m.Of(o.p + tol * V3(dx, dy, dz));
            if (m.cells.count(n)) k = n;
          }
    }
    REQUIRE(m.cells.count(k), "output point " << o.p.transpose() << " in a voxel without points");
    got[k].push_back(o);
  }
  for (const auto& kc : m.cells) {
    const Cell& cell = kc.second;
    bool may = false, must = true;
    for (int l = 0; l < 256; ++l) {
      if (!cell.level[l]) continue;
      if (l >= lim_lo) may = true;
      if (l < lim_hi) must = false;
    }
    const auto it = got.find(kc.first);
    auto where = [&] {
      std::ostringstream s;
      s << "voxel " << kc.first[0] << "," << kc.first[1] << "," << kc.first[2] << " with " << cell.points.size() << " points, evidence";
      for (int l = 0; l < 256; ++l)
        if (cell.level[l]) s << " " << l;
      s << " (threshold " << threshold * 256 << ")";
      return s.str();
    };
    if (it == got.end()) {
      REQUIRE(!must, where() << " is missing");
      continue;
    }
    REQUIRE(may, where() << " is in the output");
    const auto& pts = it->second;
    const size_t kept = std::min<size_t>(m.set.max_point_num_in_cell, cell.points.size());
    REQUIRE(pts.size() == (m.set.output_average ? 1 : kept), where() << ": " << pts.size() << " points in the output, capacity " << m.set.max_point_num_in_cell);
    V3 lo = P(cell.points[0]), hi = lo, sum = V3::Zero();
    for (const auto& p : cell.points) {
      lo = lo.cwiseMin(P(p));
      hi = hi.cwiseMax(P(p));
      sum += P(p);
    }
    std::vector<bool> used(cell.points.size(), false);
    for (const auto& o : pts) {
      if (rgb) {
        const int s = Shade(cell.max_intensity);
        REQUIRE(o.r == o.g && o.g == o.b && std::abs(o.r - s) <= 1, where() << ": colour " << o.r << "," << o.g << "," << o.b << ", expected " << s);
      } else if (m.set.use_max_intensity) {
        REQUIRE(o.intensity == cell.max_intensity, where() << ": intensity " << o.intensity << " instead of the maximum " << cell.max_intensity);
      }
      if (m.set.output_average) {
        REQUIRE((o.p - lo).minCoeff() >= -tol && (hi - o.p).minCoeff() >= -tol, where() << ": mean outside of the points");
        if (kept == cell.points.size()) REQUIRE(Near(o.p, sum / cell.points.size(), tol), where() << ": mean " << o.p.transpose() << " instead of " << (sum / cell.points.size()).transpose());
      } else {
        bool found = false;
        for (size_t k = 0; k < cell.points.size() && !found; ++k) {
          const auto& p = cell.points[k];
          if (used[k] || P(p) != o.p) continue;
          if (!rgb && !m.set.use_max_intensity && p.intensity != o.intensity) continue;
          used[k] = found = true;
        }
        REQUIRE(found, where() << ": output point " << o.p.transpose() << " (intensity " << o.intensity << ") is not one of its points (or too often)");
      }
    }
  }
}

static std::vector<Out> Read(const pcl::PointCloud<pcl::PointXYZI>& c) {
  std::vector<Out> out;
  for (const auto& p : c.points) out.push_back({V3(p.x, p.y, p.z), p.intensity});
  return out;
}
static std::vector<Out> Read(const pcl::PointCloud<pcl::PointXYZRGB>& c) {
  std::vector<Out> out;
  for (const auto& p : c.points) out.push_back({V3(p.x, p.y, p.z), 0, p.r, p.g, p.b});
  return out;
}
template <typename PT>
static std::vector<Out> Checked(const pcl::PointCloud<PT>& c) {
  REQUIRE(static_cast<size_t>(c.width) * c.height == c.points.size(), "width " << c.width << " x height " << c.height << " for " << c.points.size() << " points");
  return Read(c);
}

static MrvmSettings AnySettings(pbt::Case& c) {
  MrvmSettings s;
  s.output_average = c.b(1, 3);
  s.output_rgb = c.b(1, 3);
  s.use_max_intensity = c.b();
  s.high_resolution = c.oneOf<float>({0.5f, 1.f, 0.1f, 0.2f, 0.3f});
  s.hit_prob = c.b(2, 3) ? 0.55f : static_cast<float>(c.real(0.4, 1));
  s.miss_prob = c.b(2, 3) ? 0.48f : static_cast<float>(c.real(0, 0.6));
  s.z_offset = c.b(1, 3) ? static_cast<float>(c.real(-2, 2)) : 0.f;
  s.max_point_num_in_cell = c.b() ? 10 : 1 + c.u(4);
  return s;
}

static void Outputs(pbt::Case& c, MultiResolutionVoxelMap& map, const Model& model, const MrvmSettings& s) {
  const double threshold = static_cast<float>(c.b() ? 0.6 : (c.b(1, 4) ? c.oneOf<double>({0., 0.1, 0.9, 1.}) : c.real(0, 1)));
  c.note() << "threshold " << threshold << " ";
  std::string what;
  switch (c.u(3)) {
    case 0: {
      pcl::PointCloud<pcl::PointXYZI>::Ptr out(new pcl::PointCloud<pcl::PointXYZI>);
      if (c.b(1, 3)) out->push_back(pcl::PointXYZI());
      map.OutputToPointCloud(threshold, out);
      Compare(model, threshold, Checked(*out), false, &what);
      break;
    }
    case 1: {
      pcl::PointCloud<pcl::PointXYZRGB>::Ptr out(new pcl::PointCloud<pcl::PointXYZRGB>);
      map.OutputToPointCloud(threshold, out);
      Compare(model, threshold, Checked(*out), true, &what);
      break;
    }
    default: {
      const std::string file = pbt::Case::scratch() + "map.pcd";
      unlink(file.c_str());
      map.OutputToPointCloud(threshold, file, c.b());
      if (access(file.c_str(), F_OK) != 0) {
        Compare(model, threshold, {}, s.output_rgb, &what);
      } else if (s.output_rgb) {
        pcl::PointCloud<pcl::PointXYZRGB> in;
        REQUIRE(pcl::io::loadPCDFile(file, in) == 0, "the file cannot be read");
        REQUIRE(!in.empty(), "empty file written");
        Compare(model, threshold, Checked(in), true, &what);
      } else {
        pcl::PointCloud<pcl::PointXYZI> in;
        REQUIRE(pcl::io::loadPCDFile(file, in) == 0, "the file cannot be read");
        REQUIRE(!in.empty(), "empty file written");
        Compare(model, threshold, Checked(in), false, &what);
      }
      unlink(file.c_str());
    }
  }
}

static void Map(pbt::Case& c) {
  const MrvmSettings s = AnySettings(c);
  c.note() << "res " << s.high_resolution << " hit " << s.hit_prob << " miss " << s.miss_prob << " cap " << s.max_point_num_in_cell << (s.output_average ? " mean" : "") << ": ";
  const bool in_order = c.b(2, 3);
  omp_set_max_active_levels(in_order ? 0 : 1);
  MultiResolutionVoxelMap map;
  map.Initialise(s);
  Model model(s);
  const double range = 6 * s.high_resolution;
  // objects that scans see again and again, and points behind them
  std::vector<V3> objects;
  const int n_obj = 1 + c.u(6);
  for (int k = 0; k < n_obj; ++k) objects.push_back(VecFine(c, range));
  const int scans = 1 + c.u(12);
  for (int k = 0; k < scans; ++k) {
    const V3 origin = VecFine(c, c.b() ? range : s.high_resolution);
    auto cloud = std::make_shared<InnerCloudType>();
    if (!c.b(1, 10)) {
      const int pts = 1 + c.u(8);
      for (int j = 0; j < pts; ++j) {
        InnerPointType p = AnyPoint(c, range);
        if (c.b(3, 4)) {
          V3 q = objects[c.u(objects.size())];
          const V3 o = origin + V3(0, 0, s.z_offset);
          if (c.b(1, 3)) q = o + (q - o) * (1.5 + c.u(3));  // through the object
          if (c.b()) q += VecFine(c, 0.3 * s.high_resolution);
          p.x = q[0], p.y = q[1], p.z = q[2];
        }
        const int copies = c.b(1, 8) ? 1 + c.u(12) : 1;
        for (int n = 0; n < copies; ++n) cloud->points.push_back(p);
      }
    }
    c.note() << cloud->points.size() << " ";
    const auto before = cloud->points;
    map.InsertPointCloud(cloud, Eigen::Vector3f(origin[0], origin[1], origin[2]));
    REQUIRE(SamePoints(before, cloud->points), "the scan was changed");
    model.Insert(before, V3((float)origin[0], (float)origin[1], (float)origin[2]), in_order);
    if (c.b(1, 6)) Outputs(c, map, model, s);
  }
  if (model.cells.size() > 1 && scans > 2) c.nontrivial();
  if (model.mixed) c.label("voxel hit and crossed by one scan");
  Outputs(c, map, model, s);
}

// Many points of one scan in few voxels: no evidence and no point gets lost.
static void Crowd(pbt::Case& c) {
  omp_set_max_active_levels(1);
  MrvmSettings s = AnySettings(c);
  s.high_resolution = 1;
  s.hit_prob = c.oneOf<float>({0.504f, 0.51f, 0.52f});
  s.miss_prob = 0.499f;
  MultiResolutionVoxelMap map;
  map.Initialise(s);
  Model model(s);
  const int scans = 1 + c.u(3);
  for (int k = 0; k < scans; ++k) {
    const int n = 1 + c.u(400), cells = 1 + c.u(3);
    c.note() << n << " points in " << cells << " voxels; ";
    auto cloud = std::make_shared<InnerCloudType>();
    const V3 origin = c.b() ? V3(0.5, 0.5, 0.5) : V3(0.5, 8.5, 8.5);
    for (int j = 0; j < n; ++j) {
      InnerPointType p;
      p.x = 1.25f + (j % cells) + 0.5f * j / n;
      p.y = 0.5f;
      p.z = 0.5f;
      p.intensity = static_cast<float>((j * 7919) % 256);
      p.factor = 0;
      cloud->points.push_back(p);
    }
    map.InsertPointCloud(cloud, origin.cast<float>());
    model.Insert(cloud->points, origin, false);
    if (n > 20) c.nontrivial();
  }
  for (int k = 0; k < 4; ++k) Outputs(c, map, model, s);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C28";
  s.rule = "up to 12 scans of up to 100 points over a neighbourhood of 12x12x12 voxels, with objects seen repeatedly and rays through them, all settings and output modes, against a model that keeps for every voxel the set of possible evidence levels; crowd: up to 400 points of one scan in 1-3 voxels, which several threads update at once; non-trivial with more than one voxel and more than two scans (crowd: more than 20 points)";
  s.assumptions = {"evidence is kept in steps of 1/256", "a ray of a scan through a voxel that the same scan hits does not count when it comes after the hit (run with one thread) and otherwise may or may not count", "intensities are whole numbers"};
  s.subs.push_back({"map", Map, 6000, 60000});
  s.subs.push_back({"crowd", Crowd, 1500, 15000, 60, 2, 500, true});
  return s;
}
