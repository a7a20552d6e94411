#include <map>
#include "filtergen.h"

using namespace gen;

// Voxel-wise filter against a model.  Coordinates stay away from cell borders
// and from the cells around the origin, where rounding modes differ.
static void Voxelwise(pbt::Case& c) {
  const float leaf = static_cast<float>(c.oneOf<double>({0.5, 0.8, 1, 2}));
  const float thr = static_cast<float>(c.oneOf<double>({0.05, 0.15, 0.3}));
  const int min_n = c.oneOf<int>({1, 2, 3, 5, 10});
  FilterCfg f;
  f.name = "GroundRemoval";
  f.F("leaf_size", leaf).F("height_threshold", thr).I("min_point_num_in_voxel", min_n);
  FilterPtr filter = Build(f);
  const int rounds = 1 + c.u(2);
  for (int r = 0; r < rounds; ++r) {
    InnerCloudType::Ptr in = std::make_shared<InnerCloudType>();
    in->stamp = AnyStamp(c);
    std::map<std::vector<int>, std::vector<int>> cells;
    const int nc = 1 + c.u(10);
    struct Pt {
      InnerPointType p;
      std::vector<int> cell;
    };
    std::vector<Pt> pts;
    for (int k = 0; k < nc; ++k) {
      std::vector<int> cell;
      for (int j = 0; j < 2; ++j) cell.push_back(c.b() ? 1 + static_cast<int>(c.u(3)) : -2 - static_cast<int>(c.u(3)));
      cell.push_back(c.oneOf<int>({0, 0, -2, -3, 1, 2}));
      const int n = c.u(2 * min_n + 3);
      const bool flat = c.b();
      const double base = c.real(0.05, 0.5);
      for (int i = 0; i < n; ++i) {
        Pt q;
        q.cell = cell;
        const double dz = flat ? c.real(0, 0.9) * thr : c.real(0, 0.45 * leaf);
        q.p.x = static_cast<float>((cell[0] + c.real(0.02, 0.98)) * leaf);
        q.p.y = static_cast<float>((cell[1] + c.real(0.02, 0.98)) * leaf);
        q.p.z = static_cast<float>((cell[2] + base) * leaf + std::min(dz, 0.45 * leaf));
        q.p.intensity = c.u(100);
        pts.push_back(q);
      }
    }
    // interleave the cells
    for (size_t k = pts.size(); k > 1; --k) std::swap(pts[k - 1], pts[c.u(k)]);
    for (auto& q : pts) {
      cells[q.cell].push_back(in->points.size());
      in->points.push_back(q.p);
    }
    if (in->points.empty()) continue;
    std::vector<int> keep, drop;
    bool clear = true;
    for (auto& kv : cells) {
      if (static_cast<int>(kv.second.size()) < min_n) continue;
      double lo = 1e9, hi = -1e9;
      for (int i : kv.second) lo = std::min<double>(lo, in->points[i].z), hi = std::max<double>(hi, in->points[i].z);
      if (std::fabs(hi - lo - thr) < 1e-5) clear = false;
      auto& to = kv.first[2] <= 0 && hi - lo <= thr ? drop : keep;
      to.insert(to.end(), kv.second.begin(), kv.second.end());
    }
    if (!clear) c.discard();
    std::sort(keep.begin(), keep.end());
    std::sort(drop.begin(), drop.end());
    c.note() << f.Xml() << " on " << in->points.size() << " points in " << cells.size() << " cells, " << drop.size() << " ground; ";
    if (!drop.empty() && !keep.empty()) c.nontrivial();
    InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
    filter->SetInputCloud(in);
    filter->Filter(out);
    REQUIRE(SameStamp(out->stamp, in->stamp), "stamp");
    REQUIRE(filter->Inliers() == keep, "kept " << filter->Inliers().size() << " points, expected " << keep.size());
    REQUIRE(filter->Outliers() == drop, "removed " << filter->Outliers().size() << " points, expected " << drop.size());
    REQUIRE(out->points.size() == keep.size(), "output size");
    for (size_t k = 0; k < keep.size(); ++k) REQUIRE(SamePoint(out->points[k], in->points[keep[k]]), "output " << k);
  }
}

// Line-fitting filter on a flat ground with raised objects.
static void Lines(pbt::Case& c) {
  const double height = c.real(0.3, 2.5), noise = c.oneOf<double>({0, 0, 0.005, 0.015});
  const double slope = c.oneOf<double>({0, 0, 0.01, -0.02});
  const int seg = c.oneOf<int>({36, 90, 180});
  const double rmax = c.oneOf<double>({40, 60});
  FilterCfg f;
  f.name = "GroundRemoval2";
  f.F("start_ground_height", -height).F("r_max", rmax).I("segment_num", seg).I("bin_num", static_cast<int>(rmax * 2)).I("thread_num", 1 + static_cast<int>(c.u(4)));
  FilterPtr filter = Build(f);
  InnerCloudType::Ptr in = std::make_shared<InnerCloudType>();
  in->stamp = AnyStamp(c);
  uint64_t x = c.u(1u << 30) + 88172645463325252ull;
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) * (2.0 / 9007199254740992.0) - 1;
  };
  struct Obj {
    int a0, a1;
    double r, dr, bottom, top;
    bool shadow;
  };
  const int nobj = c.u(5);
  // Dense scans also see the ground below whatever hangs above it.
  const bool dense = c.b(1, 3), mixed = c.b();
  std::vector<Obj> obj;
  const int rays = 2 * seg;
  for (int k = 0; k < nobj; ++k) {
    Obj o;
    o.a0 = c.u(rays);
    o.a1 = o.a0 + 3 + c.u(dense ? rays / 3 : 12);
    o.r = c.real(5, rmax * 0.7);
    o.dr = c.real(0.5, 3);
    o.bottom = c.real(0.6, 1.0);
    o.top = o.bottom + c.real(0.1, 2);
    o.shadow = !dense && c.b();
    obj.push_back(o);
  }
  std::vector<char> kind;  // 1 ground well inside, 0 other ground, 2 object, 3 ground below objects
  for (int a = 0; a < rays; ++a) {
    const double ang = (a + 0.5) / rays * 2 * M_PI;
    double blocked = 1e9;
    bool near_obj = false;
    for (auto& o : obj)
      for (int w = a - rays; w <= a + rays; w += rays) {
        if (w >= o.a0 - 4 && w < o.a1 + 4) near_obj = true;
        if (w >= o.a0 && w < o.a1) {
          for (int s = 0; s < 6; ++s) {
            const double r = o.r + o.dr * s / 6.0;
            InnerPointType p;
            p.x = static_cast<float>(r * std::cos(ang));
            p.y = static_cast<float>(r * std::sin(ang));
            p.z = static_cast<float>(-height + slope * r + o.bottom + (o.top - o.bottom) * (rnd() + 1) / 2);
            in->points.push_back(p);
            kind.push_back(2);
          }
          if (o.shadow) blocked = std::min(blocked, o.r);
        }
      }
    for (double r = 1.3; r < rmax - 1; r += dense ? 0.15 : 0.55) {
      if (r > blocked - 0.6) break;
      InnerPointType p;
      const double rr = r + (dense ? 0.03 : 0.1) * rnd();
      p.x = static_cast<float>(rr * std::cos(ang));
      p.y = static_cast<float>(rr * std::sin(ang));
      p.z = static_cast<float>(-height + slope * rr + noise * rnd());
      in->points.push_back(p);
      bool below = false;
      for (auto& o : obj)
        for (int w = a - rays; w <= a + rays; w += rays)
          if (w >= o.a0 && w < o.a1 && rr > o.r - 0.5 && rr < o.r + o.dr + 0.5) below = true;
      kind.push_back(below && dense && r > 3 && r < rmax - 3 ? 3 : (dense || !near_obj) && r > 3 && r < rmax - 3 ? 1 : 0);
    }
  }
  // The order of the points does not matter.
  for (size_t k = kind.size(); mixed && k > 1; --k) {
    const size_t j = std::min<size_t>(k - 1, (rnd() + 1) / 2 * k);
    std::swap(kind[k - 1], kind[j]);
    std::swap(in->points[k - 1], in->points[j]);
  }
  c.note() << f.Xml() << " ground at " << -height << " slope " << slope << " noise " << noise << " objects " << nobj << (dense ? " dense" : "") << (mixed ? " mixed" : "");
  if (nobj > 0) c.nontrivial();
  c.label(dense ? "ground seen below objects" : "sparse");
  c.label(noise == 0 && slope == 0 ? "perfectly flat" : "uneven");
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  filter->SetInputCloud(in);
  filter->Filter(out);
  REQUIRE(SameStamp(out->stamp, in->stamp), "stamp");
  std::vector<char> kept(in->points.size(), 0);
  REQUIRE(filter->Inliers().size() == out->points.size(), "inliers");
  for (size_t k = 0; k < out->points.size(); ++k) {
    REQUIRE(SamePoint(out->points[k], in->points[filter->Inliers()[k]]), "altered point");
    kept[filter->Inliers()[k]] = 1;
  }
  int ground = 0, ground_left = 0, below = 0, below_left = 0;
  for (size_t k = 0; k < kept.size(); ++k) {
    if (kind[k] == 2) REQUIRE(kept[k], "object point " << Str(in->points[k]) << " was removed");
    if (kind[k] == 1) {
      ++ground;
      ground_left += kept[k];
    }
    if (kind[k] == 3) {
      ++below;
      below_left += kept[k];
    }
  }
  REQUIRE(ground_left <= 0.02 * ground, ground_left << " of " << ground << " ground points were left");
  REQUIRE(below_left <= 0.02 * below + 3, below_left << " of " << below << " ground points below objects were left");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C18";
  s.rule = "voxel-wise filter: up to ten cells with drawn occupancy and height spread against a model; line-fitting filter: scans of a flat or slightly sloped ground (noise up to 1.5 cm) with up to four raised objects, with and without shadow or hanging above ground that is seen too, point by ray or in any order; non-trivial when ground and objects are both present";
  s.assumptions = {"coordinates stay clear of voxel borders", "objects start at least 0.6 m above the ground; at most 2 % of the ground clear of objects may be left"};
  s.subs.push_back({"voxelwise", Voxelwise, 12000, 150000});
  s.subs.push_back({"lines", Lines, 300, 6000});
  return s;
}
