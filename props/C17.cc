#include <map>
#include "filtergen.h"

using namespace gen;

struct Sum {
  double x = 0, y = 0, z = 0, i = 0, f = 0;
  int n = 0;
};

static void Grid(pbt::Case& c) {
  const float size = static_cast<float>(c.b() ? c.oneOf<double>({0.1, 0.25, 0.5, 1, 2, 10}) : c.real(0.02, 5));
  const int span = c.oneOf<int>({1, 2, 5, 200});
  InnerCloudType::Ptr in = AnyCloud(c, 1, 400, 1);
  std::map<std::vector<int>, Sum> want;
  const bool border = c.b(1, 4) && (size == 0.25f || size == 0.5f || size == 1.f || size == 2.f);
  for (size_t k = 0; k < in->points.size(); ++k) {
    auto& p = in->points[k];
    float* q[] = {&p.x, &p.y, &p.z};
    std::vector<int> cell;
    for (int j = 0; j < 3; ++j) {
      // position in the cell: within it, clear of the borders
      const double u = k < 60 ? (c.b(1, 4) ? 0 : c.real(-0.495, 0.495)) : *q[j] * 0.495;
      int m = k < 60 ? c.i(-span, span) : static_cast<int>(*q[(j + 1) % 3] * span);
      *q[j] = static_cast<float>((m + u) * size);
      if (border && c.b(1, 3)) *q[j] = (m + 0.5f) * size;  // exactly representable
      cell.push_back(static_cast<int>(std::lround(static_cast<double>(*q[j]) / size)));
    }
    Sum& s = want[cell];
    s.x += p.x;
    s.y += p.y;
    s.z += p.z;
    s.i += p.intensity;
    s.f += p.factor;
    ++s.n;
  }
  FilterCfg f;
  f.name = "VoxelGrid";
  f.F("voxel_size", size);
  FilterPtr v = Build(f);
  const InnerCloudType before = *in;
  c.note() << in->points.size() << " points in " << want.size() << " cells of " << size << ": " << Str(in->points, 4);
  if (want.size() < in->points.size() && want.size() > 1) c.nontrivial();
  c.label(border ? "borders" : "inside");
  std::vector<InnerPointType> first;
  for (int pass = 0; pass < 3; ++pass) {
    InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
    v->SetInputCloud(in);
    v->Filter(out);
    REQUIRE(SameStamp(out->stamp, before.stamp), "stamp");
    REQUIRE(out->points.size() == want.size(), out->points.size() << " points for " << want.size() << " cells");
    std::map<std::vector<int>, int> seen;
    for (auto& w : want) {
      const Sum& s = w.second;
      const V3 m(s.x / s.n, s.y / s.n, s.z / s.n);
      int hits = 0;
      for (auto& p : out->points) {
        if ((P(p) - m).norm() > 1e-4 * size + 1e-6 * m.norm()) continue;
        if (std::fabs(p.intensity - s.i / s.n) > 1e-3) continue;
        if (std::fabs(p.factor - s.f / s.n) > 1e-5) continue;
        ++hits;
      }
      REQUIRE(hits >= 1, "cell " << w.first[0] << "," << w.first[1] << "," << w.first[2] << " with " << s.n << " points, mean " << m.transpose()
                               << " intensity " << s.i / s.n << " fraction " << s.f / s.n << " has no point");
    }
    if (pass == 0) {  // the same object again with another order
      InnerCloudType::Ptr rev = std::make_shared<InnerCloudType>(*in);
      std::reverse(rev->points.begin(), rev->points.end());
      const size_t r = c.u(rev->points.size());
      std::rotate(rev->points.begin(), rev->points.begin() + r, rev->points.end());
      in = rev;
    }
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C17";
  s.rule = "clouds of 1-400 points spread over grids of 3 to 400 cells per side on both sides of the origin, on exactly representable cell borders in some cases; run three times with two orders; non-trivial when some cell holds several points";
  s.assumptions = {"cells are centred on the multiples of the voxel size; a point exactly on a border belongs to the cell further from the origin"};
  s.subs.push_back({"grid", Grid, 8000, 100000});
  return s;
}
