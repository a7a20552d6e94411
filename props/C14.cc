#include "filtergen.h"

using namespace gen;

// value, or one of the limits exactly, or the next float beside it
static float Near(pbt::Case& c, const std::vector<float>& limits, double range) {
  if (c.b(1, 2)) return static_cast<float>(Coord(c, range));
  const float l = limits[c.u(limits.size())];
  switch (c.u(3)) {
    case 0: return l;
    case 1: return std::nextafterf(l, 1e30f);
    default: return std::nextafterf(l, -1e30f);
  }
}

enum Verdict { kKeep, kDrop, kEither };

static void Compare(pbt::Case& c, flt::Interface* f, const InnerCloudType::Ptr& in, const std::vector<Verdict>& v) {
  const InnerCloudType before = *in;
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  if (c.b(1, 3)) out->points.resize(3);
  f->SetInputCloud(in);
  f->Filter(out);
  REQUIRE(SamePoints(in->points, before.points) && SameStamp(in->stamp, before.stamp), "the input was changed");
  REQUIRE(SameStamp(out->stamp, before.stamp), "stamp");
  size_t k = 0;
  int kept = 0, dropped = 0;
  for (size_t i = 0; i < before.points.size(); ++i) {
    const bool here = k < out->points.size() && SamePoint(out->points[k], before.points[i]);
    if (v[i] == kKeep) {
      REQUIRE(here, "point " << i << " " << Str(before.points[i]) << " should be output number " << k);
      ++kept;
    }
    if (v[i] == kDrop) {
      ++dropped;
      // an equal point may follow; it is matched by its own turn
      continue;
    }
    if (here) ++k;
  }
  REQUIRE(k == out->points.size(), "output holds " << out->points.size() << " points, " << k << " expected; next is "
                                                   << (k < out->points.size() ? Str(out->points[k]) : ""));
  if (kept && dropped) c.nontrivial();
}

static void Range(pbt::Case& c) {
  float lo = 0, hi = std::numeric_limits<float>::max();
  FilterCfg f;
  f.name = "Range";
  if (c.b(3, 4)) f.F("min_range", lo = static_cast<float>(c.b() ? c.u(12) : c.real(0, 12)));
  if (c.b(3, 4)) f.F("max_range", hi = lo + static_cast<float>(c.b() ? c.u(30) : c.real(0, 30)));
  auto filter = Build(f);
  const int runs = 1 + c.u(2);
  for (int r = 0; r < runs; ++r) {
    InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 20);
    std::vector<Verdict> v;
    for (auto& p : in->points) {
      if (c.b(1, 4)) {
        // exactly at a limit
        const float l = c.b() ? lo : std::min(hi, 1000.f);
        p.x = p.y = p.z = 0;
        (c.b() ? p.x : c.b() ? p.y : p.z) = c.b() ? l : -l;
      } else if (c.b(1, 6) && lo == std::floor(lo)) {
        p.x = 3 * lo / 5 == std::floor(3 * lo / 5) ? 3 * lo / 5 : 0;
        p.y = p.x != 0 ? -4 * lo / 5 : lo;
        p.z = 0;
      }
      const double d = P(p).norm();
      const bool exact = d == static_cast<float>(d) && (p.x == 0) + (p.y == 0) + (p.z == 0) >= 2;
      const double eps = exact ? 0 : 2e-6 * (1 + d);
      if (d >= lo + eps && d <= hi - eps) {
        v.push_back(kKeep);
      } else if (d < lo - eps || d > hi + eps) {
        v.push_back(kDrop);
      } else {
        v.push_back(kEither);
      }
    }
    c.note() << f.Xml() << " on " << Str(in->points, 3) << "; ";
    Compare(c, filter.get(), in, v);
  }
}

static void Axis(pbt::Case& c) {
  float lo = -std::numeric_limits<float>::max(), hi = std::numeric_limits<float>::max();
  int axis = 2;
  FilterCfg f;
  f.name = "AxisRange";
  const bool has_lo = c.b(3, 4), has_hi = c.b(3, 4);
  if (has_lo) f.F("min", lo = Limit(c, 20));
  if (has_hi) f.F("max", hi = (has_lo ? lo : 0) + static_cast<float>(0.001 + c.u(20)));
  if (c.b(3, 4)) f.I("axis_index", axis = c.u(3));
  auto filter = Build(f);
  const int runs = 1 + c.u(2);
  for (int r = 0; r < runs; ++r) {
    InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 30);
    std::vector<Verdict> v;
    for (auto& p : in->points) {
      float& x = axis == 0 ? p.x : axis == 1 ? p.y : p.z;
      if (c.b(1, 3)) x = Near(c, {has_lo ? lo : 0, has_hi ? hi : 0}, 30);
      v.push_back(x >= lo && x <= hi ? kKeep : kDrop);
    }
    c.note() << f.Xml() << " on " << Str(in->points, 3) << "; ";
    Compare(c, filter.get(), in, v);
  }
}

static void Box(pbt::Case& c) {
  FilterCfg f;
  f.name = "BoundingBoxRemoval";
  const char* ax[] = {"x", "y", "z"};
  float lo[3], hi[3];
  std::vector<float> lim[3];
  for (int k = 0; k < 3; ++k) {
    lo[k] = -std::numeric_limits<float>::max();
    hi[k] = std::numeric_limits<float>::max();
    const float a = Limit(c, 15);
    if (c.b(5, 6)) f.F(std::string("min_") + ax[k], lo[k] = a), lim[k].push_back(a);
    if (c.b(5, 6)) f.F(std::string("max_") + ax[k], hi[k] = a + static_cast<float>(c.b() ? 1 + c.u(20) : c.real(0.01, 20))), lim[k].push_back(hi[k]);
    if (lim[k].empty()) lim[k].push_back(0);
  }
  auto filter = Build(f);
  const int runs = 1 + c.u(2);
  for (int r = 0; r < runs; ++r) {
    InnerCloudType::Ptr in = AnyCloud(c, 1, 200, 20);
    std::vector<Verdict> v;
    for (auto& p : in->points) {
      float* q[] = {&p.x, &p.y, &p.z};
      bool inside = true;
      const bool touch = c.b(1, 2);
      for (int k = 0; k < 3; ++k) {
        if (touch) *q[k] = Near(c, lim[k], 15);
        inside = inside && *q[k] >= lo[k] && *q[k] <= hi[k];
      }
      v.push_back(inside ? kDrop : kKeep);
    }
    c.note() << f.Xml() << " on " << Str(in->points, 3) << "; ";
    Compare(c, filter.get(), in, v);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C14";
  s.rule = "clouds of 1-200 points with many coordinates exactly on, one float above and one float below the limits; every subset of parameters; one or two runs per filter object; non-trivial when a point is kept and another one removed";
  s.assumptions = {"coordinates are finite", "a Euclidean distance that is not exactly representable may fall on either side of a limit within 2e-6"};
  s.subs.push_back({"range", Range, 15000, 200000});
  s.subs.push_back({"axis", Axis, 15000, 200000});
  s.subs.push_back({"box", Box, 15000, 200000});
  return s;
}
