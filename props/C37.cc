#include <random>
#include "cloudgen.h"
#include "descriptor/m2dp.h"
#include "scene.h"

using namespace gen;
using static_map::descriptor::M2dp;
using static_map::descriptor::matchTwoM2dpDescriptors;

namespace {

struct Params {
  double r = 0.1, far = 100;
  int t = 16, p = 4, q = 16;
  M2dp Make() const { return M2dp(r, far, t, p, q); }
};

Params AnyParams(pbt::Case& c) {
  Params k;
  if (c.b()) return k;
  k.r = c.oneOf<double>({0.05, 0.1, 0.5, 2});
  k.far = c.oneOf<double>({20, 60, 100});
  k.t = c.oneOf<int>({8, 16, 12});
  k.p = c.oneOf<int>({2, 4, 5});
  k.q = c.oneOf<int>({4, 16});
  return k;
}

// A cloud that looks the same when turned by half a turn about any of its
// axes: its principal axes are known and their signs do not matter.
InnerCloudType::Ptr Shape(pbt::Case& c, double scale) {
  InnerCloudType::Ptr cloud(new InnerCloudType);
  const int n = 60 + c.size(0, 250);
  std::mt19937_64 rng(c.u(0));
  std::uniform_real_distribution<double> uni(0, 1);
  const V3 s = V3(1, 0.3 + c.real(0, 0.3), 0.05 + c.real(0, 0.15)) * (scale + 0.01337);
  const int kind = c.u(3);
  for (int k = 0; k < n; ++k) {
    V3 v(uni(rng) * s[0], uni(rng) * s[1], uni(rng) * s[2]);
    if (kind == 1) v[k % 3] = s[k % 3];                                              // surface of a box
    if (kind == 2) v = V3(v[0], s[1] * (k % 2), std::fabs(std::sin(v[0])) * s[2]);  // walls
    InnerPointType p;
    for (int f = 0; f < 4; ++f) {
      p.x = f & 1 ? -v[0] : v[0];
      p.y = f & 2 ? -v[1] : v[1];
      p.z = (f == 1 || f == 2) ? -v[2] : v[2];
      cloud->points.push_back(p);
    }
  }
  V3 var = V3::Zero();
  for (const auto& p : cloud->points) var += P(p).cwiseAbs2();
  if (var[0] < 1.2 * var[1] || var[1] < 1.2 * var[2]) c.discard();  // no principal axes to speak of
  return cloud;
}

InnerCloudType::Ptr Placed(const InnerCloudType::Ptr& in, const M4& pose) {
  InnerCloudType::Ptr out(new InnerCloudType);
  for (auto p : in->points) {
    const V3 v = Rot(pose) * P(p) + Trans(pose);
    p.x = v[0], p.y = v[1], p.z = v[2];
    out->points.push_back(p);
  }
  return out;
}

M2dp::Descriptor Describe(const Params& k, const InnerCloudType::Ptr& cloud) {
  M2dp m = k.Make();
  const std::vector<InnerPointType> before = cloud->points;
  REQUIRE(m.setInputCloud(cloud), "cloud refused");
  REQUIRE(SamePoints(before, cloud->points), "input changed");
  const M2dp::Descriptor d = m.getFinalDescriptor();
  REQUIRE(d.allFinite() && d.size() > 0, "descriptor is not finite");
  return d;
}

double Alike(const M2dp::Descriptor& a, const M2dp::Descriptor& b) {
  const double s = matchTwoM2dpDescriptors(a, b), t = matchTwoM2dpDescriptors(b, a);
  REQUIRE(std::fabs(s - t) < 1e-6, "similarity is not symmetric: " << s << " " << t);
  REQUIRE(s >= 0 && s <= 1 + 1e-4, "similarity " << s);
  return s;
}

void Invariant(pbt::Case& c) {
  const Params k = AnyParams(c);
  const InnerCloudType::Ptr cloud = Shape(c, 5 + c.real(0, 30));
  const M2dp::Descriptor d = Describe(k, cloud);
  REQUIRE(std::fabs(Alike(d, d) - 1) < 1e-4, "similarity with itself is " << Alike(d, d));
  c.note() << cloud->points.size() << " points, descriptor of " << d.size();
  InnerCloudType::Ptr other(new InnerCloudType(*cloud));
  std::mt19937_64 rng(c.u(0));
  std::shuffle(other->points.begin(), other->points.end(), rng);
  for (auto& p : other->points) {  // attributes do not matter
    p.intensity = rng() % 256;
    p.factor = 0.5;
  }
  const M4 pose = AnyPose(c, 200);
  if (c.b(3, 4)) {
    other = Placed(other, pose);
    c.label("moved");
    if (AngleOf(Rot(pose)) > 0.1) c.nontrivial();
  }
  const M2dp::Descriptor e = Describe(k, other);
  REQUIRE(e.size() == d.size(), "descriptor lengths " << d.size() << " and " << e.size());
  const double diff = std::min((d - e).norm(), (d + e).norm());
  REQUIRE(diff < 0.08 && Alike(d, e) > 0.997, "descriptor changed by " << diff << ", similarity " << Alike(d, e));
}

// What the object described before leaves no trace.
void Reuse(pbt::Case& c) {
  const Params k = AnyParams(c);
  M2dp m = k.Make();
  const int runs = 2 + c.u(3);
  c.note() << runs << " clouds with one object";
  c.nontrivial();
  for (int r = 0; r < runs; ++r) {
    InnerCloudType::Ptr cloud = Shape(c, 3 + c.real(0, 40));
    if (c.b(1, 4)) cloud->points.resize(c.u(3));
    if (cloud->points.size() < 3) {
      REQUIRE(!m.setInputCloud(cloud), "a cloud of " << cloud->points.size() << " points is accepted");
      c.label("too small");
      continue;
    }
    const M2dp::Descriptor fresh = Describe(k, cloud);
    REQUIRE(m.setInputCloud(cloud), "cloud refused");
    const M2dp::Descriptor d = m.getFinalDescriptor();
    REQUIRE(d.size() == fresh.size() && std::min((d - fresh).norm(), (d + fresh).norm()) < 1e-3,
            "descriptor depends on the cloud described before");
  }
}

// Any cloud of three or more points gets a finite descriptor, any two
// descriptors a similarity.
void Any(pbt::Case& c) {
  const Params k = AnyParams(c);
  auto any = [&] {
    InnerCloudType::Ptr cloud(new InnerCloudType);
    const int n = 3 + c.size(0, 60);
    const double range = c.oneOf<double>({0, 0.01, 1, 50, 1000});
    const int flat = c.u(4);  // some clouds are planes, lines or a single place
    const V3 base = Vec(c, 100);
    for (int i = 0; i < n; ++i) {
      V3 v = VecFine(c, range);
      for (int q = 0; q < flat; ++q) v[q] = 0;
      v += base;
      InnerPointType p;
      p.x = v[0], p.y = v[1], p.z = v[2];
      cloud->points.push_back(p);
    }
    return cloud;
  };
  const M2dp::Descriptor a = Describe(k, any()), b = Describe(k, any());
  REQUIRE(a.size() == b.size(), "lengths " << a.size() << " and " << b.size());
  const double s = Alike(a, b);
  REQUIRE(std::fabs(Alike(a, a) - 1) < 1e-3, "similarity with itself " << Alike(a, a));
  c.note() << "similarity " << s;
  c.nontrivial();
  // other lengths are not comparable
  Params other = k;
  other.t += 1 + c.u(4);
  M2dp::Descriptor e = c.b() ? Describe(other, any()) : M2dp::Descriptor(a.head(c.u(a.size())));
  REQUIRE(matchTwoM2dpDescriptors(a, e) < 0 && matchTwoM2dpDescriptors(e, a) < 0, "lengths " << a.size() << " and " << e.size() << " are compared");
  const M2dp::Descriptor none;
  REQUIRE(matchTwoM2dpDescriptors(none, none) < 0, "two missing descriptors are compared");
}

// A place seen again is more alike than another place.
void Places(pbt::Case& c) {
  const Params k;
  auto place = [&](double sx, double sy, double sz, uint64_t seed) {
    std::mt19937_64 rng(seed);
    std::uniform_real_distribution<double> uni(0, 1);
    InnerCloudType::Ptr cloud(new InnerCloudType);
    for (int i = 0; i < 300; ++i) {
      const V3 v(uni(rng) * sx, uni(rng) * sy, uni(rng) * sz);
      for (int f = 0; f < 4; ++f) {
        InnerPointType p;
        p.x = f & 1 ? -v[0] : v[0];
        p.y = f & 2 ? -v[1] : v[1];
        p.z = (f == 1 || f == 2) ? -v[2] : v[2];
        cloud->points.push_back(p);
      }
    }
    return cloud;
  };
  const double size = 10 + c.real(0, 20);
  const uint64_t seed = c.u(0);
  const M4 pose = AnyPose(c, 100);
  auto corridor = place(size, 2, 1.5, seed), again = place(size, 2, 1.5, seed + 1);
  auto hall = place(size * 0.7, size * 0.6, size * 0.5, seed + 2);
  const auto a = Describe(k, corridor), b = Describe(k, Placed(again, pose)), e = Describe(k, hall);
  const double same = Alike(a, b), other = Alike(a, e);
  c.note() << "size " << size << ": same place " << same << ", other place " << other;
  c.nontrivial();
  REQUIRE(same > 0.9 && same > other + 0.02, "same place " << same << ", other place " << other);
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C37";
  s.rule = "the cloud is turned by more than 0.1 rad, an object is used again, two descriptors are compared";
  s.assumptions = {"invariance is judged on clouds whose principal axes have no preferred sign"};
  s.subs.push_back({"invariant", Invariant, 3000, 20000, 120, 8, 50});
  s.subs.push_back({"reuse", Reuse, 1000, 6000, 120, 8, 50});
  s.subs.push_back({"any", Any, 1500, 10000, 120, 8, 50});
  s.subs.push_back({"places", Places, 500, 4000, 120, 8, 50});
  return s;
}
