// Structured indoor scenes seen from a moving sensor.
#ifndef VERIF_HARNESS_SCENE_H_
#define VERIF_HARNESS_SCENE_H_

#include <random>

#include "cloudgen.h"

namespace gen {

struct Face {
  V3 corner, u, v;
  double area() const { return u.cross(v).norm(); }
};

// A room with boxes in it: planes in every direction, no symmetry.
struct Scene {
  std::vector<Face> faces;
  double area = 0;

  explicit Scene(pbt::Case& c, double half = 5, int max_boxes = 5, double length = 0) {
    const double lx = half + (length > 0 ? length : c.real(0, 2)), ly = half + c.real(0, 1.5), h = 2.5 + c.real(0, 1);
    const double x0 = -half;
    Add(V3(x0, -ly, 0), V3(lx - x0, 0, 0), V3(0, 2 * ly, 0));
    Add(V3(x0, -ly, 0), V3(lx - x0, 0, 0), V3(0, 0, h));
    Add(V3(x0, ly, 0), V3(lx - x0, 0, 0), V3(0, 0, h));
    Add(V3(x0, -ly, 0), V3(0, 2 * ly, 0), V3(0, 0, h));
    Add(V3(lx, -ly, 0), V3(0, 2 * ly, 0), V3(0, 0, h));
    const int boxes = 3 + c.u(max_boxes - 2);
    for (int k = 0; k < boxes; ++k) {
      const double a = c.real(-M_PI, M_PI), w = 0.6 + c.real(0, 1.2), d = 0.6 + c.real(0, 1.2), bh = 0.7 + c.real(0, 1.5);
      const V3 at(x0 + 1 + c.real(0, 1) * (lx - x0 - 2), c.real(-ly + 1, ly - 1), 0);
      const V3 ex(std::cos(a), std::sin(a), 0), ey(-std::sin(a), std::cos(a), 0);
      const V3 p = at - ex * w / 2 - ey * d / 2;
      const V3 up(0, 0, bh);
      Add(p, ex * w, up);
      Add(p + ey * d, ex * w, up);
      Add(p, ey * d, up);
      Add(p + ex * w, ey * d, up);
      Add(p + up, ex * w, ey * d);
    }
  }
  void Add(const V3& corner, const V3& u, const V3& v) {
    faces.push_back({corner, u, v});
    area += faces.back().area();
  }
  // Points on all faces with the given density per square metre, no further
  // than `range` from `centre`.
  std::vector<V3> Sample(uint64_t seed, double density, double noise, const V3& centre = V3(0, 0, 0), double range = 1e9) const {
    std::mt19937_64 rng(seed);
    std::uniform_real_distribution<double> uni(0, 1);
    std::normal_distribution<double> err(0, 1);
    std::vector<V3> out;
    for (const Face& f : faces) {
      const int n = static_cast<int>(f.area() * density) + 1;
      for (int k = 0; k < n; ++k) {
        const double a = uni(rng), b = uni(rng);
        const V3 p = f.corner + f.u * a + f.v * b;
        const V3 q = p + noise * V3(err(rng), err(rng), err(rng));
        if ((p - centre).norm() <= range) out.push_back(q);
      }
    }
    std::shuffle(out.begin(), out.end(), rng);
    return out;
  }
};

// The points as seen by a sensor at `pose`.
inline InnerCloudType::Ptr View(const std::vector<V3>& world, const M4& pose) {
  InnerCloudType::Ptr cloud(new InnerCloudType);
  const M4 inv = Inv(pose);
  for (size_t k = 0; k < world.size(); ++k) {
    InnerPointType p;
    const V3 v = Rot(inv) * world[k] + Trans(inv);
    p.x = v[0], p.y = v[1], p.z = v[2];
    p.intensity = static_cast<float>(k % 256);
    p.factor = static_cast<float>(k) / world.size();
    cloud->points.push_back(p);
  }
  return cloud;
}

}  // namespace gen

#endif  // VERIF_HARNESS_SCENE_H_
