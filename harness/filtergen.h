// Filters built from XML text, and a few reference models.
#ifndef VERIF_HARNESS_FILTERGEN_H_
#define VERIF_HARNESS_FILTERGEN_H_

#include <cmath>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "cloudgen.h"
#include "pre_processors/filter_axis_range.h"
#include "pre_processors/filter_bounding_box.h"
#include "pre_processors/filter_factory.h"
#include "pre_processors/filter_ground_removal.h"
#include "pre_processors/filter_ground_removal2.h"
#include "pre_processors/filter_random_sample.h"
#include "pre_processors/filter_range.h"
#include "pre_processors/filter_range_image.h"
#include "pre_processors/filter_statistic_removal.h"
#include "pre_processors/filter_voxel_grid.h"

namespace gen {

namespace flt = static_map::pre_processers::filter;
typedef std::shared_ptr<flt::Interface> FilterPtr;

inline std::string Num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.9g", v);
  return b;
}

struct Param {
  std::string name;
  bool is_int;
  double value;
};
struct FilterCfg {
  std::string name;
  std::vector<Param> params;
  FilterCfg& F(const std::string& n, double v) {
    params.push_back({n, false, v});
    return *this;
  }
  FilterCfg& I(const std::string& n, int v) {
    params.push_back({n, true, static_cast<double>(v)});
    return *this;
  }
  std::string Xml() const {
    std::string s = "<filter name=\"" + name + "\">";
    for (auto& p : params)
      s += "<param type=\"" + std::string(p.is_int ? "0" : "1") + "\" name=\"" + p.name + "\"> " + Num(p.value) + " </param>";
    return s + "</filter>";
  }
};

inline FilterPtr NewFilter(const std::string& n) {
  if (n == "RandomSampler") return std::make_shared<flt::RandomSampler>();
  if (n == "RangeImage") return std::make_shared<flt::RangeImage>();
  if (n == "GroundRemoval") return std::make_shared<flt::GroundRemoval>();
  if (n == "GroundRemoval2") return std::make_shared<flt::GroundRemoval2>();
  if (n == "Range") return std::make_shared<flt::Range>();
  if (n == "StatisticRemoval") return std::make_shared<flt::StatisticRemoval>();
  if (n == "VoxelGrid") return std::make_shared<flt::VoxelGrid>();
  if (n == "AxisRange") return std::make_shared<flt::AxisRange>();
  if (n == "BoundingBoxRemoval") return std::make_shared<flt::BoundingBoxRemoval>();
  return nullptr;
}
inline FilterPtr Build(const FilterCfg& f) {
  FilterPtr p = NewFilter(f.name);
  REQUIRE(p && p->InitFromXmlText(f.Xml().c_str()), "valid configuration refused: " << f.Xml());
  return p;
}

inline float Limit(pbt::Case& c, double range) {
  return static_cast<float>(c.b() ? c.i(-static_cast<int>(range), static_cast<int>(range)) : c.real(-range, range));
}

// A valid configuration; `deterministic` leaves out everything random.
inline FilterCfg AnyFilter(pbt::Case& c, bool deterministic, const std::vector<std::string>& names) {
  FilterCfg f;
  f.name = c.pick(names);
  if (f.name == "Range") {
    if (c.b(3, 4)) f.F("min_range", c.u(10) + (c.b() ? 0.5 : 0));
    if (c.b(3, 4)) f.F("max_range", 8 + static_cast<double>(c.u(70)));
  } else if (f.name == "AxisRange") {
    const float a = Limit(c, 40);
    const float b = a + static_cast<float>(0.5 + c.u(50));
    if (c.b(3, 4)) f.F("min", a);
    if (c.b(3, 4)) f.F("max", b);
    if (c.b(3, 4)) f.I("axis_index", c.u(3));
  } else if (f.name == "BoundingBoxRemoval") {
    const char* ax[] = {"x", "y", "z"};
    for (int k = 0; k < 3; ++k) {
      const float a = Limit(c, 30);
      if (c.b(3, 4)) f.F(std::string("min_") + ax[k], a);
      if (c.b(3, 4)) f.F(std::string("max_") + ax[k], a + static_cast<float>(1 + c.u(40)));
    }
  } else if (f.name == "RandomSampler") {
    f.F("sampling_rate", deterministic ? (c.b() ? 1 : 0) : c.oneOf<double>({0, 0.1, 0.5, 0.9, 0.9995, 1}));
  } else if (f.name == "VoxelGrid") {
    f.F("voxel_size", c.oneOf<double>({0.1, 0.25, 0.5, 1, 3, 10}));
  } else if (f.name == "GroundRemoval") {
    if (c.b()) f.F("leaf_size", c.oneOf<double>({0.5, 0.8, 2, 10}));
    if (c.b()) f.F("height_threshold", c.oneOf<double>({0.05, 0.15, 0.5, 3}));
    f.I("min_point_num_in_voxel", c.oneOf<int>({0, 1, 2, 5, 10}));
  } else if (f.name == "GroundRemoval2") {
    if (c.b()) f.F("r_max", 20 + static_cast<double>(c.u(80)));
    if (c.b()) f.F("start_ground_height", -0.1 * c.u(20));
    if (c.b()) f.I("bin_num", 20 + static_cast<int>(c.u(100)));
    f.I("segment_num", 8 + static_cast<int>(c.u(50)));
    f.I("thread_num", 1 + static_cast<int>(c.u(3)));
  } else if (f.name == "RangeImage") {
    if (c.b()) f.F("top_angle", 5 + static_cast<double>(c.u(40)));
    if (c.b()) f.F("btm_angle", -5 - static_cast<double>(c.u(40)));
    if (c.b()) f.F("offset_z", c.i(-2, 2));
    f.I("vertical_line_num", 4 + static_cast<int>(c.u(40)));
    f.I("horizontal_line_num", 16 + static_cast<int>(c.u(400)));
  } else if (f.name == "StatisticRemoval") {
    if (c.b()) f.F("std_mul", 1 + static_cast<double>(c.u(3)));
  }
  return f;
}

struct CoutMute {
  std::ostringstream sink;
  std::streambuf* old;
  CoutMute() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~CoutMute() { std::cout.rdbuf(old); }
};

// A cloud shaped like a scan: ground, objects and stray points, with repeats.
inline InnerCloudType::Ptr ScanCloud(pbt::Case& c, size_t min, size_t max) {
  InnerCloudType::Ptr cl = AnyCloud(c, min, max, c.oneOf<double>({5, 20, 50}));
  if (c.b())
    for (size_t k = 0; k < cl->points.size(); k += 2) cl->points[k].z = static_cast<float>(-1.5 + 0.001 * (k % 17));
  return cl;
}

}  // namespace gen

#endif  // VERIF_HARNESS_FILTERGEN_H_
