// Complete mapping runs over generated drives, and what they have to produce.
#ifndef VERIF_HARNESS_MAPPING_H_
#define VERIF_HARNESS_MAPPING_H_

#include <pcl/io/pcd_io.h>
#include <sys/stat.h>
#include <GeographicLib/LocalCartesian.hpp>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>

#include "builder/map_builder.h"
#include "back_end/isam_optimizer.h"
#include "back_end/loop_detector.h"
#include "builder/data/data_collector.h"
#include "gen.h"
#include "pugixml/pugixml.hpp"
#include "standin.h"

namespace gen {

using static_map::MapBuilder;

struct Drive {
  std::vector<M4> truth;       // tracking frame at the time of every scan
  std::vector<uint64_t> us;    // time of every scan
  std::vector<bool> empty;     // nothing was seen
  std::vector<V3> landmarks;   // number k is recognised by intensity k + 1
  bool skewed = false;         // the scanner turns while driving
  M4 step = M4::Identity();    // motion between scans if skewed
  M4 mount = M4::Identity();   // lidar in the tracking frame
  bool yaw_only = true;
  double range = 30;
};

struct Setup {
  bool compensate = false, imu = false, gps = false, disk = false, package = false;
  bool whole = true, mrvm = false, parts = false, kitti = true;
  int part_step = 2, frame_count = 2;
  float translation = 0.3f, angle = 0.f;
  bool check = true;
  int disk_delay = 0;
  bool show_map = false, show_submap = false, show_path = false, show_edge = false;
  int pause = 0;  // microseconds between scans
  double pair_accept = 0.5;
  double pair_score = 0.95;
  int loop_try = 1, loop_ignore = 2, loop_near = 2;
  double loop_dist = 10, loop_accept = 0.7;
  double enu_turn = 0;
  bool tell = true;  // that sensors are missing and frames are the same
  int dirt = 0;      // in the memory the builder is made in
  double far = 0;    // what lies beyond is filtered, if not zero
};

inline pcl::PointCloud<pcl::PointXYZI>::Ptr ScanOf(const Drive& d, int k) {
  pcl::PointCloud<pcl::PointXYZI>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZI>);
  cloud->header.stamp = d.us[k];
  if (d.empty[k]) return cloud;
  std::vector<int> seen;
  for (size_t i = 0; i < d.landmarks.size(); ++i) {
    if ((d.landmarks[i] - Trans(d.truth[k])).norm() < d.range) seen.push_back(i);
  }
  for (size_t j = 0; j < seen.size(); ++j) {
    M4 at = d.truth[k];
    // The first scan is taken before the drive starts.
    if (d.skewed && k > 0) at = at * Interp(M4::Identity(), d.step, static_cast<double>(j) / seen.size());
    const M4 inv = Inv(at * d.mount);
    const V3 p = Rot(inv) * d.landmarks[seen[j]] + Trans(inv);
    pcl::PointXYZI q;
    q.x = p[0];
    q.y = p[1];
    q.z = p[2];
    q.intensity = seen[j] + 1;
    cloud->push_back(q);
  }
  return cloud;
}

// The rigid motion that brings the recognised points together.
inline bool AlignById(const standin::Cloud& source, const standin::Cloud& target, M4* result) {
  std::map<int, V3> t;
  for (const auto& p : target->GetInnerCloud()->points) t[std::lround(p.intensity)] = V3(p.x, p.y, p.z);
  std::vector<V3> a, b;
  for (const auto& p : source->GetInnerCloud()->points) {
    auto it = t.find(std::lround(p.intensity));
    if (it == t.end()) continue;
    a.push_back(V3(p.x, p.y, p.z));
    b.push_back(it->second);
  }
  if (a.size() < 4) return false;
  V3 ma = V3::Zero(), mb = V3::Zero();
  for (size_t i = 0; i < a.size(); ++i) {
    ma += a[i] / a.size();
    mb += b[i] / b.size();
  }
  M3 w = M3::Zero();
  for (size_t i = 0; i < a.size(); ++i) w += (b[i] - mb) * (a[i] - ma).transpose();
  Eigen::JacobiSVD<M3> svd(w, Eigen::ComputeFullU | Eigen::ComputeFullV);
  M3 s = M3::Identity();
  if ((svd.matrixU() * svd.matrixV().transpose()).determinant() < 0) s(2, 2) = -1;
  const M3 r = svd.matrixU() * s * svd.matrixV().transpose();
  *result = Pose(r, mb - r * ma);
  return true;
}

struct Seen {  // by the callbacks
  std::mutex m;
  std::vector<size_t> paths;
  std::vector<M4> last_path;
  std::vector<M4> submaps;
  std::vector<size_t> submap_points;
  int maps = 0, edges = 0;
  size_t last_edge_vertices = 0;
  double worst_guess = 0;
  int aligned = 0;
  std::string broken;  // something the matcher was given and should not
};

inline std::string Config(const Setup& s, const std::string& dir) {
  std::ostringstream x;
  auto b = [](bool v) { return v ? "true" : "false"; };
  x << "<edward_liu><static_mapping>\n<whole_options export_file_path=\"" << dir << "/out\" map_package_path=\"" << dir
    << "/pkg\" separate_output=\"" << b(s.parts) << "\" output_direct_combined_map=\"" << b(s.whole) << "\" output_mrvm=\""
    << b(s.mrvm) << "\" output_kitti_pose=\"" << b(s.kitti) << "\" separate_step=\"" << s.part_step << "\" />\n"
    << "<output_mrvm_settings low_resolution=\"1.0\" high_resolution=\"0.2\" hit_prob=\"0.7\" miss_prob=\"0.4\" prob_threshold=\"0.5\" max_point_num_in_cell=\"5\" />\n"
    << (s.far > 0 ? "<filters><filter name=\"Range\"><param type=\"1\" name=\"max_range\"> " + std::to_string(s.far) + " </param></filter></filters>\n" : "")
    << "<front_end_options accumulate_cloud_num=\"1\">\n"
    << "<scan_matcher_options type=\"" << static_cast<int>(static_map::registrator::kIcpPM) << "\" accepted_min_score=\"0.5\" />\n"
    << "<motion_filter translation_range=\"" << s.translation << "\" angle_range=\"" << s.angle << "\" />\n"
    << "<motion_compensation_options enable=\"" << b(s.compensate) << "\" use_average=\"false\" />\n"
    << "<imu_options use_imu=\"" << b(s.imu) << "\" imu_frequency=\"100\" gravity_constant=\"9.8\" />\n</front_end_options>\n"
    << "<back_end_options>\n<submap_matcher_options type=\"" << static_cast<int>(static_map::registrator::kIcpPM)
    << "\" accepted_min_score=\"" << s.pair_accept << "\" />\n"
    << "<submap_options frame_count=\"" << s.frame_count << "\" enable_disk_saving=\"" << b(s.disk) << "\" disk_saving_delay=\""
    << s.disk_delay << "\" enable_check=\"" << b(s.check) << "\" enable_inner_mrvm=\"false\" enable_voxel_filter=\"false\" />\n"
    << "<isam_optimizer_options use_odom=\"false\" use_gps=\"" << b(s.gps) << "\" gps_factor_init_num=\"4\" gps_factor_sample_step=\"1\" gps_factor_init_angle_rad=\"0.05\" />\n"
    << "<loop_detector_setting use_gps=\"false\" use_descriptor=\"true\" output_matched_cloud=\"false\" trying_detect_loop_count=\"" << s.loop_try
    << "\" loop_ignore_threshold=\"" << s.loop_ignore << "\" nearest_history_pos_num=\"" << s.loop_near << "\" max_close_loop_distance=\""
    << s.loop_dist << "\" m2dp_match_score=\"0.5\" accept_scan_match_score=\"" << s.loop_accept << "\" />\n</back_end_options>\n"
    << "<map_package_options enable=\"" << b(s.package) << "\" piece_width=\"20\" border_offset=\"2\" />\n</static_mapping></edward_liu>\n";
  return x.str();
}

// The key frames a drive has, by the documented rule; false if it is too close.
inline bool KeyFrames(const Drive& d, const Setup& s, std::vector<int>* out) {
  for (size_t k = 0; s.far > 0 && k < d.truth.size(); ++k) {
    int left = 0;
    for (const V3& l : d.landmarks) {
      const double r = (l - Trans(d.truth[k])).norm();
      if (std::fabs(r - s.far) < 1e-3) return false;
      left += r < s.far;
    }
    if (left < 12) return false;
  }
  int last = -1;
  for (size_t k = 0; k < d.truth.size(); ++k) {
    if (d.empty[k]) continue;
    if (last < 0) {
      out->push_back(k);
      last = k;
      continue;
    }
    const M4 delta = Inv(d.truth[last]) * d.truth[k];
    const double move = Trans(delta).norm();
    const double turn = std::fabs(std::atan2(delta(1, 0), delta(0, 0))) * 180 / M_PI;
    const bool use_turn = s.angle > 1e-3;
    if (std::fabs(move - s.translation) < 2e-3) return false;
    if (use_turn && std::fabs(turn - s.angle) < 2e-2) return false;
    if (move >= s.translation || (use_turn && turn >= s.angle)) {
      out->push_back(k);
      last = k;
    }
  }
  return true;
}

inline void RunMapping(const Drive& d, const Setup& s, const std::string& dir, Seen* seen) {
  mkdir(dir.c_str(), 0755);
  std::ofstream(dir + "/config.xml") << Config(s, dir);
  std::map<int64_t, int> when;
  for (size_t k = 0; k < d.us.size(); ++k) when[static_cast<int64_t>(d.us[k]) * 1000] = k;
  standin::Hook() = [&](const standin::Cloud& source, const standin::Cloud& target, const M4& guess, M4* result) {
    *result = guess;
    if (!source || !target) {
      std::lock_guard<std::mutex> l(seen->m);
      seen->broken = "asked to align without clouds";
      return 0.;
    }
    auto a = when.find(source->GetTime().ToNanoSec()), b = when.find(target->GetTime().ToNanoSec());
    if (a == when.end() || b == when.end()) {
      std::lock_guard<std::mutex> l(seen->m);
      seen->broken = "a cloud has the time of no scan";
      return 0.;
    }
    const M4 truth = Inv(d.truth[b->second]) * d.truth[a->second];
    double score = s.pair_score;
    if (d.skewed) {
      *result = truth;
    } else if (!AlignById(source, target, result)) {
      *result = guess;
      score = 0;
    }
    std::lock_guard<std::mutex> l(seen->m);
    ++seen->aligned;
    if (a->second > 6) seen->worst_guess = std::max(seen->worst_guess, (Trans(guess) - Trans(truth)).norm());
    return score;
  };

  const M4 enu = Pose(Rz(s.enu_turn), V3(0, 0, 0));
  std::unique_ptr<GeographicLib::LocalCartesian> earth;
  {
    // Whatever was in the memory before must not matter.
    std::unique_ptr<void, void (*)(void*)> memory(aligned_alloc(64, (sizeof(MapBuilder) + 63) / 64 * 64), free);
    memset(memory.get(), s.dirt, sizeof(MapBuilder));
    std::unique_ptr<MapBuilder, void (*)(MapBuilder*)> owner(::new (memory.get()) MapBuilder, [](MapBuilder* b) { b->~MapBuilder(); });
    MapBuilder& builder = *owner;
    if (s.tell || d.mount != M4::Identity()) builder.SetTrackingToLidar(d.mount);
    if (s.tell) {
      builder.SetTrackingToImu(M4::Identity());
      builder.SetTrackingToGps(M4::Identity());
      builder.SetTransformOdomToLidar(M4::Identity());
    }
    if (s.show_map) builder.SetShowMapFunction([&](const MapBuilder::PointCloudPtr& p) {
      std::lock_guard<std::mutex> l(seen->m);
      ++seen->maps;
      if (!p) seen->broken = "no map to show";
    });
    if (s.show_submap) builder.SetShowSubmapFunction([&](const MapBuilder::PointCloudPtr& p, const M4& pose) {
      std::lock_guard<std::mutex> l(seen->m);
      seen->submaps.push_back(pose);
      seen->submap_points.push_back(p->size());
    });
    if (s.show_path) builder.SetShowPathFunction([&](const std::vector<M4>& path) {
      std::lock_guard<std::mutex> l(seen->m);
      seen->paths.push_back(path.size());
      seen->last_path = path;
    });
    if (s.show_edge) builder.SetShowEdgeFunction([&](std::map<int64_t, static_map::back_end::ViewGraph::GraphItem> g) {
      std::lock_guard<std::mutex> l(seen->m);
      ++seen->edges;
      seen->last_edge_vertices = g.size();
    });
    builder.Initialise((dir + "/config.xml").c_str());
    if (s.tell) builder.EnableUsingOdom(false);
    if (s.tell || s.gps) builder.EnableUsingGps(s.gps);
    earth.reset(new GeographicLib::LocalCartesian(31.2, 121.5, 10));
    uint64_t imu_us = d.us.empty() ? 0 : d.us[0] - 100000;
    for (size_t k = 0; k < d.truth.size(); ++k) {
      if (s.imu) {
        // Level driving: the turn about the vertical and gravity are felt.
        for (; imu_us <= d.us[k]; imu_us += 10000) {
          auto m = std::make_shared<static_map::data::ImuMsg>();
          m->header.stamp = static_map::SimpleTime::FromNanoSec(imu_us * 1000);
          const size_t n = std::min(k, d.truth.size() - 1);
          const M4 delta = n ? M4(Inv(d.truth[n - 1]) * d.truth[n]) : M4(M4::Identity());
          const double dt = n ? (d.us[n] - d.us[n - 1]) * 1e-6 : 1;
          const double w = std::atan2(delta(1, 0), delta(0, 0)) / dt, v = Trans(delta).norm() / dt;
          m->angular_velocity = V3(0, 0, w);
          m->linear_acceleration = V3(0, v * w, 9.8);
          builder.InsertImuMsg(m);
        }
      }
      if (s.gps) {
        auto m = std::make_shared<static_map::data::NavSatFixMsg>();
        const V3 p = Rot(enu) * Trans(d.truth[k]);
        double lat, lon, h;
        earth->Reverse(p[0], p[1], p[2], lat, lon, h);
        m->header.stamp = static_map::SimpleTime::FromNanoSec(d.us[k] * 1000);
        m->status.status = static_map::data::STATUS_FIX;
        m->latitude = lat;
        m->longtitude = lon;
        m->altitude = h;
        builder.InsertGpsMsg(m);
      }
      builder.InsertPointcloudMsg(ScanOf(d, k));
      if (s.pause) {
        struct timespec t = {0, s.pause * 1000l};
        syscall(SYS_nanosleep, &t, nullptr);
      }
    }
    builder.FinishAllComputations();
    // Too late to count.
    if (!d.truth.empty()) builder.InsertPointcloudMsg(ScanOf(d, 0));
  }
  standin::Hook() = nullptr;
}

struct Want {  // a point of the map
  int submap;
  int id;
  V3 at;
};

// Every expected point has one produced point of its number close to it, and
// nothing is left over.
inline void ComparePoints(const pcl::PointCloud<pcl::PointXYZI>& cloud, const std::vector<Want>& want, double tol, const std::string& name) {
  REQUIRE(cloud.size() == want.size(), name << " has " << cloud.size() << " points instead of " << want.size());
  std::map<int, std::vector<V3>> left;
  for (const Want& w : want) left[w.id].push_back(w.at);
  for (const auto& p : cloud) {
    auto& v = left[std::lround(p.intensity)];
    size_t best = v.size();
    double d = 1e9;
    for (size_t i = 0; i < v.size(); ++i) {
      const double e = (v[i] - V3(p.x, p.y, p.z)).norm();
      if (e < d) {
        d = e;
        best = i;
      }
    }
    REQUIRE(best < v.size(), name << " shows landmark " << p.intensity << " too often");
    REQUIRE(d < tol, name << " shows landmark " << p.intensity << " at " << p.x << " " << p.y << " " << p.z << ", " << d << " m from where it is");
    v.erase(v.begin() + best);
  }
}

inline bool There(const std::string& f) {
  struct stat st;
  return stat(f.c_str(), &st) == 0;
}

inline pcl::PointCloud<pcl::PointXYZI> Load(const std::string& f) {
  pcl::PointCloud<pcl::PointXYZI> c;
  REQUIRE(There(f), f << " is missing");
  REQUIRE(pcl::io::loadPCDFile(f, c) == 0, f << " cannot be read");
  return c;
}

inline void JudgeMapping(pbt::Case& c, Drive d, const Setup& s, const std::string& dir, const Seen& seen) {
  std::vector<int> keys;
  if (!KeyFrames(d, s, &keys)) c.discard();
  const int n = keys.size() / s.frame_count;
  const std::vector<M4> driven = d.truth;
  // The map starts where something was seen first.
  if (!keys.empty()) {
    const M4 start = Inv(d.truth[keys[0]]);
    for (M4& t : d.truth) t = start * t;
    for (V3& l : d.landmarks) l = Rot(start) * l + Trans(start);
  }
  REQUIRE(seen.broken.empty(), seen.broken);

  // The description lists the submaps in order.
  pugi::xml_document doc;
  REQUIRE(doc.load_file((dir + "/pkg/map.xml").c_str()), "the description is missing");
  std::vector<V3> at;
  int trajectories = 0;
  for (auto t = doc.child("Map").child("Trajectory"); t; t = t.next_sibling("Trajectory")) {
    ++trajectories;
    for (auto m = t.child("Submap"); m; m = m.next_sibling("Submap")) {
      REQUIRE(m.attribute("id").as_int(-1) == static_cast<int>(at.size()), "submap " << at.size() << " is listed with number " << m.attribute("id").as_int(-1));
      at.push_back(V3(m.attribute("tx").as_double(), m.attribute("ty").as_double(), m.attribute("tz").as_double()));
    }
  }
  REQUIRE(trajectories == 1, trajectories << " trajectories");
  REQUIRE(static_cast<int>(at.size()) == n, keys.size() << " key frames with " << s.frame_count << " per submap gave " << at.size() << " submaps instead of " << n);

  // The poses in full.
  std::vector<M4> pose;
  if (s.kitti) {
    std::ifstream f(dir + "/out/kitti_pose.txt");
    REQUIRE(f.good(), "the pose file is missing");
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream in(line);
      M4 p = M4::Identity();
      for (int r = 0; r < 3; ++r) for (int k = 0; k < 4; ++k) in >> p(r, k);
      REQUIRE(!in.fail(), "a pose line is cut short");
      pose.push_back(p);
    }
    REQUIRE(static_cast<int>(pose.size()) == n, "the pose file has " << pose.size() << " lines for " << n << " submaps");
    for (int i = 0; i < n; ++i) REQUIRE((Trans(pose[i]) - at[i]).norm() < 1e-4 * (1 + at[i].norm()), "submap " << i << " has one place in the description and another in the pose file");
  }
  const double slack = 2e-3 + 2e-4 * keys.size();
  if (!s.gps) {
    for (int i = 0; i < n; ++i) {
      const M4& t = d.truth[keys[i * s.frame_count]];
      REQUIRE((at[i] - Trans(t)).norm() < slack, "submap " << i << " is " << (at[i] - Trans(t)).norm() << " m from where it was driven");
      if (s.kitti) REQUIRE(Angle(Rot(pose[i]), Rot(t)) < slack, "submap " << i << " is turned by " << Angle(Rot(pose[i]), Rot(t)));
    }
    if (!s.kitti) for (int i = 0; i < n; ++i) pose.push_back(d.truth[keys[i * s.frame_count]]);
  } else {
    for (int i = 1; i < n; ++i) {
      const M4 got = Inv(pose[i - 1]) * pose[i], want = Inv(d.truth[keys[(i - 1) * s.frame_count]]) * d.truth[keys[i * s.frame_count]];
      REQUIRE((Trans(got) - Trans(want)).norm() < 0.15, "the step to submap " << i << " is off by " << (Trans(got) - Trans(want)).norm() << " m");
    }
  }

  // A drive that turns can be placed on the earth.
  if (s.gps && n > 6) {
    const M4 enu = Pose(Rz(s.enu_turn), V3(0, 0, 0));
    double worst = 0, turn = 0;
    for (int i = 0; i < n; ++i) worst = std::max(worst, (at[i] - Rot(enu) * Trans(driven[keys[i * s.frame_count]])).norm());
    for (int i = 0; i < n - 2; ++i) turn = std::max(turn, Angle(Rot(driven[0]), Rot(driven[keys[i * s.frame_count]])));
    if (turn > 0.4 && Trans(driven[keys[(n - 1) * s.frame_count]]).norm() > 4) {
      c.label("placed on the earth");
      REQUIRE(worst < 0.4, "the map is " << worst << " m from where the satellites put it");
    }
  }

  // The map: what the key frames saw, where they were at the end.
  std::vector<Want> want;
  for (int i = 0; i < n; ++i) {
    for (int f = 0; f < s.frame_count; ++f) {
      const int k = keys[i * s.frame_count + f];
      const M4 to = pose[i] * Inv(d.truth[keys[i * s.frame_count]]);
      for (size_t l = 0; l < d.landmarks.size(); ++l) {
        if ((d.landmarks[l] - Trans(d.truth[k])).norm() < (s.far > 0 ? s.far : d.range)) want.push_back({i, static_cast<int>(l) + 1, Rot(to) * d.landmarks[l] + Trans(to)});
      }
    }
  }
  const double near = s.kitti ? 5e-3 : 4 * slack + 40 * slack;
  const std::string whole = dir + "/out/whole_map.pcd";
  REQUIRE(There(whole) == (s.whole && !s.parts && !want.empty()), "the whole map is " << (There(whole) ? "there" : "missing"));
  if (There(whole)) ComparePoints(Load(whole), want, near, "the whole map");
  if (s.whole && s.parts) {
    for (int part = 0;; ++part) {
      const std::string name = "part " + std::to_string(part);
      const std::string file = dir + "/out/part_map_" + std::to_string(part) + ".pcd";
      std::vector<Want> some;
      for (const Want& w : want) if (w.submap / s.part_step == part) some.push_back(w);
      if (part * s.part_step >= n) {
        REQUIRE(!There(file), name << " should not be there");
        break;
      }
      ComparePoints(Load(file), some, near, name);
    }
  }
  if (s.mrvm && n > 0) {
    const int files = s.parts ? (n + s.part_step - 1) / s.part_step : 1;
    for (int part = 0; part < files; ++part) {
      const std::string file = dir + "/out/" + (s.parts ? "static_part_map_" + std::to_string(part) : std::string("static_map")) + ".pcd";
      const auto cloud = Load(file);
      REQUIRE(!cloud.empty(), file << " is empty");
      for (const auto& p : cloud) {
        double best = 1e9;
        for (const Want& w : want) best = std::min(best, (w.at - V3(p.x, p.y, p.z)).norm());
        REQUIRE(best < 0.5, "the static map has a point " << best << " m from everything seen");
      }
    }
  }

  // The path has one line for every key frame used.
  std::ifstream csv(dir + "/out/path.csv");
  REQUIRE(csv.good(), "the path file is missing");
  std::string line;
  int row = 0;
  while (std::getline(csv, line)) {
    std::replace(line.begin(), line.end(), ',', ' ');
    std::istringstream in(line);
    int index;
    V3 p;
    in >> index >> p[0] >> p[1] >> p[2];
    REQUIRE(!in.fail() && index == row, "path line " << row << " is '" << line << "'");
    REQUIRE(row < n * s.frame_count, "the path is too long");
    const int i = row / s.frame_count;
    const M4 to = pose[i] * Inv(d.truth[keys[i * s.frame_count]]) * d.truth[keys[row]];
    REQUIRE((p - Trans(to)).norm() < near, "path line " << row << " is " << (p - Trans(to)).norm() << " m off");
    ++row;
  }
  REQUIRE(row == n * s.frame_count, "the path has " << row << " lines for " << n * s.frame_count << " key frames");

  // What was shown on the way.
  if (s.show_submap) {
    REQUIRE(static_cast<int>(seen.submaps.size()) == std::max(0, n - 1), seen.submaps.size() << " submaps were shown of " << n);
    for (size_t i = 0; !s.gps && i < seen.submaps.size(); ++i) {
      const M4& t = d.truth[keys[(i + 1) * s.frame_count]];
      REQUIRE((Trans(seen.submaps[i]) - Trans(t)).norm() < slack, "submap " << i + 1 << " was shown in the wrong place");
      size_t points = 0;
      for (const Want& w : want) points += w.submap == static_cast<int>(i) + 1;
      REQUIRE(seen.submap_points[i] == points, "submap " << i + 1 << " was shown with " << seen.submap_points[i] << " points instead of " << points);
    }
  }
  if (s.show_path && n > 1) {
    REQUIRE(!seen.paths.empty(), "the path was never shown");
    for (size_t i = 1; i < seen.paths.size(); ++i) REQUIRE(seen.paths[i] > seen.paths[i - 1], "the path did not grow");
    REQUIRE(static_cast<int>(seen.paths.back()) == n, "the last path shown has " << seen.paths.back() << " of " << n << " poses");
    for (int i = 0; !s.gps && i < n; ++i) REQUIRE((Trans(seen.last_path[i]) - Trans(d.truth[keys[i * s.frame_count]])).norm() < slack, "pose " << i << " of the path is off");
  }
  if (s.show_map && n > 1) REQUIRE(seen.maps > 0, "the map was never shown");
  if (s.show_edge && n > 1) {
    REQUIRE(seen.edges > 0, "the graph was never shown");
    REQUIRE(static_cast<int>(seen.last_edge_vertices) == n, "the last graph shown has " << seen.last_edge_vertices << " of " << n << " submaps");
  }
  if (n > 1) c.nontrivial();
}

}  // namespace gen
#endif  // VERIF_HARNESS_MAPPING_H_
