#include <mutex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "back_end/isam_optimizer.h"
#include "back_end/loop_detector.h"
#include "maps.h"
#include "standin.h"

using namespace gen;
using static_map::back_end::IsamOptimizer;
using static_map::back_end::IsamOptimizerOptions;
using static_map::back_end::LoopDetectorSettings;
typedef Eigen::Matrix<double, 6, 1> V6;

namespace {

struct Edge {
  int a, b;
  M4 t;
};

InnerCloudType::Ptr SmallCloud(int k) {
  InnerCloudType::Ptr cloud(new InnerCloudType);
  cloud->stamp = static_map::SimpleTime(100 + k, 0);
  for (int i = 0; i < 4; ++i) {
    InnerPointType p;
    p.x = i, p.y = (i * i) % 3, p.z = (i * 7 + k) % 5, p.intensity = k, p.factor = 0;
    cloud->points.push_back(p);
  }
  return cloud;
}

M4 Move(const V6& v) { return Pose(Exp(V3(v.head<3>())), v.tail<3>()); }
V3 LogR(const M3& r) {
  const Eigen::AngleAxisd a(r);
  return a.angle() * a.axis();
}

// True relative motions of a path; `loops` tells whether it comes back.
std::vector<M4> AnyPath(pbt::Case& c, int n, bool flat) {
  std::vector<M4> r;
  const int kind = c.u(4);
  const int lap = 6 + c.u(10);
  const double step = c.oneOf({2.0, 5.0, flat ? 3.0 : 0.5});
  const double side = c.oneOf({1.0, -1.0});
  for (int k = 1; k < n; ++k) {
    V6 v = V6::Zero();
    if (kind == 0) {
      v << 0, 0, side * 2 * M_PI / lap, step, 0, 0;
    } else if (kind == 1) {
      v << 0, 0, 0, step, 0, 0;
    } else if (kind == 2) {
      // there and back again
      if (k % lap == 0) v << 0, 0, side * M_PI * 0.9, 0.1 * step, 0, 0;
      else v << 0, 0, 0, step, 0, 0;
    } else {
      v << 0, 0, c.real(-1, 1), c.real(0, 2) * step, c.real(-1, 1) * step, 0;
    }
    if (!c.b(1, 4)) {
      const double w = flat ? 0.02 : 0.1;
      v.head<3>() += VecFine(c, w);
      v.tail<3>() += VecFine(c, flat ? 0.05 : 0.2);
    }
    r.push_back(Move(v));
  }
  return r;
}

LoopDetectorSettings AnySettings(pbt::Case& c) {
  LoopDetectorSettings s;
  s.loop_ignore_threshold = 3 + c.u(5);
  s.trying_detect_loop_count = c.u(3);
  s.nearest_history_pos_num = 2 + c.u(3);
  s.max_close_loop_distance = c.oneOf({4.f, 8.f, 15.f});
  s.max_close_loop_z_distance = c.oneOf({3.f, 10.f});
  s.accept_scan_match_score = 0.75f;
  return s;
}

struct Run {
  std::vector<std::shared_ptr<Submap>> submaps;
  std::vector<Edge> loops;  // every closure the matcher reported as good
  std::mutex m;

  std::shared_ptr<Submap> New(int k, const M4& pose) {
    SubmapOptions so;
    so.frame_count = 1;
    so.enable_disk_saving = false;
    so.enable_voxel_filter = false;
    auto s = std::make_shared<Submap>(so);
    s->SetId(SubmapId{0, k});
    s->InsertFrame(MakeFrame(SmallCloud(k), pose));
    submaps.push_back(s);
    return s;
  }
};

void CheckRigid(const M4& p, int k) {
  REQUIRE(p.allFinite(), "pose of submap " << k << " is not finite");
  REQUIRE((Rot(p).transpose() * Rot(p) - M3::Identity()).norm() < 1e-6 && Rot(p).determinant() > 0 && p(3, 0) == 0 && p(3, 1) == 0 && p(3, 2) == 0 && p(3, 3) == 1,
          "pose of submap " << k << " is not rigid");
}

// The recorded graph holds every pose once, the chain and the closures.
void CheckGraph(IsamOptimizer* o, Run* run, const std::vector<M4>& rel, const std::vector<Edge>& loops) {
  const auto g = o->GetWholeGraph();
  const int n = run->submaps.size();
  REQUIRE(static_cast<int>(g.size()) == n, "graph of " << g.size() << " vertices for " << n << " submaps");
  std::map<std::pair<int, int>, std::vector<M4>> want;
  for (int k = 1; k < n; ++k) want[{k - 1, k}].push_back(rel[k - 1]);
  for (auto& e : loops) want[{e.a, e.b}].push_back(e.t);
  size_t edges = 0;
  for (auto& v : g) {
    REQUIRE(v.first >= 0 && v.first < n, "vertex " << v.first);
    REQUIRE(PoseDist(v.second.self_pose, run->submaps[v.first]->GlobalPose()) < 1e-9, "pose recorded for vertex " << v.first);
    for (auto& e : v.second.connections) {
      ++edges;
      auto w = want.find({static_cast<int>(v.first), static_cast<int>(e.first)});
      REQUIRE(w != want.end(), "edge " << v.first << " to " << e.first << " was never measured");
      double best = 1e9;
      for (auto& t : w->second) best = std::min(best, PoseDist(t, e.second));
      REQUIRE(best < 1e-9, "transform of edge " << v.first << " to " << e.first);
    }
    std::set<int> linked, expected;
    for (auto& id : run->submaps[v.first]->GetConnected()) linked.insert(id.submap_index);
    for (auto& w : want)
      if (w.first.first == v.first) expected.insert(w.first.second);
    REQUIRE(linked == expected, "submap " << v.first << " is linked to " << linked.size() << " others instead of " << expected.size());
  }
  REQUIRE(edges == static_cast<size_t>(n - 1) + loops.size(), edges << " edges for " << n - 1 << " steps and " << loops.size() << " closures");
}

// Least squares over all measured steps and closures, first pose fixed.
std::vector<M4> Solve(const std::vector<M4>& start, const std::vector<Edge>& edges) {
  std::vector<M4> p = start;
  const int n = p.size();
  auto residual = [](const M4& a, const M4& b, const M4& z) {
    const M4 d = Inv(z) * Inv(a) * b;
    V6 r;
    r << LogR(Rot(d)) / 0.1, Trans(d) / 0.15;
    return r;
  };
  for (int it = 0; it < 15; ++it) {
    Eigen::MatrixXd h = Eigen::MatrixXd::Zero(6 * n, 6 * n);
    Eigen::VectorXd g = Eigen::VectorXd::Zero(6 * n);
    for (auto& e : edges) {
      const V6 r = residual(p[e.a], p[e.b], e.t);
      Eigen::Matrix<double, 6, 12> j;
      for (int i = 0; i < 6; ++i) {
        V6 d = V6::Zero();
        d[i] = 1e-6;
        const M4 up = Move(d), down = Move(-d);
        j.col(i) = (residual(p[e.a] * up, p[e.b], e.t) - residual(p[e.a] * down, p[e.b], e.t)) / 2e-6;
        j.col(6 + i) = (residual(p[e.a], p[e.b] * up, e.t) - residual(p[e.a], p[e.b] * down, e.t)) / 2e-6;
      }
      const int at[2] = {6 * e.a, 6 * e.b};
      for (int x = 0; x < 2; ++x) {
        g.segment<6>(at[x]) += j.block<6, 6>(0, 6 * x).transpose() * r;
        for (int y = 0; y < 2; ++y) h.block<6, 6>(at[x], at[y]) += j.block<6, 6>(0, 6 * x).transpose() * j.block<6, 6>(0, 6 * y);
      }
    }
    Eigen::MatrixXd hh = h.bottomRightCorner(6 * n - 6, 6 * n - 6);
    const Eigen::VectorXd step = -hh.ldlt().solve(g.tail(6 * n - 6));
    for (int k = 1; k < n; ++k) p[k] = p[k] * Move(step.segment<6>(6 * k - 6));
    if (step.norm() < 1e-9) break;
  }
  return p;
}

}  // namespace

// All measurements agree with one set of poses.
static void Consistent(pbt::Case& c) {
  if (chdir(pbt::Case::scratch().c_str()) != 0) pbt::fail("scratch");
  mkdir("pcd", 0755);
  IsamOptimizerOptions o;
  o.use_odom = c.b(1, 3);
  o.use_gps = c.b();
  o.output_graph_pic = c.b(1, 20);
  o.enable_extrinsic_calib = c.b();
  o.gps_factor_init_num = 8 + c.u(8);
  o.gps_factor_sample_step = c.u(4);
  o.gps_factor_init_angle_rad = c.oneOf({0.0, 0.5, 1.6});
  IsamOptimizer opt(o, AnySettings(c));
  const M4 odom_lidar = o.use_odom ? Pose(Exp(V3(c.real(-0.3, 0.3), c.real(-0.3, 0.3), c.real(-3, 3))), VecFine(c, 1)) : M4(M4::Identity());
  if (o.use_odom) opt.SetTransformOdomToLidar(odom_lidar);
  const M4 gps = Pose(AnyRotation(c), VecFine(c, 1));
  if (o.use_gps) opt.SetTrackingToGps(gps);
  const M4 enu = Pose(Exp(V3(0, 0, c.real(-M_PI, M_PI))), VecFine(c, 20));

  const int n = (o.use_gps ? 10 : 1) + c.size(0, 40);
  const std::vector<M4> rel = AnyPath(c, n, o.use_gps);
  std::vector<M4> truth;
  truth.push_back(o.use_odom || c.b(1, 3) ? M4(M4::Identity()) : o.use_gps ? Pose(Rz(AnyAngle(c)), V3::Zero()) : Pose(AnyRotation(c), VecFine(c, 50)));
  for (auto& r : rel) truth.push_back(truth.back() * r);

  Run run;
  std::vector<Edge> loops;
  int cached = 0;
  bool solved = false, unsure = false;
  std::vector<std::pair<int, V3>> used;
  double turned = 0;
  const double gps_share = c.oneOf({1.0, 0.8, 0.3});
  const double odom_share = c.oneOf({1.0, 0.5});
  for (int k = 0; k < n; ++k) {
    auto s = run.New(k, truth[k]);
    if (k > 0) {
      const M4 guess = run.submaps[k - 1]->GlobalPose() * rel[k - 1];
      s->SetGlobalPose(guess);
      s->SetTransformFromLast(rel[k - 1]);
    }
    if (c.real(0, 1) < odom_share) s->SetRelatedOdom(odom_lidar * truth[k] * Inv(odom_lidar));
    const bool has_gps = c.real(0, 1) < gps_share;
    if (has_gps) {
      const V3 at = Trans(enu * truth[k] * gps);
      s->SetRelatedGpsInENU(at);
      turned = 0;
      for (int i = 0; i <= k; ++i) turned = std::max(turned, std::acos(std::max(-1.0, std::min(1.0, Rot(truth[0]).col(0).dot(Rot(truth[i]).col(0))))));
      if (o.use_gps && !solved) {
        if (std::fabs(turned - o.gps_factor_init_angle_rad) < 0.01 && o.gps_factor_init_angle_rad > 0 && cached >= o.gps_factor_init_num) unsure = true;
        if (cached < o.gps_factor_init_num || turned < o.gps_factor_init_angle_rad) ++cached;
        else solved = true;
      }
      used.push_back({k, at});
    }
    std::map<const void*, int> id;
    for (int i = 0; i <= k; ++i) id[run.submaps[i]->Cloud().get()] = i;
    std::vector<Edge> found;
    const bool bad = c.b(1, 4);
    standin::Hook() = [&](const standin::Cloud& source, const standin::Cloud& target, const M4& guess, M4* result) {
      std::lock_guard<std::mutex> lock(run.m);
      if (!id.count(source.get()) || !id.count(target.get())) return 0.0;
      const Edge e{id[target.get()], id[source.get()], Inv(truth[id[target.get()]]) * truth[id[source.get()]]};
      *result = e.t;
      if (bad) return 0.3;
      found.push_back(e);
      return 0.95;
    };
    opt.AddFrame(s, 1.0);
    standin::Hook() = nullptr;
    size_t links = 0;
    for (auto& v : opt.GetWholeGraph())
      for (auto& e : v.second.connections) links += e.first == k && v.first != k - 1;
    REQUIRE(links == 0 || links == found.size(), links << " of " << found.size() << " closures were added");
    if (!solved) REQUIRE(links > 0 || found.size() < 2, "none of " << found.size() << " consistent closures was added");
    if (links) loops.insert(loops.end(), found.begin(), found.end());
    if (unsure) c.discard();
    if (o.use_gps) {
      const M4 g = opt.GetGpsCoordTransform();
      CheckRigid(g, -1);
      if (!solved) REQUIRE(g.isIdentity(0), "map aligned to GPS after " << cached << " fixes and a turn of " << turned);
      if (solved) REQUIRE(!g.isIdentity(0) || PoseDist(enu, M4::Identity()) < 1e-3, "map not aligned to GPS after " << cached << " fixes and a turn of " << turned);
    }
  }
  opt.RunFinalOptimazation();
  for (int k = 0; k < n; ++k) CheckRigid(run.submaps[k]->GlobalPose(), k);
  c.note() << n << " submaps, " << loops.size() << " closures, odometry " << o.use_odom << ", gps " << o.use_gps << (solved ? " aligned" : "");
  if (loops.size()) c.label("closed");
  if (solved) c.label("gps");
  if (n > 2) c.nontrivial();
  for (int k = 0; k < n; ++k) REQUIRE(PoseDist(run.submaps[k]->GlobalPose(), truth[k]) < (k == 0 ? 1e-4 : solved ? 0.4 : 2e-3), "pose of submap " << k << " is " << Str(run.submaps[k]->GlobalPose()) << ", expected " << Str(truth[k]));
  if (o.use_odom) {
    REQUIRE(PoseDist(opt.GetTransformOdomToLidar(), odom_lidar) < 0.02, "calibration moved to " << Str(opt.GetTransformOdomToLidar()) << " from " << Str(odom_lidar));
  }
  if (solved) {
    const M4 g = opt.GetGpsCoordTransform();
    for (auto& u : used) REQUIRE((Trans(g * run.submaps[u.first]->GlobalPose() * gps) - u.second).norm() < 0.15, "aligned position of submap " << u.first << " is off by " << (Trans(g * run.submaps[u.first]->GlobalPose() * gps) - u.second).norm());
  }
  CheckGraph(&opt, &run, rel, loops);
}

// Drifting steps and exact closures: the least-squares compromise.
static void Drift(pbt::Case& c) {
  if (chdir(pbt::Case::scratch().c_str()) != 0) pbt::fail("scratch");
  IsamOptimizerOptions o;
  o.enable_extrinsic_calib = c.b();
  IsamOptimizer opt(o, AnySettings(c));
  const int n = 8 + c.size(0, 30);
  const std::vector<M4> rel = AnyPath(c, n, true);
  std::vector<M4> truth, seen;
  truth.push_back(c.b() ? M4(M4::Identity()) : Pose(AnyRotation(c), VecFine(c, 50)));
  for (auto& r : rel) truth.push_back(truth.back() * r);
  const double wr = c.oneOf({0.0, 0.002, 0.01}), wt = c.oneOf({0.01, 0.05, 0.1});
  for (auto& r : rel) seen.push_back(r * Pose(Exp(VecFine(c, wr)), VecFine(c, wt)));
  Run run;
  std::vector<Edge> loops;
  for (int k = 0; k < n; ++k) {
    auto s = run.New(k, truth[k]);
    if (k > 0) {
      s->SetGlobalPose(run.submaps[k - 1]->GlobalPose() * seen[k - 1]);
      s->SetTransformFromLast(seen[k - 1]);
    }
    std::map<const void*, int> id;
    for (int i = 0; i <= k; ++i) id[run.submaps[i]->Cloud().get()] = i;
    std::vector<Edge> found;
    standin::Hook() = [&](const standin::Cloud& source, const standin::Cloud& target, const M4& guess, M4* result) {
      std::lock_guard<std::mutex> lock(run.m);
      if (!id.count(source.get()) || !id.count(target.get())) return 0.0;
      const Edge e{id[target.get()], id[source.get()], Inv(truth[id[target.get()]]) * truth[id[source.get()]]};
      *result = e.t;
      found.push_back(e);
      return 0.95;
    };
    // the closures are taken over only if they agree with each other
    std::vector<M4> before;
    for (auto& r : run.submaps) before.push_back(r->GlobalPose());
    opt.AddFrame(s, 1.0);
    standin::Hook() = nullptr;
    for (auto& v : opt.GetWholeGraph()) REQUIRE(PoseDist(v.second.self_pose, run.submaps[v.first]->GlobalPose()) < 1e-9, "pose recorded for vertex " << v.first);
    if (found.empty()) continue;
    size_t links = 0;
    for (auto& v : opt.GetWholeGraph())
      for (auto& e : v.second.connections) links += e.first == k && (v.first != k - 1 || PoseDist(e.second, seen[k - 1]) > 1e-12);
    REQUIRE(links == 0 || links == found.size(), links << " of " << found.size() << " closures were added");
    if (links) loops.insert(loops.end(), found.begin(), found.end());
    // What was closed counts at once, not at the end only.
    double gap = 0, left = 0;
    for (auto& e : found) gap += PoseDist(Inv(before[e.a]) * before[e.b], e.t) / found.size();
    for (auto& e : found) left += PoseDist(Inv(run.submaps[e.a]->GlobalPose()) * run.submaps[e.b]->GlobalPose(), e.t) / found.size();
    if (links && gap > 0.1) {
      c.label("gap closed");
      REQUIRE(left < 0.7 * gap, "a gap of " << gap << " is still " << left << " after " << found.size() << " closures");
    }
  }
  opt.RunFinalOptimazation();
  std::vector<Edge> edges = loops;
  for (int k = 1; k < n; ++k) edges.push_back({k - 1, k, seen[k - 1]});
  std::vector<M4> start;
  for (auto& s : run.submaps) start.push_back(s->GlobalPose());
  const std::vector<M4> want = Solve(start, edges);
  double drift = 0;
  M4 dead = truth[0];
  for (int k = 0; k < n; ++k) {
    if (k) dead = dead * seen[k - 1];
    drift = std::max(drift, PoseDist(dead, truth[k]));
  }
  c.note() << n << " submaps, " << loops.size() << " closures, noise " << wr << " rad " << wt << " m, drift " << drift;
  if (loops.size()) c.nontrivial();
  c.label(loops.empty() ? "open" : "closed");
  for (int k = 0; k < n; ++k) {
    CheckRigid(start[k], k);
    REQUIRE(PoseDist(start[k], want[k]) < (k == 0 ? 1e-4 : 0.03), "pose of submap " << k << " is " << Str(start[k]) << ", least squares gives " << Str(want[k]));
  }
  CheckGraph(&opt, &run, seen, loops);
}

// Drifting steps and exact GPS fixes: the map follows the fixes.
static void GpsDrift(pbt::Case& c) {
  if (chdir(pbt::Case::scratch().c_str()) != 0) pbt::fail("scratch");
  IsamOptimizerOptions o;
  o.use_gps = true;
  o.enable_extrinsic_calib = c.b();
  o.gps_factor_init_num = 8 + c.u(8);
  o.gps_factor_sample_step = c.u(4);
  o.gps_factor_init_angle_rad = c.oneOf({0.5, 1.6});
  LoopDetectorSettings ls;
  ls.loop_ignore_threshold = 1000;
  IsamOptimizer opt(o, ls);
  const M4 gps = Pose(AnyRotation(c), VecFine(c, 1));
  opt.SetTrackingToGps(gps);
  const M4 enu = Pose(Exp(V3(0, 0, c.real(-M_PI, M_PI))), VecFine(c, 20));
  const int n = 20 + c.size(0, 50);
  const double turn = c.oneOf({1.0, -1.0}) * c.real(0.1, 0.4), step = c.real(2, 5);
  std::vector<M4> truth, seen;
  truth.push_back(Pose(Rz(AnyAngle(c)), V3::Zero()));
  const double wr = c.oneOf({0.002, 0.01}), wt = c.oneOf({0.02, 0.08});
  const M4 bias = Pose(Exp(VecFine(c, wr)), V3::Zero());
  Run run;
  int solved_at = -1;
  bool solved = false;
  std::vector<std::pair<int, V3>> used;
  M4 dead = truth[0];
  double drift = 0;
  for (int k = 0; k < n; ++k) {
    if (k > 0) {
      const M4 r = Pose(Exp(V3(0, 0, c.b(1, 3) ? 0 : turn)) * Exp(VecFine(c, 0.01)), V3(step, 0, 0));
      truth.push_back(truth.back() * r);
      seen.push_back(r * bias * Pose(Exp(VecFine(c, wr)), VecFine(c, wt)));
      dead = dead * seen.back();
      drift = std::max(drift, (Trans(dead) - Trans(truth[k])).norm());
    }
    auto s = run.New(k, truth[k]);
    if (k > 0) {
      s->SetGlobalPose(run.submaps[k - 1]->GlobalPose() * seen[k - 1]);
      s->SetTransformFromLast(seen[k - 1]);
    }
    if (!c.b(1, 4)) {
      const V3 at = Trans(enu * truth[k] * gps);
      s->SetRelatedGpsInENU(at);
      used.push_back({k, at});
    }
    opt.AddFrame(s, 1.0);
    if (!solved && !opt.GetGpsCoordTransform().isIdentity(0)) solved = true, solved_at = k;
  }
  opt.RunFinalOptimazation();
  if (!solved) return;
  c.nontrivial();
  // the fixes that have to count: all before the alignment, then every step-th
  std::vector<std::pair<int, V3>> keep;
  for (auto& u : used)
    if (u.first < solved_at || (u.first > solved_at && (o.gps_factor_sample_step <= 1 || u.first % o.gps_factor_sample_step == 0))) keep.push_back(u);
  used.swap(keep);
  const M4 g = opt.GetGpsCoordTransform();
  CheckRigid(g, -1);
  c.note() << n << " submaps, " << used.size() << " fixes, drift " << drift;
  for (int k = 0; k < n; ++k) CheckRigid(run.submaps[k]->GlobalPose(), k);
  REQUIRE(PoseDist(run.submaps[0]->GlobalPose(), truth[0]) < 1e-4, "the first pose moved to " << Str(run.submaps[0]->GlobalPose()));
  for (auto& u : used) {
    const double off = (Trans(g * run.submaps[u.first]->GlobalPose() * gps) - u.second).norm();
    REQUIRE(off < 0.3 + 0.3 * drift, "submap " << u.first << " is " << off << " away from its fix, dead reckoning by up to " << drift);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C34";
  s.rule = "more than two submaps; with drifting steps at least one accepted closure, or an alignment to GPS";
  s.assumptions = {"the registration of two submaps is replaced by one that returns the true relative pose",
                   "the initial pose of a submap is its predecessor's pose moved by the measured step, as the builder does", "alignments are judged for maps that start level at the origin",
                   "steps and closures weigh the same (0.1 rad, 0.15 m); a pose may differ from the least-squares pose by 0.03"};
  s.subs = {{"consistent", Consistent, 10000, 80000, 120}, {"drift", Drift, 5000, 40000, 120}, {"gps drift", GpsDrift, 4000, 30000, 120}};
  return s;
}
