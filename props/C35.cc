#include <atomic>
#include <chrono>
#include <mutex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "back_end/loop_detector.h"
#include "maps.h"
#include "standin.h"

using namespace gen;
using static_map::back_end::DetectResult;
using static_map::back_end::LoopDetector;
using static_map::back_end::LoopDetectorSettings;
using static_map::back_end::LoopStatus;

namespace {

struct Match {
  double score;
  M4 result;
};
struct Place {
  std::shared_ptr<Submap> submap;
  M4 pose;
  Eigen::VectorXf descriptor;
};

InnerCloudType::Ptr SmallCloud(int k) {
  InnerCloudType::Ptr cloud(new InnerCloudType);
  cloud->stamp = static_map::SimpleTime(100 + k, 0);
  for (int i = 0; i < 4; ++i) {
    InnerPointType p;
    p.x = i, p.y = (i * i) % 3, p.z = (i * 7 + k) % 5, p.intensity = k, p.factor = 0;
    cloud->points.push_back(p);
  }
  return cloud;
}

// Pearson correlation in absolute value.
double Similar(const Eigen::VectorXf& a, const Eigen::VectorXf& b) {
  if (a.size() != b.size() || a.size() < 10) return -1;
  const Eigen::VectorXd x = a.cast<double>().array() - a.cast<double>().mean(), y = b.cast<double>().array() - b.cast<double>().mean();
  return std::fabs(x.dot(y) / std::sqrt(x.dot(x) * y.dot(y)));
}

const int kNone = 0, kTrying = 1, kEntering = 2, kGoing = 3, kLeaving = 4;

}  // namespace

// With "together" the matches of a submap end at the same moment.
static void DetectWith(pbt::Case& c, bool together) {
  if (chdir(pbt::Case::scratch().c_str()) != 0) pbt::fail("scratch");
  LoopDetectorSettings s;
  s.use_gps = c.b();
  s.use_descriptor = c.b(1, 3);
  s.output_matched_cloud = c.b(1, 8);
  s.loop_ignore_threshold = c.u(6);
  s.trying_detect_loop_count = c.u(4);
  s.nearest_history_pos_num = together ? 4 + c.u(8) : 1 + c.u(4);
  s.max_close_loop_distance = c.oneOf({1.f, 5.f, 10.f, 25.f});
  s.max_close_loop_z_distance = c.oneOf({0.5f, 1.f, 3.f});
  s.m2dp_match_score = c.oneOf({0.5f, 0.9f, 0.99f});
  s.accept_scan_match_score = c.oneOf({0.5f, 0.75f, 0.9f});
  LoopDetector detector(s);
  const double reach = s.max_close_loop_distance, reach_z = s.max_close_loop_z_distance;

  // how often the path is away from all earlier places
  const int away = together ? 0 : c.u(4);
  std::vector<Place> all;
  std::vector<Eigen::VectorXf> kinds;
  if (s.use_descriptor)
    for (int k = 0; k < 3; ++k) {
      Eigen::VectorXf d(16);
      for (int i = 0; i < 16; ++i) d[i] = c.i(-8, 8) + (i == k ? 3 : 0);
      kinds.push_back(d);
    }
  int state = kNone, count = 0, tried_total = 0, closed = 0;
  bool window = false;
  int from = 0, to = 0;
  const int n = 6 + c.size(0, 40);
  for (int k = 0; k < n; ++k) {
    // earlier submaps may have been moved by an optimisation
    if (!all.empty() && c.b(1, 6)) {
      const int m = c.u(all.size());
      all[m].pose = Pose(AnyRotation(c), Trans(all[m].pose) + VecFine(c, reach));
      all[m].submap->SetGlobalPose(all[m].pose);
    }
    if (c.b(1, 25)) {
      from = c.u(n), to = from + c.u(n);
      window = true;
      detector.SetSearchWindow(from, to);
    }
    Place p;
    V3 at;
    if (!all.empty() && !(c.u(12) < static_cast<uint64_t>(away))) {
      at = Trans(all[c.u(std::max<size_t>(1, all.size() - std::min<size_t>(all.size(), s.loop_ignore_threshold)))].pose);
      if (c.b(1, 3)) {
        // exactly on the limits or next to them
        at[0] += c.oneOf({1.0, -1.0}) * reach * c.oneOf({1.0, 0.4, 1.01, 0.39, 0.99});
        at[2] += c.oneOf({0.0, 1.0, 1.02, 0.98}) * reach_z;
      } else {
        const double wide = c.oneOf({0.2, 0.5, 0.5, 1.2});
        at += V3(c.real(-wide, wide) * reach, c.real(-wide, wide) * reach, c.real(-wide, wide) * reach_z);
      }
      // limits are met exactly in small binary fractions only
      if (c.b()) at = V3(std::round(at[0] * 8) / 8, std::round(at[1] * 8) / 8, std::round(at[2] * 8) / 8);
    } else {
      at = V3(c.i(-40, 40) * 5 * reach, c.i(-40, 40) * 5 * reach, c.i(-2, 2));
    }
    p.pose = Pose(AnyRotation(c), at);
    SubmapOptions so;
    so.frame_count = 1;
    so.enable_disk_saving = false;
    so.enable_voxel_filter = false;
    p.submap = std::make_shared<Submap>(so);
    p.submap->SetId(SubmapId{0, k});
    p.submap->InsertFrame(MakeFrame(SmallCloud(k), p.pose));
    if (s.use_descriptor && !c.b(1, 12)) {
      p.descriptor = c.pick(kinds);
      if (c.b(1, 3))
        for (int i = 0; i < 16; ++i) p.descriptor[i] += 0.25f * c.i(-4, 4);
      p.submap->SetDescriptor(p.descriptor);
    }
    all.push_back(p);

    // candidates by definition
    const bool looked = !c.b(1, 12);
    std::vector<int> near, wanted;
    int closest = -1;
    double closest_d = 1e300;
    const bool active = looked && k + 1 > s.loop_ignore_threshold;
    if (active) {
      int a = 0, b = k - s.loop_ignore_threshold;
      if (window) a = std::min(from, k), b = std::min(to, k);
      for (int i = a; i < b; ++i) {
        const V3 d = at - Trans(all[i].pose);
        const double xy = std::hypot(d[0], d[1]), dz = std::fabs(d[2]);
        // too near to a limit to be judged with rounded numbers (not on it)
        auto unsure = [](double v, double limit) { return v != limit && std::fabs(v - limit) < 1e-9 * (1 + limit); };
        if (unsure(xy, reach) || unsure(dz, reach_z) || unsure(xy, static_cast<double>(s.max_close_loop_distance * 0.4))) c.discard();
        if (xy == reach * 0.4 || (xy == reach && d[0] != 0 && d[1] != 0)) c.discard();
        if (xy > reach || dz > reach_z) continue;
        near.push_back(i);
        if (xy < closest_d) {
          if (closest_d - xy < 1e-9 * (1 + xy)) c.discard();
          closest = i, closest_d = xy;
        }
      }
      if (closest_d >= 0.4 * reach) closest = -1;
      for (int i : near) {
        if (s.use_descriptor) {
          const double sim = Similar(p.descriptor, all[i].descriptor);
          if (std::fabs(sim - s.m2dp_match_score) < 1e-4) c.discard();
          if (!(sim > s.m2dp_match_score)) continue;
        }
        wanted.push_back(i);
      }
    }
    // how each candidate will match
    std::vector<Match> match(k);
    const M4 truth = p.pose * Pose(Exp(VecFine(c, 0.05)), VecFine(c, 0.5));
    const bool bad_world = c.b(1, 3);
    for (int i = 0; i < k; ++i) {
      match[i].score = c.b(2, 3) || together ? std::min(0.999, s.accept_scan_match_score + 0.02 + c.real(0, 0.3)) : std::max(0.001, s.accept_scan_match_score - 0.02 - c.real(0, 0.4));
      M4 seen = truth * Pose(Exp(VecFine(c, 0.002)), VecFine(c, 0.04));
      if (bad_world && c.b(1, 3)) {
        if (c.b()) seen = truth * Pose(M3::Identity(), Unit(c) * c.real(0.6, 3));
        else seen = truth * Pose(Exp(Unit(c) * c.real(0.08, 0.5)), V3::Zero());
      }
      match[i].result = Inv(all[i].pose) * seen;
    }
    std::map<const void*, int> id;
    for (int i = 0; i <= k; ++i) id[all[i].submap->Cloud().get()] = i;
    std::mutex m;
    std::vector<int> tried;
    std::vector<std::string> wrong;
    std::atomic<int> arrived(0);
    auto judge = [&](const standin::Cloud& source, const standin::Cloud& target, const M4& guess, M4* result) {
      std::lock_guard<std::mutex> lock(m);
      const int a = id.count(source.get()) ? id[source.get()] : -1, b = id.count(target.get()) ? id[target.get()] : -1;
      if (a != k) wrong.push_back("the moving cloud is that of submap " + std::to_string(a));
      if (b < 0 || b >= k) {
        wrong.push_back("the fixed cloud is that of submap " + std::to_string(b));
        return 0.0;
      }
      tried.push_back(b);
      M4 g = Inv(all[b].pose) * p.pose;
      // the height of the guess is free
      g(2, 3) = guess(2, 3);
      if (!((g - guess).cwiseAbs().maxCoeff() < 1e-6 * (1 + Trans(g).norm()))) wrong.push_back("guess for submap " + std::to_string(b));
      *result = match[b].result;
      return match[b].score;
    };
    standin::Hook() = [&](const standin::Cloud& source, const standin::Cloud& target, const M4& guess, M4* result) {
      const double score = judge(source, target, guess, result);
      if (together) {
        ++arrived;
        const auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(500);
        while (arrived.load() % 2 != 0 && std::chrono::steady_clock::now() < end) {
        }
      }
      return score;
    };
    const DetectResult r = detector.AddFrame(p.submap, looked);
    standin::Hook() = nullptr;

    REQUIRE(detector.GetFrames().size() == static_cast<size_t>(k) + 1 && detector.GetFrames().back() == p.submap, "submaps kept by the detector");
    REQUIRE(r.current_frame_index == k, "reported index " << r.current_frame_index << " instead of " << k);
    REQUIRE(static_cast<int>(r.status) == state, "reported status " << static_cast<int>(r.status) << " instead of " << state << " for submap " << k);
    REQUIRE(wrong.empty(), wrong.front() << " while looking for loops of submap " << k);
    if (active) {
      const bool hit = !wanted.empty();
      switch (state) {
        case kNone:
          count = 0;
          if (hit) state = ++count >= s.trying_detect_loop_count ? kEntering : kTrying;
          break;
        case kTrying:
          if (!hit) state = kNone;
          else if (++count >= s.trying_detect_loop_count) state = kEntering;
          break;
        case kEntering:
          state = hit ? kGoing : kTrying;
          break;
        case kGoing:
          if (!hit) state = kLeaving, count = 0;
          break;
        case kLeaving:
          state = hit ? kTrying : kNone;
          break;
      }
    }
    std::set<int> once(tried.begin(), tried.end());
    REQUIRE(once.size() == tried.size(), "a submap is matched twice");
    if (!active || state != kGoing) {
      REQUIRE(tried.empty(), tried.size() << " matches tried for submap " << k << " outside of a loop");
      REQUIRE(r.edges.empty() && !r.close_succeed, "loop reported for submap " << k << " without trying");
      continue;
    }
    ++tried_total;
    for (int t : tried) {
      REQUIRE(std::find(wanted.begin(), wanted.end(), t) != wanted.end() || t == closest, "submap " << t << " is no candidate for " << k);
    }
    const size_t limit = s.nearest_history_pos_num;
    REQUIRE(tried.size() <= limit + 1, tried.size() << " candidates tried, limit " << limit);
    const size_t beside = once.count(closest) ? once.size() - 1 : once.size();
    REQUIRE(beside <= limit, beside << " candidates tried beside the closest, limit " << limit);
    REQUIRE(once.size() >= std::min(limit, wanted.size()), "only " << once.size() << " of " << wanted.size() << " candidates tried for submap " << k);
    REQUIRE(closest < 0 || once.count(closest), "the closest submap " << closest << " is not tried for " << k);

    std::map<int, const DetectResult::LoopEdge*> edges;
    for (const auto& e : r.edges) {
      REQUIRE(e.close_pair_index.second == k, "edge from submap " << e.close_pair_index.second << " instead of " << k);
      const int t = e.close_pair_index.first;
      REQUIRE(once.count(t) && edges.emplace(t, &e).second, "edge to submap " << t << " which was not tried, or twice");
      REQUIRE(PoseDist(e.transform, match[t].result) < 1e-9, "transform of the edge to " << t);
      REQUIRE(std::fabs(e.score + std::log(match[t].score)) < 1e-9, "score of the edge to " << t << ": " << e.score << " for a match of " << match[t].score);
    }
    bool agree = true, unsure = false;
    for (int t : once) {
      const bool good = match[t].score > s.accept_scan_match_score;
      REQUIRE(good == (edges.count(t) == 1), "match of " << match[t].score << " with submap " << t << (good ? " not kept" : " kept"));
    }
    for (const auto& a : edges)
      for (const auto& b : edges) {
        const M4 d = Inv(all[a.first].pose * a.second->transform) * (all[b.first].pose * b.second->transform);
        if (Trans(d).norm() > 0.5 || AngleOf(Rot(d)) > 0.045) agree = false;
        if (Trans(d).norm() > 0.2 || AngleOf(Rot(d)) > 0.015) unsure = true;
      }
    const bool ok = edges.size() >= 2 && agree;
    if (agree && unsure && edges.size() >= 2) continue;
    REQUIRE(r.close_succeed == ok, "loop of submap " << k << " with " << edges.size() << " matches that " << (agree ? "agree" : "disagree") << (r.close_succeed ? " accepted" : " refused"));
    if (ok) ++closed;
  }
  if (tried_total) c.nontrivial();
  c.label(closed ? "closed" : tried_total ? "tried" : "none");
}

static void Detect(pbt::Case& c) { DetectWith(c, false); }
static void Together(pbt::Case& c) { DetectWith(c, true); }

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C35";
  s.rule = "candidates were matched for at least one submap";
  s.assumptions = {"the registration of two submaps is replaced by one that returns drawn transforms and scores", "at least one history position is configured",
                   "distances that differ from a limit by rounding only are not judged", "two matches count as agreeing up to 0.2 m and 0.015 rad and as disagreeing above 0.5 m or 0.045 rad"};
  s.subs = {{"detect", Detect, 15000, 100000}, {"together", Together, 2000, 20000, 60, 2, 500, true}};
  return s;
}
