#include <tbb/global_control.h>
#include "fastsleep.h"
#include "mapping.h"

using namespace gen;

namespace {

Drive AnyDrive(pbt::Case& c, const Setup& s, int max) {
  Drive d;
  const int n = c.b(1, 8) ? c.size(0, max) : 10 + c.size(0, max - 10);
  d.skewed = s.compensate;
  d.yaw_only = s.imu || s.angle > 0 || c.b();
  double v = c.real(0.1, 0.6), w = c.b(1, 3) ? 0 : c.real(-0.12, 0.12);
  const double climb = d.yaw_only ? 0 : c.real(-0.05, 0.05), roll = d.yaw_only ? 0 : c.real(-0.03, 0.03);
  M4 at = M4::Identity();
  uint64_t us = c.oneOf<uint64_t>({1000000ull, 1500000000000000ull}) + c.u(1000000);
  for (int k = 0; k < n; ++k) {
    d.truth.push_back(at);
    d.us.push_back(us);
    d.empty.push_back(c.b(1, 20));
    if (!d.skewed && !s.imu && c.b(1, 6)) {
      v = std::max(0., std::min(0.6, v + c.real(-0.1, 0.1)));
      w = std::max(-0.12, std::min(0.12, w + c.real(-0.05, 0.05)));
      if (c.b(1, 8)) v = 0;
    }
    d.step = Pose(Rpy(roll, climb, w), V3(v, 0, 0));
    at = at * d.step;
    us += 100000;
  }
  if (d.skewed) d.empty.assign(n, false);
  uint64_t state = c.u(1u << 30);
  auto next = [&](double lo, double hi) {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return lo + (hi - lo) * static_cast<double>(state >> 40) / (1 << 24);
  };
  const int marks = 30 + c.u(60);
  V3 lo = V3(-12, -12, -3), hi = V3(12, 12, 6);
  for (const M4& t : d.truth) {
    for (int k = 0; k < 3; ++k) {
      lo[k] = std::min(lo[k], t(k, 3) - 10);
      hi[k] = std::max(hi[k], t(k, 3) + 10);
    }
  }
  for (int k = 0; k < marks; ++k) d.landmarks.push_back(V3(next(lo[0], hi[0]), next(lo[1], hi[1]), next(lo[2], hi[2])));
  if (c.b(1, 3)) d.mount = Pose(Rpy(c.real(-0.2, 0.2), c.real(-0.2, 0.2), c.real(-3, 3)), V3(c.real(-1, 1), c.real(-1, 1), c.real(0, 2)));
  return d;
}

Setup AnySetup(pbt::Case& c) {
  Setup s;
  s.compensate = c.b(1, 4);
  s.imu = c.b(1, 6);
  s.gps = c.b(1, 6);
  s.disk = c.b(1, 3);
#ifdef __SANITIZE_THREAD__
  // Submaps are dropped from memory after a while without asking their users:
  // only time keeps the two apart.
  s.disk = false;
#endif
  // One second is five milliseconds here, and whoever asked for a submap has
  // this long to use it.
  s.disk_delay = 20 + c.u(20);
  s.package = c.b(1, 8);
  s.parts = c.b(1, 3);
  s.part_step = 1 + c.u(4);
  s.mrvm = c.b(1, 6);
  s.whole = !s.mrvm || c.b(2, 3);
  s.kitti = s.gps || c.b(2, 3);
  s.frame_count = 1 + c.u(5);
  s.translation = static_cast<float>(c.oneOf<double>({0.3, 0.05, 0.1, 0.5, 1.0}) + c.real(0, 0.1));
  s.angle = c.b(1, 3) ? static_cast<float>(c.real(1, 15)) : 0.f;
  s.check = c.b();
  s.show_map = c.b(1, 3);
  s.show_submap = c.b();
  s.show_path = c.b();
  s.show_edge = c.b(1, 3);
  s.pause = c.b(1, 2) ? 0 : static_cast<int>(c.u(s.disk && c.b(1, 3) ? 12000 : 2000));
  s.pair_score = c.b(1, 6) ? 0.3 : 0.95;
  s.loop_try = c.u(4);
  s.loop_ignore = c.u(6);
  s.loop_near = 1 + c.u(4);
  s.loop_dist = c.real(0.5, 15);
  s.enu_turn = c.real(-3, 3);
  s.tell = c.b(2, 3);
  s.dirt = c.oneOf<int>({0, 255, 63});
  if (!s.compensate && c.b(1, 5)) s.far = c.real(14, 25);
  return s;
}

void Run(pbt::Case& c) {
  static int count = 0;
#ifdef __SANITIZE_THREAD__
  // The optimizer library is not instrumented: keep it on the calling thread.
  static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
#endif
  const Setup s = AnySetup(c);
  const Drive d = AnyDrive(c, s, 40);
  const std::string dir = pbt::Case::scratch() + "run" + std::to_string(++count);
  c.note() << d.truth.size() << " scans, " << s.frame_count << " per submap" << (s.compensate ? ", compensated" : "") << (s.imu ? ", imu" : "")
           << (s.gps ? ", gps" : "") << (s.disk ? ", disk" : "") << (s.parts ? ", parts" : "");
  std::vector<int> keys;
  if (!KeyFrames(d, s, &keys)) c.discard();
  for (const char* l : {s.compensate ? "compensated" : "", s.imu ? "imu" : "", s.gps ? "gps" : "", s.disk ? "disk" : "", s.parts ? "parts" : "", s.mrvm ? "static map" : "", s.far > 0 ? "filtered" : ""}) {
    if (*l) c.label(l);
  }
  Seen seen;
  RunMapping(d, s, dir, &seen);
  JudgeMapping(c, d, s, dir, seen);
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C41";
  s.rule = "at least two submaps";
  s.assumptions = {"the scan matcher is replaced by one that recognises landmarks by number (by time while the scanner turns), so matching is exact",
                   "sleeps are shortened two hundred times"};
#ifdef __SANITIZE_THREAD__
  s.subs.push_back({"race", Run, 300, 3000, 60, 8, 20, true});
#else
  s.subs.push_back({"run", Run, 4000, 40000, 60, 8, 20, true});
#endif
  return s;
}
