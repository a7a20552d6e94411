#include <deque>
#include "builder/pose_extrapolator.h"
#include "gen.h"

using namespace gen;
using static_map::PoseExtrapolator;
using static_map::SimpleTime;

static SimpleTime At(int64_t ns) { return SimpleTime(static_cast<uint32_t>(ns / 1000000000), static_cast<uint32_t>(ns % 1000000000)); }

// A steady motion sampled at drawn moments.
static void Steady(pbt::Case& c) {
  const M4 p0 = AnyPose(c, 100);
  const V3 v = VecFine(c, 20);
  const int axis = c.u(3);
  const double rate = c.b(1, 5) ? 0 : c.real(-0.8, 0.8) * (axis == 1 ? 0.6 : 1);
  V3 w = V3::Zero();
  w[axis] = rate;
  const double window = c.oneOf<double>({0.001, 0.1, 0.3, 1});
  const int64_t start = (c.b() ? 100 : 1500000000) * 1000000000ll + static_cast<int64_t>(c.u(1000000000));
  auto truth = [&](int64_t ns) {
    const double t = (ns - start) * 1e-9;
    return Pose(Rot(p0) * Exp(w * t), Trans(p0) + v * t);
  };
  c.note() << "v " << v.transpose() << " rate " << rate << " about " << axis << " window " << window << ": ";
  auto e = PoseExtrapolator::InitialSimpleCTRV(SimpleTime::FromSec(window));
  REQUIRE(e->GetLastPoseTime() == SimpleTime(), "last pose time without poses");
  int64_t t = start;
  const int n = 1 + c.u(30);
  for (int k = 0; k < n; ++k) {
    const bool asked_before = k > 0 && c.b(1, 4);
    if (asked_before) e->ExtrapolatePose(At(t));  // as the front end does
    e->AddPose(At(t), truth(t));
    REQUIRE(e->GetLastPoseTime().ToNanoSec() == t, "last pose time");
    const bool known = (t - start) * 1e-9 > window + 1e-6;
    const bool unknown = (t - start) * 1e-9 < window - 1e-6;
    if (known && rate != 0) c.nontrivial();
    const int q = c.u(4);
    for (int j = 0; j < q; ++j) {
      const int64_t ask = t + (c.b(1, 4) ? 0 : static_cast<int64_t>(c.u(c.b() ? 200000000 : 1500000000)));
      c.note() << (ask - start) * 1e-9 << " ";
      const M4 got = e->ExtrapolatePose(At(ask));
      REQUIRE(IsRigid(got, 1e-6), "not a rigid pose " << Str(got));
      if (ask == t)
        REQUIRE(PoseDist(got, truth(t)) < 1e-7 * (1 + Trans(truth(t)).norm()), "at the time of the last pose " << Str(got) << ", the pose is " << Str(truth(t)));
      else if (known)
        REQUIRE(PoseDist(got, truth(ask)) < 1e-5 * (1 + 1e-2 * Trans(truth(ask)).norm()), "predicted " << Str(got) << ", expected " << Str(truth(ask)));
      else if (unknown)
        REQUIRE(PoseDist(got, truth(t)) < 1e-7 * (1 + Trans(truth(t)).norm()), "a velocity from less than the window " << Str(got));
      const M4 again = e->ExtrapolatePose(At(ask));
      REQUIRE(PoseDist(got, again) < 1e-12, "asked twice");
    }
    t += 1000000 + static_cast<int64_t>(c.u(c.b(1, 5) ? 1500000000 : 150000000));
  }
}

// Arbitrary motion: the velocity is that between the newest pose and the
// newest one at least a window older.
static void Window(pbt::Case& c) {
  const double window = c.oneOf<double>({0.1, 0.3, 1});
  const int64_t win = static_cast<int64_t>(window * 1e9 + 0.5);
  auto e = PoseExtrapolator::InitialSimpleCTRV(At(win));
  const bool init_speed = c.b(1, 4);
  const V3 v0 = VecFine(c, 5);
  if (init_speed && c.b(1, 3)) e->InitRoughLinearVelocity(VecFine(c, 5));  // said twice, the last counts
  if (init_speed) e->InitRoughLinearVelocity(v0);
  std::vector<std::pair<int64_t, M4>> poses;
  int64_t t = 1500000000ll * 1000000000ll + static_cast<int64_t>(c.u(1000000000));
  M4 p = AnyPose(c, 100);
  const int n = 1 + c.u(30);
  const int axis = c.u(3);
  const bool queries_before = c.b();
  V3 vel = init_speed ? v0 : V3::Zero();
  double rate = 0;
  bool estimated = false;
  double angle = 0;
  std::vector<double> angles;
  for (int k = 0; k < n; ++k) {
    if (k > 0 && queries_before) e->ExtrapolatePose(At(t));
    e->AddPose(At(t), p);
    poses.push_back({t, p});
    angles.push_back(angle);
    // the reference
    int front = 0;
    for (int j = 0; j < static_cast<int>(poses.size()) - 1; ++j)
      if (poses[j].first <= t - win) front = j;
    const double dt = (t - poses[front].first) * 1e-9;
    if (k > 0 && t - poses[front].first >= win) {
      vel = (Trans(p) - Trans(poses[front].second)) / dt;
      rate = (angle - angles[front]) / dt;
      estimated = true;
    }
    if (estimated && poses.size() > 3) c.nontrivial();
    const int64_t ask = t + static_cast<int64_t>(c.u(400000000));
    const double d = (ask - t) * 1e-9;
    V3 w = V3::Zero();
    w[axis] = rate * d;
    const M4 want = Pose(Rot(p) * Exp(w), Trans(p) + vel * d);
    const M4 got = e->ExtrapolatePose(At(ask));
    c.note() << "pose " << (t - poses[0].first) * 1e-9 << " ask +" << d << "; ";
    REQUIRE(PoseDist(got, want) < 1e-5 * (1 + 1e-2 * Trans(want).norm()), "predicted " << Str(got) << ", expected " << Str(want) << " from the window of " << dt << " s");
    const double turn = c.real(-0.1, 0.1);
    angle += turn;
    V3 dw = V3::Zero();
    dw[axis] = turn;
    p = Pose(Rot(p) * Exp(dw), Trans(p) + VecFine(c, 3));
    int64_t gap = 1000000 + static_cast<int64_t>(c.u(c.b(1, 6) ? 1500000000 : 150000000));
    if (c.b(1, 8)) gap = win;
    t += gap;
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C26";
  s.rule = "steady motions (up to 20 m/s per axis, 0.8 rad/s about one body axis) sampled every 1 ms to 1.5 s and asked for up to 1.5 s ahead, also before the pose of that moment arrives; arbitrary motions against a window model; non-trivial once the window is covered and the motion turns";
  s.assumptions = {"turns about one body axis, less than a quarter turn per window for the exact comparison", "before the window is covered the last velocity (initially zero) is used"};
  s.subs.push_back({"steady", Steady, 6000, 100000});
  s.subs.push_back({"window", Window, 6000, 100000});
  return s;
}
