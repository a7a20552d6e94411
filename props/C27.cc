#include "builder/imu_tracker.h"
#include "builder/pose_extrapolator.h"
#include "gen.h"

using namespace gen;
using static_map::ImuTracker;
using static_map::PoseExtrapolator;
using static_map::SimpleTime;

static SimpleTime At(int64_t ns) { return SimpleTime(static_cast<uint32_t>(ns / 1000000000), static_cast<uint32_t>(ns % 1000000000)); }

// The shortest rotation taking a to b.
static M3 Between(const V3& a, const V3& b) {
  const V3 x = a.normalized(), y = b.normalized();
  const V3 n = x.cross(y);
  if (n.norm() < 1e-12) return M3::Identity();
  return Exp(n.normalized() * std::atan2(n.norm(), x.dot(y)));
}
static M3 Mat(const Eigen::Quaterniond& q) { return q.toRotationMatrix(); }

static void Tracker(pbt::Case& c) {
  const double tau = c.oneOf<double>({0.5, 1, 9.8, 100});
  int64_t t = (c.b() ? 5 : 1500000000) * 1000000000ll + static_cast<int64_t>(c.u(1000000000));
  ImuTracker tr(tau, At(t)), split(tau, At(t));
  M3 r = M3::Identity();
  V3 g(0, 0, 1), w = V3::Zero();
  int64_t last_acc = -1;
  const int n = 1 + c.u(30);
  int rot = 0, acc = 0;
  const V3 base = Exp(V3(c.real(-1.4, 1.4), c.real(-0.5, 0.5), 0)) * V3(0, 0, 1);
  for (int k = 0; k < n; ++k) {
    switch (c.u(3)) {
      case 0: {
        const int64_t dt = c.b(1, 8) ? 0 : static_cast<int64_t>(c.u(c.b() ? 20000000 : 400000000));
        const M3 d = Exp(w * (dt * 1e-9));
        r = r * d;
        g = d.transpose() * g;
        t += dt;
        tr.Advance(At(t));
        // the same in several steps
        const int parts = 1 + c.u(4);
        for (int p = 1; p <= parts; ++p) split.Advance(At(t - dt + dt * p / parts));
        if (dt > 0 && w.norm() > 0) ++rot;
        c.note() << "advance " << dt * 1e-9 << "; ";
        break;
      }
      case 1: {
        w = V3::Zero();
        w[c.u(3)] = c.real(-3, 3);
        tr.AddImuAngularVelocityObservation(w);
        split.AddImuAngularVelocityObservation(w);
        c.note() << "rate " << w.transpose() << "; ";
        break;
      }
      default: {
        // roughly where the filtered gravity is
        const V3 up = last_acc < 0 ? base : g.normalized();
        const V3 a = (Exp(VecFine(c, 0.6)) * up) * c.real(1, 15);
        const double alpha = last_acc < 0 ? 1 : 1 - std::exp(-(t - last_acc) * 1e-9 / tau);
        last_acc = t;
        g = (1 - alpha) * g + alpha * a;
        r = r * Between(g, r.transpose() * V3(0, 0, 1));
        tr.AddImuLinearAccelerationObservation(a);
        split.AddImuLinearAccelerationObservation(a);
        ++acc;
        c.note() << "acc " << a.transpose() << "; ";
        REQUIRE(((Mat(tr.orientation()) * g).normalized() - V3(0, 0, 1)).norm() < 1e-6, "gravity does not point up after levelling");
      }
    }
    REQUIRE(std::fabs(tr.orientation().norm() - 1) < 1e-9, "quaternion norm " << tr.orientation().norm());
    REQUIRE(tr.time().ToNanoSec() == t, "time");
    REQUIRE((Mat(tr.orientation()) - r).cwiseAbs().maxCoeff() < 1e-6, "orientation off by " << Angle(Mat(tr.orientation()), r) << " rad");
    REQUIRE((Mat(split.orientation()) - r).cwiseAbs().maxCoeff() < 1e-6, "orientation of the finer steps off by " << Angle(Mat(split.orientation()), r) << " rad");
  }
  if (rot > 0 && acc > 1) c.nontrivial();
}

// Prediction with consistent IMU data of a turn about one axis whose rate may
// change with every measurement.
static void Predict(pbt::Case& c) {
  const int axis = c.u(3);
  V3 unit = V3::Zero(), w = V3::Zero();
  unit[axis] = 1;
  w[axis] = c.b(1, 6) ? 0 : c.real(-0.7, 0.7);
  const V3 v = VecFine(c, 10);
  const double tau = c.oneOf<double>({1, 9.8, 50}), gravity = 9.8;
  const int64_t start = 1500000000ll * 1000000000ll + static_cast<int64_t>(c.u(1000000000));
  const M3 tilt = Exp(V3(c.real(-0.5, 0.5), c.real(-0.5, 0.5), 0));
  const int64_t step = c.oneOf<int64_t>({2500000, 10000000, 20000000});
  // The rate of a measurement lasts until the next one.
  std::vector<double> factor(1, 1);
  if (c.b()) {
    factor.resize(2 + c.u(4));
    for (double& f : factor) f = c.real(-1.5, 1.5);
  }
  const int64_t hold = step * (1 + c.u(6));
  auto rate = [&](int64_t t) { return V3(w * factor[(t - start) / hold % factor.size()]); };
  auto turned = [&](int64_t t) {
    double a = 0;
    for (int64_t b = start; b < t; b += hold) a += rate(b)[axis] * (std::min(t, b + hold) - b) * 1e-9;
    return a;
  };
  auto rot = [&](int64_t t) { return M3(tilt * Exp(unit * turned(t))); };
  auto pose = [&](int64_t t) { return Pose(rot(t), v * ((t - start) * 1e-9)); };
  auto imu = [&](int64_t t) {
    static_map::data::ImuMsg m;
    m.header.stamp = At(t);
    m.angular_velocity = rate(t);
    m.linear_acceleration = rot(t).transpose() * V3(0, 0, gravity);
    return m;
  };
  c.note() << "rate " << w.transpose() << " v " << v.transpose() << " every " << step * 1e-9 << " s: ";
  const int64_t window = 100000000;
  auto e = PoseExtrapolator::InitializeWithImu(At(window), tau, imu(start));
  const M4 first = e->ExtrapolatePose(At(start));
  REQUIRE(((Rot(first) * (rot(start).transpose() * V3(0, 0, 1))) - V3(0, 0, 1)).norm() < 1e-6, "the first pose is not level");
  int64_t t = start, next_imu = start + step;
  M4 last = first;
  int64_t last_t = start;
  // start the track with the true pose: predictions are relative to it
  const int n = 1 + c.u(25);
  int64_t covered = -1;
  for (int k = 0; k < n; ++k) {
    const int64_t horizon = t + 1000000 + static_cast<int64_t>(c.u(200000000));
    while (next_imu <= horizon) {
      e->AddImuData(imu(next_imu));
      next_imu += step;
    }
    const int64_t ask = std::max(t, last_t) + static_cast<int64_t>(c.u(horizon - std::max(t, last_t) + 1));
    const M4 got = e->ExtrapolatePose(At(ask));
    REQUIRE(IsRigid(got, 1e-6), "not rigid");
    const M3 want = Rot(last) * Exp(unit * (turned(ask) - turned(last_t)));
    REQUIRE((Rot(got) - want).cwiseAbs().maxCoeff() < 1e-5, "rotation predicted " << (ask - last_t) * 1e-9 << " s ahead is off by " << Angle(Rot(got), want) << " rad");
    if (covered >= 0)
      REQUIRE((Trans(got) - Trans(pose(ask))).norm() < 1e-5 * (1 + v.norm()), "position predicted as " << Trans(got).transpose() << ", expected " << Trans(pose(ask)).transpose());
    const Eigen::Quaterniond up = e->EstimateGravityOrientation(At(ask));
    REQUIRE((Mat(up) * (rot(ask).transpose() * V3(0, 0, 1)) - V3(0, 0, 1)).norm() < 1e-5, "gravity direction off");
    if (w.norm() > 0 && k > 2) c.nontrivial();
    c.label(factor.size() > 1 ? "changing rate" : "steady rate");
    // the pose of that moment
    if (c.b(3, 4)) {
      last_t = horizon > ask ? ask + static_cast<int64_t>(c.u(std::min<int64_t>(horizon - ask, 1000000) + 1)) : ask;
      if (last_t <= start) last_t = start + 1;
      last = pose(last_t);
      e->AddPose(At(last_t), last);
      REQUIRE(e->GetLastPoseTime().ToNanoSec() == last_t, "last pose time");
      REQUIRE(PoseDist(e->ExtrapolatePose(At(last_t)), last) < 1e-6 * (1 + Trans(last).norm()), "at the time of the last pose");
      if (last_t - start > window) covered = last_t;
      if (c.b(1, 6)) {  // late IMU data does not count
        auto late = imu(last_t - 1 - static_cast<int64_t>(c.u(50000000)));
        late.angular_velocity = V3(2, -2, 2);
        late.linear_acceleration = V3(9, 0, 1);
        e->AddImuData(late);
      }
      next_imu = std::max(next_imu, last_t);
    }
    t = std::max(ask, last_t);
    c.note() << (t - start) * 1e-9 << " ";
  }
}

// Prediction with odometry of a steady drive, with and without IMU: positions
// go on with the velocity the odometry shows, wherever its origin is.
static void Odometry(pbt::Case& c) {
  const bool with_imu = c.b(2, 3);
  const double w = c.b() ? 0 : c.real(-0.3, 0.3);
  const V3 rate(0, 0, w), v = VecFine(c, 10);
  const int64_t start = 1500000000ll * 1000000000ll + static_cast<int64_t>(c.u(1000000000));
  const M4 from = Pose(with_imu ? Exp(V3(c.real(-0.5, 0.5), c.real(-0.5, 0.5), 0)) : Exp(V3(0, 0, c.real(-3, 3))), VecFine(c, 50));
  const M4 origin = AnyPose(c, 100);
  auto pose = [&](int64_t ns) {
    const double t = (ns - start) * 1e-9, a = w * t;
    const double s = w == 0 ? t : std::sin(a) / w, k = w == 0 ? 0 : (1 - std::cos(a)) / w;
    return M4(from * Pose(Exp(rate * t), V3(s * v[0] - k * v[1], k * v[0] + s * v[1], v[2] * t)));
  };
  auto imu = [&](int64_t t) {
    static_map::data::ImuMsg m;
    m.header.stamp = At(t);
    m.angular_velocity = rate;
    m.linear_acceleration = Rot(pose(t)).transpose() * V3(0, 0, 9.8);
    return m;
  };
  auto odom = [&](int64_t t, const M4& p) {
    static_map::data::OdomMsg m;
    m.header.stamp = At(t);
    m.SetPose(p);
    return m;
  };
  c.note() << (with_imu ? "imu, " : "") << "rate " << w << " v " << v.transpose() << ": ";
  auto e = with_imu ? PoseExtrapolator::InitializeWithImu(At(100000000), 9.8, imu(start)) : std::make_unique<PoseExtrapolator>(At(100000000), 9.8);
  int64_t t = start, last = start;
  if (!with_imu) e->AddPose(At(start), pose(start));
  std::vector<int64_t> kept;
  bool posed = false, ready = false;
  const int n = 5 + c.u(40);
  for (int k = 0; k < n; ++k) {
    t += 1000000 + static_cast<int64_t>(c.u(40000000));
    if (with_imu) e->AddImuData(imu(t));
    switch (c.u(4)) {
      case 0:
      case 1: {
        if (c.b(1, 6) && last > start) {  // late odometry does not count
          e->AddOdometryData(odom(last - 1 - static_cast<int64_t>(c.u(50000000)), AnyPose(c, 100)));
          c.note() << "late odometry; ";
        }
        e->AddOdometryData(odom(t, origin * pose(t)));
        kept.push_back(t);
        while (kept.size() > 2 && kept[1] <= last) kept.erase(kept.begin());
        if (posed) ready = true;
        c.note() << "odometry " << (t - start) * 1e-9 << "; ";
        break;
      }
      case 2:
        e->AddPose(At(t), pose(t));
        last = t;
        posed = kept.size() >= 2;
        c.note() << "pose " << (t - start) * 1e-9 << "; ";
        break;
      default: {
        const M4 got = e->ExtrapolatePose(At(t));
        REQUIRE(IsRigid(got, 1e-6), "not rigid");
        if (!ready) break;
        const double ahead = (t - last) * 1e-9, span = (kept.back() - kept.front()) * 1e-9;
        const V3 want = Trans(pose(last)) + Rot(pose(kept.back())) * v * ahead;
        // The velocity is the mean of the turn between the odometry used.
        const double tol = 1e-5 * (1 + v.norm()) + v.norm() * std::fabs(w) * span * ahead;
        REQUIRE((Trans(got) - want).norm() < tol, "position predicted " << ahead << " s ahead is " << (Trans(got) - want).norm() << " m off");
        REQUIRE(Angle(Rot(got), Rot(pose(t))) < 1e-5, "rotation predicted " << ahead << " s ahead is off by " << Angle(Rot(got), Rot(pose(t))) << " rad");
        if (ahead > 0 && v.norm() > 0.1) c.nontrivial();
        c.label(with_imu ? "imu and odometry" : "odometry only");
        c.note() << "ask " << (t - start) * 1e-9 << "; ";
      }
    }
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C27";
  s.rule = "tracker: up to 30 steps of advancing (0-0.4 s, also split in parts), rates up to 3 rad/s about one axis, accelerations within 0.6 rad per axis of the filtered gravity, against an own integration; prediction: consistent IMU data of turns with steady or changing rate between poses; odometry of steady drives (up to 0.3 rad/s) in any frame, with and without IMU, also late; non-trivial when rotations and levellings mix or odometry is used";
  s.assumptions = {"one rotation axis at a time", "IMU data older than the last pose is ignored; queries are not older than the last pose and do not go back", "accelerations keep away from the opposite of the filtered gravity"};
  s.subs.push_back({"tracker", Tracker, 8000, 100000});
  s.subs.push_back({"predict", Predict, 4000, 60000});
  s.subs.push_back({"odometry", Odometry, 4000, 60000});
  return s;
}
