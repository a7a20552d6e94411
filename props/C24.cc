#include "streams.h"

using namespace gen;

struct Odo {
  uint64_t ns;
  M4 raw, rel;
};

static void Odom(pbt::Case& c) {
  std::vector<Odo> all;
  const int n = c.size(0, 40);
  uint64_t ns = StartNs(c);
  M4 pose = AnyPose(c, 200);
  for (int k = 0; k < n; ++k) {
    Odo o;
    o.ns = ns;
    o.raw = pose;
    all.push_back(o);
    switch (c.u(8)) {
      case 0:
        ns += c.u(1500);  // same moment
        break;
      case 1:
        ns += 999900000;
        break;
      case 2:
        ns += 1000100000 + c.u(4000000000ull);
        break;
      default:
        ns += 1000000 + c.u(400000000);
    }
    pose = pose * Motion(c, c.b(1, 6) ? 2.9 : 0.5, 5);
  }
  for (auto& o : all) o.rel = Inv(all[0].raw) * o.raw;
  flt::Factory chain;
  DataCollector d(DataCollectorOptions(), &chain);
  const bool trims = c.b(1, 3);
  const uint64_t start = all.empty() ? StartNs(c) : all[0].ns;
  size_t sent = 0, first = 0;
  int answers = 0;
  c.note() << n << " messages; ";
  const int steps = 1 + c.u(10);
  for (int s = 0; s < steps; ++s) {
    const size_t add = s + 1 == steps ? all.size() - sent : c.u(all.size() - sent + 1);
    for (size_t k = 0; k < add; ++k, ++sent) {
      OdomMsg m;
      m.header.stamp = At(all[sent].ns);
      const Eigen::Quaterniond q(Rot(all[sent].raw));
      m.pose.pose.orientation = c.b() ? q : Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z());
      m.pose.pose.position = Trans(all[sent].raw);
      d.AddSensorData(m);
    }
    const std::vector<Odo> known(all.begin(), all.begin() + sent);
    const int nq = 1 + c.u(4);
    for (int k = 0; k < nq; ++k) {
      const uint64_t t = QueryNs(c, known, start);
      const double threshold = c.oneOf<double>({0.005, 0.001, 0.4});
      const bool trim = trims && c.b();
      c.note() << (static_cast<int64_t>(t - start)) * 1e-9 << " ";
      // acceptable answers
      std::vector<M4> ok;
      bool may_be_none = false;
      if (known.size() == 1) {
        const double dt = std::fabs(static_cast<double>(static_cast<int64_t>(t - known[0].ns))) * 1e-9;
        if (dt < threshold + 1e-5) ok.push_back(known[0].rel);
        if (dt > threshold - 1e-5) may_be_none = true;
      } else {
        for (size_t j = 0; j + 1 < known.size(); ++j) {
          if (t < known[j].ns || t > known[j + 1].ns) continue;
          const uint64_t gap = known[j + 1].ns - known[j].ns;
          if (gap > 1000000000) {
            may_be_none = true;
            continue;
          }
          if (gap <= 2000) {
            ok.push_back(known[j].rel);
            ok.push_back(known[j + 1].rel);
          }
          if (gap > 900) {
            ok.push_back(Interp(known[j].rel, known[j + 1].rel, static_cast<double>(t - known[j].ns) / gap));
          }
        }
        if (ok.empty() || t < known[first].ns) may_be_none = true;
      }
      auto got = trim ? d.InterpolateOdom(At(t), threshold, true) : d.InterpolateOdom(At(t), threshold);
      c.label(!got ? "nothing" : "pose");
      REQUIRE(got || may_be_none, "no pose at " << t);
      if (got) {
        ++answers;
        double best = 1e9;
        for (auto& w : ok) best = std::min(best, PoseDist(*got, w));
        REQUIRE(best < 1e-5, "pose " << Str(*got) << (ok.empty() ? " for a time that is not covered" : ", expected " + Str(ok[0])));
      }
      if (trim && known.size() > 1 && t >= known.front().ns && t <= known.back().ns)
        for (size_t j = 1; j + 1 < known.size(); ++j)
          if (known[j].ns <= t && j > first) first = j;
    }
  }
  if (answers > 1) c.nontrivial();
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C24";
  s.rule = "up to 40 messages with gaps from zero to seconds and turns up to 2.9 rad, first pose anywhere, queries on, between and outside messages while data arrives, with and without trimming; non-trivial with at least two answered queries";
  s.assumptions = {"stamps do not decrease; messages less than 2 microseconds apart count as the same moment", "pairs up to 1 s apart are usable"};
  s.subs.push_back({"odom", Odom, 5000, 100000, 60, 16});
  return s;
}
