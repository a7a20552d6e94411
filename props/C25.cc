#include <pcl/io/pcd_io.h>
#include "streams.h"

using namespace gen;

static void Trim(pbt::Case& c) {
  const std::vector<Fix> fixes = AnyFixes(c, 40);
  flt::Factory chain;
  DataCollector d(DataCollectorOptions(), &chain);
  GpsModel m;
  size_t sent = 0;
  std::vector<V3> odo;
  uint64_t ons = 1000000000;
  const uint64_t start = fixes.empty() ? StartNs(c) : fixes[0].ns;
  const int steps = 2 + c.u(20);
  int trims = 0;
  size_t ofirst = 0;
  for (int s = 0; s < steps; ++s) {
    switch (c.u(8)) {
      case 0:
      case 1: {
        const size_t n = c.u(std::min<size_t>(8, fixes.size() - sent) + 1);
        for (size_t k = 0; k < n; ++k, ++sent) {
          Send(&d, fixes[sent]);
          m.Add(fixes[sent]);
        }
        c.note() << "add " << n << "; ";
        break;
      }
      case 2: {
        const auto type = c.oneOf<static_map::data::SensorDataType>({static_map::data::kGpsData, static_map::data::kGpsData, static_map::data::kGpsData, static_map::data::kImuData, static_map::data::kPointCloudData, static_map::data::kOdometryData});
        const uint64_t t = QueryNs(c, m.all, start);
        d.TrimSensorData(type, At(t));
        c.note() << "trim " << type << " " << (static_cast<int64_t>(t - start)) * 1e-9 << "; ";
        if (type == static_map::data::kGpsData && m.all.size() > 2) {
          size_t k = 0;
          while (k < m.all.size() - 2 && m.all[k].ns < t) ++k;
          if (k > m.first) {
            m.first = k;
            m.gone = true;
            ++trims;
          }
        }
        break;
      }
      case 3: {
        OdomMsg o;
        o.header.stamp = At(ons += 10000000);
        o.pose.pose.orientation = Eigen::Quaterniond::Identity();
        o.pose.pose.position = Vec(c, 100);
        odo.push_back(o.pose.pose.position);
        d.AddSensorData(o);
        static_map::data::ImuMsg i;
        i.header.stamp = At(ons);
        i.linear_acceleration = i.angular_velocity = V3::Zero();
        d.AddSensorData(i);
        break;
      }
      case 4:
      case 5: {
        // odometry between samples that no earlier query had to drop
        if (odo.size() < 2) break;
        const size_t k = ofirst + c.u(odo.size() - 1 - ofirst);
        const int repeat = 1 + c.u(3);
        const bool trim = c.b();
        for (int r = 0; r < repeat; ++r) {
          const uint64_t dt = c.u(10000001);
          const SimpleTime at = At(1010000000 + k * 10000000ull + dt);
          const auto got = trim ? d.InterpolateOdom(at, 0.005, true) : d.InterpolateOdom(at);
          const V3 want = odo[k] + (odo[k + 1] - odo[k]) * (dt * 1e-7) - odo[0];
          c.note() << (trim ? "trimming" : "") << " odometry query " << k << "+" << dt * 1e-7 << "; ";
          REQUIRE(got, "no odometry between retained samples " << k << " and " << k + 1);
          REQUIRE((V3(got->block<3, 1>(0, 3)) - want).norm() < 1e-4, "odometry between samples " << k << " and " << k + 1);
          if (trim) {
            ofirst = k;
            ++trims;
            if (dt >= 10000000) {  // the older sample is not needed any more
              ofirst = std::min(k + 1, odo.size() - 2);
              break;
            }
          }
        }
        if (trim && ofirst + 2 < odo.size() && c.b()) ++ofirst;
        break;
      }
      default: {
        const uint64_t t = QueryNs(c, m.all, start);
        const bool trim = c.b(1, 3);
        c.note() << (trim ? "trimming ask " : "ask ") << (static_cast<int64_t>(t - start)) * 1e-9 << "; ";
        QueryGps(c, &d, &m, t, 0.005, trim);
        if (trim) {
          // the data around the moment asked for is still there
          ++trims;
          for (size_t k = 0; k + 1 < m.all.size(); ++k)
            if (m.all[k].ns <= t && t < m.all[k + 1].ns) QueryGps(c, &d, &m, t + c.u(m.all[k + 1].ns - t), 0.005, c.b());
        }
      }
    }
  }
  // at the end every covered moment is asked for once
  for (size_t k = 0; k + 1 < m.all.size(); ++k) QueryGps(c, &d, &m, m.all[k].ns + (m.all[k + 1].ns - m.all[k].ns) / 2, 0.005, false);
  if (trims > 0 && m.all.size() > 3) c.nontrivial();
  // the recorded tracks
  const std::string g = pbt::Case::scratch() + "gps.pcd", o = pbt::Case::scratch() + "odom.pcd";
  std::remove(g.c_str());
  std::remove(o.c_str());
  d.RawGpsDataToFile(g);
  d.RawOdomDataToFile(o);
  PclCloud gc, oc;
  const bool hg = std::ifstream(g).good(), ho = std::ifstream(o).good();
  REQUIRE(m.all.empty() ? !hg || (pcl::io::loadPCDFile(g, gc) == 0 && gc.empty()) : hg && pcl::io::loadPCDFile(g, gc) == 0, "GPS track file");
  REQUIRE(odo.empty() ? !ho || (pcl::io::loadPCDFile(o, oc) == 0 && oc.empty()) : ho && pcl::io::loadPCDFile(o, oc) == 0, "odometry track file");
  REQUIRE(gc.size() == m.all.size(), gc.size() << " points in the GPS track of " << m.all.size() << " fixes");
  for (size_t k = 0; k < gc.size(); ++k) {
    REQUIRE((V3(gc[k].x, gc[k].y, gc[k].z) - m.all[k].enu).norm() < 1e-3 + 1e-6 * m.all[k].enu.norm(), "GPS track point " << k);
    REQUIRE(gc[k].intensity == m.all[k].status, "status of GPS track point " << k);
  }
  REQUIRE(oc.size() == odo.size(), oc.size() << " points in the odometry track of " << odo.size() << " messages");
  for (size_t k = 0; k < oc.size(); ++k) REQUIRE((V3(oc[k].x, oc[k].y, oc[k].z) - (odo[k] - odo[0])).norm() < 1e-3, "odometry track point " << k);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C25";
  s.rule = "up to 40 fixes and some odometry, up to 21 steps of adding, trimming any stream at any time and asking for GPS and odometry with or without trimming, several times between the same samples; every interval is asked for at the end and the track files are read back; non-trivial when a trim removed samples";
  s.assumptions = {"stamps increase strictly", "trimming by request is observable for GPS only"};
  s.subs.push_back({"trim", Trim, 20000, 200000, 60, 16});
  return s;
}
