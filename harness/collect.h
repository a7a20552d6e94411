// Scans for the data collector and what it has to deliver.
#ifndef VERIF_HARNESS_COLLECT_H_
#define VERIF_HARNESS_COLLECT_H_

#include <atomic>
#include <chrono>
#include <thread>

#include "builder/data/data_collector.h"
#include "filtergen.h"

namespace gen {

using static_map::data::DataCollector;
using static_map::data::DataCollectorOptions;
typedef pcl::PointXYZI PclPoint;
typedef pcl::PointCloud<PclPoint> PclCloud;

inline void SleepUs(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

struct ScanPlan {
  int accumulate = 1;
  std::vector<FilterCfg> filters;
  std::vector<PclCloud::Ptr> scans;
  std::vector<InnerCloudType> want;  // in delivery order
  std::vector<int> complete;         // groups complete after each scan
};

inline void InitChain(const std::vector<FilterCfg>& fs, flt::Factory* f) {
  std::string xml = "<filters>";
  for (auto& g : fs) xml += g.Xml();
  xml += "</filters>";
  CoutMute mute;
  pugi::xml_document doc;
  doc.load_string(xml.c_str());
  f->InitFromXmlNode(doc.first_child());
}

inline ScanPlan AnyPlan(pbt::Case& c, int max_scans, int max_points) {
  ScanPlan p;
  p.accumulate = c.oneOf<int>({1, 1, 2, 3, 5, 0});
  const int nf = c.u(3);
  for (int k = 0; k < nf; ++k) p.filters.push_back(AnyFilter(c, true, {"Range", "AxisRange", "BoundingBoxRemoval", "GroundRemoval2", "RandomSampler"}));
  const int n = 1 + c.size(0, max_scans - 1);
  uint64_t us = (c.b() ? 0 : 1500000000000000ull) + c.u(1000000);
  const int group = std::max(1, p.accumulate);
  InnerCloudType acc;
  int in_group = 0;
  flt::Factory chain;
  InitChain(p.filters, &chain);
  for (int k = 0; k < n; ++k) {
    PclCloud::Ptr s(new PclCloud);
    InnerCloudType::Ptr pts = c.b(1, 10) ? std::make_shared<InnerCloudType>() : AnyCloud(c, 1, max_points, 30);
    for (auto& q : pts->points) {
      PclPoint o;
      o.x = q.x;
      o.y = q.y;
      o.z = q.z;
      o.intensity = q.intensity;
      s->push_back(o);
    }
    s->header.stamp = us;
    if (in_group == 0) {
      acc = InnerCloudType();
      acc.stamp = SimpleTime(us / 1000000, us % 1000000 * 1000);
    }
    acc.points.insert(acc.points.end(), pts->points.begin(), pts->points.end());
    us += 1 + (c.b() ? 100000 : c.u(300000));
    p.scans.push_back(s);
    if (++in_group == group) {
      in_group = 0;
      for (size_t i = 0; i < acc.points.size(); ++i) acc.points[i].factor = static_cast<float>(static_cast<double>(i) / acc.points.size());
      InnerCloudType::Ptr in = std::make_shared<InnerCloudType>(acc), out = std::make_shared<InnerCloudType>();
      out->stamp = acc.stamp;
      chain.SetInputCloud(in);
      chain.Filter(out);
      p.want.push_back(*out);
    }
    p.complete.push_back(p.want.size());
  }
  return p;
}
inline std::string Str(const ScanPlan& p) {
  std::ostringstream o;
  o << "accumulate " << p.accumulate << ", filters ";
  for (auto& f : p.filters) o << f.name << " ";
  o << ", scans of";
  for (auto& s : p.scans) o << " " << s->size();
  return o.str();
}
inline void CheckDelivered(const ScanPlan& p, size_t k, const InnerCloudType& got) {
  REQUIRE(k < p.want.size(), "an extra scan was delivered");
  REQUIRE(SameStamp(got.stamp, p.want[k].stamp), "scan " << k << " has stamp " << got.stamp.DebugString() << ", expected " << p.want[k].stamp.DebugString());
  REQUIRE(got.points.size() == p.want[k].points.size(), "scan " << k << " has " << got.points.size() << " points, expected " << p.want[k].points.size());
  REQUIRE(SamePoints(got.points, p.want[k].points), "points of scan " << k);
}
// Waits up to ten seconds for the next scan.
inline InnerCloudType::Ptr WaitCloud(DataCollector* d) {
  for (int k = 0; k < 5000; ++k) {
    InnerCloudType::Ptr r = d->GetNewCloud();
    if (r) return r;
    SleepUs(2000);
  }
  return nullptr;
}

// One producer, one consumer, optionally an observer of the counts and the
// other sensors being filled and queried.
inline void ConcurrentScans(pbt::Case& c, bool sensors) {
  ScanPlan p = AnyPlan(c, 25, 60);
  std::vector<int> pause;
  for (size_t k = 0; k < p.scans.size(); ++k) pause.push_back(c.b(1, 3) ? c.u(8000) : 0);
  const int consumer_pause = c.b() ? 0 : c.u(5000);
  const bool observe = c.b();
  c.note() << Str(p);
  if (p.want.size() > 1) c.nontrivial();
  flt::Factory chain;
  InitChain(p.filters, &chain);
  DataCollectorOptions o;
  o.accumulate_cloud_num = p.accumulate;
  DataCollector d(o, &chain);
  std::atomic<int> added(0), taken(0), stop(0), bad(0);
  std::vector<std::thread> t;
  t.emplace_back([&] {
    for (size_t k = 0; k < p.scans.size(); ++k) {
      // counted before it is handed in, so `added` never lags behind
      added = p.complete[k];
      d.AddSensorData<PclPoint>(p.scans[k]);
      if (pause[k]) SleepUs(pause[k]);
    }
  });
  if (observe)
    t.emplace_back([&] {
      while (!stop) {
        const int before = taken;
        const int r = d.GetRemainingCloudSize();
        const int after = added;
        if (r > after - before) ++bad;
        SleepUs(200);
      }
    });
  if (sensors) {
    t.emplace_back([&] {
      for (int k = 1; k < 60; ++k) {
        static_map::data::NavSatFixMsg g;
        g.header.stamp = SimpleTime::FromNanoSec(k * 10000000ull);
        g.status.status = 0;
        g.latitude = 31 + 1e-6 * k;
        g.longtitude = 121;
        g.altitude = 3;
        d.AddSensorData(g);
        static_map::data::OdomMsg m;
        m.header.stamp = g.header.stamp;
        m.pose.pose.orientation = Eigen::Quaterniond::Identity();
        m.pose.pose.position = V3(k, 0, 0);
        d.AddSensorData(m);
        static_map::data::ImuMsg i;
        i.header.stamp = g.header.stamp;
        i.linear_acceleration = V3(0, 0, 9.8);
        i.angular_velocity = V3::Zero();
        d.AddSensorData(i);
      }
    });
    t.emplace_back([&] {
      for (int k = 0; k < 60; ++k) {
        const SimpleTime q = SimpleTime::FromNanoSec(k * 10000000ull + 5000000);
        auto m = d.InterpolateOdom(q, 0.001, k % 3 == 0);
        if (m && std::fabs((*m)(0, 3) - (k - 0.5)) > 1e-6) ++bad;
        d.InterpolateGps(q, 0.001, k % 3 == 0);
        if (k % 5 == 0) d.TrimSensorData(static_map::data::kGpsData, q);
        if (k % 7 == 0) d.TrimSensorData(static_map::data::kImuData, q);
      }
    });
  }
  std::string error;
  for (size_t k = 0; k < p.want.size() && error.empty(); ++k) {
    InnerCloudType::Ptr got = WaitCloud(&d);
    if (!got) {
      std::ostringstream e;
      e << "scan " << k << " of " << p.want.size() << " was never delivered";
      error = e.str();
      break;
    }
    ++taken;
    try {
      CheckDelivered(p, k, *got);
    } catch (const pbt::Failure& f) {
      error = f.msg;
    }
    if (consumer_pause) SleepUs(consumer_pause);
  }
  stop = 1;
  for (auto& x : t) x.join();
  REQUIRE(error.empty(), error);
  REQUIRE(bad == 0, "a count or a sensor query was wrong " << bad << " times");
  REQUIRE(d.GetRemainingCloudSize() == 0, d.GetRemainingCloudSize() << " scans remain after all were delivered");
  REQUIRE(!d.GetNewCloud(), "an extra scan was delivered");
}

}  // namespace gen

#endif  // VERIF_HARNESS_COLLECT_H_
