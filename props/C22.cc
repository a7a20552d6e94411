#include "collect.h"

using namespace gen;

// One thread: scans, reads and pauses in a drawn order.
static void Sequence(pbt::Case& c) {
  ScanPlan p = AnyPlan(c, 12, 150);
  flt::Factory chain;
  InitChain(p.filters, &chain);
  DataCollectorOptions o;
  o.accumulate_cloud_num = p.accumulate;
  c.note() << Str(p) << ":";
  if (p.want.size() > 1 || p.accumulate > 1) c.nontrivial();
  c.label("accumulate " + std::to_string(p.accumulate));
  DataCollector d(o, &chain);
  size_t next = 0, got = 0, complete = 0;
  std::vector<InnerCloudType::Ptr> held;
  while (next < p.scans.size() || got < p.want.size()) {
    const int op = next < p.scans.size() ? c.u(4) : 1;
    if (op == 0 || op == 3) {
      c.note() << " add";
      const PclCloud copy = *p.scans[next];
      d.AddSensorData<PclPoint>(p.scans[next]);
      REQUIRE(copy.size() == p.scans[next]->size(), "the scan was changed");
      // the caller may reuse its cloud
      for (auto& q : p.scans[next]->points) q.x = q.y = q.z = 1e6f;
      complete = p.complete[next];
      ++next;
    } else if (op == 1) {
      if (got == complete) {
        c.note() << " none";
        REQUIRE(!d.GetNewCloud(), "a scan came before it was complete");
        if (next == p.scans.size()) break;
        continue;
      }
      c.note() << " get";
      InnerCloudType::Ptr r = WaitCloud(&d);
      REQUIRE(r, "scan " << got << " was never delivered");
      CheckDelivered(p, got, *r);
      held.push_back(r);
      ++got;
    } else {
      SleepUs(c.u(7000));
    }
    REQUIRE(d.GetRemainingCloudSize() == complete - got, d.GetRemainingCloudSize() << " scans reported as remaining, " << complete - got << " are");
  }
  // what was handed out stays as it was
  for (size_t k = 0; k < held.size(); ++k) CheckDelivered(p, k, *held[k]);
  d.ClearAllCloud();
  REQUIRE(d.GetRemainingCloudSize() == 0 && !d.GetNewCloud(), "scans left");
}

static void Concurrent(pbt::Case& c) { ConcurrentScans(c, false); }

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C22";
  s.rule = "1-12 scans (0-150 points) added, read and waited for in a drawn order with accumulation 0-5 and chains of up to two filters; up to 25 scans with one producer, one consumer and an observer at drawn pace; the same with the other sensors under the thread sanitizer; non-trivial with several deliveries or accumulation";
  s.assumptions = {"one producer of scans at a time", "a scan not delivered within ten seconds is lost", "random sampling only with rates 0 and 1"};
  s.subs.push_back({"sequence", Sequence, 1500, 15000, 60, 16, 200, false});
  s.subs.push_back({"concurrent", Concurrent, 800, 8000, 90, 16, 200, true});
  return s;
}
