#include "collect.h"

using namespace gen;

static void Concurrent(pbt::Case& c) { ConcurrentScans(c, c.b()); }

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C22";
  s.rule = "one producer, one consumer, an observer of the counts, threads filling and querying GPS, odometry and IMU data";
  s.assumptions = {};
  s.subs.push_back({"race", Concurrent, 300, 4000, 120, 8, 100, true});
  return s;
}
