#include "builder/memory_manager.h"
#include "swap.h"

using namespace gen;

static void Load(pbt::Case& c) { SwapUnderLoad(c, 20, 3); }

// The real manager walks over a trajectory that grows.
static void Grow(pbt::Case& c) {
  SubmapOptions o;
  o.frame_count = 1;
  std::vector<std::shared_ptr<static_map::Trajectory>> trajectories{std::make_shared<static_map::Trajectory>()};
  const int n = 1 + c.u(200), wait = c.oneOf<int>({0, 10, 100});
  c.note() << n << " submaps";
  c.nontrivial();
  std::atomic<bool> stop{false};
  std::thread reader([&] {
    size_t seen = 0;
    while (!stop || seen < static_cast<size_t>(n)) {
      seen = 0;
      for (auto& s : *trajectories[0]) {
        s->UpdateInactiveTime(1);
        ++seen;
      }
    }
  });
  {
    static_map::MemoryManager manager(&trajectories);
    for (int k = 0; k < n; ++k) {
      auto s = std::make_shared<Submap>(o);
      s->SetId({0, k});
      trajectories[0]->push_back(s);
      if (wait) usleep(wait);
    }
    stop = true;
    reader.join();
  }
  REQUIRE(trajectories[0]->size() == static_cast<size_t>(n), "size");
  for (int k = 0; k < n; ++k) REQUIRE(trajectories[0]->at(k)->GetId().submap_index == k, "submap " << k);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C30";
  s.rule = "readers, manager and builder under the thread sanitizer";
  s.subs.push_back({"race", Load, 60, 600, 90, 4, 30, true});
  s.subs.push_back({"grow", Grow, 24, 100, 90, 8, 10, true});
  return s;
}
