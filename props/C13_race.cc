#include <atomic>
#include <thread>
#include "cloudgen.h"

using namespace gen;
using static_map::data::InnerPointCloudData;

// Users load and read the cloud while the memory manager clears it.
static void Swapping(pbt::Case& c) {
  InnerCloudType::Ptr cl = AnyCloud(c, 1, 300, 50);
  const InnerCloudType want = *cl;
  InnerPointCloudData h(cl);
  cl.reset();
  REQUIRE(h.SaveToFile(pbt::Case::scratch() + "r.bin"), "save");
  const int readers = 1 + c.u(3), clears = 1 + c.u(20), rounds = 1 + c.u(20);
  c.note() << want.points.size() << " points, " << readers << " readers x " << rounds << ", " << clears << " clears";
  c.nontrivial();
  std::atomic<int> alive(readers), bad(0), full(0), empty(0);
  std::vector<std::thread> t;
  for (int r = 0; r < readers; ++r)
    t.emplace_back([&] {
      for (int k = 0; k < rounds; ++k) {
        if (!h.CloudInMemory()) ++bad;
        InnerCloudType::Ptr in = h.GetInnerCloud();
        auto e = h.GetEigenCloud();
        if (!in || !e) {
          ++bad;
          continue;
        }
        if (in->points.empty()) {
          ++empty;
        } else if (!SamePoints(in->points, want.points)) {
          ++bad;
        } else {
          ++full;
        }
        if (e->points.cols() != 0 && e->points.cols() != static_cast<int>(want.points.size())) ++bad;
        h.Empty();
      }
      --alive;
    });
  t.emplace_back([&] {
    for (int k = 0; k < clears || (alive > 0 && k < 3000); ++k) {
      h.Clear();
      if (k % 5 == 0) std::this_thread::yield();
    }
  });
  for (auto& x : t) x.join();
  REQUIRE(bad == 0, bad << " reads saw a partly loaded or missing cloud");
  c.label(empty > 0 ? "cleared in between" : "always full");
  REQUIRE(h.CloudInMemory() && SamePoints(h.GetInnerCloud()->points, want.points), "cloud lost");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C13";
  s.rule = "1-3 readers loading and reading one holder while another thread clears it 1-20 times; every read must be the whole cloud or an empty one";
  s.assumptions = {"a cloud may be cleared again between loading it and asking for it"};
  s.subs.push_back({"swapping", Swapping, 800, 15000, 60, 4, 200, true});
  return s;
}
