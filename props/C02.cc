#include "common/simple_time.h"
#include "builder/data/data_types.h"
#include "gen.h"

using static_map::SimpleTime;

struct Sample {
  SimpleTime time;
  int payload;
};

static void Search(pbt::Case& c) {
  const size_t n = c.size(2, 300);
  std::vector<int64_t> ns;
  int64_t cur = c.b() ? c.u(5) : 1500000000000000000ll + c.u(1000000000);
  const int mode = c.u(4);
  for (size_t k = 0; k < n; ++k) {
    ns.push_back(cur);
    switch (mode) {
      case 0: cur += 1 + c.u(3); break;                       // dense
      case 1: cur += 100000000; break;                        // even
      case 2: cur += c.b(1, 3) ? 0 : c.u(2000000000); break;  // repeats and gaps
      default: cur += 1 + (1ll << c.u(36));                   // wildly uneven
    }
  }
  std::vector<Sample> v;
  for (size_t k = 0; k < n; ++k) v.push_back({SimpleTime::FromNanoSec(ns[k]), static_cast<int>(k)});
  int64_t q;
  switch (c.u(5)) {
    case 0: q = ns[c.u(n)]; break;
    case 1: q = ns[c.u(n)] + c.i(-2, 2); break;
    case 2: {
      const size_t k = c.u(n - 1);
      q = ns[k] + c.u(ns[k + 1] - ns[k] + 1);
      break;
    }
    case 3: q = ns.front() - c.u(5000000000); break;
    default: q = ns.back() + c.u(5000000000);
  }
  if (q < 0) q = 0;
  c.note() << n << " stamps from " << ns.front() << " to " << ns.back() << ", query " << q;
  const std::pair<int, int> r = static_map::TimeStampBinarySearch(v, SimpleTime::FromNanoSec(q));
  REQUIRE(r.first >= 0 && r.second == r.first + 1 && r.second < static_cast<int>(n),
          "positions " << r.first << "," << r.second << " of " << n);
  if (n > 2) c.nontrivial();
  if (q < ns.front()) {
    c.label("before");
    REQUIRE(ns[r.first] == ns.front(), "query before the span gives pair " << r.first);
  } else if (q > ns.back()) {
    c.label("after");
    REQUIRE(ns[r.second] == ns.back(), "query after the span gives pair " << r.first);
  } else {
    c.label("inside");
    REQUIRE(ns[r.first] <= q && q <= ns[r.second],
            "pair " << r.first << " [" << ns[r.first] << "," << ns[r.second] << "] does not enclose " << q);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C02";
  s.rule = "2-300 sorted stamps in four spacing modes (dense, even, repeats+gaps, exponential) with queries on, next to, between, before and after them; non-trivial when the list has more than two stamps";
  s.assumptions = {"the list holds at least two samples, as every caller guarantees"};
  s.subs.push_back({"search", Search, 200000, 3000000, 20, 8, 20000});
  return s;
}
