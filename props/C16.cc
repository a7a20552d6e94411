#include "filtergen.h"

using namespace gen;

// |x - n p| stays below this except with probability 1e-13 (Bernstein)
static double Bound(double n, double p) {
  const double l = std::log(2e13), v = n * p * (1 - p);
  return l / 3 + std::sqrt(l * l / 9 + 2 * l * v) + 1;
}

static std::vector<int> Run(flt::Interface* f, const InnerCloudType::Ptr& in) {
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  f->SetInputCloud(in);
  f->Filter(out);
  REQUIRE(SameStamp(out->stamp, in->stamp), "stamp");
  std::vector<int> r;
  // intensity carries the index
  for (auto& p : out->points) {
    const int i = static_cast<int>(p.intensity);
    REQUIRE(i >= 0 && i < static_cast<int>(in->points.size()) && SamePoint(p, in->points[i]), "altered point " << Str(p));
    REQUIRE(r.empty() || r.back() < i, "point " << i << " repeated or out of order");
    r.push_back(i);
  }
  return r;
}
static InnerCloudType::Ptr Indexed(pbt::Case& c, size_t n) {
  InnerCloudType::Ptr in = AnyCloud(c, n, n, 50);
  for (size_t k = 0; k < n; ++k) in->points[k].intensity = k;
  return in;
}
static double Rate(pbt::Case& c) {
  return static_cast<float>(c.b() ? c.oneOf<double>({0, 0.01, 0.25, 0.5, 0.75, 0.99, 1}) : c.real(0, 1));
}

static void Share(pbt::Case& c) {
  const double rate = Rate(c);
  const size_t n = c.size(1, 20000);
  InnerCloudType::Ptr in = Indexed(c, n);
  FilterCfg f;
  f.name = "RandomSampler";
  f.F("sampling_rate", rate);
  FilterPtr p = Build(f);
  c.note() << n << " points at rate " << rate;
  const std::vector<int> k = Run(p.get(), in);
  if (n > 300 && rate > 0 && rate < 1) c.nontrivial();
  if (rate >= 1) REQUIRE(k.size() == n, "rate 1 kept " << k.size() << " of " << n);
  REQUIRE(std::fabs(k.size() - n * rate) <= Bound(n, rate) + 0.001 * n, "kept " << k.size() << " of " << n << " at rate " << rate);
  // every quarter of the scan is thinned alike
  if (n >= 8) {
    double part[4] = {0, 0, 0, 0};
    const size_t q = n / 4;
    for (int i : k)
      if (i / q < 4) ++part[i / q];
    for (int j = 0; j < 4; ++j)
      REQUIRE(std::fabs(part[j] - q * rate) <= Bound(q, rate) + 0.001 * q, "quarter " << j << " kept " << part[j] << " of " << q << " at rate " << rate);
    // and so are all residue classes
    for (int m : {2, 3, 7}) {
      std::vector<double> cls(m, 0), tot(m, 0);
      for (int i : k) ++cls[i % m];
      for (size_t i = 0; i < n; ++i) ++tot[i % m];
      for (int j = 0; j < m; ++j)
        REQUIRE(std::fabs(cls[j] - tot[j] * rate) <= Bound(tot[j], rate) + 0.001 * tot[j], "every " << m << "-th point kept " << cls[j] << " of " << tot[j]);
    }
  }
}

static void Repeat(pbt::Case& c) {
  const double rate = c.oneOf<double>({0.1, 0.3, 0.5, 0.8});
  const size_t n = 2 + c.u(40);
  const int runs = 600;
  InnerCloudType::Ptr in = Indexed(c, n);
  FilterCfg f;
  f.name = "RandomSampler";
  f.F("sampling_rate", rate);
  FilterPtr p = Build(f);
  c.note() << n << " points, " << runs << " runs at rate " << rate;
  c.nontrivial();
  std::vector<double> hits(n, 0), both(n, 0);
  for (int r = 0; r < runs; ++r) {
    int last = -5;
    for (int i : Run(p.get(), in)) {
      ++hits[i];
      if (last == i - 1) ++both[i];
      last = i;
    }
  }
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(std::fabs(hits[i] - runs * rate) <= Bound(runs, rate) + 1, "point " << i << " of " << n << " was kept " << hits[i] << " times in " << runs << " runs at rate " << rate);
    if (i > 0)
      REQUIRE(std::fabs(both[i] - runs * rate * rate) <= Bound(runs, rate * rate) + 1, "points " << i - 1 << " and " << i << " were kept together " << both[i] << " times in " << runs << " runs at rate " << rate);
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C16";
  s.rule = "clouds of 1-20000 points at drawn rates: share, share per quarter and per residue class; small clouds sampled 600 times: frequency of each point and of neighbouring pairs; bounds from Bernstein's inequality with error 1e-13 each; non-trivial when the statistics have more than 300 draws";
  s.assumptions = {"rates above 0.999 may keep everything"};
  s.subs.push_back({"share", Share, 1500, 20000});
  s.subs.push_back({"repeat", Repeat, 250, 3000});
  return s;
}
