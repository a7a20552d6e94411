#include <set>
#include "filtergen.h"

using namespace gen;

static void Partition(pbt::Case& c) {
  const FilterCfg f = AnyFilter(c, false, {"Range", "AxisRange", "BoundingBoxRemoval", "RandomSampler", "GroundRemoval", "GroundRemoval2", "RangeImage"});
  FilterPtr p = Build(f);
  const bool whole = f.name != "GroundRemoval";  // sparse cells are dropped without being listed
  c.note() << f.Xml() << ": ";
  c.label(f.name);
  const int steps = 1 + c.u(5);
  InnerCloudType::Ptr in;
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  int runs = 0;
  for (int s = 0; s < steps; ++s) {
    const int op = in ? c.u(4) : 0;
    if (op == 3) {
      // an empty cloud in between
      p->SetInputCloud(std::make_shared<InnerCloudType>());
      p->Filter(out);
      c.note() << "empty ";
      REQUIRE(p->Inliers().empty() && p->Outliers().empty(), "indices of an empty cloud");
      in.reset();
      continue;
    }
    if (op != 2) {  // 2: run again on the same cloud
      in = ScanCloud(c, 1, 250);
      p->SetInputCloud(in);
    }
    const size_t n = in->points.size();
    c.note() << (op == 2 ? "again " : "run ") << n << " ";
    if (c.b(1, 3)) out = std::make_shared<InnerCloudType>();
    p->Filter(out);
    if (++runs > 1) c.nontrivial();
    const std::vector<int> il = p->Inliers(), ol = p->Outliers();
    for (auto* l : {&il, &ol})
      for (size_t k = 0; k < l->size(); ++k) {
        REQUIRE((*l)[k] >= 0 && (*l)[k] < static_cast<int>(n), "index " << (*l)[k] << " of " << n << " points");
        REQUIRE(k == 0 || (*l)[k - 1] < (*l)[k], (l == &il ? "inliers" : "outliers") << " not strictly increasing at " << k);
      }
    std::set<int> all(il.begin(), il.end());
    for (int k : ol) REQUIRE(all.insert(k).second, "index " << k << " is inlier and outlier");
    if (whole) REQUIRE(all.size() == n, all.size() << " of " << n << " indices are listed");
    REQUIRE(out->points.size() == il.size(), out->points.size() << " output points, " << il.size() << " inliers");
    for (size_t k = 0; k < il.size(); ++k)
      REQUIRE(SamePoint(out->points[k], in->points[il[k]]), "output " << k << " is not input " << il[k]);
    REQUIRE(SameStamp(out->stamp, in->stamp), "stamp");
  }
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C15";
  s.rule = "one filter object of seven kinds with drawn parameters, up to five steps of: new cloud (1-250 points), the same cloud again, an empty cloud; non-trivial from the second run of an object on";
  s.assumptions = {"the voxel-wise ground filter does not list points of sparse voxels"};
  s.subs.push_back({"partition", Partition, 12000, 150000});
  return s;
}
