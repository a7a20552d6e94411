#include "filtergen.h"

using namespace gen;

static const std::vector<std::string> kAll = {"Range", "AxisRange", "BoundingBoxRemoval", "RandomSampler", "VoxelGrid", "GroundRemoval", "GroundRemoval2", "RangeImage", "StatisticRemoval"};

// Both clouds as sorted lists when a voxel grid may have changed the order.
static std::vector<std::vector<float>> Rows(const InnerCloudType& c, bool sorted) {
  std::vector<std::vector<float>> r;
  for (auto& p : c.points) r.push_back({p.x, p.y, p.z, p.intensity, p.factor});
  if (sorted) std::sort(r.begin(), r.end());
  return r;
}

static void Chain(pbt::Case& c) {
  const int n = c.u(5);
  std::vector<FilterCfg> fs;
  std::string xml = "<filters>";
  bool has_invalid = false;
  for (int k = 0; k < n; ++k) {
    const int kind = c.u(8);
    if (kind == 6) {
      const char* names[] = {"Unknown", "range", "", "Voxel Grid"};
      xml += std::string("<filter name=\"") + names[c.u(4)] + "\"><param type=\"1\" name=\"size\"> 1 </param></filter>";
      continue;
    }
    if (kind == 7) {
      const char* bad[] = {"<filter name=\"VoxelGrid\"><param type=\"1\" name=\"voxel_size\"> 0 </param></filter>",
                           "<filter name=\"AxisRange\"><param type=\"1\" name=\"min\"> 2 </param><param type=\"1\" name=\"max\"> -2 </param></filter>",
                           "<filter name=\"RandomSampler\"><param type=\"1\" name=\"sampling_rate\"> -0.5 </param></filter>",
                           "<filter name=\"BoundingBoxRemoval\"><param type=\"1\" name=\"min_x\"> 3 </param><param type=\"1\" name=\"max_x\"> 1 </param></filter>"};
      xml += bad[c.u(4)];
      has_invalid = true;
      continue;
    }
    FilterCfg f = AnyFilter(c, true, kAll);
    fs.push_back(f);
    xml += f.Xml();
  }
  xml += "</filters>";
  c.note() << xml << " ";
  CoutMute mute;
  pugi::xml_document doc;
  REQUIRE(doc.load_string(xml.c_str()), "xml");
  flt::Factory chain;
  chain.InitFromXmlNode(doc.first_child());

  std::vector<FilterPtr> singles;
  for (auto& f : fs) singles.push_back(Build(f));
  const int runs = 1 + c.u(3);
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  for (int r = 0; r < runs; ++r) {
    if (c.b(1, 8)) {
      InnerCloudType::Ptr none = std::make_shared<InnerCloudType>();
      none->stamp = AnyStamp(c);
      chain.SetInputCloud(none);
      InnerCloudType::Ptr o = std::make_shared<InnerCloudType>();
      chain.Filter(o);
      c.note() << "empty ";
      REQUIRE(o->points.empty(), "points from an empty cloud");
      continue;
    }
    InnerCloudType::Ptr in = ScanCloud(c, 1, 200);
    const InnerCloudType before = *in;
    c.note() << in->points.size() << " points ";
    if (c.b()) out = std::make_shared<InnerCloudType>();
    chain.SetInputCloud(in);
    chain.Filter(out);
    REQUIRE(SamePoints(before.points, in->points) && SameStamp(before.stamp, in->stamp), "the input was changed");
    InnerCloudType cur = *in;
    bool shuffled = false;
    int effective = 0;
    for (size_t k = 0; k < singles.size(); ++k) {
      if (fs[k].name == "StatisticRemoval" || cur.points.empty()) continue;  // passes everything on
      InnerCloudType::Ptr a = std::make_shared<InnerCloudType>(cur), b = std::make_shared<InnerCloudType>();
      singles[k]->SetInputCloud(a);
      singles[k]->Filter(b);
      if (b->points.size() != cur.points.size()) ++effective;
      cur = *b;
      shuffled = shuffled || fs[k].name == "VoxelGrid";
      REQUIRE(SameStamp(cur.stamp, before.stamp), "stamp after " << fs[k].name);
    }
    if (effective > 1) c.nontrivial();
    c.label(cur.points.empty() ? "nothing left" : effective == 0 ? "all left" : "some left");
    REQUIRE(SameStamp(out->stamp, before.stamp), "stamp after the chain");
    REQUIRE(Rows(*out, shuffled) == Rows(cur, shuffled), out->points.size() << " points after the chain, " << cur.points.size() << " after the single filters");
  }
  c.label(has_invalid ? "with invalid filter" : "valid filters");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C20";
  s.rule = "chains of 0-4 filters of all nine kinds mixed with unknown names and filters with invalid values, run up to three times on clouds of 1-200 points or empty ones; non-trivial when at least two filters of a chain change the cloud";
  s.assumptions = {"the statistical filter is not implemented and passes clouds on", "random sampling only with rates 0 and 1"};
  s.subs.push_back({"chain", Chain, 10000, 150000});
  return s;
}
