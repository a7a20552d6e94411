#include <sys/stat.h>
#include <unistd.h>
#include "cloudgen.h"
#include "pcl/io/pcd_io.h"

using namespace gen;
namespace smd = static_map::data;

static float Inten(const pcl::PointXYZI& p) { return p.intensity; }
static float Inten(const pcl::PointXYZ&) { return 0.f; }
static void SetInten(pcl::PointXYZI* p, float v) { p->intensity = v; }
static void SetInten(pcl::PointXYZ*, float) {}

template <typename PT>
static void WellFormed(const pcl::PointCloud<PT>& pc) {
  REQUIRE(static_cast<size_t>(pc.width) * pc.height == pc.points.size(),
          "width " << pc.width << " x height " << pc.height << " does not describe " << pc.points.size() << " points");
}

template <typename PT, bool kIntensity>
static void Convert(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 0, 1500);
  c.note() << Str(in->points, 4);
  if (!in->points.empty()) c.nontrivial();
  pcl::PointCloud<PT> pc;
  if (c.b(1, 3)) {  // a target that held something else
    pc.push_back(PT());
    pc.push_back(PT());
  }
  smd::ToPclPointCloud(*in, &pc);
  REQUIRE(pc.points.size() == in->points.size(), "size " << pc.points.size());
  WellFormed(pc);
  REQUIRE(pc.header.stamp == static_cast<uint64_t>(in->stamp.ToNanoSec() / 1000), "stamp");
  for (size_t k = 0; k < in->points.size(); ++k) {
    const auto& p = pc.points[k];
    const auto& q = in->points[k];
    REQUIRE(p.x == q.x && p.y == q.y && p.z == q.z, "point " << k << " " << Str(q));
    if (kIntensity) REQUIRE(Inten(p) == q.intensity, "intensity of point " << k);
  }
  InnerCloudType::Ptr back = smd::ToInnerPointCloud(pc);
  REQUIRE(back != nullptr, "no cloud");
  REQUIRE(back->points.size() == in->points.size(), "size after the way back");
  REQUIRE(back->stamp.ToNanoSec() == in->stamp.ToNanoSec() / 1000 * 1000, "stamp after the way back");
  for (size_t k = 0; k < in->points.size(); ++k) {
    const auto& p = back->points[k];
    const auto& q = in->points[k];
    REQUIRE(p.x == q.x && p.y == q.y && p.z == q.z, "point " << k << " after the way back");
    REQUIRE(p.intensity == (kIntensity ? q.intensity : 0.f), "intensity of point " << k << " after the way back");
  }
  // from a PCL cloud that was not made by us (organised or not)
  pcl::PointCloud<PT> own;
  const size_t n = in->points.size();
  own.header.stamp = c.u(1ull << 50);
  for (size_t k = 0; k < n; ++k) {
    PT p;
    p.x = in->points[k].x;
    p.y = in->points[k].y;
    p.z = in->points[k].z;
    SetInten(&p, in->points[k].intensity);
    own.push_back(p);
  }
  if (n > 0 && n % 2 == 0 && c.b()) {
    own.width = n / 2;
    own.height = 2;
  }
  InnerCloudType::Ptr o = smd::ToInnerPointCloud(own);
  REQUIRE(o->points.size() == n, "size from a foreign cloud");
  REQUIRE(o->stamp.ToNanoSec() == static_cast<int64_t>(own.header.stamp) * 1000, "stamp from a foreign cloud");
  for (size_t k = 0; k < n; ++k)
    REQUIRE(o->points[k].x == own.points[k].x && o->points[k].y == own.points[k].y && o->points[k].z == own.points[k].z &&
                o->points[k].intensity == Inten(own.points[k]),
            "point " << k << " from a foreign cloud");
}

static void Pcd(pbt::Case& c) {
  InnerCloudType::Ptr in = AnyCloud(c, 1, 800);
  const int depth = c.u(3);
  std::string dir = pbt::Case::scratch() + "pcd" + std::to_string(c.u(3)) + "/";
  for (int k = 0; k < depth; ++k) dir += "sub" + std::to_string(k) + "/";
  const std::string file = dir + "out.pcd";
  c.note() << Str(in->points, 4) << " to " << file;
  c.nontrivial();
  REQUIRE(in->SerializeToPcd(file) >= 0, "export failed");
  pcl::PointCloud<pcl::PointXYZI> pc;
  REQUIRE(pcl::io::loadPCDFile(file, pc) >= 0, "exported file does not load");
  REQUIRE(pc.points.size() == in->points.size(), "file holds " << pc.points.size() << " of " << in->points.size() << " points");
  for (size_t k = 0; k < in->points.size(); ++k) {
    const auto& p = pc.points[k];
    const auto& q = in->points[k];
    REQUIRE(p.x == q.x && p.y == q.y && p.z == q.z && p.intensity == q.intensity, "point " << k << " " << Str(q));
  }
  unlink(file.c_str());
  REQUIRE(in->SerializeToPcd("") < 0, "export to an empty name succeeded");
}

static void Append(pbt::Case& c) {
  InnerCloudType::Ptr a = AnyCloud(c, 0, 200), b = AnyCloud(c, 0, 200);
  InnerCloudType x = *a;
  x += *b;
  c.note() << a->points.size() << " + " << b->points.size() << " points";
  if (!b->points.empty()) c.nontrivial();
  REQUIRE(x.points.size() == a->points.size() + b->points.size(), "size of the sum");
  for (size_t k = 0; k < x.points.size(); ++k)
    REQUIRE(SamePoint(x.points[k], k < a->points.size() ? a->points[k] : b->points[k - a->points.size()]), "point " << k);
  REQUIRE(SameStamp(x.stamp, a->stamp), "stamp of the sum");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C09";
  s.rule = "clouds of 0-1500 points converted both ways for both point types, exported to PCD below fresh nested directories and loaded again, and appended; non-trivial when a point is involved";
  s.assumptions = {"PCD files are read back with the installed PCL"};
  s.subs.push_back({"xyzi", Convert<pcl::PointXYZI, true>, 4000, 60000});
  s.subs.push_back({"xyz", Convert<pcl::PointXYZ, false>, 4000, 60000});
  s.subs.push_back({"pcd", Pcd, 1500, 20000});
  s.subs.push_back({"append", Append, 4000, 40000});
  return s;
}
