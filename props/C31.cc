#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "maps.h"
#include "pcl/io/pcd_io.h"
#include "pugixml/pugixml.hpp"

using namespace gen;
using static_map::Trajectory;

static pcl::PointCloud<pcl::PointXYZI> Load(const std::string& file, size_t n) {
  pcl::PointCloud<pcl::PointXYZI> cloud;
  const bool there = access(file.c_str(), F_OK) == 0;
  if (n == 0) {
    REQUIRE(!there, file << " written for no positions");
    return cloud;
  }
  REQUIRE(there, "no file " << file);
  REQUIRE(pcl::io::loadPCDFile(file, cloud) == 0, "cannot read " << file);
  REQUIRE(cloud.size() == n, cloud.size() << " positions instead of " << n << " in " << file);
  return cloud;
}
static void At(const pcl::PointXYZI& p, const V3& want, const std::string& what) {
  REQUIRE((V3(p.x, p.y, p.z) - want).norm() <= 1e-6 * (1 + want.norm()), what << " at " << p.x << "," << p.y << "," << p.z << " instead of " << want.transpose());
}

// Numbers of one row: index, position and three angles.
static M4 FromRow(const double* v) { return Pose(Rz(v[5]) * Ry(v[4]) * Rx(v[3]), V3(v[0], v[1], v[2])); }

static void Export(pbt::Case& c) {
  const std::string dir = pbt::Case::scratch() + "path";
  mkdir(dir.c_str(), 0700);
  for (const char* f : {"/path.csv", "/path.pcd", "/enu_path.pcd", "/odom_path.pcd"}) unlink((dir + f).c_str());
  Trajectory t;
  const int tid = c.u(4);
  t.SetId(tid);
  REQUIRE(t.GetId() == tid, "id");
  double ex = 0, ey = 0;
  if (c.b()) {
    ex = Coord(c, 1e5), ey = Coord(c, 1e5);
    t.SetEnuOffset(ex, ey);
  }
  struct Want {
    SubmapId id;
    M4 pose;
    std::vector<M4> frames;
    std::vector<SubmapId> con;
    std::string file;
    bool gps = false, odom = false;
    V3 enu;
    M4 od;
  };
  std::vector<Want> all;
  const int n = c.u(6);
  M4 pose = AnyPose(c, c.b(1, 4) ? 5000 : 50);
  for (int k = 0; k < n; ++k) {
    Want w;
    SubmapOptions o;
    o.frame_count = 1 + c.u(4);
    o.enable_disk_saving = c.b();
    if (c.b(1, 4)) o.saving_name_prefix = "s-";
    auto s = std::make_shared<Submap>(o);
    w.id = {tid, k};
    s->SetId(w.id);
    w.file = o.enable_disk_saving ? o.saving_name_prefix + std::to_string(tid) + "_" + std::to_string(k) + ".bin" : "";
    if (c.b(1, 5)) {
      s->SetSavedFileName("other.bin");
      if (o.enable_disk_saving) w.file = "other.bin";
    }
    auto cloud = std::make_shared<InnerCloudType>();
    cloud->points.push_back(AnyPoint(c, 5));
    std::vector<std::shared_ptr<Frame>> frames;
    for (int j = 0; j < o.frame_count; ++j) {
      auto copy = std::make_shared<InnerCloudType>(*cloud);
      frames.push_back(MakeFrame(copy, pose));
      s->InsertFrame(frames.back());
      pose = c.b(1, 6) ? AnyPose(c, 50) : M4(pose * Motion(c, 0.5, 3));
    }
    if (c.b(1, 3)) {
      s->SetGlobalPose(AnyPose(c));
      s->UpdateInnerFramePose();
    }
    w.pose = s->GlobalPose();
    for (auto& f : frames) w.frames.push_back(f->GlobalPose());
    if ((w.gps = c.b(1, 3))) s->SetRelatedGpsInENU(w.enu = Vec(c, 500));
    if ((w.odom = c.b(1, 3))) s->SetRelatedOdom(w.od = AnyPose(c));
    for (int j = c.u(4); j > 0; --j) {
      w.con.push_back({static_cast<int>(c.u(3)), static_cast<int>(c.u(20))});
      s->AddConnectedSubmap(w.con.back());
    }
    t.push_back(s);
    all.push_back(w);
  }
  c.note() << n << " submaps ";
  if (n > 1) c.nontrivial();

  // --- description
  const std::string xml = pbt::Case::scratch() + "map.xml";
  {
    pugi::xml_document doc;
    pugi::xml_node map = doc.append_child("Map");
    t.ToXmlNode(&map);
    REQUIRE(doc.save_file(xml.c_str()), "saving");
  }
  pugi::xml_document doc;
  REQUIRE(doc.load_file(xml.c_str()), "the description cannot be read");
  pugi::xml_node node = doc.child("Map").child("Trajectory");
  REQUIRE(node && !node.next_sibling("Trajectory"), "one trajectory");
  REQUIRE(node.attribute("id").as_int(-1) == tid, "trajectory id");
  REQUIRE(node.attribute("enu_x").as_double() == ex && node.attribute("enu_y").as_double() == ey, "offset " << node.attribute("enu_x").as_string() << "," << node.attribute("enu_y").as_string());
  size_t k = 0;
  for (auto s = node.child("Submap"); s; s = s.next_sibling("Submap"), ++k) {
    REQUIRE(k < all.size(), "too many submaps");
    const Want& w = all[k];
    REQUIRE(s.attribute("id").as_int(-1) == w.id.submap_index, "id of submap " << k);
    REQUIRE(s.attribute("file").as_string() == w.file, "file of submap " << k << ": " << s.attribute("file").as_string() << " instead of " << w.file);
    double v[6];
    const char* names[] = {"tx", "ty", "tz", "rx", "ry", "rz"};
    for (int j = 0; j < 6; ++j) {
      REQUIRE(s.attribute(names[j]), "no " << names[j]);
      v[j] = s.attribute(names[j]).as_double();
    }
    REQUIRE(PoseDist(FromRow(v), w.pose) < 1e-6 * (1 + Trans(w.pose).norm()), "pose of submap " << k);
    std::string con;
    for (auto& x : w.con) con += "[" + std::to_string(x.trajectory_index) + "," + std::to_string(x.submap_index) + "]";
    REQUIRE(s.attribute("connections").as_string() == con, "connections of submap " << k << ": " << s.attribute("connections").as_string() << " instead of " << con);
  }
  REQUIRE(k == all.size(), k << " submaps instead of " << all.size());
  unlink(xml.c_str());

  // --- paths
  if (c.b(1, 10)) {
    t.OutputPathToPointcloud(pbt::Case::scratch() + "missing");
    REQUIRE(access((pbt::Case::scratch() + "missing").c_str(), F_OK) != 0, "a missing directory was created");
  }
  t.OutputPathToPointcloud(dir);
  std::vector<M4> frames;
  std::vector<V3> enu, odom;
  for (auto& w : all) {
    frames.insert(frames.end(), w.frames.begin(), w.frames.end());
    if (w.gps) enu.push_back(w.enu);
    if (w.odom) odom.push_back(Trans(w.od));
  }
  auto cloud = Load(dir + "/path.pcd", frames.size());
  for (size_t j = 0; j < frames.size(); ++j) {
    At(cloud[j], Trans(frames[j]), "frame " + std::to_string(j));
    REQUIRE(cloud[j].intensity == j, "number of frame " << j);
  }
  auto e = Load(dir + "/enu_path.pcd", enu.size());
  for (size_t j = 0; j < enu.size(); ++j) At(e[j], enu[j], "gps position " + std::to_string(j));
  auto o = Load(dir + "/odom_path.pcd", odom.size());
  for (size_t j = 0; j < odom.size(); ++j) At(o[j], odom[j], "odometry position " + std::to_string(j));
  std::ifstream csv(dir + "/path.csv");
  REQUIRE(csv.is_open(), "no path.csv");
  std::string line;
  size_t rows = 0;
  while (std::getline(csv, line)) {
    double idx, v[6];
    char x;
    std::istringstream in(line);
    in >> idx >> x;
    for (int j = 0; j < 6; ++j) {
      REQUIRE(in >> v[j], "row " << rows << ": " << line);
      if (j < 5) in >> x;
    }
    REQUIRE(rows < frames.size() && idx == rows, "row " << rows << ": " << line);
    REQUIRE((Trans(FromRow(v)) - Trans(frames[rows])).norm() < 3e-6, "position in row " << rows << ": " << line);
    REQUIRE((Rot(FromRow(v)) - Rot(frames[rows])).cwiseAbs().maxCoeff() < 1e-5, "orientation in row " << rows << ": " << line);
    ++rows;
  }
  REQUIRE(rows == frames.size(), rows << " rows for " << frames.size() << " frames");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C31";
  s.rule = "trajectories of 0-5 submaps with 1-4 frames each, any poses up to 5 km, optional GPS, odometry, connections and file names, exported and read back with an own reader; non-trivial with at least two submaps";
  s.assumptions = {"one thread", "path.csv keeps six decimals, point files single precision"};
  s.subs.push_back({"export", Export, 3000, 30000});
  return s;
}
