#include <sys/stat.h>
#include <unistd.h>
#include "builder/map_package.h"
#include "maps.h"
#include "pcl/io/pcd_io.h"
#include "pugixml/pugixml.hpp"
#include "swap.h"

using namespace gen;
using static_map::MapPackageOptions;
using static_map::MrvmSettings;
using static_map::Trajectory;

static void Package(pbt::Case& c) {
  const std::string dir = pbt::Case::scratch() + "package/";
  mkdir(dir.c_str(), 0700);
  EmptyDir(dir);
  MapPackageOptions o;
  o.piece_width = c.oneOf<double>({10, 25, 60, 500});
  o.border_offset = c.oneOf<double>({1, 5, 20, 100});
  if (c.b(1, 4)) o.cloud_file_prefix = "p";
  if (c.b(1, 4)) o.descript_filename = "info.xml";
  MrvmSettings m;
  const bool all = c.b(2, 3);  // keep every point
  m.high_resolution = c.oneOf<float>({0.5f, 0.2f, 1.f});
  m.prob_threshold = all ? 0.f : 0.52f;
  m.max_point_num_in_cell = all ? 1000 : 5;
  m.use_max_intensity = c.b();
  const double extent = std::min(5 * o.piece_width, c.oneOf<double>({0, 8, 60, 150}));
  struct Pt {
    V3 p;
    float intensity;
    V3 at;  // position of the submap
  };
  std::vector<Pt> points;
  std::vector<std::shared_ptr<Trajectory>> trajectories;
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  const int nt = c.b(1, 12) ? 0 : 1 + c.u(2);
  int n = 0;
  const V3 base = c.b(1, 3) ? Vec(c, 1000) : V3(0, 0, 0);
  for (int t = 0; t < nt; ++t) {
    trajectories.push_back(std::make_shared<Trajectory>());
    trajectories.back()->SetId(t);
    for (int k = c.u(4); k > 0; --k) {
      SubmapOptions so;
      so.frame_count = 1;
      auto s = std::make_shared<Submap>(so);
      s->SetId({t, static_cast<int>(trajectories.back()->size())});
      auto cloud = AnyCloud(c, 1, 30, c.oneOf<double>({3, 12, 40}));
      const M4 pose = Pose(AnyRotation(c), base + VecFine(c, extent / 2));
      s->InsertFrame(MakeFrame(std::make_shared<InnerCloudType>(*cloud), M4::Identity()));
      s->SetGlobalPose(pose);
      trajectories.back()->push_back(s);
      ++n;
      for (const auto& p : cloud->points) points.push_back({Rot(pose) * P(p) + Trans(pose), p.intensity, Trans(pose)});
      for (int d = 0; d < 2; ++d) {
        lo[d] = std::min(lo[d], pose(d, 3) - o.border_offset);
        hi[d] = std::max(hi[d], pose(d, 3) + o.border_offset);
      }
    }
  }
  c.note() << n << " submaps over " << extent << " m, pieces of " << o.piece_width << ", border " << o.border_offset;
  const bool saved = static_map::SaveTrajectoriesAsMapPackage(trajectories, o, m, dir);
  REQUIRE(saved == (n > 0), "reported " << saved << " for " << n << " submaps");
  pugi::xml_document doc;
  const bool xml = doc.load_file((dir + o.descript_filename).c_str());
  REQUIRE(xml == saved, "description file " << (xml ? "written" : "missing"));
  if (!saved) return;
  const double tol = 1e-6 * (1 + base.norm() + extent + 100) + 1e-5;
  std::vector<bool> found(points.size(), false);
  double clo[2] = {1e9, 1e9}, chi[2] = {-1e9, -1e9};
  int pieces = 0, filled = 0;
  for (auto piece = doc.child("MapPackage").child("Piece"); piece; piece = piece.next_sibling("Piece")) {
    ++pieces;
    const double x = piece.attribute("x").as_double(1e9), y = piece.attribute("y").as_double(1e9);
    const std::string file = piece.attribute("file").as_string();
    REQUIRE(!file.empty() && access((dir + file).c_str(), F_OK) == 0, "piece file " << file << " is missing");
    pcl::PointCloud<pcl::PointXYZI> cloud;
    REQUIRE(pcl::io::loadPCDFile(dir + file, cloud) == 0, "piece file " << file << " cannot be read");
    if (!cloud.empty()) ++filled;
    const double h = o.piece_width / 2 + tol;
    for (int d = 0; d < 2; ++d) {
      clo[d] = std::min(clo[d], (d ? y : x) - o.piece_width / 2);
      chi[d] = std::max(chi[d], (d ? y : x) + o.piece_width / 2);
    }
    std::vector<bool> here(points.size(), false);
    for (const auto& p : cloud.points) {
      REQUIRE(std::fabs(p.x) <= h && std::fabs(p.y) <= h, "point " << p.x << "," << p.y << " is outside of its piece of " << o.piece_width);
      const V3 w(p.x + x, p.y + y, p.z);
      bool ok = false;
      for (size_t k = 0; k < points.size(); ++k)
        if ((points[k].p - w).norm() <= tol) {
          if (m.use_max_intensity || points[k].intensity == p.intensity) ok = here[k] = found[k] = true;
        }
      REQUIRE(ok, "point " << w.transpose() << " of piece " << file << " is not in the map");
    }
    if (!all) continue;
    // every point near its submap that lies in this piece
    for (size_t k = 0; k < points.size(); ++k) {
      const Pt& p = points[k];
      const bool inside = std::fabs(p.p[0] - x) < o.piece_width / 2 - tol && std::fabs(p.p[1] - y) < o.piece_width / 2 - tol &&
                          p.p[0] > lo[0] + tol && p.p[0] < hi[0] - tol && p.p[1] > lo[1] + tol && p.p[1] < hi[1] - tol;
      const bool near = (p.p - p.at).head<2>().cwiseAbs().maxCoeff() < o.border_offset - tol;
      if (inside && near) REQUIRE(here[k], "point " << p.p.transpose() << " of a submap at " << p.at.transpose() << " is missing in the piece at " << x << "," << y);
    }
  }
  REQUIRE(pieces > 0, "no pieces");
  for (int d = 0; d < 2; ++d) REQUIRE(clo[d] <= lo[d] + tol && chi[d] >= hi[d] - tol, "the pieces cover " << clo[d] << " to " << chi[d] << ", the map reaches from " << lo[d] << " to " << hi[d]);
  if (all)
    for (size_t k = 0; k < points.size(); ++k) {
      const Pt& p = points[k];
      const bool inside = p.p[0] > lo[0] + tol && p.p[0] < hi[0] - tol && p.p[1] > lo[1] + tol && p.p[1] < hi[1] - tol;
      if (inside && (p.p - p.at).head<2>().cwiseAbs().maxCoeff() < o.border_offset - tol) REQUIRE(found[k], "point " << p.p.transpose() << " is in no piece");
    }
  if (pieces > 1 && filled > 0) c.nontrivial();
  if (pieces == 1) c.label("single piece");
  if (filled < pieces) c.label("empty piece");
  EmptyDir(dir);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C32";
  s.rule = "0-2 trajectories of 0-3 submaps with up to 30 points spread over up to five piece widths, four piece widths and borders; the pieces are read back and joined; non-trivial with more than one piece and some points";
  s.assumptions = {"a submap contributes points up to the border width away from it", "completeness is judged with a threshold that keeps every voxel"};
  s.subs.push_back({"package", Package, 2500, 25000});
  return s;
}
