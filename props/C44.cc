#include <fcntl.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <random>
#include "gen.h"

int tool_join_main(int argc, char** argv);
int tool_path_main(int argc, char** argv);
int tool_sampler_main(int argc, char** argv);

using namespace gen;

namespace {

using Cloud = pcl::PointCloud<pcl::PointXYZI>;

struct Dir {
  std::string path;
  Dir() {
    static int count = 0;
    path = pbt::Case::scratch() + "tool" + std::to_string(++count);
    mkdir(path.c_str(), 0755);
  }
};

// Runs a tool in a process of its own; its exit status, -1 after a signal.
int Call(int (*tool)(int, char**), const std::string& dir, std::vector<std::string> args) {
  args.insert(args.begin(), "tool");
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(99);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    int r = 98;
    try {
      r = tool(static_cast<int>(args.size()), argv.data());
    } catch (const std::exception& e) {
      abort();  // as it would outside this check
    }
    std::cout.flush();
    _exit(r & 255);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return WIFEXITED(status) ? WEXITSTATUS(status) : -1;
}

// Every point can be told by its intensity.
Cloud AnyCloud(pbt::Case& c, int min, int* id) {
  Cloud cloud;
  const int n = min + c.size(0, 60);
  std::mt19937_64 rng(c.u(0));
  const double range = c.oneOf<double>({1, 100, 5000});
  std::uniform_real_distribution<double> uni(-range, range);
  for (int k = 0; k < n; ++k) {
    pcl::PointXYZI p;
    p.x = uni(rng), p.y = uni(rng), p.z = uni(rng);
    p.intensity = ++*id;
    cloud.push_back(p);
  }
  return cloud;
}

void Save(pbt::Case& c, const std::string& file, const Cloud& cloud) {
  if (cloud.empty()) {
    std::ofstream(file) << "VERSION 0.7\nFIELDS x y z intensity\nSIZE 4 4 4 4\nTYPE F F F F\nCOUNT 1 1 1 1\n"
                           "WIDTH 0\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS 0\nDATA ascii\n";
    return;
  }
  switch (c.u(3)) {
    case 0: pcl::io::savePCDFileBinary(file, cloud); break;
    case 1: pcl::io::savePCDFileBinaryCompressed(file, cloud); break;
    default: pcl::io::savePCDFileASCII(file, cloud); break;
  }
}

// Breaks a file. Whether it is still a point cloud (an empty one, with many
// broken headers) is for the library that reads it to say.
bool Spoil(pbt::Case& c, const std::string& file) {
  std::ifstream in(file, std::ios::binary);
  std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  in.close();
  switch (c.u(4)) {
    case 0: unlink(file.c_str()); return true;
    case 1: data = "nothing of a point cloud\n"; break;
    case 2: data = ""; break;
    default: {
      const size_t at = data.find("DATA");
      data.resize(at == std::string::npos ? 0 : c.u(at + 1));  // cut within the header
      break;
    }
  }
  std::ofstream(file, std::ios::binary) << data;
  Cloud cloud;
  if (pcl::io::loadPCDFile(file, cloud) < 0) return true;
  if (!cloud.empty()) c.discard();
  return false;
}

bool There(const std::string& file) {
  struct stat st;
  return stat(file.c_str(), &st) == 0;
}

std::map<int, pcl::PointXYZI> ById(const Cloud& cloud) {
  std::map<int, pcl::PointXYZI> m;
  for (const auto& p : cloud) {
    REQUIRE(!m.count(static_cast<int>(p.intensity)), "point " << p.intensity << " occurs twice");
    m[static_cast<int>(p.intensity)] = p;
  }
  return m;
}

double Slack(double v) { return 1e-6 + std::fabs(v) * 2.5e-7; }

void Join(pbt::Case& c) {
  Dir d;
  const bool elsewhere = c.b();
  const std::string sub = elsewhere ? "package/" : "";
  if (elsewhere) mkdir((d.path + "/package").c_str(), 0755);
  const int pieces = c.size(0, 5);
  int id = 0;
  std::map<int, pcl::PointXYZI> expect;
  std::ostringstream xml;
  xml.precision(12);
  xml << "<?xml version=\"1.0\"?>\n<MapPackage PieceNum=\"" << pieces << "\">\n";
  bool bad = false;
  for (int k = 0; k < pieces; ++k) {
    const std::string name = "part " + std::to_string(k) + ".pcd";
    Cloud cloud = AnyCloud(c, 0, &id);
    const double x = c.b() ? c.real(-2000, 2000) : 0, y = c.b() ? c.real(-2000, 2000) : 0;
    Save(c, d.path + "/" + sub + name, cloud);
    if (!cloud.empty()) pcl::io::loadPCDFile(d.path + "/" + sub + name, cloud);  // text files keep eight digits
    if (c.b(1, 12)) {
      bad |= Spoil(c, d.path + "/" + sub + name);
      cloud.clear();
    }
    xml << "  <Piece file=\"" << name << "\"";
    if (x != 0 || c.b()) xml << " x=\"" << x << "\"";
    if (y != 0 || c.b()) xml << " y=\"" << y << "\"";
    xml << " />\n";
    for (auto p : cloud) {
      p.x = p.x + x, p.y = p.y + y;
      expect[static_cast<int>(p.intensity)] = p;
    }
    if (c.b(1, 8)) xml << "  <Other file=\"" << name << "\" x=\"1\" />\n";
  }
  xml << "</MapPackage>\n";
  std::string text = xml.str(), file = sub + "pkg.xml";
  const int spoiled = c.b(1, 6) ? 1 + c.u(4) : 0;
  if (spoiled == 1) text = "<Package></Package>";
  if (spoiled == 2) text = "not xml at all";
  if (spoiled == 3) text.resize(text.size() / 2);
  if (spoiled != 4) std::ofstream(d.path + "/" + file) << text;
  std::vector<std::string> args{"-pkg", c.b() ? file : d.path + "/" + file};
  const bool asked = !c.b(1, 20);
  if (!asked) args.clear();
  const int status = Call(tool_join_main, d.path, args);
  const std::string out = d.path + "/whole_static_map.pcd";
  c.note() << pieces << " pieces, " << expect.size() << " points, exit " << status;
  if (spoiled || bad || !asked) {
    c.label("unusable input");
    REQUIRE(status > 0, "exit status " << status << " after unusable input");
    REQUIRE(!There(out), "a map was written after unusable input");
    return;
  }
  REQUIRE(status == 0, "exit status " << status);
  if (expect.empty()) return;
  Cloud got;
  REQUIRE(pcl::io::loadPCDFile(out, got) == 0, "no usable output");
  REQUIRE(got.size() == expect.size(), got.size() << " points written, " << expect.size() << " given");
  for (const auto& e : ById(got)) {
    REQUIRE(expect.count(e.first), "point " << e.first << " is not from a piece");
    const auto &a = e.second, &b = expect[e.first];
    REQUIRE(std::fabs(a.x - b.x) <= Slack(b.x) && std::fabs(a.y - b.y) <= Slack(b.y) && a.z == b.z,
            "point at " << a.x << " " << a.y << " " << a.z << " instead of " << b.x << " " << b.y << " " << b.z);
  }
  if (pieces > 1) c.nontrivial();
}

void PathLines(pbt::Case& c) {
  Dir d;
  int id = 0;
  Cloud cloud = AnyCloud(c, 0, &id);
  Save(c, d.path + "/some path.pcd", cloud);
  bool bad = false;
  if (c.b(1, 8)) {
    bad = Spoil(c, d.path + "/some path.pcd");
    cloud.clear();
  }
  const std::string out = d.path + "/path.csv";
  const bool blocked = !bad && c.b(1, 8);
  if (blocked) mkdir(out.c_str(), 0755);
  std::vector<std::string> args{"-pc", c.b() ? "some path.pcd" : d.path + "/some path.pcd"};
  const bool asked = !c.b(1, 20);
  if (!asked) args.clear();
  const int status = Call(tool_path_main, d.path, args);
  c.note() << cloud.size() << " points, exit " << status;
  if (bad || blocked || !asked) {
    c.label(blocked ? "output cannot be written" : "unusable input");
    REQUIRE(status > 0, "exit status " << status << (blocked ? " though nothing could be written" : " after unusable input"));
    REQUIRE(blocked || !There(out), "lines were written after unusable input");
    return;
  }
  REQUIRE(status == 0, "exit status " << status);
  std::ifstream in(out);
  REQUIRE(in.is_open(), "no output");
  std::string line;
  size_t k = 0;
  for (; std::getline(in, line); ++k) {
    REQUIRE(k < cloud.size(), "more lines than points");
    double v[4] = {0, 0, 0, 0};
    REQUIRE(sscanf(line.c_str(), "%lf,%lf,%lf,%lf", v, v + 1, v + 2, v + 3) == 4, "line '" << line << "'");
    const auto& p = cloud[k];
    const double w[4] = {p.x, p.y, p.z, p.intensity};
    // text files keep eight digits
    for (int q = 0; q < 4; ++q) REQUIRE(std::fabs(v[q] - w[q]) <= 2e-6 + std::fabs(w[q]) * 1e-6, "line '" << line << "' for " << w[q]);
  }
  REQUIRE(k == cloud.size(), k << " lines for " << cloud.size() << " points");
  if (cloud.size() > 1) c.nontrivial();
}

void Sample(pbt::Case& c) {
  Dir d;
  int id = 0;
  Cloud cloud = AnyCloud(c, 0, &id);
  Save(c, d.path + "/cloud.pcd", cloud);
  bool bad = false;
  if (c.b(1, 8)) {
    bad = Spoil(c, d.path + "/cloud.pcd");
    cloud.clear();
  }
  Cloud input;
  if (!bad) REQUIRE(pcl::io::loadPCDFile(d.path + "/cloud.pcd", input) == 0, "cloud");
  double ratio = 0.05;
  std::vector<std::string> args{"-pc", "cloud.pcd"};
  if (c.b(4, 5)) {
    ratio = c.oneOf<double>({0.5, 1, 0.25, 0, -1});
    if (ratio < 0) ratio = c.u(1001) / 1000.;
    args.push_back("-r");
    args.push_back(std::to_string(ratio));
  }
  const bool asked = !c.b(1, 20);
  if (!asked) args.erase(args.begin(), args.begin() + 2);
  const int status = Call(tool_sampler_main, d.path, args);
  const std::string out = d.path + "/sampled.pcd";
  c.note() << cloud.size() << " points, ratio " << ratio << ", exit " << status;
  if (bad || !asked) {
    c.label("unusable input");
    REQUIRE(status > 0, "exit status " << status << " after unusable input");
    REQUIRE(!There(out), "a sample was written after unusable input");
    return;
  }
  const double want = cloud.size() * ratio;
  REQUIRE(status >= 0, "the tool crashed");
  if (want < 1) {  // an empty sample may be written, left out or refused
    c.label("empty sample");
    if (!There(out)) return;
  } else {
    REQUIRE(status == 0, "exit status " << status);
  }
  Cloud got;
  REQUIRE(pcl::io::loadPCDFile(out, got) == 0, "no usable output");
  REQUIRE(std::fabs(got.size() - want) <= 1 && got.size() <= cloud.size(), got.size() << " points of " << cloud.size() << " for " << ratio);
  const auto in = ById(input);
  for (const auto& e : ById(got)) {
    REQUIRE(in.count(e.first), "point " << e.first << " was not given");
    const auto &a = e.second, &b = in.at(e.first);
    REQUIRE(a.x == b.x && a.y == b.y && a.z == b.z, "point " << e.first << " was changed");
  }
  if (want >= 1 && ratio < 1) c.nontrivial();
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C44";
  s.rule = "several pieces, several path points, a true share of the points";
  s.assumptions = {"points have finite coordinates"};
  s.subs.push_back({"join", Join, 1500, 15000});
  s.subs.push_back({"path", PathLines, 1500, 15000});
  s.subs.push_back({"sample", Sample, 1500, 15000});
  return s;
}
