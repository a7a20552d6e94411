#include <fstream>
#include <set>
#include <unistd.h>
#include "back_end/view_graph.h"
#include "gen.h"

using namespace gen;
using static_map::back_end::ViewGraph;

struct Pixels {
  int w = 0, h = 0;
  std::vector<unsigned char> rgb;
  explicit Pixels(const std::string& file) {
    std::ifstream in(file, std::ios::binary);
    REQUIRE(in.is_open(), "no picture");
    std::string magic;
    int max = 0;
    auto word = [&](auto* v) {
      while (true) {
        in >> std::ws;
        if (in.peek() != '#') break;
        std::string skip;
        std::getline(in, skip);
      }
      in >> *v;
    };
    word(&magic);
    word(&w);
    word(&h);
    word(&max);
    in.get();
    REQUIRE(magic == "P6" && max == 255 && w > 0 && h > 0, "picture header");
    rgb.resize(static_cast<size_t>(w) * h * 3);
    in.read(reinterpret_cast<char*>(rgb.data()), rgb.size());
    REQUIRE(in.gcount() == static_cast<std::streamsize>(rgb.size()), "picture is cut off");
  }
  int Colour(int x, int y) const {  // 0 white, 1 red, 2 blue, 3 other
    const unsigned char* p = &rgb[(static_cast<size_t>(y) * w + x) * 3];
    if (p[0] == 255 && p[1] == 255 && p[2] == 255) return 0;
    if (p[0] == 255 && p[1] == 0 && p[2] == 0) return 1;
    if (p[0] == 0 && p[1] == 0 && p[2] == 255) return 2;
    return 3;
  }
};

static void Graph(pbt::Case& c) {
  ViewGraph g;
  struct V {
    M4 pose;
    std::vector<std::pair<int64_t, M4>> out;
  };
  std::map<int64_t, V> want;
  const double range = c.oneOf<double>({3, 20, 40});
  const V3 base = c.b() ? V3(0, 0, 0) : V3(c.i(-400, 400), c.i(-400, 400), 0);
  const int n = c.u(50);
  std::set<int64_t> ids;
  auto id = [&]() -> int64_t { return c.b(1, 12) ? c.i(-5, 1000000000000ll) : static_cast<int64_t>(c.u(8)); };
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  int edges = 0, exports = 0;
  auto same = [&] {
    const auto got = g.GetWholeGraph();
    REQUIRE(got.size() == want.size(), got.size() << " vertices instead of " << want.size());
    for (auto& kv : want) {
      auto it = got.find(kv.first);
      REQUIRE(it != got.end(), "vertex " << kv.first << " is missing");
      REQUIRE(it->second.self_pose == kv.second.pose, "pose of vertex " << kv.first);
      REQUIRE(it->second.connections.size() == kv.second.out.size(), it->second.connections.size() << " edges from " << kv.first << " instead of " << kv.second.out.size());
      for (size_t k = 0; k < kv.second.out.size(); ++k)
        REQUIRE(it->second.connections[k].first == kv.second.out[k].first && it->second.connections[k].second == kv.second.out[k].second, "edge " << k << " of " << kv.first);
    }
  };
  for (int k = 0; k < n; ++k) {
    const int op = c.u(20);
    if (op < 9) {
      const int64_t v = id();
      M4 p = AnyPose(c, range);
      p.block<3, 1>(0, 3) += base;
      g.AddVertex(v, p);
      want[v].pose = p;
      c.note() << "v" << v << " ";
      for (int d = 0; d < 2; ++d) lo[d] = std::min(lo[d], p(d, 3)), hi[d] = std::max(hi[d], p(d, 3));
    } else if (op < 17) {
      const int64_t a = id(), b = id();
      const M4 t = AnyPose(c, 10);
      g.AddEdge(a, b, t);
      if (want.count(a) && want.count(b)) want[a].out.push_back({b, t}), ++edges;
      c.note() << "e" << a << ">" << b << " ";
    } else if (op == 17) {
      same();
    } else if (op == 18) {
      const std::string file = pbt::Case::scratch() + "graph.txt";
      g.SaveTextFile(file);
      std::ifstream in(file);
      REQUIRE(in.is_open(), "no text file");
      std::string line;
      auto it = want.begin();
      while (std::getline(in, line)) {
        REQUIRE(it != want.end(), "too many lines");
        std::string w = std::to_string(it->first) + " > ";
        for (auto& e : it->second.out) w += std::to_string(e.first) + ", ";
        // spacing does not matter
        auto squeeze = [](std::string s) {
          s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
          return s;
        };
        REQUIRE(squeeze(line) == squeeze(w), "line '" << line << "' instead of '" << w << "'");
        ++it;
      }
      REQUIRE(it == want.end(), "vertices are missing in the text");
      unlink(file.c_str());
      ++exports;
    } else {
      const std::string file = pbt::Case::scratch() + "graph.ppm";
      unlink(file.c_str());
      const double res = c.oneOf<double>({0.5, 0.2});
      g.SaveImage(file, res);
      if (want.empty()) {
        REQUIRE(access(file.c_str(), F_OK) != 0, "a picture of nothing");
        continue;
      }
      Pixels px(file);
      ++exports;
      // large enough for everything, and not much larger
      const double w = (hi[0] - lo[0]) / res, h = (hi[1] - lo[1]) / res;
      REQUIRE(px.w >= w && px.h >= h, "picture of " << px.w << " x " << px.h << " for " << w << " x " << h);
      REQUIRE(px.w <= w + 20 / res + 2 && px.h <= h + 20 / res + 2, "picture of " << px.w << " x " << px.h << " for " << w << " x " << h << " pixels of graph");
      g.SaveImage(file, res);
      Pixels again(file);
      REQUIRE(again.w == px.w && again.h == px.h && again.rgb == px.rgb, "a second picture of the same graph is different");
      // the scene is placed with equal margins
      const double mx = (px.w - w) / 2, my = (px.h - h) / 2;
      for (auto& kv : want)
        for (auto& e : kv.second.out)
          for (double f : {0.0, 0.5, 1.0}) {
            const V3 p = Trans(kv.second.pose) * (1 - f) + Trans(want[e.first].pose) * f;
            const double x = mx + (p[0] - lo[0]) / res, y = my + (hi[1] - p[1]) / res;
            bool seen = false;
            for (int dx = -2; dx <= 2; ++dx)
              for (int dy = -2; dy <= 2; ++dy) {
                const int u = static_cast<int>(x) + dx, v = static_cast<int>(y) + dy;
                if (u >= 0 && v >= 0 && u < px.w && v < px.h && px.Colour(u, v) != 0) seen = true;
              }
            REQUIRE(seen, "edge " << kv.first << " > " << e.first << " is not in the picture at " << x << "," << y << " of " << px.w << " x " << px.h);
          }
      for (int y = 0; y < px.h; ++y)
        for (int x = 0; x < px.w; ++x) REQUIRE(px.Colour(x, y) != 3, "unknown colour");
      // Edges to the next vertex are blue, all others red.
      int next = 0, other = 0;
      bool red = false, blue = false;
      for (auto& kv : want)
        for (auto& e : kv.second.out) ++(e.first == kv.first + 1 ? next : other);
      for (int y = 0; y < px.h; ++y)
        for (int x = 0; x < px.w; ++x) {
          if (px.Colour(x, y) == 1) red = true;
          if (px.Colour(x, y) == 2) blue = true;
        }
      REQUIRE(next > 0 || !blue, "blue edges without edges to a next vertex");
      REQUIRE(other > 0 || !red, "red edges with edges to a next vertex only");
      if (edges == 0) {
        for (size_t q = 0; q < px.rgb.size(); ++q) REQUIRE(px.rgb[q] == 255, "something drawn without edges");
      }
      unlink(file.c_str());
    }
  }
  same();
  if (edges > 1 && exports > 0) c.nontrivial();
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C33";
  s.rule = "up to 50 vertex additions/updates, edge additions (known and unknown ids), comparisons, text and picture exports; non-trivial with two edges and an export";
  s.assumptions = {"pictures are written in an uncompressed format", "the picture is at most ten metres larger than the graph on every side"};
  s.subs.push_back({"graph", Graph, 6000, 60000});
  return s;
}
