#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "filtergen.h"

using namespace gen;

struct Def {
  const char* name;
  bool is_int;
  double dflt;
  std::vector<double> values;
};
static const double kMax = 3.402823466e38;
static const std::vector<std::pair<std::string, std::vector<Def>>> kDefs = {
    {"Range", {{"min_range", false, 0, {0.5, 3, 12}}, {"max_range", false, kMax, {15, 20, 33.5}}}},
    {"AxisRange", {{"min", false, -kMax, {-20, -3.5, 0}}, {"max", false, kMax, {0.5, 4, 17}}, {"axis_index", true, 2, {0, 1, 2}}}},
    {"BoundingBoxRemoval",
     {{"min_x", false, -kMax, {-9, -2}}, {"min_y", false, -kMax, {-9, -2}}, {"min_z", false, -kMax, {-9, -2}}, {"max_x", false, kMax, {1, 8}}, {"max_y", false, kMax, {1, 8}}, {"max_z", false, kMax, {1, 8}}}},
    {"VoxelGrid", {{"voxel_size", false, 0.1, {0.25, 1, 4}}}},
    {"GroundRemoval", {{"leaf_size", false, 0.8, {0.5, 4, 15}}, {"height_threshold", false, 0.15, {0.01, 1, 5}}, {"min_point_num_in_voxel", true, 10, {1, 2, 4}}}},
    {"GroundRemoval2",
     {{"r_max", false, 100, {20, 60}}, {"r_min", false, 1, {0.5, 4}}, {"start_ground_height", false, -0.25, {-1.5, -0.8, 0}}, {"long_line_threshold", false, 1, {0.2, 5}}, {"max_long_line_height", false, 0.1, {0.01, 1}},
      {"max_start_height", false, 0.2, {0.02, 2}}, {"max_error", false, 0.05, {0.005, 1}}, {"max_slope", false, 0.2679491924311227, {0.01, 2}}, {"max_b", false, 0.1, {0.5}}, {"max_dist_to_line", false, 0.05, {0.005, 0.5}},
      {"search_angle", false, 10, {1, 45}}, {"bin_num", true, 200, {30, 77}}, {"segment_num", true, 180, {20, 61}}, {"thread_num", true, 4, {1, 2}}}},
    {"RangeImage",
     {{"top_angle", false, 30, {10, 45}}, {"btm_angle", false, -15, {-40, -5}}, {"offset_x", false, 0, {1, -2}}, {"offset_y", false, 0, {1, -2}}, {"offset_z", false, 0, {1, -2}}, {"vertical_line_num", true, 40, {4, 16}}, {"horizontal_line_num", true, 1800, {20, 90}}}},
    {"StatisticRemoval", {{"std_mul", false, 1, {2}}, {"point_num_meank", true, 30, {5}}}},
    {"RandomSampler", {{"sampling_rate", false, 1, {0, 1}}}}};

// Runs `fn` in a child; true when it returned and said true.  Aborting or
// returning false are both refusals.
template <typename Fn>
static bool Accepted(Fn fn) {
  const pid_t pid = fork();
  REQUIRE(pid >= 0, "fork");
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    bool ok = false;
    try {
      ok = fn();
    } catch (...) {
    }
    _exit(ok ? 0 : 3);
  }
  int st = 0;
  REQUIRE(waitpid(pid, &st, 0) == pid, "waitpid");
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

static std::vector<std::vector<float>> Run(const FilterPtr& f, const InnerCloudType::Ptr& in, bool sorted) {
  InnerCloudType::Ptr out = std::make_shared<InnerCloudType>();
  f->SetInputCloud(in);
  f->Filter(out);
  std::vector<std::vector<float>> r;
  for (auto& p : out->points) r.push_back({p.x, p.y, p.z, p.intensity, p.factor});
  if (sorted) std::sort(r.begin(), r.end());
  return r;
}

// A scan whose points tell most parameter values apart.
static InnerCloudType::Ptr Probe(pbt::Case& c) {
  InnerCloudType::Ptr in = std::make_shared<InnerCloudType>();
  in->stamp = AnyStamp(c);
  uint64_t x = c.u(1u << 30) + 88172645463325252ull;
  auto rnd = [&] {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) * (2.0 / 9007199254740992.0) - 1;
  };
  const double h = c.oneOf<double>({0.2, 0.5, 1.5}), slope = c.oneOf<double>({0, 0.02, 0.2});
  for (int k = 0; k < 500; ++k) {
    InnerPointType p;
    const double r = 25 * std::fabs(rnd()), a = M_PI * rnd();
    p.x = static_cast<float>(r * std::cos(a));
    p.y = static_cast<float>(r * std::sin(a));
    p.z = static_cast<float>(k % 3 ? -h + slope * r + 0.02 * rnd() : 12 * rnd());
    p.intensity = k;
    p.factor = static_cast<float>(k * 0.002);
    in->points.push_back(p);
  }
  return in;
}

static void Values(pbt::Case& c) {
  const auto& d = c.pick(kDefs);
  FilterCfg some, full;
  some.name = full.name = d.first;
  bool dflt = false;
  for (auto& p : d.second) {
    double v = p.dflt;
    if (c.b()) {
      v = c.pick(p.values);
      some.params.push_back({p.name, p.is_int, v});
    } else {
      dflt = true;
    }
    full.params.push_back({p.name, p.is_int, v});
  }
  for (FilterCfg* f : {&some, &full})
    for (size_t k = f->params.size(); k > 1; --k) std::swap(f->params[k - 1], f->params[c.u(k)]);
  InnerCloudType::Ptr in = Probe(c);
  c.note() << some.Xml();
  c.label(d.first);
  if (dflt && !some.params.empty()) c.nontrivial();
  const bool sorted = d.first == "VoxelGrid";
  FilterPtr a = Build(some), b = Build(full);
  REQUIRE(Run(a, in, sorted) == Run(b, in, sorted), "differs from " << full.Xml());
  // a sibling created from a configured object starts from the defaults
  FilterPtr fresh = a->CreateNewInstance();
  REQUIRE(fresh->GetName() == d.first, "name of a new instance: " << fresh->GetName());
  REQUIRE(fresh->InitFromXmlText(full.Xml().c_str()), "new instance refused " << full.Xml());
  REQUIRE(Run(fresh, in, sorted) == Run(b, in, sorted), "new instance differs");
  // a configured object takes further values, the others stay
  FilterCfg more;
  more.name = d.first;
  const Def& p = c.pick(d.second);
  const double nv = c.pick(p.values);
  more.params.push_back({p.name, p.is_int, nv});
  for (auto& q : full.params)
    if (q.name == p.name) q.value = nv;
  REQUIRE(a->InitFromXmlText(more.Xml().c_str()), "second configuration refused: " << more.Xml());
  FilterPtr want = Build(full);
  REQUIRE(Run(a, in, sorted) == Run(want, in, sorted), "after " << more.Xml() << " differs from " << full.Xml());
}

// Each single parameter must matter: a value off the default changes what the
// models of the other checks compute, here only validity is judged.
static void Validity(pbt::Case& c) {
  FilterCfg f;
  bool valid = true;
  switch (c.u(4)) {
    case 0: {
      f.name = "AxisRange";
      double lo = -kMax, hi = kMax;
      int axis = 2;
      if (c.b(3, 4)) f.F("min", lo = c.i(-3, 3));
      if (c.b(3, 4)) f.F("max", hi = c.i(-3, 3));
      if (c.b()) f.I("axis_index", axis = c.i(-2, 4));
      valid = hi > lo && axis >= 0 && axis <= 2;
      break;
    }
    case 1: {
      f.name = "BoundingBoxRemoval";
      const char* ax[] = {"x", "y", "z"};
      for (auto* a : ax) {
        double lo = -kMax, hi = kMax;
        if (c.b()) f.F(std::string("min_") + a, lo = c.i(-4, 2));
        if (c.b()) f.F(std::string("max_") + a, hi = c.i(-1, 4));
        valid = valid && lo < hi;
      }
      break;
    }
    case 2: {
      f.name = "RandomSampler";
      const double r = c.oneOf<double>({0, 1, 0.5, -0.001, 1.001, -1, 2, 100, 0.001, 0.999});
      if (c.b(7, 8)) {
        f.F("sampling_rate", r);
        valid = r >= 0 && r <= 1;
      }
      break;
    }
    default: {
      f.name = "VoxelGrid";
      const double r = c.oneOf<double>({0.1, 1, 50, 0, -0.1, -5, 1e-7, 1e-3});
      if (c.b(7, 8)) {
        f.F("voxel_size", r);
        valid = r > 1e-6;
      }
    }
  }
  for (size_t k = f.params.size(); k > 1; --k) std::swap(f.params[k - 1], f.params[c.u(k)]);
  c.note() << f.Xml();
  c.label(valid ? "valid" : "invalid");
  if (!f.params.empty()) c.nontrivial();
  FilterPtr p = NewFilter(f.name);
  const bool got = p->InitFromXmlText(f.Xml().c_str());
  REQUIRE(got == valid, (got ? "accepted" : "refused") << " " << f.Xml());
  REQUIRE(p->ConfigsValid() == valid, "ConfigsValid " << f.Xml());
}

static void Unknown(pbt::Case& c) {
  const auto& d = c.pick(kDefs);
  FilterCfg f;
  f.name = d.first;
  for (auto& p : d.second)
    if (c.b()) f.params.push_back({p.name, p.is_int, c.pick(p.values)});
  const int kind = c.u(4);
  const std::string good = f.Xml();
  std::string bad;
  FilterPtr p = NewFilter(f.name);
  if (kind == 0) {
    FilterCfg g = f;
    const size_t at = c.u(g.params.size() + 1);
    const Def& any = c.pick(c.pick(kDefs).second);
    std::string n = c.oneOf<std::string>({"", "unknown", std::string(any.name) + "_", "Min"});
    if (c.b()) {
      n = any.name;
      for (auto& q : d.second)
        if (n == q.name) n = "other";
    }
    g.params.insert(g.params.begin() + at, {n, c.b(), 1});
    bad = g.Xml();
  } else if (kind == 1) {
    const Def& any = c.pick(d.second);
    const std::string type = c.oneOf<std::string>({"type=\"2\" ", "type=\"3\" ", "type=\"-1\" ", ""});
    bad = good;
    bad.insert(bad.find('>') + 1, "<param " + type + "name=\"" + any.name + "\"> 1 </param>");
  } else if (kind == 2) {
    std::string other = c.pick(kDefs).first;
    if (other == f.name) other = "Other";
    bad = "<filter name=\"" + other + "\"></filter>";
  } else {
    bad = c.oneOf<std::string>({"", "<filter", "<filter name=\"" + f.name + "\"><param></filter>", "<filters></filters>", "<filter></filter>"});
  }
  c.note() << bad;
  c.nontrivial();
  c.label(std::to_string(kind));
  REQUIRE(Accepted([&] { return NewFilter(f.name)->InitFromXmlText(good.c_str()); }), "refused " << good);
  REQUIRE(!Accepted([&] { return NewFilter(f.name)->InitFromXmlText(bad.c_str()); }), f.name << " accepted " << bad);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C21";
  s.rule = "any subset and order of the parameters of the nine filters against the full list with the documented defaults; values in, on and out of the valid range; unknown names, types, filter names and malformed text; non-trivial when defaults and given values mix or something is refused";
  s.assumptions = {"a valid range is declared for the axis, box, sampling and voxel filters only", "refusing by return value and refusing by abort count the same for malformed configurations"};
  s.subs.push_back({"values", Values, 3000, 60000});
  s.subs.push_back({"validity", Validity, 5000, 50000});
  s.subs.push_back({"unknown", Unknown, 800, 8000});
  return s;
}
