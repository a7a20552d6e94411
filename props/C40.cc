#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include "builder/map_builder.h"
#include "back_end/isam_optimizer.h"
#include "builder/data/data_collector.h"
#include "pbt.h"

using namespace static_map;

namespace {

enum Kind { kBool, kInt, kFloat, kDouble, kText };

std::string Show(bool v) { return v ? "true" : "false"; }
std::string Show(int v) { return std::to_string(v); }
std::string Show(const std::string& v) { return v; }
std::string Show(double v) {
  char s[64];
  snprintf(s, sizeof(s), "%.17g", v);
  return s;
}
std::string Show(float v) { return Show(static_cast<double>(v)); }

struct Option {
  const char *section, *name;
  Kind kind;
  std::string (*get)(MapBuilderOptions&);
  double min, max;
};

#define OPTION(section, name, kind, field, min, max) \
  { section, name, kind, [](MapBuilderOptions& o) { return Show(o.field); }, min, max }
#define ENUM(section, name, field, min, max) \
  { section, name, kInt, [](MapBuilderOptions& o) { return Show(static_cast<int>(o.field)); }, min, max }

const char* const kWhole = "whole_options";
const char* const kMrvm = "output_mrvm_settings";
const char* const kFront = "front_end_options";
const char* const kScan = "front_end_options/scan_matcher_options";
const char* const kFilter = "front_end_options/motion_filter";
const char* const kCompensation = "front_end_options/motion_compensation_options";
const char* const kImu = "front_end_options/imu_options";
const char* const kPair = "back_end_options/submap_matcher_options";
const char* const kSubmap = "back_end_options/submap_options";
const char* const kIsam = "back_end_options/isam_optimizer_options";
const char* const kLoop = "back_end_options/loop_detector_setting";
const char* const kPackage = "map_package_options";

// Every option there is, and the values that are accepted.
const std::vector<Option>& Options() {
  static const std::vector<Option> all = {
      ENUM(kWhole, "odom_calib_mode", whole_options.odom_calib_mode, 0, 2),
      OPTION(kWhole, "separate_output", kBool, whole_options.separate_output, 0, 1),
      OPTION(kWhole, "output_direct_combined_map", kBool, whole_options.output_direct_combined_map, 0, 1),
      OPTION(kWhole, "output_mrvm", kBool, whole_options.output_mrvm, 0, 1),
      OPTION(kWhole, "output_kitti_pose", kBool, whole_options.output_kitti_pose, 0, 1),
      OPTION(kWhole, "separate_step", kInt, whole_options.separate_step, 1, 1000),
      OPTION(kMrvm, "output_average", kBool, output_mrvm_settings.output_average, 0, 1),
      OPTION(kMrvm, "output_rgb", kBool, output_mrvm_settings.output_rgb, 0, 1),
      OPTION(kMrvm, "use_max_intensity", kBool, output_mrvm_settings.use_max_intensity, 0, 1),
      OPTION(kMrvm, "prob_threshold", kFloat, output_mrvm_settings.prob_threshold, 0, 1),
      OPTION(kMrvm, "low_resolution", kFloat, output_mrvm_settings.low_resolution, 0.01, 10),
      OPTION(kMrvm, "high_resolution", kFloat, output_mrvm_settings.high_resolution, 0.01, 10),
      OPTION(kMrvm, "hit_prob", kFloat, output_mrvm_settings.hit_prob, 0.51, 0.99),
      OPTION(kMrvm, "miss_prob", kFloat, output_mrvm_settings.miss_prob, 0.01, 0.49),
      OPTION(kMrvm, "z_offset", kFloat, output_mrvm_settings.z_offset, -100, 100),
      OPTION(kMrvm, "max_point_num_in_cell", kInt, output_mrvm_settings.max_point_num_in_cell, 1, 100),
      OPTION(kFront, "accumulate_cloud_num", kInt, front_end_options.accumulate_cloud_num, 1, 200),
      ENUM(kScan, "type", front_end_options.scan_matcher_options.type, -1, -1),
      OPTION(kScan, "accepted_min_score", kFloat, front_end_options.scan_matcher_options.accepted_min_score, 0, 1),
      OPTION(kFilter, "translation_range", kFloat, front_end_options.motion_filter.translation_range, 0, 100),
      OPTION(kFilter, "angle_range", kFloat, front_end_options.motion_filter.angle_range, 0, 100),
      OPTION(kFilter, "time_range", kFloat, front_end_options.motion_filter.time_range, 0, 100),
      OPTION(kCompensation, "enable", kBool, front_end_options.motion_compensation_options.enable, 0, 1),
      OPTION(kCompensation, "use_average", kBool, front_end_options.motion_compensation_options.use_average, 0, 1),
      OPTION(kImu, "use_imu", kBool, front_end_options.imu_options.enabled, 0, 1),
      ENUM(kImu, "type", front_end_options.imu_options.type, 0, 1),
      OPTION(kImu, "imu_frequency", kFloat, front_end_options.imu_options.frequency, 1, 1000),
      OPTION(kImu, "gravity_constant", kFloat, front_end_options.imu_options.gravity_constant, 9, 10),
      ENUM(kPair, "type", back_end_options.submap_matcher_options.type, 0, 6),
      OPTION(kPair, "accepted_min_score", kFloat, back_end_options.submap_matcher_options.accepted_min_score, 0, 1),
      OPTION(kSubmap, "frame_count", kInt, back_end_options.submap_options.frame_count, 1, 100),
      OPTION(kSubmap, "enable_inner_mrvm", kBool, back_end_options.submap_options.enable_inner_mrvm, 0, 1),
      OPTION(kSubmap, "enable_voxel_filter", kBool, back_end_options.submap_options.enable_voxel_filter, 0, 1),
      OPTION(kSubmap, "enable_random_sampleing", kBool, back_end_options.submap_options.enable_random_sampleing, 0, 1),
      OPTION(kSubmap, "random_sampling_rate", kFloat, back_end_options.submap_options.random_sampling_rate, 0, 1),
      OPTION(kSubmap, "voxel_size", kFloat, back_end_options.submap_options.voxel_size, 0.01, 10),
      OPTION(kSubmap, "enable_disk_saving", kBool, back_end_options.submap_options.enable_disk_saving, 0, 1),
      OPTION(kSubmap, "enable_check", kBool, back_end_options.submap_options.enable_check, 0, 1),
      OPTION(kSubmap, "disk_saving_delay", kInt, back_end_options.submap_options.disk_saving_delay, 0, 1000),
      OPTION(kSubmap, "saving_name_prefix", kText, back_end_options.submap_options.saving_name_prefix, 0, 0),
      OPTION(kIsam, "use_odom", kBool, back_end_options.isam_optimizer_options.use_odom, 0, 1),
      OPTION(kIsam, "use_gps", kBool, back_end_options.isam_optimizer_options.use_gps, 0, 1),
      OPTION(kIsam, "output_graph_pic", kBool, back_end_options.isam_optimizer_options.output_graph_pic, 0, 1),
      OPTION(kIsam, "enable_extrinsic_calib", kBool, back_end_options.isam_optimizer_options.enable_extrinsic_calib, 0, 1),
      OPTION(kIsam, "gps_factor_init_num", kInt, back_end_options.isam_optimizer_options.gps_factor_init_num, 1, 1000),
      OPTION(kIsam, "gps_factor_sample_step", kInt, back_end_options.isam_optimizer_options.gps_factor_sample_step, 1, 100),
      OPTION(kIsam, "gps_factor_init_angle_rad", kDouble, back_end_options.isam_optimizer_options.gps_factor_init_angle_rad, 0, 7),
      OPTION(kLoop, "use_gps", kBool, back_end_options.loop_detector_setting.use_gps, 0, 1),
      OPTION(kLoop, "use_descriptor", kBool, back_end_options.loop_detector_setting.use_descriptor, 0, 1),
      OPTION(kLoop, "output_matched_cloud", kBool, back_end_options.loop_detector_setting.output_matched_cloud, 0, 1),
      OPTION(kLoop, "trying_detect_loop_count", kInt, back_end_options.loop_detector_setting.trying_detect_loop_count, 0, 100),
      OPTION(kLoop, "loop_ignore_threshold", kInt, back_end_options.loop_detector_setting.loop_ignore_threshold, 0, 100),
      OPTION(kLoop, "nearest_history_pos_num", kInt, back_end_options.loop_detector_setting.nearest_history_pos_num, 1, 100),
      OPTION(kLoop, "max_close_loop_distance", kFloat, back_end_options.loop_detector_setting.max_close_loop_distance, 0, 100),
      OPTION(kLoop, "max_close_loop_z_distance", kFloat, back_end_options.loop_detector_setting.max_close_loop_z_distance, 0, 100),
      OPTION(kLoop, "m2dp_match_score", kFloat, back_end_options.loop_detector_setting.m2dp_match_score, 0, 1),
      OPTION(kLoop, "accept_scan_match_score", kFloat, back_end_options.loop_detector_setting.accept_scan_match_score, 0, 1),
      OPTION(kPackage, "enable", kBool, map_package_options.enable, 0, 1),
      OPTION(kPackage, "border_offset", kDouble, map_package_options.border_offset, 0, 1000),
      OPTION(kPackage, "piece_width", kDouble, map_package_options.piece_width, 1, 1000),
      OPTION(kPackage, "cloud_file_prefix", kText, map_package_options.cloud_file_prefix, 0, 0),
      OPTION(kPackage, "descript_filename", kText, map_package_options.descript_filename, 0, 0),
  };
  return all;
}

std::string Id(const Option& o) { return std::string(o.section) + "@" + o.name; }

using Values = std::map<std::string, std::string>;

Values Read(MapBuilderOptions& o) {
  Values v;
  for (const Option& k : Options()) v[Id(k)] = k.get(o);
  v["export"] = o.whole_options.export_file_path;
  v["package"] = o.whole_options.map_package_path;
  v["scan node"] = o.front_end_options.scan_matcher_options.registrator_options_node.attribute("id").as_string("none");
  v["pair node"] = o.back_end_options.submap_matcher_options.registrator_options_node.attribute("id").as_string("none");
  v["scan filters"] = o.front_end_options.scan_matcher_options.inner_filters_node.attribute("id").as_string("none");
  v["pair filters"] = o.back_end_options.submap_matcher_options.inner_filters_node.attribute("id").as_string("none");
  return v;
}

// Loads the configuration in a process of its own, which is not allowed to do
// anything after that.
bool Load(const std::string& dir, const char* file, Values* out, int* status) {
  const std::string result = dir + "/values.txt";
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(99);
    MapBuilder* builder = new MapBuilder;
    builder->SetTransformOdomToLidar(Eigen::Matrix4d::Identity());
    builder->SetTrackingToGps(Eigen::Matrix4d::Identity());
    MapBuilderOptions& o = builder->Initialise(file);
    const Values v = Read(o);
    std::ofstream f(result);
    for (const auto& e : v) f << e.first << "\n" << e.second << "\n";
    f.close();
    _exit(0);
  }
  waitpid(pid, status, 0);
  if (!WIFEXITED(*status) || WEXITSTATUS(*status) != 0) return false;
  std::ifstream f(result);
  std::string a, b;
  while (std::getline(f, a) && std::getline(f, b)) (*out)[a] = b;
  return true;
}

std::string Escape(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '&') r += "&amp;";
    else if (c == '<') r += "&lt;";
    else if (c == '"') r += "&quot;";
    else r += c;
  }
  return r;
}

std::string Text(pbt::Case& c) {
  return c.oneOf<std::string>({"part_", "map.xml", "", "with space", "a&b", "<x>", "\"q\"", "submap-", "0", "äö"});
}

// A tree of sections; the options of one section stay together.
struct Node {
  std::vector<std::pair<std::string, std::string>> attributes;
  std::vector<std::string> raw;  // complete children
  std::map<std::string, Node> children;
  bool wanted = false;
};

void Emit(pbt::Case& c, const std::string& name, const Node& n, std::ostringstream* out, int depth) {
  const std::string pad(depth * 2, ' ');
  *out << pad << "<" << name;
  std::vector<std::pair<std::string, std::string>> a = n.attributes;
  const int turn = a.empty() ? 0 : c.u(a.size());
  std::rotate(a.begin(), a.begin() + turn, a.end());
  for (const auto& e : a) *out << (c.b(1, 4) ? "\n    " : " ") << e.first << (c.b(1, 8) ? " = " : "=") << "\"" << Escape(e.second) << "\"";
  if (n.children.empty() && n.raw.empty() && c.b()) {
    *out << " />\n";
    return;
  }
  *out << ">\n";
  if (c.b(1, 6)) *out << pad << "<!-- " << name << " type=\"3\" -->\n";
  std::vector<std::string> names;
  for (const auto& e : n.children) names.push_back(e.first);
  const int rot = names.empty() ? 0 : c.u(names.size());
  std::rotate(names.begin(), names.begin() + rot, names.end());
  for (const auto& e : names) Emit(c, e, n.children.at(e), out, depth + 1);
  for (const auto& r : n.raw) *out << pad << "  " << r << "\n";
  *out << pad << "</" << name << ">\n";
}

Node* At(Node* root, const std::string& path) {
  Node* n = root;
  std::istringstream in(path);
  std::string part;
  while (std::getline(in, part, '/')) n = &n->children[part];
  return n;
}

// Options of the matcher in several versions, one per type.
void MatcherNodes(pbt::Case& c, Node* n, const std::string& prefix, int type, Values* expect) {
  const int nodes = c.u(4);
  bool found = false;
  for (int k = 0; k < nodes; ++k) {
    const int t = c.oneOf<int>({6, 1, 3, 5, 2, type});
    const std::string id = prefix + std::to_string(k);
    n->raw.push_back("<registrator_options type=\"" + std::to_string(t) + "\" id=\"" + id + "\" />");
    if (t == type && !found) {
      (*expect)[prefix + " node"] = id;
      found = true;
    }
  }
  if (c.b(1, 3)) {
    n->raw.push_back("<inner_filters id=\"" + prefix + "\" />");
    (*expect)[prefix + " filters"] = prefix;
  }
}

std::string NewDir() {
  static int count = 0;
  const std::string dir = pbt::Case::scratch() + "conf" + std::to_string(++count);
  mkdir(dir.c_str(), 0755);
  return dir;
}

bool IsDir(const std::string& path) {
  struct stat st;
  return stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}

void Compare(const Values& got, const Values& expect) {
  for (const auto& e : expect) REQUIRE(got.count(e.first) && got.at(e.first) == e.second, e.first << " is '" << (got.count(e.first) ? got.at(e.first) : "") << "' instead of '" << e.second << "'");
}

void File(pbt::Case& c) {
  const std::string dir = NewDir();
  MapBuilderOptions defaults;
  Values expect = Read(defaults);
  Node root;
  Node* top = At(&root, "edward_liu/static_mapping");
  const double share = c.oneOf<double>({0.1, 0.5, 0.9, 0.03, 1});
  const bool loop_by_gps = c.b();
  int named = 0;
  int scan_type = defaults.front_end_options.scan_matcher_options.type;
  int pair_type = defaults.back_end_options.submap_matcher_options.type;
  for (const Option& o : Options()) {
    bool given = c.u(1000) < share * 1000;
    // one way to find loops has to be chosen
    const bool needed = o.section == kLoop && std::string(o.name) == (loop_by_gps ? "use_gps" : "use_descriptor");
    if (!given && !needed) continue;
    ++named;
    std::string text, value;
    char s[64];
    switch (o.kind) {
      case kBool: {
        const bool b = needed || c.b();
        text = b ? c.oneOf<std::string>({"true", "1", "yes"}) : c.oneOf<std::string>({"false", "0", "no"});
        value = Show(b);
        break;
      }
      case kInt: {
        int v = static_cast<int>(o.min) + c.u(static_cast<int>(o.max - o.min) + 1);
        if (o.min < 0) v = c.oneOf<int>({6, 1, 3, 5});
        if (o.section == kScan) scan_type = v;
        if (o.section == kPair) pair_type = v;
        text = value = Show(v);
        break;
      }
      case kFloat: case kDouble: {
        const double v = o.min + (o.max - o.min) * (c.b() ? c.u(11) / 10. : c.real(0, 1));
        snprintf(s, sizeof(s), c.b() ? "%.9g" : "%.3f", v);
        text = s;
        value = o.kind == kFloat ? Show(static_cast<float>(atof(s))) : Show(atof(s));
        break;
      }
      case kText:
        text = value = Text(c);
        break;
    }
    At(top, o.section)->attributes.push_back({o.name, text});
    expect[Id(o)] = value;
  }
  for (auto* p : {"export", "package"}) {
    if (!c.b(2, 3)) continue;
    std::string path = c.oneOf<std::string>({"out", "a/b/c", "x/", "pcd//", "./here/", "deep/er/", ""});
    if (c.b(1, 4) && !path.empty()) path = dir + "/abs/" + path;
    At(top, kWhole)->attributes.push_back({p == std::string("export") ? "export_file_path" : "map_package_path", path});
    expect[p] = path;
    ++named;
  }
  if (top->children.count(kFront) && c.b()) MatcherNodes(c, At(top, kScan), "scan", scan_type, &expect);
  if (top->children.count("back_end_options") && c.b()) MatcherNodes(c, At(top, kPair), "pair", pair_type, &expect);
  // things nobody asks for
  if (c.b(1, 3)) At(top, c.oneOf<std::string>({kWhole, kImu, kLoop, "something/else", kFront}))->attributes.push_back({"unheard_of", "12"});
  if (c.b(1, 4)) At(&root, "edward_liu/other_program/whole_options")->attributes.push_back({"separate_step", "7"});
  std::ostringstream xml;
  xml << "<?xml version=\"1.0\"?>\n";
  Emit(c, "edward_liu", root.children["edward_liu"], &xml, 0);
  std::ofstream(dir + "/config file.xml") << xml.str();
  c.note() << named << " options named";
  const std::string name = c.b() ? "config file.xml" : dir + "/config file.xml";
  Values got;
  int status = 0;
  REQUIRE(Load(dir, name.c_str(), &got, &status), "loading ended with status " << status << "\n" << xml.str());
  for (auto* p : {"export", "package"}) {
    const std::string path = got[p];
    REQUIRE(!path.empty() && path.back() == '/', p << " path '" << path << "' does not end with a separator");
    REQUIRE(IsDir(path[0] == '/' ? path : dir + "/" + path), p << " path '" << path << "' was not created");
    std::string want = expect[p];
    if (want.empty()) {
      REQUIRE(path[0] != '/', "an empty " << p << " path became '" << path << "'");
      expect[p] = path;
      c.label("empty path");
    } else if (want.back() != '/') {
      expect[p] += "/";
    }
  }
  Compare(got, expect);
  if (named > 5) c.nontrivial();
}

// Without a usable file everything stays as it is.
void Unusable(pbt::Case& c) {
  const std::string dir = NewDir();
  MapBuilderOptions defaults;
  const Values expect = Read(defaults);
  const char* name = "config.xml";
  const std::string inner = "<static_mapping><whole_options separate_step=\"7\" separate_output=\"true\"/>"
                            "<back_end_options><loop_detector_setting use_gps=\"true\"/></back_end_options></static_mapping>";
  std::string text;
  const int kind = c.u(8);
  c.label("kind " + std::to_string(kind));
  switch (kind) {
    case 0: name = nullptr; break;
    case 1: name = ""; break;
    case 2: name = "not there.xml"; break;
    case 3: text = "<other>" + inner + "</other>"; break;
    case 4: text = "<edward_liu><mapping>" + inner + "</mapping></edward_liu>"; break;
    case 5: {
      text = "<edward_liu>" + inner + "</edward_liu>";
      text.resize(c.u(text.size()));
      break;
    }
    case 6: mkdir((dir + "/config.xml").c_str(), 0755); break;
    default: {
      const int n = c.size(0, 60);
      for (int k = 0; k < n; ++k) text += c.oneOf<std::string>({"<", ">", "edward_liu", "/", "\"", "=", "x", "&", "\n", "<?", "<!--"});
    }
  }
  if (kind != 6) std::ofstream(dir + "/config.xml") << text;
  c.note() << "file: " << text;
  Values got;
  int status = 0;
  REQUIRE(Load(dir, name, &got, &status), "loading ended with status " << status);
  Compare(got, expect);
  c.nontrivial();
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C40";
  s.rule = "a file naming more than five options, or a file that cannot be used";
  s.assumptions = {"written values are of the right type and inside the accepted range, one way of loop detection is chosen",
                   "every section is given once"};
  s.subs.push_back({"file", File, 4000, 20000});
  s.subs.push_back({"unusable", Unusable, 1000, 5000});
  return s;
}
