#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include "common/file_utils.h"
#include "pbt.h"

using namespace static_map;

namespace {

// A small file system: what is where, and what the real one has to say.
enum Kind { kNone, kFile, kDir, kFifo, kLinkFile, kLinkDir, kDangling };

std::string Name(pbt::Case& c) {
  static const char* names[] = {"a", "b", "dir", "x.pcd", ".hidden", "with space", "ümlaut", "...", "a~", "-r", "*", "long"};
  const int k = c.u(12);
  if (k == 11) return std::string(1 + c.u(200), 'n');
  return names[k];
}

std::string Slashes(pbt::Case& c) { return std::string(1 + (c.b(1, 6) ? c.u(3) : 0), '/'); }

// The path without doubled separators, "." steps and the last separators.
std::string Plain(const std::string& path) {
  std::string out, part;
  const bool absolute = !path.empty() && path[0] == '/';
  for (size_t i = 0; i <= path.size(); ++i) {
    if (i == path.size() || path[i] == '/') {
      if (!part.empty() && part != ".") out += (out.empty() && !absolute ? "" : "/") + part;
      part.clear();
    } else {
      part += path[i];
    }
  }
  return out;
}

Kind At(const std::string& path) {
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return kNone;
  if (S_ISREG(st.st_mode)) return kFile;
  if (S_ISDIR(st.st_mode)) return kDir;
  if (S_ISFIFO(st.st_mode)) return kFifo;
  if (stat(path.c_str(), &st) != 0) return kDangling;
  return S_ISDIR(st.st_mode) ? kLinkDir : kLinkFile;
}

bool There(Kind k) { return k != kNone && k != kDangling; }
bool IsDir(Kind k) { return k == kDir || k == kLinkDir; }

// Everything below a directory, by lstat.
void Snapshot(const std::string& dir, std::map<std::string, Kind>* out) {
  std::vector<std::string> todo{dir};
  while (!todo.empty()) {
    const std::string d = todo.back();
    todo.pop_back();
    DIR* h = opendir(d.c_str());
    if (!h) continue;
    while (dirent* e = readdir(h)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      const std::string p = d + "/" + n;
      (*out)[p] = At(p);
      if (At(p) == kDir) todo.push_back(p);
    }
    closedir(h);
  }
}

void Make(pbt::Case& c, const std::string& path, Kind kind) {
  switch (kind) {
    case kFile: { std::ofstream f(path); f << std::string(c.u(20), 'x'); break; }
    case kDir: mkdir(path.c_str(), 0755); break;
    case kFifo: mkfifo(path.c_str(), 0644); break;
    case kLinkFile: case kLinkDir: {
      const std::string target = path + (kind == kLinkFile ? ".t" : ".d");
      if (At(target) == kNone) Make(c, target, kind == kLinkFile ? kFile : kDir);
      if (symlink(target.c_str(), path.c_str()) != 0) c.discard();
      break;
    }
    case kDangling: if (symlink("nowhere", path.c_str()) != 0) c.discard(); break;
    default: break;
  }
}

struct Root {
  std::string dir;
  explicit Root(pbt::Case& c) {
    static int count = 0;
    dir = pbt::Case::scratch() + "root" + std::to_string(++count);
    if (mkdir(dir.c_str(), 0755) != 0 || chdir(dir.c_str()) != 0) c.discard();
  }
  ~Root() { if (chdir(pbt::Case::scratch().c_str()) != 0) abort(); }
};

// What is already below the root; returns the directories.
std::vector<std::string> Fill(pbt::Case& c, const std::string& root) {
  std::vector<std::string> dirs{root};
  const int n = c.size(0, 10);
  for (int k = 0; k < n; ++k) {
    const std::string path = c.pick(dirs) + "/" + Name(c);
    if (At(path) != kNone) continue;
    const Kind kind = c.oneOf<Kind>({kDir, kFile, kDir, kFile, kFifo, kLinkFile, kLinkDir, kDangling});
    Make(c, path, kind);
    if (At(path) == kDir) dirs.push_back(path);
  }
  return dirs;
}

// A path below the root, often through what exists.
std::string Path(pbt::Case& c, const std::string& root, const std::vector<std::string>& dirs) {
  std::string path = c.pick(dirs);
  if (c.b() && path != root) path = path.substr(root.size() + 1);  // relative
  else if (c.b() && path == root) path = c.b() ? "." : "";
  const int more = c.size(0, 4);
  for (int k = 0; k < more; ++k) {
    if (!path.empty()) path += Slashes(c);
    path += c.b(1, 8) ? "." : Name(c);
  }
  if (c.b(1, 3) && !path.empty()) path += Slashes(c);
  return path;
}

void Create(pbt::Case& c) {
  Root r(c);
  const std::vector<std::string> dirs = Fill(c, r.dir);
  const int calls = 1 + c.size(0, 4);
  for (int k = 0; k < calls; ++k) {
    const std::string path = Path(c, r.dir, dirs);
    const std::string plain = Plain(path);
    c.note() << "create '" << path << "' ";
    std::map<std::string, Kind> before, after;
    Snapshot(r.dir, &before);
    // every level that exists has to be a directory
    bool possible = true;
    int missing = 0;
    std::set<std::string> wanted;
    for (size_t i = 1; i <= plain.size(); ++i) {
      if (i < plain.size() && plain[i] != '/') continue;
      const std::string level = plain.substr(0, i);
      const Kind at = At(level);
      if (at == kNone && possible) {
        ++missing;
        wanted.insert(level[0] == '/' ? level : r.dir + "/" + level);
      } else if (!IsDir(at)) {
        possible = false;
      }
    }
    const bool done = common::CreateDir(path);
    REQUIRE(done == possible, "creating '" << path << "' returned " << done << " with " << missing << " levels missing");
    Snapshot(r.dir, &after);
    for (const auto& e : before) REQUIRE(after[e.first] == e.second, "'" << e.first << "' was changed");
    if (possible) {
      REQUIRE(plain.empty() || IsDir(At(plain)), "'" << path << "' was not created");
      for (const auto& e : after)
        // through a linked directory the new levels show up elsewhere
        REQUIRE(before.count(e.first) || wanted.count(e.first) || (e.second == kDir && e.first.find(".d/") != std::string::npos),
                "'" << e.first << "' was created for '" << path << "'");
      for (const auto& w : wanted) REQUIRE(At(w) == kDir, "level '" << w << "' is missing");
      if (missing > 1) c.nontrivial();
      REQUIRE(common::CreateDir(path), "creating '" << path << "' again failed");
    } else {
      c.label("something in the way");
      c.nontrivial();
      for (const auto& e : after) REQUIRE(before.count(e.first) || e.second == kDir, "'" << e.first << "' appeared");
    }
  }
}

void Exists(pbt::Case& c) {
  Root r(c);
  const std::vector<std::string> dirs = Fill(c, r.dir);
  std::map<std::string, Kind> all;
  Snapshot(r.dir, &all);
  for (const auto& e : all) {
    const bool expect = There(e.second);
    REQUIRE(common::FileExist(e.first) == expect, "'" << e.first << "' is kind " << e.second);
    const std::string relative = e.first.substr(r.dir.size() + 1);
    REQUIRE(common::FileExist(relative) == expect, "'" << relative << "' is kind " << e.second);
  }
  const int asks = 1 + c.size(0, 6);
  for (int k = 0; k < asks; ++k) {
    const std::string path = Path(c, r.dir, dirs);
    struct stat st;
    REQUIRE(common::FileExist(path) == (stat(path.c_str(), &st) == 0), "'" << path << "'");
  }
  c.note() << all.size() << " entries";
  if (all.size() > 2) c.nontrivial();
}

void Listing(pbt::Case& c) {
  Root r(c);
  std::vector<std::string> dirs = Fill(c, r.dir);
  std::map<std::string, Kind> all;
  Snapshot(r.dir, &all);
  const std::string dir = c.pick(dirs);
  std::string path = dir;
  if (c.b(1, 3)) path = dir == r.dir ? "." : dir.substr(r.dir.size() + 1);
  if (c.b()) path += Slashes(c);
  std::multiset<std::string> expect, got;
  for (const auto& e : all) {
    const size_t cut = e.first.rfind('/');
    if (e.first.substr(0, cut) == dir && (e.second == kFile || e.second == kLinkFile)) expect.insert(e.first.substr(cut + 1));
  }
  for (const std::string& f : common::ListFilesInPath(path)) {
    const size_t cut = f.rfind('/');
    REQUIRE(cut != std::string::npos, "'" << f << "' has no directory");
    got.insert(f.substr(cut + 1));
    struct stat a, b;
    REQUIRE(stat(f.c_str(), &a) == 0 && S_ISREG(a.st_mode), "'" << f << "' cannot be opened");
    REQUIRE(stat((dir + "/" + f.substr(cut + 1)).c_str(), &b) == 0 && a.st_ino == b.st_ino, "'" << f << "' is another file");
  }
  c.note() << expect.size() << " files in '" << path << "'";
  REQUIRE(got == expect, got.size() << " entries listed, " << expect.size() << " files are there");
  if (expect.size() > 1) c.nontrivial();
  // what is not a directory has no entries
  const std::string other = Path(c, r.dir, dirs);
  struct stat st;
  if (stat(other.c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) {
    REQUIRE(common::ListFilesInPath(other).empty(), "'" << other << "' has entries");
    c.label("not a directory");
  }
}

void Parts(pbt::Case& c) {
  std::string path;
  const int n = c.size(0, 8);
  for (int k = 0; k < n; ++k) path += c.oneOf<std::string>({"/", "a", "//", ".", "..", "x.pcd", "some where", "\\"});
  c.note() << "'" << path << "'";
  const std::string dir = common::FilePath(path);
  REQUIRE(path.compare(0, dir.size(), dir) == 0, "'" << dir << "' is not the beginning of the path");
  REQUIRE(path.find('/', dir.size()) == std::string::npos, "'" << dir << "' leaves more than the name");
  REQUIRE(dir.empty() || dir.back() == '/', "'" << dir << "' does not end with a separator");
  if (std::count(path.begin(), path.end(), '/') > 1) c.nontrivial();
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C42";
  s.rule = "several levels have to be created or something is in the way, a directory has several entries, a path has several separators";
  s.assumptions = {"run with all permissions: refusals for lack of permission are not provoked"};
  s.subs.push_back({"create", Create, 6000, 60000});
  s.subs.push_back({"exists", Exists, 3000, 30000});
  s.subs.push_back({"listing", Listing, 4000, 40000});
  s.subs.push_back({"parts", Parts, 5000, 50000});
  return s;
}
