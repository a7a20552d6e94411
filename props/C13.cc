#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include "cloudgen.h"

using namespace gen;
using static_map::data::InnerPointCloudData;

static void SameAll(InnerPointCloudData& h, const InnerCloudType& want, const char* when) {
  REQUIRE(!h.Empty(), when << ": empty");
  auto in = h.GetInnerCloud();
  auto e = h.GetEigenCloud();
  REQUIRE(in && e, when << ": no cloud");
  REQUIRE(SamePoints(in->points, want.points), when << ": points are " << Str(in->points, 4));
  REQUIRE(SameStamp(in->stamp, want.stamp) && SameStamp(h.GetTime(), want.stamp), when << ": stamp");
  REQUIRE(e->points.cols() == static_cast<int>(want.points.size()), when << ": eigen size " << e->points.cols());
  for (int k = 0; k < e->points.cols(); ++k) {
    const V3 d = e->points.col(k) - P(want.points[k]);
    REQUIRE(d.norm() < 1e-3 + 1e-5 * P(want.points[k]).norm(), when << ": eigen point " << k << " off by " << d.norm());
  }
}

static void Sequence(pbt::Case& c) {
  InnerCloudType::Ptr cl = AnyCloud(c, 1, 120, 50);
  InnerCloudType want = *cl;
  InnerPointCloudData h(cl);
  bool in_mem = true, saved = false;
  int swaps = 0;
  const int steps = 1 + c.u(20);
  for (int k = 0; k < steps; ++k) {
    const int op = c.u(7);
    switch (op) {
      case 0: {
        if (!in_mem) break;
        const std::string f = pbt::Case::scratch() + "h" + std::to_string(c.u(3)) + ".bin";
        c.note() << "save ";
        REQUIRE(h.SaveToFile(f), "save failed");
        saved = true;
        break;
      }
      case 1:
      case 2:
        if (!saved) break;
        c.note() << "clear ";
        h.Clear();
        in_mem = false;
        REQUIRE(h.Empty(), "not empty after clearing");
        REQUIRE(h.GetInnerCloud() && h.GetInnerCloud()->points.empty(), "points left after clearing");
        REQUIRE(h.GetEigenCloud() && h.GetEigenCloud()->points.cols() == 0, "eigen points left after clearing");
        REQUIRE(SameStamp(h.GetTime(), want.stamp), "stamp lost by clearing");
        break;
      case 3:
      case 4:
        c.note() << "load ";
        if (!in_mem) {
          ++swaps;
          c.nontrivial();
        }
        REQUIRE(h.CloudInMemory(), "not loaded");
        in_mem = true;
        SameAll(h, want, "after loading");
        break;
      case 5: {
        InnerCloudType::Ptr n = AnyCloud(c, 1, 60, 50);
        c.note() << "set(" << n->points.size() << ") ";
        want = *n;
        h.SetInnerCloud(n);
        in_mem = true;
        saved = false;
        break;
      }
      default: {
        if (!in_mem) break;
        const M4 t = Motion(c, 3, 20);
        c.note() << "move ";
        h.TransformCloud(t);
        InnerCloudType moved = want;
        moved.ApplyTransformInplace(t);
        want = moved;
        saved = false;
        REQUIRE(h.GetInnerCloud()->points.size() == want.points.size(), "size after moving");
      }
    }
    if (in_mem) {
      REQUIRE(h.CloudInMemory(), "a cloud in memory is reported missing");
      SameAll(h, want, "in memory");
    }
  }
  c.label(swaps > 1 ? "several reloads" : swaps ? "one reload" : "no reload");
}

// A damaged swap file may stop the program but must not be taken for the cloud.
static void Damaged(pbt::Case& c) {
  InnerCloudType::Ptr cl = AnyCloud(c, 1, 60, 50);
  const InnerCloudType want = *cl;
  InnerPointCloudData h(cl);
  const std::string f = pbt::Case::scratch() + "d.bin";
  REQUIRE(h.SaveToFile(f), "save");
  h.Clear();
  struct stat st;
  REQUIRE(stat(f.c_str(), &st) == 0, "no file");
  const off_t cut = c.u(st.st_size);
  const bool gone = c.b(1, 8);
  if (gone) {
    unlink(f.c_str());
  } else {
    REQUIRE(truncate(f.c_str(), cut) == 0, "truncate");
  }
  c.note() << want.points.size() << " points, file " << (gone ? "removed" : "cut to ") << (gone ? 0 : cut) << " of " << st.st_size;
  c.nontrivial();
  const pid_t p = fork();
  if (p == 0) {
    fclose(stderr);
    bool ok = false;
    try {
      ok = h.CloudInMemory() && !h.Empty();
    } catch (...) {
    }
    _exit(ok ? 9 : 0);
  }
  int status = 0;
  waitpid(p, &status, 0);
  REQUIRE(!(WIFEXITED(status) && WEXITSTATUS(status) == 9), "a damaged file was loaded as if it were complete");
}

static void WriteFault(pbt::Case& c) {
  if (access("/dev/full", W_OK) != 0) c.discard();
  InnerCloudType::Ptr cl = AnyCloud(c, 1, 600, 50);
  c.note() << cl->points.size() << " points";
  c.nontrivial();
  InnerPointCloudData h(cl);
  const pid_t p = fork();
  if (p == 0) {
    fclose(stderr);
    bool ok = false;
    try {
      ok = h.SaveToFile("/dev/full");
    } catch (...) {
    }
    _exit(ok ? 9 : 0);
  }
  int status = 0;
  waitpid(p, &status, 0);
  REQUIRE(!(WIFEXITED(status) && WEXITSTATUS(status) == 9), "saving to a full disk was reported as done");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C13";
  s.rule = "up to 20 save / clear / load / replace / move operations on one holder against a model (a holder is cleared only after its current content was saved); cut or missing files and a full disk; non-trivial when a cleared cloud was loaded again or a fault was injected";
  s.assumptions = {"clearing before saving loses the cloud by contract and is not exercised", "stopping the program is an accepted answer to a broken swap file"};
  s.subs.push_back({"sequence", Sequence, 8000, 120000});
  s.subs.push_back({"damaged", Damaged, 400, 4000});
  s.subs.push_back({"write_fault", WriteFault, 150, 1500});
  return s;
}
