#include "builder/memory_manager.h"
#include "swap.h"

using namespace gen;

static void History(pbt::Case& c) {
  const std::string dir = pbt::Case::scratch() + "history/";
  mkdir(dir.c_str(), 0700);
  EmptyDir(dir);
  SubmapOptions o;
  o.frame_count = 1 + c.u(3);
  o.enable_disk_saving = !c.b(1, 6);
  o.disk_saving_delay = c.u(6);
  if (c.b(1, 3)) o.saving_name_prefix = c.oneOf<const char*>({"", "s", "sub_map"});
  struct State {
    std::shared_ptr<Piece> p;
    InnerPointCloudData::Ptr handle;
    bool matched = false, dropped = false;
    int idle = 0;
    M4 next = M4::Identity();
  };
  std::vector<State> all;
  const int n = 1 + c.u(4);
  for (int k = 0; k < n; ++k) {
    State s;
    s.p = MakePiece(c, o, {static_cast<int>(c.u(2)), k}, dir, c.b(1, 5) ? 100 : 8);
    s.handle = s.p->map->Cloud();
    all.push_back(s);
  }
  c.note() << n << " submaps, delay " << o.disk_saving_delay << (o.enable_disk_saving ? "" : ", no saving") << ": ";
  const int steps = 1 + c.u(30);
  for (int k = 0; k < steps; ++k) {
    const int which = c.u(n);
    State& s = all[which];
    switch (c.u(4)) {
      case 0:
        if (s.matched) break;
        s.next = AnyPose(c);
        s.p->map->SetMatchedTransformedToNext(s.next);
        s.matched = true;
        c.note() << "match " << which << "; ";
        break;
      case 1: {
        const int t = 1 + c.u(4);
        c.note() << "idle " << t << "; ";
        for (auto& a : all) {
          a.p->map->UpdateInactiveTime(t);
          if (a.matched && o.enable_disk_saving) {
            a.idle += t;
            if (a.idle > o.disk_saving_delay) a.dropped = true;
          }
        }
        break;
      }
      case 2: {
        c.note() << "read " << which << "; ";
        s.handle = s.p->map->Cloud();
        if (s.dropped) c.nontrivial(), c.label("read after drop");
        s.idle = 0;
        s.dropped = false;
        std::string d = Differs(*s.p, *s.handle->GetInnerCloud());
        if (d.empty()) d = DiffersEigen(*s.p, *s.handle->GetEigenCloud());
        REQUIRE(d.empty(), "submap " << which << ": " << d);
        break;
      }
      default: {
        // frames come back as well
        const int f = c.u(o.frame_count);
        auto frame = s.p->map->GetFrames()[f];
        REQUIRE(SamePoints(frame->Cloud()->GetInnerCloud()->points, s.p->frames[f]), "frame " << f << " of submap " << which);
      }
    }
    for (int j = 0; j < n; ++j) {
      const State& a = all[j];
      REQUIRE(a.handle->Empty() == a.dropped, "submap " << j << " is " << (a.dropped ? "still in memory after " : "no longer in memory after ") << a.idle << " s without use, delay " << o.disk_saving_delay << ", matched " << a.matched);
      REQUIRE(a.p->map->GotMatchedToNext() == a.matched && a.p->map->TransformToNext() == a.next, "transform to the next submap");
    }
  }
  EmptyDir(dir);
}

static void Load(pbt::Case& c) { SwapUnderLoad(c, 60, 4); }

// The real manager thread (one step per second).
static void Manager(pbt::Case& c) {
  const std::string dir = pbt::Case::scratch() + "manager/";
  mkdir(dir.c_str(), 0700);
  EmptyDir(dir);
  SubmapOptions o;
  o.frame_count = 1;
  o.enable_disk_saving = true;
  o.disk_saving_delay = c.u(2);
  std::vector<std::shared_ptr<static_map::Trajectory>> trajectories;
  const int nt = 1 + c.u(2);
  for (int t = 0; t < nt; ++t) trajectories.push_back(std::make_shared<static_map::Trajectory>());
  std::vector<std::shared_ptr<Piece>> pieces;
  std::vector<bool> matched;
  std::vector<InnerPointCloudData::Ptr> handles;
  c.nontrivial();
  auto add = [&](int t) {
    pieces.push_back(MakePiece(c, o, {t, static_cast<int>(trajectories[t]->size())}, dir, 20));
    handles.push_back(pieces.back()->map->Cloud());
    matched.push_back(c.b(2, 3));
    if (matched.back()) pieces.back()->map->SetMatchedTransformedToNext(M4::Identity());
    trajectories[t]->push_back(pieces.back()->map);
  };
  for (int t = 0; t < nt; ++t)
    for (int k = 1 + c.u(3); k > 0; --k) add(t);
  const size_t old = pieces.size();
  c.note() << old << " submaps in " << nt << " trajectories, delay " << o.disk_saving_delay;
  {
    static_map::MemoryManager manager(&trajectories);
    for (int k = c.u(3); k > 0; --k) add(c.u(nt));
    // wait until everything idle has been dropped
    bool all = false;
    for (int w = 0; w < 150 && !all; ++w) {
      usleep(100000);
      all = true;
      for (size_t k = 0; k < pieces.size(); ++k)
        if (matched[k] && !handles[k]->Empty()) all = false;
    }
    REQUIRE(all, "an idle submap is still in memory after 15 s, delay " << o.disk_saving_delay);
    for (size_t k = 0; k < pieces.size(); ++k)
      if (!matched[k]) REQUIRE(!handles[k]->Empty(), "a submap that is not matched was dropped");
  }
  for (size_t k = 0; k < pieces.size(); ++k) {
    const std::string d = Differs(*pieces[k], *pieces[k]->map->Cloud()->GetInnerCloud());
    REQUIRE(d.empty(), d);
  }
  EmptyDir(dir);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C30";
  s.rule = "history: up to 30 steps of matching, idling, reading submaps and frames against a model of what is in memory (non-trivial: a read after a drop); load: up to 4 readers against a manager that ticks every 0-400 us and a builder; manager: the real manager thread over 1-2 trajectories; a second program runs the load under the thread sanitizer";
  s.assumptions = {"a reader takes the points right after asking for the cloud (no more idle ticks than the delay in between)", "clouds have at least one point"};
  s.subs.push_back({"history", History, 4000, 40000});
  s.subs.push_back({"load", Load, 1200, 6000, 60, 4, 100, true});
  s.subs.push_back({"manager", Manager, 16, 60, 60, 8, 8, true});
  return s;
}
