// Submaps on disk, shared by the checks of the memory manager.
#ifndef VERIF_HARNESS_SWAP_H_
#define VERIF_HARNESS_SWAP_H_

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "maps.h"

namespace gen {

inline void EmptyDir(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") unlink((dir + n).c_str());
    }
    closedir(d);
  }
}

struct Piece {
  std::shared_ptr<Submap> map;
  std::vector<InnerPointType> points;
  std::vector<std::vector<InnerPointType>> frames;
  SimpleTime stamp;
  Eigen::MatrixXd normals, eigen;
};

inline std::shared_ptr<Piece> MakePiece(pbt::Case& c, const SubmapOptions& o, const SubmapId& id, const std::string& dir, size_t max_points) {
  auto p = std::make_shared<Piece>();
  p->map = std::make_shared<Submap>(o);
  p->map->SetId(id);
  p->map->SetSavePath(dir);
  for (int k = 0; k < o.frame_count; ++k) {
    auto cloud = AnyCloud(c, 1, max_points, 20);
    p->frames.push_back(cloud->points);
    p->map->InsertFrame(MakeFrame(cloud, Pose(Rz(0.1 * k), V3(k, 0, 0))));
  }
  auto d = p->map->Cloud();
  p->points = d->GetInnerCloud()->points;
  p->stamp = d->GetInnerCloud()->stamp;
  p->normals = d->GetEigenCloud()->normals;
  p->eigen = d->GetEigenCloud()->points;
  return p;
}

inline std::string Differs(const Piece& p, const InnerCloudType& got) {
  if (!SamePoints(got.points, p.points)) return "the cloud came back as " + Str(got.points, 3) + " instead of " + Str(p.points, 3);
  if (!SameStamp(got.stamp, p.stamp)) return "the cloud came back with another time";
  return "";
}
inline std::string DiffersEigen(const Piece& p, const static_map::data::EigenPointCloud& e) {
  if (e.points.cols() != p.eigen.cols() || e.points != p.eigen) return "the points for matching came back different";
  if (e.normals.cols() != p.normals.cols() || e.normals != p.normals) return "the normals for matching came back different";
  return "";
}

// Readers ask for clouds while a manager counts the idle time and a builder
// matches submaps and adds new ones.
inline void SwapUnderLoad(pbt::Case& c, int rounds, int max_readers) {
  const std::string dir = pbt::Case::scratch() + "swap/";
  mkdir(dir.c_str(), 0700);
  EmptyDir(dir);
  SubmapOptions o;
  o.frame_count = 1 + c.u(3);
  o.enable_disk_saving = !c.b(1, 10);
  o.disk_saving_delay = c.oneOf<int>({1, 2, 5});
  const int n = 1 + c.u(4), readers = 1 + c.u(max_readers);
  std::vector<std::shared_ptr<Piece>> pieces;
  for (int k = 0; k < n; ++k) pieces.push_back(MakePiece(c, o, {0, k}, dir, 30));
  const int step_us = c.oneOf<int>({0, 50, 400});
  std::vector<uint64_t> plan;
  for (int r = 0; r < readers; ++r) plan.push_back(c.u(1u << 30));
  c.note() << n << " submaps, delay " << o.disk_saving_delay << ", " << readers << " readers, tick " << step_us << " us";
  std::atomic<bool> stop{false};
  std::atomic<int> ticks{0}, drops{0};
  std::mutex m;
  std::string bad;
  auto fail = [&](const std::string& s) {
    std::lock_guard<std::mutex> l(m);
    if (bad.empty()) bad = s;
  };
  std::atomic<int> visible{1};
  std::thread manager([&] {
    while (!stop) {
      const int v = visible;
      ++ticks;
      for (int k = 0; k < v; ++k) pieces[k]->map->UpdateInactiveTime(1);
      if (step_us) usleep(step_us);
    }
  });
  std::thread builder([&] {
    for (int k = 0; k < n; ++k) {
      usleep(300);
      visible = k + 1;
      if (k > 0 || n == 1) pieces[std::max(0, k - 1)]->map->SetMatchedTransformedToNext(M4::Identity());
    }
  });
  std::vector<std::thread> threads;
  for (int r = 0; r < readers; ++r)
    threads.emplace_back([&, r] {
      uint64_t x = plan[r] * 2 + 1;
      for (int k = 0; k < rounds; ++k) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        const Piece& p = *pieces[(x >> 33) % visible.load()];
        const int before = ticks;
        auto data = p.map->Cloud();
        auto cloud = data->GetInnerCloud();
        auto eigen = data->GetEigenCloud();
        // dropped again only if it was idle for longer than the delay
        if (ticks - before >= o.disk_saving_delay) continue;
        std::string d = Differs(p, *cloud);
        if (d.empty()) d = DiffersEigen(p, *eigen);
        if (!d.empty()) fail(d);
        if ((x >> 20) % 4 == 0) usleep((x >> 40) % 2000);
        if ((x >> 50) % 4 == 0 && p.map->GetFrames().size() != static_cast<size_t>(o.frame_count)) fail("number of frames");
      }
    });
  for (auto& t : threads) t.join();
  builder.join();
  stop = true;
  manager.join();
  REQUIRE(bad.empty(), bad);
  for (auto& p : pieces) {
    const std::string d = Differs(*p, *p->map->Cloud()->GetInnerCloud());
    REQUIRE(d.empty(), d);
    for (size_t k = 0; k < p->frames.size(); ++k) REQUIRE(SamePoints(p->map->GetFrames()[k]->Cloud()->GetInnerCloud()->points, p->frames[k]), "cloud of frame " << k);
  }
  c.nontrivial();
  EmptyDir(dir);
}

}  // namespace gen

#endif  // VERIF_HARNESS_SWAP_H_
