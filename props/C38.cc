#include <unistd.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
#include "common/simple_thread_pool.h"
#include <condition_variable>
#include <functional>
#include <future>
#include <map>
#include "gen.h"

using static_map::common::ThreadPool;

namespace {

struct TaskPlan {
  int kind = 0;   // 0 value, 1 nothing, 2 exception, 3 moved result, 4 arguments, 5 submits further tasks
  int pause = 0;  // us
  int gap = 0;    // us between this submission and the next
  int children = 0;
};

struct Boom {
  int id;
};

struct Record {
  std::atomic<int> runs{0};
  TaskPlan plan;
  int id = 0;
  bool refused = false;  // the pool was already being destroyed
  std::future<int> value;
  std::future<void> nothing;
  std::future<std::unique_ptr<int>> moved;
};

TaskPlan AnyTask(pbt::Case& c, bool nested) {
  TaskPlan t;
  t.kind = c.u(nested ? 6 : 5);
  t.pause = c.b(1, 4) ? c.i(1, 300) : 0;
  t.gap = c.b(1, 6) ? c.i(1, 200) : 0;
  if (t.kind == 5) t.children = 1 + c.u(4);
  return t;
}

void Tasks(pbt::Case& c) {
  const int threads = 1 + c.u(8);
  const int submitters = c.b() ? 1 : 1 + c.u(4);
  const bool destroy_first = c.b();
  std::vector<std::vector<std::unique_ptr<Record>>> lists(submitters);
  std::vector<std::unique_ptr<Record>> children;  // filled before the run, so that the plan stays fixed
  int total = 0, boom = 0, nested = 0;
  for (auto& l : lists) {
    const size_t n = c.size(0, 40);
    for (size_t k = 0; k < n; ++k) {
      l.emplace_back(new Record);
      l.back()->plan = AnyTask(c, true);
      l.back()->id = total++;
      boom += l.back()->plan.kind == 2;
      nested += l.back()->plan.kind == 5;
      if (l.back()->plan.kind == 5) {
        l.back()->runs = 0;
        for (int q = 0; q < l.back()->plan.children; ++q) {
          children.emplace_back(new Record);
          children.back()->plan = AnyTask(c, false);
        }
      }
    }
  }
  std::vector<int> first_child(total, 0);
  int at = 0;
  for (auto& l : lists)
    for (auto& r : l) {
      first_child[r->id] = at;
      if (r->plan.kind == 5) at += r->plan.children;
    }
  for (size_t k = 0; k < children.size(); ++k) children[k]->id = 100000 + k;
  c.note() << threads << " threads, " << submitters << " submitters, " << total << " tasks (" << boom << " throwing, "
           << nested << " submitting " << children.size() << " more), " << (destroy_first ? "destroyed at once" : "waited for");
  if (total > 1 && (boom || nested)) c.nontrivial();

  std::mutex order_mutex;
  std::vector<int> order;
  std::unique_ptr<ThreadPool> pool(new ThreadPool(threads));
  ThreadPool* p = pool.get();
  std::function<void(Record*)> submit = [&](Record* r) {
    auto enter = [&, r] {
      ++r->runs;
      {
        std::lock_guard<std::mutex> lock(order_mutex);
        order.push_back(r->id);
      }
      if (r->plan.pause) usleep(r->plan.pause);
    };
    switch (r->plan.kind) {
      case 0:
        r->value = p->enqueue([r, enter] {
          enter();
          return r->id * 3 + 1;
        });
        break;
      case 1:
        r->nothing = p->enqueue([enter] { enter(); });
        break;
      case 2:
        r->value = p->enqueue([r, enter]() -> int {
          enter();
          throw Boom{r->id};
        });
        break;
      case 3:
        r->moved = p->enqueue([r, enter] {
          enter();
          return std::unique_ptr<int>(new int(r->id));
        });
        break;
      case 4:
        r->value = p->enqueue(
            [enter](int a, const std::string& s, std::vector<int> v) {
              enter();
              return a + static_cast<int>(s.size()) + v.at(2);
            },
            r->id, std::string(5, 'x'), std::vector<int>{1, 2, 3});
        break;
      default:
        r->nothing = p->enqueue([&, r, enter] {
          enter();
          for (int q = 0; q < r->plan.children; ++q) {
            Record* child = children[first_child[r->id] + q].get();
            try {
              submit(child);
            } catch (const std::runtime_error&) {
              child->refused = true;
            }
          }
        });
    }
  };
  auto feed = [&](int s) {
    for (auto& r : lists[s]) {
      submit(r.get());
      if (r->plan.gap) usleep(r->plan.gap);
    }
  };
  std::vector<std::thread> others;
  for (int s = 1; s < submitters; ++s) others.emplace_back(feed, s);
  feed(0);
  for (auto& t : others) t.join();
  if (destroy_first) pool.reset();

  auto verify = [&](Record* r) {
    switch (r->plan.kind) {
      case 0:
        REQUIRE(r->value.valid() && r->value.get() == r->id * 3 + 1, "value of task " << r->id);
        break;
      case 2: {
        int got = -1;
        try {
          r->value.get();
        } catch (const Boom& b) {
#ifdef __SANITIZE_THREAD__
          // exceptions are reference counted inside the uninstrumented C++
          // library, so reading one looks like a race with its release
          got = r->id;
#else
          got = b.id;
#endif
        } catch (...) {
          got = -2;
        }
        REQUIRE(got == r->id, "task " << r->id << " handed back exception " << got);
        break;
      }
      case 3: {
        std::unique_ptr<int> v = r->moved.get();
        REQUIRE(v && *v == r->id, "moved result of task " << r->id);
        break;
      }
      case 4:
        REQUIRE(r->value.get() == r->id + 5 + 3, "arguments of task " << r->id);
        break;
      default:
        r->nothing.get();
    }
    REQUIRE(r->runs == 1, "task " << r->id << " ran " << r->runs << " times");
  };
  auto ready = [&](Record* r) {
    const auto zero = std::chrono::seconds(0);
    const auto yes = std::future_status::ready;
    if (r->value.valid()) return r->value.wait_for(zero) == yes;
    if (r->nothing.valid()) return r->nothing.wait_for(zero) == yes;
    return r->moved.valid() && r->moved.wait_for(zero) == yes;
  };
  int refused = 0;
  for (auto& l : lists)
    for (auto& r : l) {
      if (destroy_first) REQUIRE(ready(r.get()), "task " << r->id << " unfinished after the pool was destroyed");
      verify(r.get());
    }
  for (auto& r : children) {
    if (r->refused) {
      REQUIRE(destroy_first, "task refused by a living pool");
      REQUIRE(r->runs == 0, "refused task ran");
      ++refused;
      continue;
    }
    if (destroy_first) REQUIRE(ready(r.get()), "nested task unfinished after the pool was destroyed");
    verify(r.get());
  }
  pool.reset();
  REQUIRE(order.size() == static_cast<size_t>(total) + children.size() - refused, "tasks run: " << order.size());
  if (threads == 1) {
    // one worker: each submitter's tasks in its order, each task's children in theirs
    std::map<int, int> position;
    for (size_t k = 0; k < order.size(); ++k) position[order[k]] = k;
    for (auto& l : lists)
      for (size_t k = 1; k < l.size(); ++k)
        REQUIRE(position[l[k - 1]->id] < position[l[k]->id], "task " << l[k]->id << " ran before " << l[k - 1]->id);
    for (auto& l : lists)
      for (auto& r : l) {
        if (r->plan.kind != 5) continue;
        int last = position[r->id];
        for (int q = 0; q < r->plan.children; ++q) {
          Record* child = children[first_child[r->id] + q].get();
          if (child->refused) continue;
          REQUIRE(position[child->id] > last, "nested task order");
          last = position[child->id];
        }
      }
    c.label("one thread");
  }
}

// As many tasks as threads can wait for each other.
void Together(pbt::Case& c) {
  const int threads = 1 + c.u(8);
  const int rounds = 1 + c.u(8);
  c.note() << threads << " threads, " << rounds << " rounds";
  if (threads > 1) c.nontrivial();
  ThreadPool pool(threads);
  for (int r = 0; r < rounds; ++r) {
    if (c.b(1, 3)) usleep(c.i(1, 500));
    std::mutex m;
    std::condition_variable cv;
    int inside = 0;
    std::vector<std::future<int>> f;
    for (int k = 0; k < threads; ++k)
      f.push_back(pool.enqueue([&, k] {
        std::unique_lock<std::mutex> lock(m);
        ++inside;
        cv.notify_all();
        cv.wait(lock, [&] { return inside == threads; });
        return k;
      }));
    for (int k = 0; k < threads; ++k) {
      REQUIRE(f[k].wait_for(std::chrono::seconds(20)) == std::future_status::ready,
              "only " << inside << " of " << threads << " tasks run at the same time");
      REQUIRE(f[k].get() == k, "result");
    }
  }
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C38";
  s.rule = "more than one task, some throwing or submitting further tasks; or several threads that wait for each other";
  s.assumptions = {"interleavings are those the scheduler produces for generated sizes, pauses and gaps"};
  s.subs.push_back({"tasks", Tasks, 4000, 40000, 60, 8, 200, true});
  s.subs.push_back({"together", Together, 1000, 8000, 60, 4, 200, true});
  return s;
}
