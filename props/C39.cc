#include <unistd.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <mutex>
#include <set>
#include <thread>
#include "common/atomic_wrapper.h"
#include "common/mutex.h"
#include "gen.h"

using static_map::common::AtomicWrapper;
using static_map::common::Mutex;
using static_map::common::MutexLocker;
using static_map::common::ReadMutexLocker;
using static_map::common::ReadWriteMutex;
using static_map::common::WriteMutexLocker;

namespace {

// first message wins; checked by the main thread
struct Trouble {
  std::atomic<bool> any{false};
  std::mutex m;
  std::string what;
  void operator()(const std::string& s) {
    std::lock_guard<std::mutex> l(m);
    if (what.empty()) what = s;
    any = true;
  }
};

void Delay(int us) {
  if (us > 0) {
    usleep(us);
  } else if (us < 0) {
    std::this_thread::yield();
  }
}

int AnyDelay(pbt::Case& c) { return c.b(1, 3) ? c.i(1, 60) : -static_cast<int>(c.u(2)); }

void Exclusive(pbt::Case& c) {
  const int threads = 2 + c.u(6);
  std::vector<std::vector<int>> plan(threads);
  long total = 0;
  for (auto& p : plan) {
    const size_t n = 1 + c.size(0, 60);
    for (size_t k = 0; k < n; ++k) p.push_back(AnyDelay(c));
    total += n;
  }
  c.note() << threads << " threads, " << total << " updates";
  c.nontrivial();
  Mutex m;
  Trouble bad;
  long counter = 0;
  std::atomic<int> inside{0};
  std::vector<std::thread> t;
  for (int k = 0; k < threads; ++k)
    t.emplace_back([&, k] {
      for (int d : plan[k]) {
        MutexLocker lock(&m);
        if (++inside != 1) bad("two holders inside the mutex");
        const long v = counter;
        Delay(d);
        counter = v + 1;
        --inside;
      }
    });
  for (auto& x : t) x.join();
  REQUIRE(!bad.any, bad.what);
  REQUIRE(counter == total, counter << " of " << total << " updates survive");
}

// Bounded queue with conditional waits on both ends.
void Wait(pbt::Case& c) {
  const int producers = 1 + c.u(3), consumers = 1 + c.u(3);
  const size_t capacity = 1 + c.u(4);
  const int per = 1 + c.size(0, 40);
  const int items = producers * per;
  std::vector<int> take(consumers, items / consumers);
  take[0] += items % consumers;
  std::vector<int> dp(producers), dc(consumers);
  for (int& d : dp) d = AnyDelay(c);
  for (int& d : dc) d = AnyDelay(c);
  c.note() << producers << " producers, " << consumers << " consumers, room for " << capacity << ", " << items << " items";
  c.nontrivial();
  Mutex m;
  std::deque<int> queue;
  std::vector<int> seen(items, 0);
  Trouble bad;
  std::atomic<int> done{0};
  std::vector<std::thread> t;
  for (int k = 0; k < producers; ++k)
    t.emplace_back([&, k] {
      for (int q = 0; q < per; ++q) {
        {
          MutexLocker lock(&m);
          lock.Await([&] { return queue.size() < capacity; });
          if (queue.size() >= capacity) bad("a wait returned although its condition does not hold");
          queue.push_back(k * per + q);
        }
        Delay(dp[k]);
      }
      ++done;
    });
  for (int k = 0; k < consumers; ++k)
    t.emplace_back([&, k] {
      for (int q = 0; q < take[k]; ++q) {
        MutexLocker lock(&m);
        lock.Await([&] { return !queue.empty(); });
        if (queue.empty()) {
          bad("a wait returned although its condition does not hold");
          continue;
        }
        ++seen[queue.front()];
        queue.pop_front();
        Delay(dc[k]);
      }
      ++done;
    });
  for (int k = 0; k < 15000 && done < producers + consumers; ++k) usleep(1000);
  if (done < producers + consumers) {
    for (auto& x : t) x.detach();
    // the waiting threads still use this frame: end the worker with the verdict
    fprintf(stderr, "a waiter never returned although its condition holds\n");
    abort();
  }
  for (auto& x : t) x.join();
  REQUIRE(!bad.any, bad.what);
  for (int k = 0; k < items; ++k) REQUIRE(seen[k] == 1, "item " << k << " taken " << seen[k] << " times");
}

void ReadersWriters(pbt::Case& c) {
  const int readers = 1 + c.u(4), writers = 1 + c.u(3);
  const int rounds = 1 + c.size(0, 60);
  std::vector<int> dr(readers), dw(writers);
  for (int& d : dr) d = AnyDelay(c);
  for (int& d : dw) d = AnyDelay(c);
  std::vector<bool> decide(writers);
  for (int k = 0; k < writers; ++k) decide[k] = c.b();
  c.note() << readers << " readers, " << writers << " writers, " << rounds << " rounds";
  c.nontrivial();
  ReadWriteMutex m;
  Trouble bad;
  std::atomic<int> reading{0}, writing{0};
  long a = 0, b = 0;
  std::atomic<long> written{0};
  std::vector<std::thread> t;
  for (int k = 0; k < readers; ++k)
    t.emplace_back([&, k] {
      for (int q = 0; q < rounds; ++q) {
        ReadMutexLocker lock(m);
        ++reading;
        if (writing != 0) bad("a reader overlaps a writer");
        const long x = a;
        Delay(dr[k]);
        if (x != a || a != b) bad("a reader sees half an update");
        --reading;
      }
    });
  for (int k = 0; k < writers; ++k)
    t.emplace_back([&, k] {
      for (int q = 0; q < rounds; ++q) {
        boost::upgrade_lock<ReadWriteMutex> lock(m);
        const long before = a;
        if (decide[k] && before % 3 == 0 && q % 2) continue;  // decided not to write
        WriteMutexLocker write(lock);
        if (++writing != 1) bad("two writers");
        if (reading != 0) bad("a writer overlaps a reader");
        if (a != before) bad("an update got in between deciding and writing");
        ++a;
        Delay(dw[k]);
        ++b;
        ++written;
        --writing;
      }
    });
  for (auto& x : t) x.join();
  REQUIRE(!bad.any, bad.what);
  REQUIRE(a == written && b == written, a << " " << b << " of " << written << " updates survive");
}

template <typename T>
void Cells(pbt::Case& c, T lo, T hi) {
  auto value = [&] { return static_cast<T>(c.i(lo, hi)); };
  std::vector<AtomicWrapper<T>> cells;
  std::vector<T> want;
  c.list(12, 60, [&] {
    const int op = c.u(9);
    const size_t k = cells.empty() ? 0 : c.u(cells.size());
    if (op < 2 || cells.empty()) {
      if (op == 0) {
        cells.emplace_back();
        want.push_back(T());
      } else {
        const T v = value();
        cells.emplace_back(v);
        want.push_back(v);
      }
    } else if (op == 2) {
      AtomicWrapper<T> copy(cells[k]);
      cells.push_back(copy);
      want.push_back(want[k]);
    } else if (op == 3) {
      const T v = value();
      REQUIRE(&(cells[k] = v) == &cells[k], "assignment");
      want[k] = v;
    } else if (op == 4) {
      const size_t j = c.u(cells.size());
      cells[k] = cells[j];
      want[k] = want[j];
    } else if (op == 5) {
      REQUIRE(++cells[k] == static_cast<T>(want[k] + 1), "pre-increment returns the new value");
      ++want[k];
    } else if (op == 6) {
      REQUIRE(cells[k]++ == want[k], "post-increment returns the old value");
      ++want[k];
    } else if (op == 7) {
      const T v = value();
      std::atomic<T> raw(v);
      cells.emplace_back(raw);
      want.push_back(v);
    } else {
      std::vector<AtomicWrapper<T>> moved(cells.begin(), cells.end());
      cells.swap(moved);
    }
    for (size_t q = 0; q < cells.size(); ++q)
      REQUIRE(static_cast<T>(cells[q]) == want[q], "cell " << q << " holds " << static_cast<T>(cells[q]) << " not " << want[q]);
  });
  if (cells.size() > 2) c.nontrivial();
  c.note() << cells.size() << " cells of " << sizeof(T) << " bytes";
}

void AtomicCells(pbt::Case& c) {
  switch (c.u(3)) {
    case 0:
      return Cells<int>(c, -1000000, 1000000);
    case 1:
      return Cells<int64_t>(c, -4000000000000ll, 4000000000000ll);
    default:
      return Cells<uint16_t>(c, 0, 60000);
  }
}

void Counting(pbt::Case& c) {
  const int threads = 2 + c.u(6);
  const int rounds = 100 + c.size(0, 3000);
  const int64_t start = c.i(-1000000, 1000000);
  c.note() << threads << " threads counting " << rounds << " times from " << start;
  c.nontrivial();
  AtomicWrapper<int64_t> cell(start);
  std::vector<std::vector<int64_t>> got(threads);
  std::vector<std::thread> t;
  for (int k = 0; k < threads; ++k)
    t.emplace_back([&, k] {
      for (int q = 0; q < rounds; ++q) got[k].push_back((q + k) % 2 ? cell++ : ++cell - 1);
    });
  for (auto& x : t) x.join();
  std::set<int64_t> all;
  for (auto& g : got) {
    for (size_t q = 0; q < g.size(); ++q) {
      REQUIRE(all.insert(g[q]).second, "value " << g[q] << " handed out twice");
      REQUIRE(!q || g[q] > g[q - 1], "values of one thread do not grow");
    }
  }
  REQUIRE(*all.begin() == start && *all.rbegin() == start + threads * rounds - 1 &&
              static_cast<int64_t>(cell) == start + threads * rounds,
          "updates lost");
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C39";
  s.rule = "several threads contending, or more than two cells";
  s.assumptions = {"interleavings are those the scheduler produces for generated thread counts and delays"};
  s.subs.push_back({"exclusive", Exclusive, 1200, 10000, 60, 4, 200, true});
  s.subs.push_back({"wait", Wait, 1200, 10000, 60, 4, 100, true});
  s.subs.push_back({"readers", ReadersWriters, 1200, 10000, 60, 4, 100, true});
  s.subs.push_back({"cells", AtomicCells, 4000, 40000, 60, 8, 500, false});
  s.subs.push_back({"counting", Counting, 300, 3000, 60, 4, 100, true});
  return s;
}
