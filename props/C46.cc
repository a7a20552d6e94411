#define ENABLE_PROFILING
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include "common/performance/simple_prof.h"
#include "pbt.h"

// Threads under test live in their own time, which only moves when they say
// so: the durations to be reported are known exactly.
static thread_local bool g_own_time = false;
static thread_local int64_t g_now_us = 0;

extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  if (g_own_time) {
    t->tv_sec = 1700000000 + g_now_us / 1000000;
    t->tv_nsec = g_now_us % 1000000 * 1000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, t);
}

// The profiler only notices the end of the program between two sleeps.
extern "C" unsigned sleep(unsigned) {
  struct timespec t = {0, 2000000};
  syscall(SYS_nanosleep, &t, nullptr);
  return 0;
}

namespace {

struct Step {
  enum { kEnter, kLeave, kSpend } what;
  int block = 0;
  int64_t us = 0;
};

struct Row {
  int64_t times = 0, average = 0, sum = 0, min = 0, max = 0;
  void Add(int64_t us) {
    if (!times || us < min) min = us;
    if (!times || us > max) max = us;
    ++times;
    sum += us;
    average = sum / times;
  }
};

const char* const kBlocks[] = {"scan match", "Filter", "f", "a_rather_long_name_of_a_block", "x|y"};
constexpr int kBlockNum = 5;

struct Thrown {};

// Runs the steps of one thread from `at`; a kEnter opens a block that lasts to
// the matching kLeave. Returns where it ended.
size_t Run(const std::vector<Step>& steps, size_t at) {
  while (at < steps.size()) {
    const Step& s = steps[at++];
    if (s.what == Step::kSpend) {
      g_now_us += s.us;
    } else if (s.what == Step::kLeave) {
      return at;
    } else {
      const bool throws = s.us > 0;
      try {
        REGISTER_BLOCK(kBlocks[s.block]);
        at = Run(steps, at);
        if (throws) throw Thrown();
      } catch (const Thrown&) {
      }
    }
  }
  return at;
}

struct Program {
  std::vector<std::vector<Step>> threads;
  std::map<std::string, std::vector<Row>> expect;  // one row per thread
  int unit = 0;
  bool merge = false, main_too = false;
};

Program AnyProgram(pbt::Case& c) {
  Program p;
  p.unit = c.u(3);
  p.merge = c.b();
  p.main_too = c.b();
  const int64_t scale = c.oneOf<int64_t>({1, 1000, 1000000, 1000000000, 100000000000LL});
  const int threads = 1 + c.u(5);
  for (int t = 0; t < threads; ++t) {
    std::vector<Step> steps;
    std::map<std::string, Row> rows;
    std::vector<std::pair<int, int64_t>> open;
    int64_t now = 0;
    const int n = c.size(0, 30);
    for (int k = 0; k < n; ++k) {
      Step s;
      const int what = c.u(4);
      if (what <= 1) {
        s.what = Step::kSpend;
        s.us = c.u(1000) * scale / 1000;
        now += s.us;
      } else if (what == 2 || open.empty()) {
        if (open.size() > 4) continue;
        s.what = Step::kEnter;
        s.block = c.u(kBlockNum);
        s.us = c.b(1, 8);
        open.push_back({s.block, now});
      } else {
        s.what = Step::kLeave;
        rows[kBlocks[open.back().first]].Add(now - open.back().second);
        open.pop_back();
      }
      steps.push_back(s);
    }
    while (!open.empty()) {
      Step s;
      s.what = Step::kLeave;
      steps.push_back(s);
      rows[kBlocks[open.back().first]].Add(now - open.back().second);
      open.pop_back();
    }
    p.threads.push_back(steps);
    for (const auto& r : rows) p.expect[r.first].push_back(r.second);
  }
  return p;
}

// The program itself, in a process of its own; the table comes out at its end.
void Execute(const Program& p, const std::string& out) {
  const int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 1);
  std::atomic<int> ready(0);
  const int parties = static_cast<int>(p.threads.size());
  auto body = [&](int t) {
    g_own_time = true;
    ++ready;
    while (ready < parties) {
    }
    Run(p.threads[t], 0);
    g_own_time = false;
  };
  std::vector<std::thread> threads;
  std::mutex m;
  std::condition_variable cv;
  int done = 0;
  // all threads stay until the last one is done, so that each has its own id
  auto wait = [&] {
    std::unique_lock<std::mutex> l(m);
    ++done;
    cv.notify_all();
    cv.wait(l, [&] { return done == parties; });
  };
  for (int t = p.main_too ? 1 : 0; t < parties; ++t)
    threads.emplace_back([&, t] {
      body(t);
      wait();
    });
  if (p.main_too) {
    body(0);
    wait();
  }
  for (auto& t : threads) t.join();
  if (p.unit == 1) SIMPLE_PROF_USE_MS
  if (p.unit == 2) SIMPLE_PROF_USE_SECOND
  if (p.merge) SIMPLE_PROF_MERGE_OUTPUT
  exit(0);
}

std::string Trim(const std::string& s) {
  const size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

int64_t Number(const std::string& s) {
  if (s == "<1") return 0;
  char* end;
  const int64_t v = strtoll(s.c_str(), &end, 10);
  REQUIRE(!s.empty() && !*end, "'" << s << "' is not a number");
  return v;
}

void Table(pbt::Case& c) {
  const Program p = AnyProgram(c);
  const std::string out = pbt::Case::scratch() + "table.txt";
  const pid_t pid = fork();
  if (pid == 0) Execute(p, out);
  int status = 0;
  waitpid(pid, &status, 0);
  c.note() << p.threads.size() << " threads, unit " << p.unit << (p.merge ? ", merged" : "");
  REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the program ended with status " << status);
  std::map<std::string, std::vector<Row>> got;
  std::ifstream in(out);
  std::string line;
  int tables = 0;
  while (std::getline(in, line)) {
    if (line.find("block name") != std::string::npos) {
      ++tables;
      continue;
    }
    // the name may contain the separator
    std::vector<std::string> f;
    size_t end = line.size();
    for (int k = 0; k < 5; ++k) {
      const size_t cut = end ? line.rfind('|', end - 1) : std::string::npos;
      if (cut == std::string::npos) break;
      f.push_back(Trim(line.substr(cut + 1, end - cut - 1)));
      end = cut;
    }
    if (f.size() < 5) continue;
    Row r;
    r.max = Number(f[0]), r.min = Number(f[1]), r.sum = Number(f[2]), r.average = Number(f[3]), r.times = Number(f[4]);
    if (r.times) got[Trim(line.substr(0, end))].push_back(r);
  }
  bool any = false;
  for (const auto& e : p.threads) any |= !e.empty();
  if (!any) return;
  REQUIRE(tables == 1 || p.expect.empty(), tables << " tables were printed");
  const int64_t unit = p.unit == 0 ? 1 : p.unit == 1 ? 1000 : 1000000;
  auto close = [&](int64_t shown, int64_t us) { return std::llabs(shown - us / unit) <= 1; };
  REQUIRE(got.size() == p.expect.size(), got.size() << " blocks reported, " << p.expect.size() << " were run");
  for (const auto& e : p.expect) {
    std::vector<Row> want = e.second, rows = got[e.first];
    if (p.merge) {
      Row all;
      for (const Row& r : want) {
        if (!all.times || r.min < all.min) all.min = r.min;
        if (!all.times || r.max > all.max) all.max = r.max;
        all.times += r.times, all.sum += r.sum;
      }
      all.average = all.sum / all.times;
      want = {all};
    }
    REQUIRE(rows.size() == want.size(), "'" << e.first << "' has " << rows.size() << " rows for " << want.size() << " threads");
    // rows of different threads come in any order
    std::vector<int> order(want.size());
    for (size_t k = 0; k < order.size(); ++k) order[k] = k;
    bool found = false;
    do {
      found = true;
      for (size_t k = 0; k < want.size() && found; ++k) {
        const Row &r = rows[order[k]], &w = want[k];
        found = r.times == w.times && close(r.sum, w.sum) && close(r.min, w.min) && close(r.max, w.max) && close(r.average, w.average);
      }
    } while (!found && std::next_permutation(order.begin(), order.end()));
    std::ostringstream seen;
    for (const Row& w : want) seen << " (" << w.times << ", " << w.average << ", " << w.sum << ", " << w.min << ", " << w.max << ")";
    seen << " us; unit " << unit << " us, reported:";
    for (const Row& r : rows) seen << " (" << r.times << ", " << r.average << ", " << r.sum << ", " << r.min << ", " << r.max << ")";
    REQUIRE(found, "'" << e.first << "' (times, mean, sum, min, max) is" << seen.str());
    for (const Row& w : want)
      if (w.times > 1) c.nontrivial();
  }
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C46";
  s.rule = "a block was run more than once on a thread";
  s.assumptions = {"time inside the profiled threads is supplied by the check",
                   "all profiled blocks end before the program exits (otherwise no table is printed)"};
  s.subs.push_back({"table", Table, 4000, 30000, 60, 8, 500, true});
  return s;
}
