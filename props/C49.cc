#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pwd.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <cstring>
#include <fstream>
#include <mutex>
#include <sstream>
#include "common/performance/process_info.h"
#include "pbt.h"

namespace {

// What the system says at one moment.
struct Moment {
  uint64_t cpu[4] = {0, 0, 0, 0};   // user, nice, system, idle of the machine
  uint64_t proc[4] = {0, 0, 0, 0};  // user, system, and of the children
  int resident = 0, size = 0, threads = 1;
};

std::mutex g_mutex;
bool g_on = false;
std::string g_name, g_home;
std::vector<Moment> g_moments;
size_t g_now = 0;
std::atomic<int> g_sleeps{0};

size_t Now() { return std::min(g_now, g_moments.size() - 1); }

// A second passes.
bool Pass() {
  {
    std::lock_guard<std::mutex> l(g_mutex);
    if (!g_on) return false;
    ++g_now;
  }
  ++g_sleeps;
  struct timespec t = {0, 50000};
  syscall(SYS_nanosleep, &t, nullptr);
  return true;
}

// A file with what is asked for, if it is one of the system's.
bool Redirect(const char* path, std::string* file) {
  if (!path || std::strncmp(path, "/proc/", 6)) return false;
  std::lock_guard<std::mutex> l(g_mutex);
  if (!g_on) return false;
  const std::string p = path, pid = std::to_string(getpid());
  const Moment& m = g_moments[Now()];
  std::ostringstream o;
  if (p == "/proc/stat") {
    o << "cpu  " << m.cpu[0] << " " << m.cpu[1] << " " << m.cpu[2] << " " << m.cpu[3] << " 0 0 0 0 0 0\ncpu0 1 2 3 4 0 0 0 0 0 0\nctxt 12\n";
  } else if (p == "/proc/" + pid + "/stat" || p == "/proc/self/stat") {
    o << pid << " (" << g_name << ") S 1 " << pid << " 77 0 -1 4194304 501 502 503 504 " << m.proc[0] << " " << m.proc[1] << " " << m.proc[2] << " " << m.proc[3]
      << " 20 0 " << m.threads << " 0 12345 " << static_cast<uint64_t>(m.size) * 1024 << " " << m.resident / 4 << " 18446744073709551615 1 1 0 0 0\n";
  } else if (p == "/proc/" + pid + "/status" || p == "/proc/self/status") {
    o << "Name:\t" << g_name << "\nUmask:\t0022\nState:\tS (sleeping)\nPid:\t" << pid << "\nVmPeak:\t   99999 kB\nVmSize:\t" << m.size << " kB\nVmLck:\t       0 kB\nVmHWM:\t   88888 kB\nVmRSS:\t"
      << m.resident << " kB\nRssAnon:\t       7 kB\nVmData:\t      13 kB\nThreads:\t" << m.threads << "\nvoluntary_ctxt_switches:\t3\n";
  } else {
    return false;
  }
  static int count = 0;
  *file = g_home + "/proc" + std::to_string(++count);
  const int fd = syscall(SYS_openat, AT_FDCWD, file->c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  const std::string s = o.str();
  if (fd < 0 || write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) abort();
  close(fd);
  return true;
}

}  // namespace

extern "C" {
FILE* fopen(const char* path, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
  std::string file;
  if (!Redirect(path, &file)) return real(path, mode);
  FILE* f = real(file.c_str(), mode);
  unlink(file.c_str());
  return f;
}
FILE* fopen64(const char* path, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"));
  std::string file;
  if (!Redirect(path, &file)) return real(path, mode);
  FILE* f = real(file.c_str(), mode);
  unlink(file.c_str());
  return f;
}
int open(const char* path, int flags, ...) {
  va_list a;
  va_start(a, flags);
  const int mode = va_arg(a, int);
  va_end(a);
  std::string file;
  if (!Redirect(path, &file)) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  const int fd = syscall(SYS_openat, AT_FDCWD, file.c_str(), flags, mode);
  unlink(file.c_str());
  return fd;
}
int open64(const char* path, int flags, ...) {
  va_list a;
  va_start(a, flags);
  const int mode = va_arg(a, int);
  va_end(a);
  return open(path, flags, mode);
}
unsigned sleep(unsigned) {
  Pass();
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (Pass()) return 0;
  return syscall(SYS_nanosleep, t, rem);
}
int clock_nanosleep(clockid_t clock, int flags, const struct timespec* t, struct timespec* rem) {
  if (Pass()) return 0;
  return syscall(SYS_clock_nanosleep, clock, flags, t, rem) ? errno : 0;
}
struct passwd* getpwuid(uid_t uid) {
  static struct passwd pw;
  static std::string home;
  home = g_home;
  pw.pw_name = const_cast<char*>("someone");
  pw.pw_passwd = const_cast<char*>("x");
  pw.pw_uid = uid;
  pw.pw_gid = 0;
  pw.pw_gecos = const_cast<char*>("");
  pw.pw_dir = const_cast<char*>(home.c_str());
  pw.pw_shell = const_cast<char*>("/bin/false");
  return &pw;
}
}

namespace {

void Wait(int us) {
  struct timespec t = {0, us * 1000l};
  syscall(SYS_nanosleep, &t, nullptr);
}

void Watch(pbt::Case& c) {
  static int count = 0;
  std::vector<Moment> moments;
  Moment m;
  const bool big = c.b(1, 4);
  for (auto& v : m.cpu) v = big ? 1000000000000ull + c.u(1u << 30) : c.u(1000000);
  for (auto& v : m.proc) v = big ? 100000000000ull + c.u(1u << 30) : c.u(10000);
  const int n = 1 + c.size(1, 8);
  bool moved = false;
  for (int k = 0; k < n; ++k) {
    m.size = c.b(1, 6) ? 2000000000 : 1 + c.u(50000000);
    m.resident = 1 + c.u(m.size);
    m.threads = 1 + c.u(40);
    moments.push_back(m);
    if (c.b(1, 10)) continue;  // nothing happens
    uint64_t spent = 0;
    for (auto& v : m.proc) {
      const uint64_t d = c.u(60);
      v += d;
      spent += d;
    }
    m.cpu[0] += spent + c.u(300);
    m.cpu[1] += c.u(50);
    m.cpu[2] += c.u(300);
    m.cpu[3] += c.u(800);
    moved = moved || spent;
  }
  const std::string letters = "abcXYZ019_-.:()  ";
  std::string name(1, "amZ"[c.u(3)]);
  for (int k = c.u(15); k > 0; --k) name += letters[c.u(letters.size())];
  if (name.back() == ' ') name.back() = 'q';
  c.note() << "'" << name << "', " << n << " moments";
  if (name.find(' ') != std::string::npos) c.label("spaces in the name");

  const std::string home = pbt::Case::scratch() + "home" + std::to_string(++count);
  mkdir(home.c_str(), 0755);
  {
    std::lock_guard<std::mutex> l(g_mutex);
    g_home = home;
    g_name = name;
    g_moments = moments;
    g_now = 0;
    g_sleeps = 0;
    g_on = true;
  }
  setenv("HOME", home.c_str(), 1);
  {
    static_map::common::performance::ProcessProfiler profiler;
    while (g_sleeps < n + 1) Wait(100);
  }
  {
    std::lock_guard<std::mutex> l(g_mutex);
    g_on = false;
  }
  // Look for the record.
  std::vector<std::string> found;
  for (const std::string& dir : {home, home + "/.static_mapping_log"}) {
    DIR* d = opendir(dir.c_str());
    if (!d) continue;
    while (dirent* e = readdir(d)) {
      struct stat st;
      if (stat((dir + "/" + e->d_name).c_str(), &st) == 0 && S_ISREG(st.st_mode)) found.push_back(dir + "/" + e->d_name);
    }
    closedir(d);
  }
  REQUIRE(found.size() == 1, found.size() << " records were written");
  std::ifstream in(found[0]);
  std::string line;
  int k = 0;
  while (std::getline(in, line)) {
    double cpu;
    long long resident, size;
    char tail;
    REQUIRE(std::sscanf(line.c_str(), "%lf%%, %lld, %lld%c", &cpu, &resident, &size, &tail) == 3, "line " << k << " is '" << line << "'");
    const Moment& a = moments[std::min(k, n - 1)];
    const Moment& b = moments[std::min(k + 1, n - 1)];
    double spent = 0, total = 0;
    for (int i = 0; i < 4; ++i) {
      spent += b.proc[i] - a.proc[i];
      total += b.cpu[i] - a.cpu[i];
    }
    const double want = total > 0 ? 100 * spent / total : 0;
    REQUIRE(std::fabs(cpu - want) <= 1e-4 * want + 1e-9, "second " << k << " used " << want << " % of the processor, recorded as " << line);
    REQUIRE(resident == b.resident && size == b.size, "second " << k << " used " << b.resident << " of " << b.size << " kB, recorded as " << line);
    ++k;
  }
  REQUIRE(k >= n, "only " << k << " of " << n << " seconds were recorded");
  unlink(found[0].c_str());
  if (moved) c.nontrivial();
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C49";
  s.rule = "the process used some processor time";
  s.assumptions = {"the system's files are replaced by generated ones in the format of the kernel, time passes when the watcher sleeps",
                   "processor time counts as user, nice, system and idle; process names have no slash"};
  s.subs.push_back({"watch", Watch, 4000, 40000});
  return s;
}
