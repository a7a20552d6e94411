#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <ftw.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {

static double NowS() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
static uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

Case::Case(uint64_t seed, uint64_t* log, uint64_t* log_len, uint64_t cap)
    : replay_(false), log_(log), log_len_(log_len), log_cap_(cap) {
  for (auto& s : s_) s = SplitMix(seed);
  *log_len_ = 0;
}
Case::Case(const std::vector<uint64_t>& choices, uint64_t* log,
           uint64_t* log_len, uint64_t cap)
    : replay_(true), in_(choices), log_(log), log_len_(log_len), log_cap_(cap) {
  *log_len_ = 0;
}
uint64_t Case::next64() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  const uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}
void Case::record(uint64_t v) {
  if (*log_len_ < log_cap_) log_[(*log_len_)++] = v;
  hash_ = (hash_ ^ v) * 1099511628211ull;
  hash_ ^= hash_ >> 29;
}
uint64_t Case::u(uint64_t bound) {
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    ++pos_;
    if (bound) v %= bound;
  } else {
    if (bound == 0) {
      v = next64();
    } else if ((bound & (bound - 1)) == 0) {
      v = next64() & (bound - 1);
    } else {
      v = static_cast<uint64_t>(
          (static_cast<unsigned __int128>(next64()) * bound) >> 64);
    }
  }
  record(v);
  return v;
}
int64_t Case::i(int64_t lo, int64_t hi) {
  const uint64_t range = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
  const uint64_t k = u(range);
  if (lo >= 0 || hi <= 0) {
    if (hi <= 0 && lo < 0) return hi - static_cast<int64_t>(k);
    return lo + static_cast<int64_t>(k);
  }
  // zigzag around zero, then the remainder of the longer side
  const uint64_t neg = static_cast<uint64_t>(-(lo + 1)) + 1, pos = hi;
  const uint64_t both = std::min(neg, pos);
  if (k <= 2 * both) {
    return (k & 1) ? -static_cast<int64_t>((k + 1) / 2)
                   : static_cast<int64_t>(k / 2);
  }
  const int64_t rest = static_cast<int64_t>(k - both);
  return pos > neg ? rest : -rest;
}
bool Case::b(uint32_t num, uint32_t den) { return u(den) >= den - num; }
double Case::real(double lo, double hi) {
  const int64_t kGrid = 1ll << 32;
  if (lo < 0 && hi > 0) {
    const bool neg = u(2);
    const double f = static_cast<double>(u(kGrid + 1)) / kGrid;
    return neg ? f * lo : f * hi;
  }
  const double f = static_cast<double>(u(kGrid + 1)) / kGrid;
  if (hi <= 0) return hi + f * (lo - hi);
  return lo + f * (hi - lo);
}
size_t Case::size(size_t lo, size_t hi) {
  if (hi <= lo) return lo;
  const size_t span = hi - lo;
  switch (u(4)) {
    case 0:
      return lo + u(std::min<size_t>(span, 3) + 1);
    case 1:
      return lo + u(std::min<size_t>(span, 12) + 1);
    case 2:
      return lo + u(std::max<size_t>(std::min<size_t>(span, 12), span / 4) + 1);
    default:
      return lo + u(span + 1);
  }
}
bool Case::more(double avg) {
  const uint64_t n = 1 << 16;
  const double stop = 1.0 / (avg + 1.0);
  return u(n) >= static_cast<uint64_t>(std::ceil(stop * n));
}

static std::string g_scratch;
// Home directory given to the code under test, so that its profiling logs stay
// below the scratch directory.
static std::string g_home = "/nonexistent";
const std::string& Case::scratch() { return g_scratch; }

namespace {

constexpr uint64_t kLogCap = 1u << 20;

struct Shared {
  volatile int64_t cur;
  volatile double start;
  uint64_t log_len;
  uint64_t log[kLogCap];
};

struct Outcome {
  enum Kind { kPass, kDiscard, kFail, kCrash, kHang } kind = kPass;
  std::string msg;
  bool bad() const { return kind >= kFail; }
};

struct Args {
  std::string tier = "quick", out, replay, replay_out, scratch, only;
  uint64_t seed = 1;
  double max_s = 0;
  double scale = 1;
  int jobs = 0;
};

Shared* NewShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  auto* s = static_cast<Shared*>(p);
  s->cur = -1;
  s->start = NowS();
  s->log_len = 0;
  return s;
}

std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch < 0x20 || ch >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", ch);
      o += buf;
    } else {
      o += ch;
    }
  }
  return o;
}

uint64_t CaseSeed(uint64_t seed, const std::string& name, uint64_t idx) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (char ch : name) h = (h ^ static_cast<unsigned char>(ch)) * 0x100000001b3ull;
  uint64_t x = h ^ (seed * 0x9e3779b97f4a7c15ull) ^ (idx << 20);
  SplitMix(x);
  return x + idx;
}

void Silence(const std::string& err_file) {
  int fd = err_file.empty() ? open("/dev/null", O_WRONLY)
                            : open(err_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    if (fd > 2) close(fd);
  }
}

int RmOne(const char* p, const struct stat*, int, struct FTW*) {
  return remove(p);
}
void RemoveTree(const std::string& dir) {
  // only ever called for directories below the scratch root made by this run
  if (dir.size() < 8 || dir.find("/scratch") == std::string::npos) return;
  nftw(dir.c_str(), RmOne, 16, FTW_DEPTH | FTW_PHYS);
}

void EnterScratch(const Args& a) {
  g_scratch = a.scratch + "/w" + std::to_string(getpid()) + "/";
  mkdir(g_scratch.c_str(), 0755);
  if (chdir(g_scratch.c_str()) != 0) _exit(3);
}

// Runs a case in this process, converting everything to an outcome.
Outcome RunHere(const Sub& sub, Case& c) {
  Outcome o;
  try {
    sub.fn(c);
  } catch (const Discard&) {
    o.kind = Outcome::kDiscard;
  } catch (const Failure& f) {
    o.kind = Outcome::kFail;
    o.msg = f.msg;
  } catch (const std::exception& e) {
    o.kind = Outcome::kFail;
    o.msg = std::string("exception escaped: ") + e.what();
  } catch (...) {
    o.kind = Outcome::kFail;
    o.msg = "unknown exception escaped";
  }
  return o;
}

void WriteAll(int fd, const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = write(fd, s.data() + off, s.size() - off);
    if (n <= 0) {
      if (errno == EINTR) continue;
      _exit(4);
    }
    off += n;
  }
}
void PutStr(std::string& s, const std::string& v) {
  uint32_t n = v.size();
  s.append(reinterpret_cast<char*>(&n), 4);
  s += v;
}

std::string Tail(const std::string& file, size_t n) {
  std::ifstream f(file, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // prefer a sanitizer or assertion headline
  for (const char* key : {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer",
                          "runtime error:", "Check failed", "Assertion"}) {
    auto p = s.find(key);
    if (p != std::string::npos) return s.substr(p, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// Runs `body` in a forked child; returns its outcome.
Outcome RunForked(const Args& a, const Sub& sub, Shared* sh, double timeout,
                  const std::function<Outcome(void)>& body) {
  int fds[2];
  if (pipe(fds) != 0) _exit(3);
  const std::string err = a.scratch + "/err.txt";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    close(fds[0]);
    Silence(err);
    EnterScratch(a);
    Outcome o = body();
    std::string s(1, static_cast<char>(o.kind));
    s += o.msg.substr(0, 4000);
    WriteAll(fds[1], s);
    _exit(0);
  }
  close(fds[1]);
  Outcome o;
  std::string got;
  const double t0 = NowS();
  bool hang = false;
  while (true) {
    struct pollfd p = {fds[0], POLLIN, 0};
    int r = poll(&p, 1, 50);
    if (r > 0) {
      char buf[4096];
      ssize_t n = read(fds[0], buf, sizeof buf);
      if (n <= 0) break;
      got.append(buf, n);
    } else if (NowS() - t0 > timeout) {
      hang = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      break;
    }
  }
  close(fds[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  RemoveTree(a.scratch + "/w" + std::to_string(pid));
  if (!got.empty()) {
    o.kind = static_cast<Outcome::Kind>(got[0]);
    o.msg = got.substr(1);
  } else if (hang) {
    o.kind = Outcome::kHang;
    o.msg = "no progress within " + std::to_string(timeout) + " s";
  } else {
    o.kind = Outcome::kCrash;
    std::ostringstream m;
    if (WIFSIGNALED(st)) {
      m << "process died with signal " << WTERMSIG(st);
    } else {
      m << "process exited with status " << WEXITSTATUS(st);
    }
    m << ": " << Tail(err, 1500);
    o.msg = m.str();
  }
  (void)sub;
  return o;
}

Outcome RunChoices(const Args& a, const Sub& sub, Shared* sh,
                   const std::vector<uint64_t>& choices, double timeout,
                   std::string* note = nullptr) {
  const std::string note_file = a.scratch + "/note.txt";
  unlink(note_file.c_str());
  Outcome o = RunForked(a, sub, sh, timeout, [&] {
    Case c(choices, sh->log, &sh->log_len, kLogCap);
    Outcome r = RunHere(sub, c);
    std::ofstream(note_file) << c.noteText();
    return r;
  });
  if (note) {
    std::ifstream f(note_file);
    std::stringstream ss;
    ss << f.rdbuf();
    *note = ss.str();
  }
  return o;
}

std::vector<uint64_t> Shrink(const Args& a, const Sub& sub, Shared* sh,
                             std::vector<uint64_t> best, double budget_s,
                             Outcome* last) {
  const double t_end = NowS() + budget_s;
  int runs = 0;
  const int tries = sub.schedule ? 3 : 1;
  auto fails = [&](const std::vector<uint64_t>& cand) {
    for (int t = 0; t < tries; ++t) {
      if (NowS() > t_end) return false;
      ++runs;
      Outcome o = RunChoices(a, sub, sh, cand, std::min(sub.timeout_s, 20.0));
      if (o.bad() && (o.kind == Outcome::kHang) == (last->kind == Outcome::kHang)) {
        *last = o;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && NowS() < t_end) {
    progress = false;
    for (size_t len = best.size(); len >= 1 && NowS() < t_end; len /= 2) {
      for (size_t pos = best.size(); pos > 0 && NowS() < t_end;) {
        pos = pos > len ? pos - len : 0;
        if (pos >= best.size()) continue;
        std::vector<uint64_t> cand(best.begin(), best.begin() + pos);
        cand.insert(cand.end(),
                    best.begin() + std::min(best.size(), pos + len), best.end());
        if (cand.size() < best.size() && fails(cand)) {
          best = cand;
          progress = true;
        }
      }
      if (len == 1) break;
    }
    for (size_t len = std::min<size_t>(best.size(), 64); len >= 1 && NowS() < t_end; len /= 2) {
      for (size_t pos = 0; pos < best.size() && NowS() < t_end; pos += len) {
        std::vector<uint64_t> cand = best;
        bool any = false;
        for (size_t k = pos; k < std::min(best.size(), pos + len); ++k) {
          any |= cand[k] != 0;
          cand[k] = 0;
        }
        if (any && fails(cand)) {
          best = cand;
          progress = true;
        }
      }
      if (len == 1) break;
    }
    for (size_t k = 0; k < best.size() && NowS() < t_end; ++k) {
      uint64_t lo = 0, hi = best[k];
      while (lo < hi && NowS() < t_end) {
        std::vector<uint64_t> cand = best;
        uint64_t mid = lo + (hi - lo) / 2;
        cand[k] = mid;
        if (fails(cand)) {
          best = cand;
          hi = mid;
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
  }
  (void)runs;
  return best;
}

struct SubResult {
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels, known;
  std::vector<std::string> samples;
  bool timed_out = false;
};

struct Found {
  bool bad = false;
  Outcome outcome;
  uint64_t idx = 0, chunk_start = 0, step = 1;
  std::vector<uint64_t> choices;
};

struct Worker {
  pid_t pid = -1;
  int fd = -1;
  Shared* sh = nullptr;
  std::string buf;
  uint64_t start = 0, end = 0;
};

Found RunSub(const Args& a, const Sub& sub, uint64_t total, double deadline,
             SubResult* res) {
  Found found;
  const int J = std::max(1, a.jobs ? std::min(a.jobs, sub.jobs) : sub.jobs);
  const uint64_t chunk =
      std::max<uint64_t>(1, std::min<uint64_t>(sub.refork, (total + J - 1) / J));
  std::vector<Worker> ws(J);
  uint64_t next = 0;
  auto launch = [&](Worker& w) {
    w.start = next;
    w.end = std::min(total, next + chunk);
    next = w.end;
    int fds[2];
    if (pipe(fds) != 0) _exit(3);
    if (!w.sh) w.sh = NewShared();
    w.sh->cur = -1;
    w.sh->start = NowS();
    w.buf.clear();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      close(fds[0]);
      for (auto& o : ws)
        if (o.fd >= 0) close(o.fd);
      Silence("");
      EnterScratch(a);
      for (uint64_t idx = w.start; idx < w.end; ++idx) {
        w.sh->start = NowS();
        w.sh->cur = idx;
        Case c(CaseSeed(a.seed, sub.name, idx), w.sh->log, &w.sh->log_len, kLogCap);
        Outcome o = RunHere(sub, c);
        std::string rec;
        rec += static_cast<char>(o.kind);
        rec += static_cast<char>(c.is_nontrivial());
        uint64_t h = c.hash();
        rec.append(reinterpret_cast<char*>(&h), 8);
        rec.append(reinterpret_cast<char*>(&idx), 8);
        PutStr(rec, o.msg.substr(0, 4000));
        std::string ls;
        for (auto& l : c.labels()) ls += l + '\n';
        PutStr(rec, ls);
        ls.clear();
        for (auto& l : c.knowns()) ls += l + '\n';
        PutStr(rec, ls);
        PutStr(rec, (c.is_nontrivial() && idx < 40) ? c.noteText().substr(0, 600) : "");
        std::string framed;
        PutStr(framed, rec);
        WriteAll(fds[1], framed);
        if (o.bad()) _exit(0);
      }
      w.sh->cur = -2;
      _exit(0);
    }
    close(fds[1]);
    w.pid = pid;
    w.fd = fds[0];
  };
  auto reap = [&](Worker& w, int* st) {
    waitpid(w.pid, st, 0);
    kill(-w.pid, SIGKILL);
    RemoveTree(a.scratch + "/w" + std::to_string(w.pid));
    close(w.fd);
    w.fd = -1;
    w.pid = -1;
  };
  auto parse = [&](Worker& w) {
    while (w.buf.size() >= 4) {
      uint32_t n;
      memcpy(&n, w.buf.data(), 4);
      if (w.buf.size() < 4 + n) break;
      std::string r = w.buf.substr(4, n);
      w.buf.erase(0, 4 + n);
      auto kind = static_cast<Outcome::Kind>(r[0]);
      bool nt = r[1];
      uint64_t h, idx;
      memcpy(&h, r.data() + 2, 8);
      memcpy(&idx, r.data() + 10, 8);
      size_t off = 18;
      auto get = [&] {
        uint32_t m;
        memcpy(&m, r.data() + off, 4);
        std::string s = r.substr(off + 4, m);
        off += 4 + m;
        return s;
      };
      std::string msg = get(), labels = get(), known = get(), note = get();
      ++res->evaluations;
      if (kind == Outcome::kDiscard) ++res->discarded;
      if (nt && kind != Outcome::kDiscard) {
        ++res->nontrivial;
        res->distinct.insert(h);
      }
      std::istringstream li(labels);
      for (std::string l; std::getline(li, l);) ++res->labels[l];
      std::istringstream ki(known);
      for (std::string l; std::getline(ki, l);) ++res->known[l];
      if (!note.empty() && res->samples.size() < 4)
        res->samples.push_back(sub.name + ": " + note);
      if (kind >= Outcome::kFail && !found.bad) {
        found.bad = true;
        found.outcome.kind = kind;
        found.outcome.msg = msg;
        found.idx = idx;
        found.chunk_start = w.start;
        found.choices.assign(w.sh->log, w.sh->log + w.sh->log_len);
      }
    }
  };
  while (true) {
    if (!found.bad && NowS() < deadline) {
      for (auto& w : ws)
        if (w.pid < 0 && next < total) launch(w);
    }
    if (next < total && NowS() >= deadline) res->timed_out = true;
    std::vector<pollfd> pf;
    std::vector<Worker*> pw;
    for (auto& w : ws)
      if (w.pid >= 0) {
        pf.push_back({w.fd, POLLIN, 0});
        pw.push_back(&w);
      }
    if (pf.empty()) break;
    poll(pf.data(), pf.size(), 100);
    const bool stop = found.bad || NowS() > deadline;
    for (size_t k = 0; k < pf.size(); ++k) {
      Worker& w = *pw[k];
      bool eof = false;
      if (pf[k].revents & (POLLIN | POLLHUP)) {
        char buf[1 << 16];
        ssize_t n = read(w.fd, buf, sizeof buf);
        if (n > 0) {
          w.buf.append(buf, n);
          parse(w);
        } else {
          eof = true;
        }
      }
      if (eof) {
        const uint64_t cur = w.sh->cur;
        std::vector<uint64_t> choices(w.sh->log, w.sh->log + w.sh->log_len);
        const uint64_t start = w.start;
        int st;
        reap(w, &st);
        const bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok && !found.bad) {
          found.bad = true;
          found.outcome.kind = Outcome::kCrash;
          found.outcome.msg = WIFSIGNALED(st)
                                  ? "process died with signal " + std::to_string(WTERMSIG(st))
                                  : "process exited with status " + std::to_string(WEXITSTATUS(st));
          found.idx = cur;
          found.chunk_start = start;
          found.choices = choices;
        }
        continue;
      }
      const bool hang = NowS() - w.sh->start > sub.timeout_s;
      if (stop || hang) {
        kill(-w.pid, SIGKILL);
        kill(w.pid, SIGKILL);
        const uint64_t cur = w.sh->cur;
        std::vector<uint64_t> choices(w.sh->log, w.sh->log + w.sh->log_len);
        const uint64_t start = w.start;
        int st;
        reap(w, &st);
        if (!stop && hang && !found.bad) {
          found.bad = true;
          found.outcome.kind = Outcome::kHang;
          found.outcome.msg = "no progress within " + std::to_string(sub.timeout_s) + " s";
          found.idx = cur;
          found.chunk_start = start;
          found.choices = choices;
        }
        if (stop && !found.bad) res->timed_out = true;
      }
    }
  }
  for (auto& w : ws)
    if (w.sh) munmap(w.sh, sizeof(Shared));
  return found;
}

void WriteReplay(const std::string& path, const Suite& suite, const Sub& sub,
                 const Args& a, const Found& f, const std::vector<uint64_t>& ch,
                 const Outcome& o, const std::string& how,
                 const std::string& note, bool range) {
  std::ofstream r(path);
  r << "property " << suite.property << "\n";
  r << "sub " << sub.name << "\n";
  r << "seed " << a.seed << "\n";
  if (range) {
    r << "range " << f.chunk_start << " " << f.idx << "\n";
  } else {
    r << "choices";
    for (uint64_t v : ch) r << " " << v;
    r << "\n";
  }
  r << "how " << how << "\n";
  r << "case-index " << f.idx << "\n";
  r << "---- message\n" << o.msg << "\n";
  r << "---- input\n" << note << "\n";
}

Outcome RunRange(const Args& a, const Sub& sub, Shared* sh, uint64_t seed,
                 uint64_t from, uint64_t to) {
  return RunForked(a, sub, sh, 240, [&] {
    Outcome o;
    for (uint64_t idx = from; idx <= to; ++idx) {
      Case c(CaseSeed(seed, sub.name, idx), sh->log, &sh->log_len, kLogCap);
      o = RunHere(sub, c);
      if (o.bad()) return o;
    }
    return Outcome();
  });
}

int Replay(const Args& a, const Suite& suite) {
  std::ifstream f(a.replay);
  if (!f) {
    std::cerr << "cannot open " << a.replay << "\n";
    return 2;
  }
  std::string line, subname;
  uint64_t seed = 1, from = 0, to = 0;
  bool range = false;
  std::vector<uint64_t> ch;
  while (std::getline(f, line) && line.compare(0, 4, "----") != 0) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "sub") is >> subname;
    if (k == "seed") is >> seed;
    if (k == "range") {
      is >> from >> to;
      range = true;
    }
    if (k == "choices")
      for (uint64_t v; is >> v;) ch.push_back(v);
  }
  for (auto& s : suite.subs) {
    if (s.name != subname) continue;
    Shared* sh = NewShared();
    const int tries = s.schedule ? 20 : 1;
    for (int t = 0; t < tries; ++t) {
      std::string note;
      Outcome o = range ? RunRange(a, s, sh, seed, from, to)
                        : RunChoices(a, s, sh, ch, s.timeout_s * 2, &note);
      if (o.bad() || t + 1 == tries) {
        std::cout << (o.bad() ? "FAIL " : "PASS ") << o.msg << "\n" << note << "\n";
        return o.bad() ? 1 : 0;
      }
    }
  }
  std::cerr << "unknown sub " << subname << "\n";
  return 2;
}

}  // namespace

int Main(int argc, char** argv) {
  Args a;
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string o = argv[k], v = argv[k + 1];
    if (o == "--tier") a.tier = v;
    if (o == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    if (o == "--out") a.out = v;
    if (o == "--replay") a.replay = v;
    if (o == "--replay-out") a.replay_out = v;
    if (o == "--scratch") g_home = a.scratch = v;
    if (o == "--only") a.only = v;
    if (o == "--max-s") a.max_s = atof(v.c_str());
    if (o == "--scale") a.scale = atof(v.c_str());
    if (o == "--jobs") a.jobs = atoi(v.c_str());
  }
  setenv("HOME", g_home.c_str(), 1);
  signal(SIGPIPE, SIG_IGN);
  Suite suite = MakeSuite();
  if (!a.replay.empty()) return Replay(a, suite);
  const double t0 = NowS();
  const double deadline = a.max_s > 0 ? t0 + a.max_s : t0 + 1e9;
  std::map<std::string, SubResult> results;
  bool violated = false;
  std::string vmsg, vsub;
  std::vector<std::string> notes;
  double remaining_weight = 0;
  for (auto& s : suite.subs) remaining_weight += 1;
  for (auto& s : suite.subs) {
    if (!a.only.empty() && s.name != a.only) continue;
    const double n = (a.tier == "thorough" ? s.thorough : s.quick) * a.scale;
    // each sub gets its share of what is left of the time cap
    const double share = a.max_s > 0 ? NowS() + (deadline - NowS()) / std::max(1.0, remaining_weight) * 1.5
                                     : deadline;
    remaining_weight -= 1;
    SubResult& res = results[s.name];
    const double ts = NowS();
    Found f = RunSub(a, s, std::max<uint64_t>(1, static_cast<uint64_t>(n)),
                     std::min(deadline, share), &res);
    std::cerr << suite.property << "/" << s.name << ": " << res.evaluations
              << " cases, " << res.distinct.size() << " distinct non-trivial, "
              << res.discarded << " discarded, " << NowS() - ts << " s"
              << (res.timed_out ? " (time cap)" : "") << "\n";
    for (auto& l : res.labels) std::cerr << "    " << l.first << ": " << l.second << "\n";
    for (auto& l : res.known) std::cerr << "    KNOWN " << l.first << ": " << l.second << "\n";
    if (!f.bad) continue;
    std::cerr << "  failure at case " << f.idx << ": " << f.outcome.msg << "\n";
    Shared* sh = NewShared();
    // confirm
    int again = 0, reruns = 0, confirms = 0;
    const int tries = s.schedule ? 10 : 3;
    Outcome o = f.outcome;
    for (int t = 0; t < tries; ++t) {
      Outcome r = RunChoices(a, s, sh, f.choices, s.timeout_s * 2);
      ++reruns;
      if (r.bad()) {
        ++again;
        o = r;
        // every rerun of a hang costs its whole time limit, one is enough
        if (r.kind == Outcome::kHang) break;
      }
    }
    const bool hangs = o.kind == Outcome::kHang;
    bool range = false;
    std::vector<uint64_t> best = f.choices;
    std::ostringstream how;
    if (again > 0) {
      best = Shrink(a, s, sh, best, hangs ? 30 : s.schedule ? 45 : 60, &o);
      int confirm = 0;
      for (int t = 0; t < tries; ++t) {
        Outcome r = RunChoices(a, s, sh, best, hangs ? std::min(s.timeout_s, 20.0) : s.timeout_s * 2);
        ++confirms;
        if (r.bad()) {
          ++confirm;
          o = r;
          if (r.kind == Outcome::kHang) break;
        }
      }
      how << "reproduced " << again << "/" << reruns << " before and " << confirm << "/"
          << confirms << " after shrinking " << f.choices.size() << " -> " << best.size()
          << " choices";
      if (2 * confirm < again) {
        best = f.choices;
        how << ", kept unshrunk";
      }
    } else {
      Outcome r = RunRange(a, s, sh, a.seed, f.chunk_start, f.idx);
      if (r.bad()) {
        range = true;
        o = r;
        how << "reproduced only when run after the earlier cases of its worker";
      } else {
        how << "seen once, not reproduced in " << tries << " reruns (timing dependent)";
        o = f.outcome;
        if (f.outcome.kind == Outcome::kHang || f.outcome.msg == "process died with signal 9") {
          notes.push_back(s.name + ": a slow case did not reproduce as a hang");
          continue;
        }
      }
    }
    std::string note;
    if (!range) RunChoices(a, s, sh, best, hangs ? std::min(s.timeout_s, 10.0) : s.timeout_s * 2, &note);
    WriteReplay(a.replay_out, suite, s, a, f, best, o, how.str(), note, range);
    std::cerr << "  " << o.msg << "\n  " << how.str() << "\n  input: " << note.substr(0, 2000) << "\n";
    violated = true;
    vmsg = o.msg;
    vsub = s.name;
    break;
  }
  uint64_t evals = 0, distinct = 0, disc = 0;
  std::ostringstream js;
  for (auto& r : results) {
    evals += r.second.evaluations;
    distinct += r.second.distinct.size();
    disc += r.second.discarded;
  }
  js << "{\"property\":\"" << suite.property << "\",\"violated\":" << (violated ? "true" : "false")
     << ",\"message\":\"" << JsonEsc(vmsg) << "\",\"sub\":\"" << vsub << "\",\"evaluations\":" << evals
     << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << distinct << ",\"rule\":\""
     << JsonEsc(suite.rule) << "\",\"wall_s\":" << NowS() - t0 << ",\"assumptions\":[";
  bool first = true;
  for (auto& s : suite.assumptions) {
    js << (first ? "" : ",") << "\"" << JsonEsc(s) << "\"";
    first = false;
  }
  js << "],\"samples\":[";
  first = true;
  for (auto& r : results)
    for (auto& s : r.second.samples) {
      js << (first ? "" : ",") << "\"" << JsonEsc(s) << "\"";
      first = false;
    }
  js << "],\"notes\":[";
  first = true;
  for (auto& s : notes) {
    js << (first ? "" : ",") << "\"" << JsonEsc(s) << "\"";
    first = false;
  }
  js << "],\"subs\":{";
  first = true;
  for (auto& r : results) {
    js << (first ? "" : ",") << "\"" << r.first << "\":{\"evaluations\":" << r.second.evaluations
       << ",\"nontrivial\":" << r.second.nontrivial << ",\"distinct_nontrivial\":" << r.second.distinct.size()
       << ",\"discarded\":" << r.second.discarded << ",\"time_capped\":" << (r.second.timed_out ? "true" : "false")
       << ",\"labels\":{";
    bool f2 = true;
    for (auto& l : r.second.labels) {
      js << (f2 ? "" : ",") << "\"" << JsonEsc(l.first) << "\":" << l.second;
      f2 = false;
    }
    js << "},\"known\":{";
    f2 = true;
    for (auto& l : r.second.known) {
      js << (f2 ? "" : ",") << "\"" << JsonEsc(l.first) << "\":" << l.second;
      f2 = false;
    }
    js << "}}";
    first = false;
  }
  js << "}}\n";
  std::ofstream(a.out) << js.str();
  return violated ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char** argv) {
  const int r = pbt::Main(argc, argv);
  std::cout.flush();
  fflush(nullptr);
  _exit(r);  // library clean-up is not part of any property
}

extern "C" __attribute__((weak)) struct passwd* getpwuid(uid_t uid) {
  static thread_local struct passwd pw;
  static char name[] = "nobody", empty[] = "";
  pw.pw_name = name;
  pw.pw_passwd = pw.pw_gecos = pw.pw_shell = empty;
  pw.pw_uid = uid;
  pw.pw_gid = uid;
  pw.pw_dir = const_cast<char*>(pbt::g_home.c_str());
  return &pw;
}
