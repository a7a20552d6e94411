// A small property-based testing engine.
//
// Every test case draws all of its random choices from a Case.  The choices are
// recorded, so a failing case can be replayed and shrunk from its choice list
// alone.  Cases run in forked workers: a crash, an abort (failed internal
// assertion) or a hang of the code under test is a failure of the case, not of
// the check.
#ifndef VERIF_HARNESS_PBT_H_
#define VERIF_HARNESS_PBT_H_

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure : std::exception {
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
  std::string msg;
};
// Thrown to drop a case whose drawn input is outside the stated precondition.
struct Discard {};

class Case {
 public:
  // random mode
  Case(uint64_t seed, uint64_t* log, uint64_t* log_len, uint64_t log_cap);
  // replay mode
  Case(const std::vector<uint64_t>& choices, uint64_t* log, uint64_t* log_len,
       uint64_t log_cap);

  // Uniform value in [0, bound); bound 0 means the full 64-bit range.
  uint64_t u(uint64_t bound);
  // Integer in [lo, hi]; shrinks towards 0 if possible, else towards lo.
  int64_t i(int64_t lo, int64_t hi);
  // True with probability num/den; shrinks to false.
  bool b(uint32_t num = 1, uint32_t den = 2);
  // Real in [lo, hi] on a 2^32 grid; shrinks towards 0 if inside, else lo.
  double real(double lo, double hi);
  // Size in [lo, hi], biased towards small sizes but reaching hi.
  size_t size(size_t lo, size_t hi);
  // Pick an element.
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[u(v.size())];
  }
  template <typename T>
  T oneOf(std::initializer_list<T> v) {
    return *(v.begin() + u(v.size()));
  }
  // "Another element?" with expected count `avg`; shrinks to no.
  bool more(double avg);
  // Calls fn until more() says stop or max reached.
  template <typename Fn>
  void list(double avg, size_t max, Fn fn) {
    for (size_t n = 0; n < max && more(avg); ++n) fn();
  }

  void nontrivial() { nontrivial_ = true; }
  void label(const std::string& l) { labels_.push_back(l); }
  // Known finding observed (identified in the known-findings file).
  void known(const std::string& id) { known_.push_back(id); }
  std::ostringstream& note() { return note_; }
  void discard() { throw Discard(); }

  // scratch directory private to this worker, ends with '/'
  static const std::string& scratch();

  uint64_t hash() const { return hash_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::vector<std::string>& labels() const { return labels_; }
  const std::vector<std::string>& knowns() const { return known_; }
  std::string noteText() const { return note_.str(); }
  bool replaying() const { return replay_; }

 private:
  uint64_t next64();
  void record(uint64_t v);
  bool replay_;
  uint64_t s_[4];
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t* log_;
  uint64_t* log_len_;
  uint64_t log_cap_;
  uint64_t hash_ = 1469598103934665603ull;
  bool nontrivial_ = false;
  std::vector<std::string> labels_, known_;
  std::ostringstream note_;
};

struct Sub {
  std::string name;
  std::function<void(Case&)> fn;
  int quick = 1000;        // cases in the quick tier
  int thorough = 20000;    // cases in the thorough tier
  double timeout_s = 60;   // a single case taking longer is a hang
  int jobs = 8;            // parallel workers
  int refork = 500;        // cases per worker process
  bool schedule = false;   // outcome depends on thread timing
};

struct Suite {
  std::string property;
  std::string rule;  // what counts as a non-trivial case
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
};

// Defined once per check.
Suite MakeSuite();

[[noreturn]] inline void fail(const std::string& m) { throw Failure(m); }

}  // namespace pbt

#define REQUIRE(cond, msg)                                                  \
  do {                                                                      \
    if (!(cond)) {                                                          \
      std::ostringstream oss_;                                              \
      oss_.precision(17);                                                   \
      oss_ << "[" << #cond << "] " << msg;                                  \
      throw ::pbt::Failure(oss_.str());                                     \
    }                                                                       \
  } while (0)

#endif  // VERIF_HARNESS_PBT_H_
