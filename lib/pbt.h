// Property-based testing core: choice-sequence generators, a multi-process
// case runner (a crash of the code under test is just another failing case),
// shrinking of the choice sequence, replay files and evidence.
//
// A case is a pure function of a vector of integers (the choices).  In search
// mode the integers come from a PRNG seeded by (VERIF_SEED, suite, index); in
// replay mode they come from a file; shrinking edits the vector.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Failure {
  std::string msg;
};

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

class Gen {
 public:
  explicit Gen(uint64_t seed) : replay_(false), state_(seed) {}
  explicit Gen(const std::vector<uint64_t>& choices)
      : replay_(true), state_(0), choices_(choices) {}

  // Uniform in [lo, hi]; lo is the simplest value.
  uint64_t u(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return lo;
    return lo + Draw(hi - lo, 0);
  }
  int64_t i(int64_t lo, int64_t hi) {
    return static_cast<int64_t>(static_cast<uint64_t>(lo) +
                                u(0, static_cast<uint64_t>(hi) -
                                         static_cast<uint64_t>(lo)));
  }
  // Small values more likely.
  uint64_t small(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return lo;
    return lo + Draw(hi - lo, 1);
  }
  // Biased to 2^k, 2^k-1, 2^k+1, 0 and max.
  uint64_t edgy(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return lo;
    return lo + Draw(hi - lo, 2);
  }
  bool b() { return u(0, 1) != 0; }
  // True with probability pct/100; false is the simple value.
  bool p(unsigned pct) {
    if (pct == 0) return false;
    if (replay_) return Next(1) != 0;
    bool r = (NextRandom() % 100) < pct;
    Record(r ? 1 : 0);
    return r;
  }
  template <typename T>
  T pick(std::initializer_list<T> xs) {
    return *(xs.begin() + u(0, xs.size() - 1));
  }
  template <typename T>
  const T& pick(const std::vector<T>& xs) {
    return xs[u(0, xs.size() - 1)];
  }
  // Index by weight.
  size_t weighted(std::initializer_list<unsigned> ws);
  // n bytes that depend on a single choice (shrinks as a unit).
  Bytes blob(size_t n);
  // n bytes, each its own choice.
  Bytes bytes(size_t n);
  // A printable / UTF-8-ish string of length <= max_len.
  std::string str(size_t max_len, size_t min_len = 0);

  const std::vector<uint64_t>& choices() const { return choices_; }
  size_t consumed() const { return replay_ ? pos_ : choices_.size(); }

 private:
  uint64_t NextRandom() {
    state_ += 0x9E3779B97F4A7C15ull;
    uint64_t x = state_;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  void Record(uint64_t v);
  uint64_t Next(uint64_t max) {
    uint64_t v = pos_ < choices_.size() ? choices_[pos_] : 0;
    ++pos_;
    return v > max ? max : v;
  }
  uint64_t Draw(uint64_t max, int dist);

  bool replay_;
  uint64_t state_;
  size_t pos_ = 0;
  std::vector<uint64_t> choices_;
};

// Per-case context.
class Ctx {
 public:
  // Classification labels are counted over the run and written as evidence.
  void label(const std::string& s) { labels_.insert(s); }
  // Adds n to a counter.
  void count(const std::string& s, uint64_t n) { counts_[s] += n; }
  void nontrivial() { nontrivial_ = true; }
  // Human-readable description of the case; shown in samples and replays.
  std::ostringstream desc;

  [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
  void check(bool ok, const std::string& msg) {
    if (!ok) fail(msg);
  }

  // A violation that is a recorded finding: passes if known_findings.txt lists
  // "open: property=<id> <what>", fails otherwise.
  void known(const std::string& id, const std::string& what);

  std::set<std::string> labels_;
  std::map<std::string, uint64_t> counts_;
  bool nontrivial_ = false;
};

typedef void (*CaseFn)(Gen&, Ctx&);

struct Suite {
  std::string name;
  CaseFn fn;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  bool leak_check;
};

struct Property {
  std::string id;
  std::string rule;   // how cases are made and what makes one non-trivial
  std::string level;  // "exploration" or "fault_enumeration"
  std::vector<Suite> suites;
  std::vector<std::string> assumptions;
};

// Entry point: see pbt.cc for the command line.
int Main(int argc, char** argv, const Property& property);

std::string Hex(const uint8_t* p, size_t n, size_t max = 64);
inline std::string Hex(const Bytes& b, size_t max = 64) {
  return Hex(b.data(), b.size(), max);
}

template <typename A, typename B>
void CheckEq(Ctx& c, const A& got, const B& want, const std::string& what) {
  if (!(got == want)) {
    std::ostringstream s;
    s << what << ": got " << got << ", want " << want;
    c.fail(s.str());
  }
}

// Per-run scratch directory (created by Main, removed at exit).
const std::string& ScratchDir();
// A path inside the scratch directory unique to this process.
std::string ScratchPath(const std::string& name);

}  // namespace pbt

#endif  // VERIF_PBT_H_
