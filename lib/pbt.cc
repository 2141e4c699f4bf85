#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>

extern "C" {
// Provided by AddressSanitizer when it is linked in.
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
const char* __asan_default_options() {
  return "exitcode=86:abort_on_error=0:detect_leaks=0:"
         "allocator_may_return_null=1:handle_abort=1:"
         "detect_stack_use_after_return=0:hard_rss_limit_mb=3000:"
         "max_allocation_size_mb=2048:detect_container_overflow=1";
}
const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=86";
}
}

namespace pbt {

namespace {

struct Capture {
  uint64_t n;
  uint64_t data[1 << 20];
};
Capture* g_capture = nullptr;

std::string g_scratch;

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

const int kCpuLimitSeconds = 30;

void ArmWatchdog(int seconds) {
  itimerval t;
  memset(&t, 0, sizeof(t));
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return h;
}

uint64_t HashChoices(const std::vector<uint64_t>& v, uint64_t h0) {
  uint64_t h = h0;
  for (uint64_t x : v) h = Mix(h ^ x);
  return h;
}

std::string JsonStr(const std::string& s) {
  std::string out = "\"";
  char buf[16];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c == '\n') {
      out += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(buf, sizeof(buf), "\\u%04x", c);
      out += buf;
    } else {
      out += c;
    }
  }
  return out + "\"";
}

// Fixed-size area the result of one case is written to, so that the harness
// itself does not change the number of allocated bytes.
struct CaseResult {
  bool failed;
  bool nontrivial;
  uint64_t hash;
  char msg[4096];
  char labels[8192];
  char desc[4096];
};
CaseResult g_result;

void RunOne(const Suite& suite, Gen& g) {
  CaseResult& r = g_result;
  r.failed = false;
  r.nontrivial = false;
  r.msg[0] = r.labels[0] = r.desc[0] = 0;
  Ctx c;
  try {
    suite.fn(g, c);
  } catch (const Failure& f) {
    r.failed = true;
    snprintf(r.msg, sizeof(r.msg), "%s", f.msg.c_str());
  } catch (const std::exception& e) {
    r.failed = true;
    snprintf(r.msg, sizeof(r.msg), "uncaught exception: %s", e.what());
  }
  r.nontrivial = c.nontrivial_;
  r.hash = HashChoices(g.choices(), HashStr(suite.name));
  size_t off = 0;
  for (const auto& l : c.labels_) {
    int n = snprintf(r.labels + off, sizeof(r.labels) - off, "%s\t1\n",
                     l.c_str());
    if (n < 0 || off + n >= sizeof(r.labels)) break;
    off += n;
  }
  for (const auto& l : c.counts_) {
    int n = snprintf(r.labels + off, sizeof(r.labels) - off, "#%s\t%llu\n",
                     l.first.c_str(), (unsigned long long)l.second);
    if (n < 0 || off + n >= sizeof(r.labels)) break;
    off += n;
  }
  if (off < sizeof(r.labels)) r.labels[off] = 0;
  {
    const std::string d = c.desc.str();
    snprintf(r.desc, sizeof(r.desc), "%s", d.c_str());
  }
}

size_t Allocated() {
  return __sanitizer_get_current_allocated_bytes
             ? __sanitizer_get_current_allocated_bytes()
             : 0;
}

size_t Measure(const Suite& suite, const std::vector<uint64_t>* choices,
               uint64_t seed) {
  const size_t before = Allocated();
  if (choices) {
    Gen g(*choices);
    RunOne(suite, g);
  } else {
    Gen g(seed);
    RunOne(suite, g);
  }
  const size_t after = Allocated();
  return after > before ? after - before : 0;
}

// Runs a case (with the leak oracle when the suite asks for it); the outcome
// is in g_result.
void RunCase(const Suite& suite, const std::vector<uint64_t>* choices,
             uint64_t seed) {
  size_t grow = Measure(suite, choices, seed);
  if (suite.leak_check && grow > 0 && !g_result.failed) {
    size_t g2 = Measure(suite, choices, seed);
    size_t g3 = Measure(suite, choices, seed);
    size_t g4 = Measure(suite, choices, seed);
    if (!g_result.failed && g2 > 0 && g2 == g3 && g3 == g4) {
      g_result.failed = true;
      snprintf(g_result.msg, sizeof(g_result.msg),
               "memory leak: %zu bytes stay allocated after every run of the "
               "case", g2);
    }
  }
}

struct Slot {  // shared memory, one per worker
  volatile uint64_t round;
  volatile int suite;
  volatile int state;  // 0 running, 1 failed with msg, 2 finished
  volatile uint64_t done;
  char msg[4096];
};

uint64_t CaseSeed(uint64_t seed, const Suite& s, uint64_t round) {
  return Mix(Mix(Mix(seed) ^ HashStr(s.name)) ^ round);
}

bool Scheduled(uint64_t round, uint64_t n, uint64_t rounds) {
  if (rounds == 0) return false;
  __uint128_t a = (__uint128_t)(round + 1) * n / rounds;
  __uint128_t b = (__uint128_t)round * n / rounds;
  return a > b;
}

struct Totals {
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> per_suite;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::pair<std::string, std::string>> samples;
};

void WriteStats(const std::string& path, const Totals& t) {
  FILE* f = fopen(path.c_str(), "ab");
  if (!f) return;
  fprintf(f, "E %llu\n", (unsigned long long)t.evaluations);
  for (auto& l : t.labels)
    fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
  for (auto& l : t.per_suite)
    fprintf(f, "P %llu %s\n", (unsigned long long)l.second, l.first.c_str());
  for (auto h : t.hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
  for (auto& s : t.samples) {
    std::string d = s.second;
    for (char& c : d)
      if (c == '\n') c = '\x01';
    fprintf(f, "S %s %s\n", s.first.c_str(), d.c_str());
  }
  fclose(f);
}

void ReadStats(const std::string& path, Totals* t) {
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.size() < 3) continue;
    std::string rest = line.substr(2);
    if (line[0] == 'E') {
      t->evaluations += strtoull(rest.c_str(), nullptr, 10);
    } else if (line[0] == 'L' || line[0] == 'P') {
      size_t sp = rest.find(' ');
      uint64_t n = strtoull(rest.c_str(), nullptr, 10);
      (line[0] == 'L' ? t->labels : t->per_suite)[rest.substr(sp + 1)] += n;
    } else if (line[0] == 'H') {
      t->hashes.insert(strtoull(rest.c_str(), nullptr, 16));
    } else if (line[0] == 'S') {
      size_t sp = rest.find(' ');
      std::string d = rest.substr(sp + 1);
      for (char& c : d)
        if (c == '\x01') c = '\n';
      t->samples.push_back({rest.substr(0, sp), d});
    }
  }
}

void RedirectOutput(const std::string& err_path) {
  int fd = open(err_path.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  int nul = open("/dev/null", O_RDWR);
  if (nul >= 0) {
    dup2(nul, 1);
    dup2(nul, 0);
    close(nul);
  }
}

void Worker(const Property& p, const std::vector<uint64_t>& counts,
            uint64_t rounds, uint64_t seed, int w, int jobs,
            uint64_t start_round, double deadline, Slot* slot) {
  const std::string base = g_scratch + "/w" + std::to_string(w);
  RedirectOutput(base + ".err");
  Totals t;
  std::set<std::string> sampled;
  uint64_t since_trunc = 0;
  for (uint64_t r = start_round; r < rounds; ++r) {
    if (r % jobs != (uint64_t)w) continue;
    if (Now() > deadline) break;
    for (size_t s = 0; s < p.suites.size(); ++s) {
      if (!Scheduled(r, counts[s], rounds)) continue;
      const Suite& suite = p.suites[s];
      slot->suite = (int)s;
      slot->round = r;
      if (++since_trunc >= 256) {
        since_trunc = 0;
        if (ftruncate(2, 0) != 0) {
        }
      }
      ArmWatchdog(kCpuLimitSeconds);
      RunCase(suite, nullptr, CaseSeed(seed, suite, r));
      ArmWatchdog(0);
      ++t.evaluations;
      slot->done = slot->done + 1;
      ++t.per_suite[suite.name];
      if (g_result.failed) {
        memcpy(slot->msg, g_result.msg, sizeof(slot->msg));
        slot->state = 1;
        WriteStats(base + ".stats", t);
        _exit(77);
      }
      if (g_result.nontrivial) t.hashes.insert(g_result.hash);
      std::istringstream ls(g_result.labels);
      std::string line;
      while (std::getline(ls, line)) {
        size_t tab = line.find('\t');
        t.labels[suite.name + "/" + line.substr(0, tab)] +=
            strtoull(line.c_str() + tab + 1, nullptr, 10);
      }
      if (g_result.nontrivial && g_result.desc[0] &&
          sampled.insert(suite.name).second && w < 2)
        t.samples.push_back({suite.name, g_result.desc});
    }
  }
  WriteStats(base + ".stats", t);
  slot->state = 2;
  _exit(0);
}

std::string CrashSummary(const std::string& err_path, int status) {
  std::ifstream in(err_path);
  std::string line, best;
  while (std::getline(in, line)) {
    size_t k;
    if ((k = line.find("runtime error:")) != std::string::npos) {
      best = "UBSan " + line;
      break;
    }
    if (line.find("Assertion `") != std::string::npos) {
      best = line;
      break;
    }
    if ((k = line.find("ERROR: AddressSanitizer:")) != std::string::npos &&
        best.empty()) {
      best = line.substr(k);
    }
    if (line.compare(0, 9, "SUMMARY: ") == 0) {
      best = line;
      break;
    }
  }
  std::ostringstream s;
  if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGPROF)
      s << "does not terminate: more than " << kCpuLimitSeconds
        << " s of CPU time in one case";
    else
      s << "crash (signal " << WTERMSIG(status) << ")";
  } else {
    s << "crash (exit " << WEXITSTATUS(status) << ")";
  }
  if (!best.empty()) s << ": " << best;
  return s.str();
}

// Signature used so that shrinking keeps to the same failure.
std::string Signature(const std::string& msg) {
  if (msg.compare(0, 5, "crash") == 0) {
    // Drop addresses and pids.
    std::string s;
    for (size_t k = 0; k < msg.size(); ++k) {
      if (msg.compare(k, 2, "0x") == 0) break;
      if (!isdigit((unsigned char)msg[k])) s += msg[k];
    }
    return s;
  }
  size_t c = msg.find(':');
  return c == std::string::npos ? msg : msg.substr(0, c);
}

// Runs one case in a child; returns "" on pass or the failure message.
std::string RunInChild(const Suite& suite, const std::vector<uint64_t>* choices,
                       uint64_t seed, std::vector<uint64_t>* captured,
                       std::string* desc) {
  static Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static char* desc_shm = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static Capture* cap =
      (Capture*)mmap(nullptr, sizeof(Capture), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slot->state = 0;
  cap->n = 0;
  desc_shm[0] = 0;
  const std::string err = g_scratch + "/child.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    RedirectOutput(err);
    if (captured) g_capture = cap;
    ArmWatchdog(kCpuLimitSeconds);
    RunCase(suite, choices, seed);
    ArmWatchdog(0);
    memcpy(desc_shm, g_result.desc, 4096);
    if (g_result.failed) {
      memcpy(slot->msg, g_result.msg, sizeof(slot->msg));
      slot->state = 1;
      _exit(77);
    }
    slot->state = 2;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (captured) captured->assign(cap->data, cap->data + cap->n);
  if (desc) *desc = desc_shm;
  if (slot->state == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0)
    return "";
  if (slot->state == 1) return slot->msg;
  return CrashSummary(err, status);
}

std::vector<uint64_t> Shrink(const Suite& suite, std::vector<uint64_t> v,
                             const std::string& sig, double budget,
                             uint64_t* attempts) {
  const double deadline = Now() + budget;
  auto fails = [&](const std::vector<uint64_t>& c) {
    ++*attempts;
    std::string m = RunInChild(suite, &c, 0, nullptr, nullptr);
    return !m.empty() && Signature(m) == sig;
  };
  bool progress = true;
  while (progress && Now() < deadline) {
    progress = false;
    // Truncate and delete chunks.
    for (size_t len = v.size(); len >= 1 && Now() < deadline; len /= 2) {
      for (size_t at = 0; at + len <= v.size() && Now() < deadline;) {
        // Try from the end: later choices are usually independent.
        size_t pos = v.size() - len - at;
        std::vector<uint64_t> c(v);
        c.erase(c.begin() + pos, c.begin() + pos + len);
        if (fails(c)) {
          v.swap(c);
          progress = true;
        } else {
          at += len;
        }
      }
    }
    // Zero chunks.
    for (size_t len = v.size() / 2; len >= 1 && Now() < deadline; len /= 2) {
      for (size_t at = 0; at + len <= v.size() && Now() < deadline; at += len) {
        bool any = false;
        std::vector<uint64_t> c(v);
        for (size_t k = at; k < at + len; ++k) {
          any = any || c[k] != 0;
          c[k] = 0;
        }
        if (any && fails(c)) {
          v.swap(c);
          progress = true;
        }
      }
    }
    // Lower single values.
    for (size_t k = 0; k < v.size() && Now() < deadline; ++k) {
      uint64_t lo = 0, hi = v[k];
      while (lo < hi && Now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c(v);
        c[k] = mid;
        if (fails(c)) {
          hi = mid;
          v[k] = mid;
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return v;
}

struct Options {
  std::string tier = "quick";
  uint64_t seed = 1;
  std::string evidence;
  std::string replay_dir = ".";
  std::string replay;
  std::string only_suite;
  int jobs = 8;
  double scale = 1.0;
  double budget = 240;
};

int Replay(const Property& p, const Options& o) {
  std::ifstream in(o.replay);
  std::string line, suite_name;
  std::vector<uint64_t> choices;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "suite ") == 0) suite_name = line.substr(6);
    if (line.compare(0, 8, "choices ") == 0) {
      std::istringstream s(line.substr(8));
      uint64_t v;
      while (s >> v) choices.push_back(v);
    }
  }
  for (const Suite& s : p.suites) {
    if (s.name != suite_name) continue;
    std::string desc;
    std::string m = RunInChild(s, &choices, 0, nullptr, &desc);
    printf("case: %s\n", desc.c_str());
    if (m.empty()) {
      printf("PASS\n");
      return 0;
    }
    std::ifstream err(g_scratch + "/child.err");
    std::cout << err.rdbuf() << "\n";
    printf("FAIL: %s\n", m.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id.c_str(),
           o.replay.c_str());
    return 1;
  }
  fprintf(stderr, "no suite '%s'\n", suite_name.c_str());
  return 2;
}

void RemoveScratch() {
  if (g_scratch.empty()) return;
  std::string cmd = "rm -rf '" + g_scratch + "'";
  if (system(cmd.c_str()) != 0) {
  }
}

}  // namespace

uint64_t Gen::Draw(uint64_t max, int dist) {
  if (replay_) return Next(max);
  uint64_t v;
  uint64_t r = NextRandom();
  auto uniform = [&](uint64_t m) -> uint64_t {
    uint64_t x = NextRandom();
    return m == UINT64_MAX ? x : (uint64_t)(((__uint128_t)x * (m + 1)) >> 64);
  };
  int bits = 0;
  while (bits < 64 && (bits == 64 ? 0 : (max >> bits)) != 0) ++bits;
  switch (dist) {
    default:
      v = uniform(max);
      break;
    case 1: {
      int k = (int)(r % (bits + 1));
      uint64_t m = k >= 64 ? UINT64_MAX : ((1ull << k) - 1);
      v = uniform(m < max ? m : max);
      break;
    }
    case 2: {
      switch (r % 8) {
        case 0:
          v = uniform(max);
          break;
        case 1:
          v = max - uniform(max < 3 ? max : 3);
          break;
        case 2:
          v = uniform(max < 3 ? max : 3);
          break;
        default: {
          int k = (int)((r >> 8) % (bits + 1));
          uint64_t x = k >= 64 ? 0 : (1ull << k);
          switch ((r >> 16) % 4) {
            case 0:
              break;
            case 1:
              x -= 1;
              break;
            case 2:
              x += 1;
              break;
            case 3:
              x = uniform(x);
              break;
          }
          v = x <= max ? x : uniform(max);
        }
      }
      break;
    }
  }
  if (v > max) v = max;
  Record(v);
  return v;
}

void Gen::Record(uint64_t v) {
  choices_.push_back(v);
  if (g_capture && g_capture->n < sizeof(g_capture->data) / 8)
    g_capture->data[g_capture->n++] = v;
}

size_t Gen::weighted(std::initializer_list<unsigned> ws) {
  uint64_t total = 0;
  for (unsigned w : ws) total += w;
  if (replay_) return (size_t)Next(ws.size() - 1);
  uint64_t r = NextRandom() % total;
  size_t k = 0;
  for (unsigned w : ws) {
    if (r < w) break;
    r -= w;
    ++k;
  }
  Record(k);
  return k;
}

Bytes Gen::blob(size_t n) {
  uint64_t s = u(0, 0xFFFFFF);
  Bytes out(n);
  uint64_t x = Mix(s);
  for (size_t k = 0; k < n; ++k) {
    if (k % 8 == 0) x = Mix(x + k);
    out[k] = s == 0 ? (uint8_t)(k + 1) : (uint8_t)(x >> (8 * (k % 8)));
  }
  return out;
}

Bytes Gen::bytes(size_t n) {
  Bytes out(n);
  for (size_t k = 0; k < n; ++k) out[k] = (uint8_t)edgy(0, 255);
  return out;
}

std::string Gen::str(size_t max_len, size_t min_len) {
  size_t n = (size_t)small(min_len, max_len);
  std::string s;
  bool utf8 = p(15);
  for (size_t k = 0; k < n; ++k) {
    if (utf8 && p(30) && s.size() + 3 <= max_len)
      s += "\xE2\x82\xAC";
    else
      s += (char)(32 + u(0, 94));
    if (s.size() >= n) break;
  }
  return s;
}

std::string Hex(const uint8_t* p, size_t n, size_t max) {
  std::string s;
  char buf[4];
  for (size_t k = 0; k < n && k < max; ++k) {
    snprintf(buf, sizeof(buf), "%02x", p[k]);
    s += buf;
  }
  if (n > max) s += "...(" + std::to_string(n) + " bytes)";
  return s;
}

const std::string& ScratchDir() { return g_scratch; }
std::string ScratchPath(const std::string& name) {
  return g_scratch + "/" + std::to_string((long)getpid()) + "-" + name;
}

void Ctx::known(const std::string& id, const std::string& what) {
  static std::set<std::string>* open = [] {
    auto* v = new std::set<std::string>;
    const char* dir = getenv("VERIF_DIR");
    std::ifstream f(std::string(dir ? dir : ".") + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line)) v->insert(line);
    return v;
  }();
  if (!open->count("open: property=" + id + " " + what)) fail(what);
  label("known finding: " + what);
}

int Main(int argc, char** argv, const Property& p) {
  Options o;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto next = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
    if (a == "--tier") o.tier = next();
    else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--evidence") o.evidence = next();
    else if (a == "--replaydir") o.replay_dir = next();
    else if (a == "--replay") o.replay = next();
    else if (a == "--suite") o.only_suite = next();
    else if (a == "--jobs") o.jobs = atoi(next().c_str());
    else if (a == "--scale") o.scale = atof(next().c_str());
    else if (a == "--budget") o.budget = atof(next().c_str());
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  char tmpl[] = "/tmp/verif-pbt-XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 2;
  }
  g_scratch = tmpl;

  if (!o.replay.empty()) {
    int rc = Replay(p, o);
    RemoveScratch();
    return rc;
  }

  const double t0 = Now();
  std::vector<uint64_t> counts;
  uint64_t rounds = 0;
  for (const Suite& s : p.suites) {
    uint64_t n = o.tier == "thorough" ? s.thorough_cases : s.quick_cases;
    n = (uint64_t)(n * o.scale);
    if (n == 0 && o.scale > 0) n = 1;
    if (!o.only_suite.empty() && o.only_suite != s.name) n = 0;
    counts.push_back(n);
    rounds = std::max(rounds, n);
  }
  const double deadline = t0 + o.budget;
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * o.jobs,
                            PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                            -1, 0);
  std::map<pid_t, int> pids;
  auto spawn = [&](int w, uint64_t start) {
    slots[w].state = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
      Worker(p, counts, rounds, o.seed, w, o.jobs, start, deadline, &slots[w]);
    pids[pid] = w;
  };
  for (int w = 0; w < o.jobs; ++w) spawn(w, 0);

  bool violation = false;
  std::string replay_path, viol_msg;
  uint64_t shrink_attempts = 0;
  uint64_t crashed = 0;
  int unreproduced = 0;
  std::vector<std::string> notes;
  while (!pids.empty() && !violation) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) {
      if (errno == EINTR) continue;
      break;
    }
    auto it = pids.find(pid);
    if (it == pids.end()) continue;
    int w = it->second;
    pids.erase(it);
    if (slots[w].state == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0)
      continue;
    // A failing case.
    const Suite& suite = p.suites[slots[w].suite];
    const uint64_t round = slots[w].round;
    const uint64_t cs = CaseSeed(o.seed, suite, round);
    const std::string first =
        slots[w].state == 1
            ? std::string(slots[w].msg)
            : CrashSummary(g_scratch + "/w" + std::to_string(w) + ".err",
                           status);
    if (slots[w].state != 1) ++crashed;
    std::vector<uint64_t> choices;
    std::string msg = RunInChild(suite, nullptr, cs, &choices, nullptr);
    bool same = !msg.empty();
    if (same) {
      for (int k = 0; k < 3 && same; ++k)
        same = !RunInChild(suite, &choices, 0, nullptr, nullptr).empty();
    }
    if (!same) {
      ++unreproduced;
      notes.push_back("not reproduced: suite " + suite.name + " round " +
                      std::to_string(round) + ": " + first);
      fprintf(stderr, "note: %s\n", notes.back().c_str());
      if (unreproduced < 50) spawn(w, round + 1);
      continue;
    }
    violation = true;
    for (auto& kv : pids) kill(kv.first, SIGKILL);
    const std::string sig = Signature(msg);
    std::vector<uint64_t> small =
        Shrink(suite, choices, sig, 60, &shrink_attempts);
    std::string desc;
    viol_msg = RunInChild(suite, &small, 0, nullptr, &desc);
    std::ostringstream err;
    {
      std::ifstream e(g_scratch + "/child.err");
      err << e.rdbuf();
    }
    mkdir(o.replay_dir.c_str(), 0755);
    replay_path = o.replay_dir + "/" + p.id + "-" + suite.name + "-" +
                  std::to_string(o.seed) + "-" + std::to_string(round) +
                  ".replay";
    std::ofstream out(replay_path);
    out << "# property " << p.id << "\n# failure: " << viol_msg << "\n";
    out << "suite " << suite.name << "\nchoices";
    for (uint64_t v : small) out << " " << v;
    out << "\n# seed " << o.seed << " round " << round << ", "
        << choices.size() << " choices shrunk to " << small.size() << " in "
        << shrink_attempts << " attempts\n# case:\n";
    std::istringstream ds(desc);
    std::string line;
    while (std::getline(ds, line)) out << "#   " << line << "\n";
    std::istringstream es(err.str());
    int nl = 0;
    while (std::getline(es, line) && nl++ < 60) out << "# | " << line << "\n";
  }
  for (auto& kv : pids) {
    kill(kv.first, SIGKILL);
    int st;
    waitpid(kv.first, &st, 0);
  }

  Totals t;
  for (int w = 0; w < o.jobs; ++w)
    ReadStats(g_scratch + "/w" + std::to_string(w) + ".stats", &t);
  if (violation) {
    uint64_t done = 0;
    for (int w = 0; w < o.jobs; ++w) done += slots[w].done;
    if (done > t.evaluations) t.evaluations = done;
  }
  std::set<std::string> findings;
  for (auto& l : t.labels) {
    const std::string k = "/known finding: ";
    const size_t at = l.first.find(k);
    if (at != std::string::npos) findings.insert(l.first.substr(at + k.size()));
  }
  for (auto& f : findings)
    printf("KNOWN-FINDING: property=%s %s\n", p.id.c_str(), f.c_str());
  const double wall = Now() - t0;
  const bool capped = Now() > deadline && !violation;
  if (!o.evidence.empty()) {
    std::ofstream e(o.evidence);
    e << "{\n \"property\": " << JsonStr(p.id) << ",\n \"tier\": "
      << JsonStr(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": "
      << JsonStr(p.level) << ",\n \"coverage\": {\n  \"evaluations\": "
      << t.evaluations << ",\n  \"distinct_nontrivial\": " << t.hashes.size()
      << ",\n  \"rule\": " << JsonStr(p.rule) << ",\n  \"samples\": [";
    bool firsts = true;
    for (auto& s : t.samples) {
      e << (firsts ? "" : ",") << "\n   {\"suite\": " << JsonStr(s.first)
        << ", \"case\": " << JsonStr(s.second.substr(0, 1500)) << "}";
      firsts = false;
    }
    e << "],\n  \"cases_per_suite\": {";
    firsts = true;
    for (auto& s : t.per_suite) {
      e << (firsts ? "" : ", ") << JsonStr(s.first) << ": " << s.second;
      firsts = false;
    }
    e << "},\n  \"classes\": {";
    firsts = true;
    for (auto& s : t.labels) {
      e << (firsts ? "" : ", ") << "\n   " << JsonStr(s.first) << ": "
        << s.second;
      firsts = false;
    }
    e << "},\n  \"stopped_by_time_budget\": " << (capped ? "true" : "false")
      << ",\n  \"shrink_attempts\": " << shrink_attempts
      << ",\n  \"unreproduced_failures\": " << unreproduced
      << "\n },\n \"assumptions\": [";
    firsts = true;
    for (auto& a : p.assumptions) {
      e << (firsts ? "" : ", ") << JsonStr(a);
      firsts = false;
    }
    e << "],\n \"wall_s\": " << wall << ",\n \"violations\": "
      << (violation ? 1 : 0) << "\n}\n";
  }
  RemoveScratch();
  printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1f s%s\n",
         p.id.c_str(), o.tier.c_str(), (unsigned long long)o.seed,
         (unsigned long long)t.evaluations, t.hashes.size(), wall,
         capped ? " (time budget reached)" : "");
  if (violation) {
    printf("failure: %s\n", viol_msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id.c_str(),
           replay_path.c_str());
    return 1;
  }
  return 0;
}

}  // namespace pbt
