// C06: a failing writer (or reader, when cues are moved) is always reported,
// and never leads to a crash or a leak.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "muxlib.h"

using namespace muxlib;

namespace {

// Reader whose k-th Read fails.
class FaultReader : public mkvparser::IMkvReader {
 public:
  FaultReader(const Bytes& d, uint64_t at) : d_(d), at_(at) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (n_++ == at_) {
      faulted = true;
      return -1;
    }
    if (pos < 0 || len < 0 || pos + len > (long long)d_.size()) return -1;
    if (len) memcpy(buf, &d_[pos], len);
    return 0;
  }
  int Length(long long* total, long long* avail) override {
    if (total) *total = d_.size();
    if (avail) *avail = d_.size();
    return 0;
  }
  uint64_t reads() const { return n_; }
  bool faulted = false;

 private:
  const Bytes& d_;
  uint64_t at_, n_ = 0;
};

bool Relevant(const Scenario& s) {
  // A segment with a video track needs a frame that is not audio.
  if (!s.has_video()) return true;
  for (auto& f : s.ops)
    if (!f.force_cluster && !s.tracks[f.track].is_audio()) return true;
  return false;
}

void Write(Gen& g, Ctx& c) {
  GenOptions o;
  o.tiny = true;
  Scenario s = GenScenario(g, c, o);
  for (auto& f : s.ops)
    if (f.data.size() > 2000) f.data.resize(2000);
  const bool forever = g.b();
  const int code = g.p(30) ? 1 : -1;
  const bool go_on = g.b();
  const uint64_t phase = g.u(0, 1000);
  c.desc << (forever ? "persistent" : "transient") << " fault, code " << code
         << (go_on ? ", caller goes on" : ", caller stops") << "\n"
         << Describe(s);
  uint64_t total = 0;
  {
    MemWriter w(s.seekable);
    mkvmuxer::Segment seg;
    RunResult r = RunScenario(&s, &w, &seg);
    if (!r.all_ok()) {
      c.check(!Relevant(s), "fault-free run failed");
      c.label("fault-free-run-refused");
      return;
    }
    total = w.ops;
  }
  const uint64_t stride = total > 200 ? total / 200 + 1 : 1;
  for (uint64_t k = phase % stride; k < total; k += stride) {
    MemWriter w(s.seekable);
    w.fail_at = k;
    w.fail_forever = forever;
    w.fail_code = code;
    Scenario t = s;
    bool reported = false;
    {
      mkvmuxer::Segment seg;
      RunResult r = RunScenario(&t, &w, &seg, !go_on);
      reported = !r.all_ok();
    }
    c.check(w.faulted, "the injected fault was not reached");
    if (!reported)
      c.fail("writer operation " + std::to_string(k) + " of " +
             std::to_string(total) +
             " failed, but every muxer call reported success");
    c.check(!w.bad_seek, "seek beyond the written data");
  }
  c.count("faults", (total + stride - 1) / stride);
  if (total > 60) c.nontrivial();
}

void Move(Gen& g, Ctx& c) {
  GenOptions o;
  o.tiny = true;
  o.force_file = true;
  Scenario s = GenScenario(g, c, o);
  s.output_cues = true;
  const bool forever = g.b();
  const int code = g.p(30) ? 1 : -1;
  c.desc << "move cues, " << (forever ? "persistent" : "transient")
         << " fault, code " << code << "\n" << Describe(s);
  if (g.p(20)) s.ops.clear();  // a segment without any frame
  // Fault-free.
  uint64_t wops = 0, rops = 0;
  {
    MemWriter w(true);
    mkvmuxer::Segment seg;
    RunResult r = RunScenario(&s, &w, &seg);
    if (!r.all_ok() && !s.ops.empty()) {
      c.check(!Relevant(s), "fault-free run failed");
      return;
    }
    FaultReader rd(w.data, UINT64_MAX);
    MemWriter w2(true);
    const bool ok = seg.CopyAndMoveCuesBeforeClusters(&rd, &w2);
    if (s.ops.empty()) {
      c.label("no-clusters");
      c.check(!ok, "moved the cues of a segment without any frame");
      return;
    }
    c.check(ok, "moving the cues failed without a fault");
    wops = w2.ops;
    rops = rd.reads();
  }
  for (uint64_t k = 0; k < wops + rops; ++k) {
    Scenario t = s;
    MemWriter w(true);
    mkvmuxer::Segment seg;
    RunResult r = RunScenario(&t, &w, &seg);
    c.check(r.all_ok(), "fault-free run not repeatable");
    FaultReader rd(w.data, k < wops ? UINT64_MAX : k - wops);
    MemWriter w2(true);
    if (k < wops) {
      w2.fail_at = k;
      w2.fail_forever = forever;
      w2.fail_code = code;
    }
    const bool ok = seg.CopyAndMoveCuesBeforeClusters(&rd, &w2);
    c.check(w2.faulted || rd.faulted, "the injected fault was not reached");
    if (ok)
      c.fail(std::string(k < wops ? "writer" : "reader") + " operation " +
             std::to_string(k < wops ? k : k - wops) +
             " failed, but CopyAndMoveCuesBeforeClusters reported success");
  }
  c.count("faults", wops + rops);
  c.nontrivial();
}

// While alive, no file can grow beyond |bytes|.
class SizeLimit {
 public:
  explicit SizeLimit(uint64_t bytes) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old_);
    rlimit l = old_;
    l.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~SizeLimit() { setrlimit(RLIMIT_FSIZE, &old_); }

 private:
  rlimit old_;
};

// The files (true) and directories (false) of |dir|, which is removed.
std::map<std::string, std::pair<bool, uint64_t>> Collect(const std::string& dir) {
  std::map<std::string, std::pair<bool, uint64_t>> files;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      struct stat st;
      if (n == "." || n == ".." || stat((dir + "/" + n).c_str(), &st)) continue;
      files[n] = {S_ISREG(st.st_mode), (uint64_t)st.st_size};
    }
    closedir(d);
  }
  for (auto& f : files)
    if (f.second.first)
      unlink((dir + "/" + f.first).c_str());
    else
      rmdir((dir + "/" + f.first).c_str());
  rmdir(dir.c_str());
  return files;
}

// Real files: the disk is full at some size, or a chunk cannot be opened.
void Disk(Gen& g, Ctx& c) {
  GenOptions o;
  o.tiny = true;
  o.allow_non_seekable = false;
  o.max_frames = 12;
  Scenario s = GenScenario(g, c, o);
  for (auto& f : s.ops)
    if (f.data.size() < 9000 && g.p(50)) f.data.resize(g.u(3000, 9000), 0x55);
  const bool chunks = g.b();
  const std::string dir = pbt::ScratchPath("disk");
  const std::string base = dir + "/b";
  auto run = [&](Scenario t, uint64_t limit, const std::string& obstacle) {
    mkdir(dir.c_str(), 0700);
    struct stat st;
    if (!obstacle.empty()) mkdir((dir + "/" + obstacle).c_str(), 0700);
    RunResult r;
    if (!chunks) {
      mkvmuxer::MkvWriter w;
      if (!w.Open(base.c_str()) || stat(base.c_str(), &st)) return r;
      SizeLimit l(limit);
      mkvmuxer::Segment seg;
      r = RunScenario(&t, &w, &seg);
      w.Close();
      return r;
    }
    MemWriter unused(true);
    SizeLimit l(limit);
    mkvmuxer::Segment seg;
    r.init = seg.Init(&unused) && seg.SetChunking(true, base.c_str());
    r.configured = r.init && Configure(&seg, &t);
    for (auto& op : t.ops)
      if (!AddOne(&seg, t, &op)) ++r.rejected;
    r.finalized = seg.Finalize();
    return r;
  };
  const RunResult whole = run(s, RLIM_INFINITY, "");
  auto files = Collect(dir);
  if (!whole.all_ok()) {
    c.check(!Relevant(s), "fault-free run to a file failed");
    c.label("fault-free-run-refused");
    return;
  }
  uint64_t most = 0;
  std::vector<std::string> names;
  for (auto& f : files) {
    most = std::max(most, f.second.second);
    names.push_back(f.first);
  }
  c.check(!names.empty(), "no file written");
  if (names.size() > 2) c.label("several-chunks");
  for (int k = 0; k < 3; ++k) {
    uint64_t limit = UINT64_MAX;
    std::string obstacle;
    if (chunks && g.p(40)) {
      obstacle = g.pick(names);
    } else {
      limit = g.p(25) ? most + g.u(0, 3) : g.u(0, most);
    }
    const RunResult r = run(s, obstacle.empty() ? limit : RLIM_INFINITY, obstacle);
    auto now = Collect(dir);
    c.desc << (chunks ? "chunks " : "file ") << "of " << most << " bytes, ";
    if (!obstacle.empty()) c.desc << obstacle << " is a directory\n";
    else c.desc << "disk full at " << limit << "\n";
    if (!obstacle.empty()) {
      if (r.all_ok()) c.fail(obstacle + " could not be opened, but every call reported success");
      c.label("open-fails");
      continue;
    }
    if (limit >= most) {
      c.check(r.all_ok(), "a call failed though there was room");
      c.check(now == files, "the files are not those of the first run");
      c.label("fits");
    } else if (most - limit > 16384) {
      // (What is left is less than the C library buffers: its close reports it.)
      if (r.all_ok()) c.fail("the disk was full, but every call reported success");
      c.label("full");
      c.nontrivial();
    }
  }
  c.desc << Describe(s);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C06";
  p.level = "fault_enumeration";
  p.rule =
      "A case is a small muxing history (1-2 tracks, 1-6 frames, any mode), "
      "re-run with a fault at each writer operation in turn (write or seek, "
      "transient or persistent, negative or positive status; every operation "
      "up to 200, else every n-th); suite move does the same for every writer "
      "and reader operation while the cues are moved; suite disk writes real files "
      "(plain or chunks) with the disk full at some size or a chunk that cannot "
      "be opened. Non-trivial: more than 60 fault points (move: any; disk: full).";
  p.suites = {{"write", Write, 9000, 400000, true},
              {"move", Move, 2500, 100000, true},
              {"disk", Disk, 6000, 200000, true}};
  p.assumptions = {"IMkvWriter/IMkvReader report failure by a non-zero status"};
  return pbt::Main(argc, argv, p);
}
