// C10: parsing a document as it arrives gives what parsing it at once gives.
#include "docgen.h"
#include "mkvdump.h"
#include "pbt.h"

using namespace pbt;
namespace mp = mkvparser;

namespace {

// A source of which a growing prefix is available.  Reads of what is not there
// yet return a positive status (underflow), reads beyond the end fail.
class GrowingReader : public mp::IMkvReader {
 public:
  GrowingReader(const Bytes& d, bool total_known) : d_(d), known_(total_known) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0) return -1;
    if (len == 0) return 0;
    if (pos + len > (long long)d_.size()) return -1;
    if (pos + len > (long long)avail) return 1;
    memcpy(buf, &d_[pos], len);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (total) *total = known_ || avail == d_.size() ? (long long)d_.size() : -1;
    if (available) *available = avail;
    return 0;
  }
  size_t avail = 0;

 private:
  const Bytes& d_;
  bool known_;
};

struct Driver {
  Gen& g;
  Ctx& c;
  const docgen::Doc& d;
  GrowingReader r;
  int style;
  uint64_t grown = 0;
  Driver(Gen& g, Ctx& c, const docgen::Doc& d, bool known, int style)
      : g(g), c(c), d(d), r(d.data, known), style(style) {}

  // More data arrives; fails if the parser waits for data of a document that is
  // complete.
  void Grow(const char* who) {
    if (r.avail >= d.data.size())
      c.fail(std::string(who) + " waits for more data of a complete document");
    size_t n = style == 0 ? 1 : style == 1 ? g.u(1, 40) : g.edgy(1, 4096);
    r.avail = std::min(d.data.size(), r.avail + n);
    ++grown;
  }
  static bool Underflow(long long st) { return st > 0 || st == mp::E_BUFFER_NOT_FULL; }
};

void Incremental(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.density = 20;
  docgen::Doc d = docgen::Generate(g, c, o);
  const bool known = g.b();
  // The end of an unknown-size stream of unknown length is only known when it
  // is complete: GrowingReader tells then.
  Driver dr(g, c, d, known, (int)g.weighted({1, 2, 2}));
  c.desc << "total " << (known ? "known" : "unknown until complete") << " growth style "
         << dr.style << " start " << 0 << "\n"
         << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  if (!known) c.label("total-unknown");
  if (g.p(30)) dr.r.avail = g.u(0, d.data.size());

  mp::EBMLHeader h;
  long long pos = 0, st;
  while ((st = h.Parse(&dr.r, pos)) != 0) {
    if (!Driver::Underflow(st)) c.fail("EBMLHeader::Parse: " + std::to_string(st) + " with " + std::to_string(dr.r.avail) + " bytes available");
    dr.Grow("EBMLHeader::Parse");
  }
  CheckEq(c, pos, (long long)d.segment.pos, "position after the EBML header");
  mp::Segment* s = nullptr;
  while ((st = mp::Segment::CreateInstance(&dr.r, pos, s)) != 0) {
    if (!Driver::Underflow(st)) c.fail("CreateInstance: " + std::to_string(st) + " with " + std::to_string(dr.r.avail) + " bytes available");
    dr.Grow("CreateInstance");
  }
  std::unique_ptr<mp::Segment> own(s);
  while ((st = s->ParseHeaders()) != 0) {
    if (!Driver::Underflow(st)) c.fail("ParseHeaders: " + std::to_string(st) + " with " + std::to_string(dr.r.avail) + " bytes available");
    dr.Grow("ParseHeaders");
  }
  mkvdump::Lines got, want;
  mkvdump::DumpHeaders(s, &got);
  mkvdump::ExpectHeaders(d, &want);
  mkvdump::Compare(c, got, want, "headers");

  // Expected entries per reported cluster.
  std::vector<std::vector<std::string>> entries;
  {
    std::map<size_t, std::vector<std::string>> by;
    for (auto& b : d.blocks) by[b.cluster].push_back(mkvdump::ExpectEntry(d, b));
    for (auto& kv : by) entries.push_back(kv.second);
  }
  auto norm = [](std::string s) {
    // A frame that has not arrived yet cannot be read.
    for (size_t p; (p = s.find("(unreadable)")) != std::string::npos;) s.erase(p, 12);
    return s;
  };
  // Iterates the clusters loaded so far, entry by entry.
  struct Cursor {
    const mp::Cluster* cl = nullptr;
    const mp::BlockEntry* e = nullptr;
    size_t ci = 0, ei = 0;
    bool cluster_done = true;
  } cur;
  bool all_loaded = false;
  auto step = [&]() -> bool {  // one step of consumption; false: nothing to do
    if (cur.cluster_done) {
      const mp::Cluster* nx = cur.cl ? s->GetNext(cur.cl) : s->GetFirst();
      if (!nx || nx->EOS()) return false;
      if (cur.cl) ++cur.ci;
      cur.cl = nx;
      cur.e = nullptr;
      cur.ei = 0;
      cur.cluster_done = false;
      c.check(cur.ci < entries.size(), "reports a cluster the document does not have");
      return true;
    }
    const mp::BlockEntry* e = nullptr;
    const long rc = cur.e ? cur.cl->GetNext(cur.e, e) : cur.cl->GetFirst(e);
    if (rc == mp::E_BUFFER_NOT_FULL) return false;
    if (rc != 0)
      c.fail("cluster iteration: " + std::to_string(rc) + " with " + std::to_string(dr.r.avail) + " bytes available");
    if (!e || e->EOS()) {
      CheckEq(c, cur.ei, entries[cur.ci].size(), "entries of cluster " + std::to_string(cur.ci));
      cur.cluster_done = true;
      return true;
    }
    c.check(cur.ei < entries[cur.ci].size(), "reports a block the document does not have");
    CheckEq(c, norm(mkvdump::DumpEntry(s, cur.cl, e, d.data)), entries[cur.ci][cur.ei],
            "entry " + std::to_string(cur.ei) + " of cluster " + std::to_string(cur.ci));
    ++cur.ei;
    cur.e = e;
    return true;
  };
  const unsigned consume = (unsigned)g.pick({0, 30, 100});
  while (!all_loaded) {
    long long p = 0;
    long len = 0;
    const long rc = s->LoadCluster(p, len);
    if (rc == 1) {
      all_loaded = true;
    } else if (rc == mp::E_BUFFER_NOT_FULL) {
      if (p + len <= (long long)dr.r.avail) c.fail("LoadCluster asks for data that is available: " + std::to_string(p) + "+" + std::to_string(len) + " of " + std::to_string(dr.r.avail));
      bool progress = false;
      if (consume && g.p(consume))
        while (step()) progress = true;
      (void)progress;
      dr.Grow("LoadCluster");
    } else if (rc != 0) {
      c.fail("LoadCluster: " + std::to_string(rc) + " with " + std::to_string(dr.r.avail) + " bytes available");
    } else if (consume && g.p(consume)) {
      while (step()) {
      }
    }
  }
  for (;;) {
    if (step()) continue;
    if (cur.cluster_done) break;
    dr.Grow("cluster iteration");
  }
  CheckEq(c, cur.cl ? cur.ci + 1 : 0, entries.size(), "number of clusters");
  dr.r.avail = d.data.size();
  c.check(s->DoneParsing(), "DoneParsing is false at the end");
  got.clear(), want.clear();
  mkvdump::DumpClusters(s, d.data, &got);
  mkvdump::ExpectClusters(d, &want);
  mkvdump::Compare(c, got, want, "clusters");
  got.clear(), want.clear();
  mkvdump::DumpCues(s, &got);
  mkvdump::ExpectCues(d, &want);
  mkvdump::Compare(c, got, want, "cues");
  c.count("arrivals", dr.grown);
  if (dr.grown >= 3 && d.blocks.size() >= 2) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C10";
  p.level = "exploration";
  p.rule =
      "A case is a well-formed document and an arrival schedule (one byte at a "
      "time, small or large chunks; total length known or not until complete) with "
      "interleaved loading and consumption; what is reported at every point must be "
      "a prefix of, and at the end equal to, the document's content. Non-trivial: "
      "at least 3 arrivals and 2 blocks.";
  p.suites = {{"incremental", Incremental, 120000, 4000000, true}};
  p.assumptions = {"readers return a positive status for data that is not there yet",
                   "the document builder in lib/docgen.cc"};
  return pbt::Main(argc, argv, p);
}
