// C22: when the reader fails, mkvparser reports failure: a read or length
// query that fails at any point during parsing never turns into a successful
// result with missing or wrong content, and never into a crash or leak.
#include <limits.h>

#include <set>

#include "docgen.h"
#include "mkvdump.h"
#include "pbt.h"

using pbt::Bytes;
using pbt::CheckEq;
using pbt::Ctx;
using pbt::Gen;
namespace mp = mkvparser;

namespace {

class FaultReader : public mp::IMkvReader {
 public:
  explicit FaultReader(const Bytes& d) : d_(d) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (Fault()) {
      // A failing read may have written anything.
      if (len > 0 && scribble) memset(buf, 0xA5, (size_t)len);
      return status;
    }
    if (pos < 0 || len < 0) return -1;
    if (len == 0) return 0;
    if (pos >= (long long)d_.size() || len > (long long)d_.size() - pos) return -1;
    memcpy(buf, &d_[pos], len);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (lengths && Fault()) return -1;
    if (total) *total = (long long)d_.size();
    if (available) *available = (long long)d_.size();
    return 0;
  }
  bool Fault() {
    if (!on) return false;
    const uint64_t k = calls++;
    if (k == at || (persistent && k > at)) {
      fired = true;
      return true;
    }
    return false;
  }
  const Bytes& d_;
  bool on = true, persistent = false, fired = false, lengths = false, scribble = false;
  int status = -1;
  uint64_t calls = 0, at = UINT64_MAX;
};

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.density = (unsigned)g.pick({10, 35, 80});
  o.max_clusters = 3;
  o.max_blocks = 4;
  docgen::Doc d = docgen::Generate(g, c, o);
  c.desc << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  return d;
}

struct Plan {
  bool persistent, lengths, scribble;
  int status;
  uint64_t pick;
};
Plan MakePlan(Gen& g) {
  Plan p;
  p.persistent = g.b();
  p.lengths = g.p(30);
  p.scribble = g.b();
  p.status = g.pick({-1, -1, -2, -3, 1, -100});
  p.pick = g.u(0, 1u << 30);
  return p;
}
void Apply(const Plan& p, FaultReader* r, uint64_t total, Ctx& c) {
  r->persistent = p.persistent;
  r->lengths = p.lengths;
  r->scribble = p.scribble;
  r->status = p.status;
  r->calls = 0;
  r->at = total ? p.pick % total : 0;
  c.desc << "fault at call " << r->at << " of " << total << " status " << p.status
         << (p.persistent ? " persistent" : " once") << (p.lengths ? " with Length" : "")
         << "\n";
}

// Opening and loading.
long Open(FaultReader* r, std::unique_ptr<mp::Segment>* s, std::string* doctype,
          bool step) {
  mp::EBMLHeader h;
  long long pos = 0;
  long long st = h.Parse(r, pos);
  if (st != 0) return -1;
  *doctype = h.m_docType ? h.m_docType : "(null)";
  mp::Segment* raw = nullptr;
  st = mp::Segment::CreateInstance(r, pos, raw);
  s->reset(raw);
  if (st != 0 || !raw) return -2;
  if (!step) return raw->Load() == 0 ? 0 : -3;
  if (raw->ParseHeaders() != 0) return -4;
  for (;;) {
    const long rc = raw->LoadCluster();
    if (rc < 0) return -5;
    if (rc > 0) return 0;
  }
}

// Recorded finding: Tracks::ParseTrackEntry ignores the result of parsing the
// content encodings, so a fault there drops the rest of them.  Cuts |want| to
// the encodings reported, if these are the first ones.
bool DroppedEncodings(const mkvdump::Lines& got, mkvdump::Lines* want) {
  bool any = false;
  for (size_t k = 0; k < got.size() && k < want->size(); ++k) {
    unsigned long a = 0, b = 0;
    if (sscanf(got[k].c_str(), " encodings %lu", &a) != 1 ||
        sscanf((*want)[k].c_str(), " encodings %lu", &b) != 1 || a >= b)
      continue;
    any = true;
    (*want)[k] = got[k];
    unsigned long seen = 0;
    size_t q = k + 1;
    auto starts = [&](const char* p) { return (*want)[q].rfind(p, 0) == 0; };
    while (q < want->size() &&
           starts("  ")) {
      if (starts("  encoding ")) ++seen;
      if (seen > a)
        want->erase(want->begin() + q);
      else
        ++q;
    }
  }
  return any;
}

// Recorded finding: SeekHead::Parse drops an entry it fails to read.  Removes
// the entries of |want| (at most one per fault) that are not reported.
bool DroppedSeeks(const mkvdump::Lines& got, mkvdump::Lines* want) {
  const std::set<std::string> have(got.begin(), got.end());
  bool any = false;
  for (size_t k = 0; k < want->size();) {
    if ((*want)[k].rfind(" seek id ", 0) == 0 && !have.count((*want)[k])) {
      want->erase(want->begin() + k);
      any = true;
    } else {
      ++k;
    }
  }
  return any;
}

void Load(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  const Plan p = MakePlan(g);
  const bool step = g.b();
  uint64_t total = 0;
  {
    FaultReader r(d.data);
    r.lengths = p.lengths;
    std::unique_ptr<mp::Segment> s;
    std::string dt;
    CheckEq(c, Open(&r, &s, &dt, step), 0l, "loading without faults");
    total = r.calls;
  }
  FaultReader r(d.data);
  Apply(p, &r, total, c);
  std::unique_ptr<mp::Segment> s;
  std::string dt;
  const long rc = Open(&r, &s, &dt, step);
  c.check(r.fired, "the fault did not happen");
  c.nontrivial();
  c.label(rc == 0 ? "tolerated" : "reported at stage " + std::to_string(-rc));
  r.on = false;
  if (rc <= -2) CheckEq(c, dt, d.ebml.child(ebml::kDocType)->s, "DocType");
  if (rc != 0) return;
  mkvdump::Lines got, want;
  mkvdump::DumpHeaders(s.get(), &got);
  mkvdump::ExpectHeaders(d, &want);
  if (DroppedEncodings(got, &want))
    c.known("C22", "Segment::Load succeeds without the content encodings of a track when reading them fails");
  if (DroppedSeeks(got, &want))
    c.known("C22", "Segment::Load succeeds without a seek entry when reading it fails");
  mkvdump::Compare(c, got, want, "headers after a tolerated fault");
  got.clear(), want.clear();
  mkvdump::DumpClusters(s.get(), d.data, &got);
  mkvdump::ExpectClusters(d, &want);
  mkvdump::Compare(c, got, want, "clusters after a tolerated fault");
  got.clear(), want.clear();
  mkvdump::DumpCues(s.get(), &got);
  mkvdump::ExpectCues(d, &want);
  mkvdump::Compare(c, got, want, "cues after a tolerated fault");
}

// The blocks of loaded clusters; returns false when an error was reported.
bool Walk(mp::Segment* s, FaultReader* r, const Bytes& data, mkvdump::Lines* out) {
  const mp::Cluster* cl = s->GetFirst();
  while (cl && !cl->EOS()) {
    const mp::BlockEntry* e = nullptr;
    long st = cl->GetFirst(e);
    if (st < 0) return false;
    while (e && !e->EOS()) {
      const bool on = r->on;
      r->on = false;
      out->push_back(mkvdump::DumpEntry(s, cl, e, data));
      r->on = on;
      const mp::BlockEntry* nx = nullptr;
      st = cl->GetNext(e, nx);
      if (st < 0) return false;
      e = nx;
    }
    cl = s->GetNext(cl);
  }
  return true;
}

void Blocks(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  const Plan p = MakePlan(g);
  uint64_t total = 0;
  mkvdump::Lines want, got;
  for (auto& b : d.blocks) want.push_back(mkvdump::ExpectEntry(d, b));
  for (int round = 0; round < 2; ++round) {
    FaultReader r(d.data);
    std::unique_ptr<mp::Segment> s;
    std::string dt;
    r.on = false;
    CheckEq(c, Open(&r, &s, &dt, false), 0l, "loading without faults");
    r.on = true;
    r.lengths = p.lengths;
    got.clear();
    if (round == 0) {
      c.check(Walk(s.get(), &r, d.data, &got), "walk without faults");
      mkvdump::Compare(c, got, want, "blocks without faults");
      total = r.calls;
      if (!total) return;
      continue;
    }
    Apply(p, &r, total, c);
    const bool ok = Walk(s.get(), &r, d.data, &got);
    c.check(r.fired, "the fault did not happen");
    c.nontrivial();
    c.label(ok ? "walk tolerated" : "walk reported");
    // What was reported before the error is right, and without one it is all.
    mkvdump::Lines w = want;
    if (!ok) {
      c.check(got.size() <= want.size(), "more blocks than there are");
      w.resize(got.size());
    }
    mkvdump::Compare(c, got, w, "blocks with a fault");
    if (!ok) {
      // The fault is over: walking again gives the rest or an error.
      r.on = false;
      got.clear();
      const bool again = Walk(s.get(), &r, d.data, &got);
      w = want;
      if (!again) {
        c.check(got.size() <= want.size(), "more blocks than there are");
        w.resize(got.size());
      }
      c.label(again ? "recovered" : "still failing");
      mkvdump::Compare(c, got, w, "blocks after a fault");
    }
  }
}

// Loading the cue points, in the loop applications use.
void CuePoints(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  const Plan p = MakePlan(g);
  mkvdump::Lines want;
  mkvdump::ExpectCues(d, &want);
  uint64_t total = 0;
  long points = 0;
  for (int round = 0; round < 2; ++round) {
    FaultReader r(d.data);
    std::unique_ptr<mp::Segment> s;
    std::string dt;
    r.on = false;
    CheckEq(c, Open(&r, &s, &dt, false), 0l, "loading without faults");
    const mp::Cues* cu = s->GetCues();
    if (!cu) return;
    r.on = true;
    r.lengths = p.lengths;
    if (round == 1) Apply(p, &r, total, c);
    long rounds = 0, failed = 0;
    while (!cu->DoneParsing()) {
      c.check(++rounds <= points + 100, "loading cue points does not end");
      if (!cu->LoadCuePoint()) ++failed;
    }
    r.on = false;
    if (round == 0) {
      // (the last call fails when something else follows the last point)
      c.check(failed <= 1, "LoadCuePoint failures without faults");
      points = cu->GetCount();
      total = r.calls;
      if (!total) return;
      continue;
    }
    c.check(r.fired, "the fault did not happen");
    c.nontrivial();
    c.label(cu->GetCount() < points ? "cues reported" : "cues tolerated");
    if (!failed) CheckEq(c, cu->GetCount(), points, "cue points with a tolerated fault");
    if (cu->GetCount() == points) failed = 0;
    c.check(cu->GetCount() <= points, "more cue points than there are");
    // The points loaded are the first ones, unharmed; looking up works.
    mkvdump::Lines got, w = want;
    mkvdump::DumpCues(s.get(), &got);
    if (failed) {
      c.check(!got.empty() && got.size() <= w.size(), "cue point details");
      w.resize(got.size());
      w[0] = got[0];
    }
    mkvdump::Compare(c, got, w, "cue points with a fault");
    const mp::CuePoint* cp = nullptr;
    const mp::CuePoint::TrackPosition* tp = nullptr;
    for (unsigned long k = 0; k < s->GetTracks()->GetTracksCount(); ++k) {
      const mp::Track* t = s->GetTracks()->GetTrackByIndex(k);
      for (long long ns : {0ll, 1000000ll, 1ll << 40, LLONG_MAX})
        if (cu->Find(ns, t, cp, tp)) {
          c.check(cp && tp, "Find without a result");
          CheckEq(c, (long long)tp->m_track, (long long)t->GetNumber(), "track found");
        }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C22";
  p.level = "exploration";
  p.rule = "a fault was injected while parsing";
  p.suites.push_back({"load", Load, 100000, 2000000});
  p.suites.push_back({"blocks", Blocks, 60000, 2000000});
  p.suites.push_back({"cues", CuePoints, 40000, 1000000});
  return pbt::Main(argc, argv, p);
}
