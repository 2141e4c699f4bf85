// C16: mkvparser handles arbitrary bytes: whatever the file holds, every call
// of the reading API returns without crash, undefined behaviour, failed
// assertion, leak or endless loop, and what it reports lies in the file.
#include <algorithm>
#include <memory>
#include <set>

#include "docgen.h"
#include "mkvdump.h"
#include "pbt.h"

using namespace ebml;
using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;
namespace mp = mkvparser;

namespace {

class Reader : public mp::IMkvReader {
 public:
  Reader(const Bytes& d, Ctx* c) : d_(d), c_(c), avail(d.size()) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (++reads > 3000000) c_->fail("more than 3 million reads");
    if (pos < 0 || len < 0) return -1;
    if (len == 0) return 0;
    if (pos >= (long long)d_.size() || len > (long long)d_.size() - pos) return -1;
    if (pos >= (long long)avail || len > (long long)avail - pos) return 1;
    memcpy(buf, &d_[pos], len);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (total) *total = hide_total ? -1 : (long long)d_.size();
    if (available) *available = avail;
    return 0;
  }
  const Bytes& d_;
  Ctx* c_;
  size_t avail;
  bool hide_total = false;
  uint64_t reads = 0;
};

struct Drive {
  Gen& g;
  Ctx& c;
  const Bytes& d;
  Reader r;
  std::unique_ptr<mp::Segment> s;
  std::vector<const mp::Cluster*> clusters;
  std::vector<const mp::BlockEntry*> entries;
  std::set<const mp::BlockEntry*> seen;
  std::vector<long long> starts;  // of what looks like a cluster
  uint64_t frames = 0;

  Drive(Gen& g, Ctx& c, const Bytes& d) : g(g), c(c), d(d), r(d, &c) {
    for (size_t k = 0; k + 4 <= d.size(); ++k)
      if (d[k] == 0x1F && d[k + 1] == 0x43 && d[k + 2] == 0xB6 && d[k + 3] == 0x75)
        starts.push_back((long long)k);
  }

  void See(const mp::Cluster* cl) {
    if (!cl || cl->EOS()) return;
    if (std::find(clusters.begin(), clusters.end(), cl) == clusters.end()) {
      if (clusters.size() > d.size()) c.fail("more clusters than bytes");
      clusters.push_back(cl);
    }
    cl->GetTimeCode();
    cl->GetTime();
    cl->GetIndex();
    cl->GetPosition();
    cl->GetElementSize();
    cl->GetEntryCount();
  }
  void See(const mp::BlockEntry* e) {
    if (!e || e->EOS()) return;
    if (!seen.insert(e).second) return;
    if (entries.size() > d.size()) c.fail("more entries than bytes");
    entries.push_back(e);
    const mp::Block* b = e->GetBlock();
    c.check(b != nullptr, "entry without block");
    const mp::Cluster* cl = e->GetCluster();
    c.check(cl != nullptr, "entry without cluster");
    c.check(b->m_start >= 0 && b->m_size > 0 && b->m_start < (long long)d.size(),
            "block outside the file");
    // An unlaced block may be cut off by the end of the file.
    const bool cut = b->m_start + b->m_size > (long long)d.size();
    b->GetTimeCode(cl);
    b->GetTime(cl);
    b->IsKey();
    b->IsInvisible();
    b->GetLacing();
    b->GetDiscardPadding();
    c.check(b->GetTrackNumber() > 0, "track number");
    const size_t avail = r.avail;
    r.avail = d.size();
    long long at = -1;
    c.check(b->GetFrameCount() > 0, "block without frames");
    for (int k = 0; k < b->GetFrameCount(); ++k) {
      const auto& f = b->GetFrame(k);
      c.check(f.len > 0 && f.pos > b->m_start, "frame");
      if (at >= 0) c.check(f.pos == at, "frames do not tile the block");
      at = f.pos + f.len;
      if (cut) {
        unsigned char one[64];
        c.check(b->GetFrameCount() == 1, "laced block is cut off");
        c.check(f.len > 64 || f.Read(&r, one) != 0, "frame beyond the end is read");
        continue;
      }
      Bytes buf(f.len);
      c.check(f.Read(&r, buf.data()) == 0, "frame cannot be read");
      c.check(!memcmp(buf.data(), &d[f.pos], f.len), "frame data");
      ++frames;
    }
    r.avail = avail;
    c.check(at == b->m_start + b->m_size, "frames do not fill the block");
    if (e->GetKind() == mp::BlockEntry::kBlockGroup) {
      auto* bg = static_cast<const mp::BlockGroup*>(e);
      bg->GetPrevTimeCode();
      bg->GetNextTimeCode();
      bg->GetDurationTimeCode();
    }
  }
  long long Time() {
    switch (g.u(0, 3)) {
      case 0: return g.i(-1, 100000000000ll);
      case 1: return (long long)g.edgy(0, INT64_MAX);
      case 2:
        if (!clusters.empty()) return g.pick(clusters)->GetTime();
        return 0;
      default:
        if (!entries.empty()) {
          auto* e = g.pick(entries);
          return e->GetBlock()->GetTime(e->GetCluster());
        }
        return 5;
    }
  }
  const mp::Track* ATrack() {
    const mp::Tracks* t = s->GetTracks();
    if (!t || !t->GetTracksCount()) return nullptr;
    const mp::Track* tr = t->GetTrackByIndex(g.u(0, t->GetTracksCount() - 1));
    if (tr) c.check(t->GetTrackByNumber(tr->GetNumber()) != nullptr, "GetTrackByNumber");
    return tr;
  }
  void WalkCluster(const mp::Cluster* cl) {
    const mp::BlockEntry* e = nullptr;
    long st = cl->GetFirst(e);
    size_t n = 0;
    while (st >= 0 && e && !e->EOS()) {
      See(e);
      if (++n > d.size()) c.fail("cluster iteration does not end");
      const mp::BlockEntry* nx = nullptr;
      st = cl->GetNext(e, nx);
      e = nx;
    }
    e = nullptr;
    if (cl->GetLast(e) >= 0) See(e);
    cl->GetFirstTime();
    cl->GetLastTime();
  }
  void Op() {
    // Loading ahead is worth more tries.
    switch (g.weighted({3, 1, 2, 2, 2, 2, 3, 2, 1, 2, 5, 2, 5, 1, 1})) {
      case 0: {
        long long pos = 0;
        long len = 0;
        c.desc << "LoadCluster ";
        const long st = g.b() ? s->LoadCluster() : s->LoadCluster(pos, len);
        if (st == 0) See(s->GetLast());
        break;
      }
      case 1: {
        c.desc << "headers ";
        mkvdump::Lines l;
        mkvdump::DumpHeaders(s.get(), &l);
        break;
      }
      case 2: {
        c.desc << "cues ";
        const mp::Cues* cu = s->GetCues();
        if (!cu) break;
        size_t n = g.u(0, 20);
        while (n-- && cu->LoadCuePoint()) {
        }
        cu->DoneParsing();
        cu->GetCount();
        break;
      }
      case 3: {
        c.desc << "cues-find ";
        const mp::Cues* cu = s->GetCues();
        const mp::Track* t = ATrack();
        if (!cu || !t) break;
        if (cu->GetCount() == 0) cu->LoadCuePoint();
        const mp::CuePoint* cp = nullptr;
        const mp::CuePoint::TrackPosition* tp = nullptr;
        if (cu->Find(Time(), t, cp, tp) && cp && tp) See(cu->GetBlock(cp, tp));
        break;
      }
      case 4: {
        c.desc << "cues-walk ";
        const mp::Cues* cu = s->GetCues();
        if (!cu) break;
        size_t n = 0;
        for (const mp::CuePoint* cp = cu->GetFirst(); cp; cp = cu->GetNext(cp)) {
          if (++n > d.size()) c.fail("cue iteration does not end");
          cp->GetTimeCode();
          cp->GetTime(s.get());
          const mp::Tracks* ts = s->GetTracks();
          for (unsigned long k = 0; ts && k < ts->GetTracksCount(); ++k) {
            const mp::Track* t = ts->GetTrackByIndex(k);
            if (!t) continue;
            if (const auto* tp = cp->Find(t)) {
              const mp::BlockEntry* e = cu->GetBlock(cp, tp);
              See(e);
              if (e && !e->EOS()) See(e->GetCluster());
            }
          }
        }
        if (cu->GetCount()) cu->GetLast();
        break;
      }
      case 5: {
        c.desc << "track-walk ";
        const mp::Track* t = ATrack();
        if (!t) break;
        const mp::BlockEntry* e = nullptr;
        long st = t->GetFirst(e);
        size_t n = 0;
        while (st >= 0 && e && !e->EOS() && n < 200) {
          See(e);
          See(e->GetCluster());
          ++n;
          const mp::BlockEntry* nx = nullptr;
          st = t->GetNext(e, nx);
          e = nx;
        }
        break;
      }
      case 6: {
        const mp::Track* t = ATrack();
        const long long tm = Time();
        c.desc << "seek(" << tm << ") ";
        if (!t) break;
        const mp::BlockEntry* e = nullptr;
        if (t->Seek(tm, e) >= 0) See(e);
        break;
      }
      case 7: {
        const long long tm = Time();
        c.desc << "find-cluster(" << tm << ") ";
        const mp::Cluster* cl = s->FindCluster(tm);
        See(cl);
        if (cl && !cl->EOS()) WalkCluster(cl);
        break;
      }
      case 8: {
        c.desc << "cluster-walk ";
        const mp::Cluster* cl = s->GetFirst();
        size_t n = 0;
        while (cl && !cl->EOS() && n < 100) {
          See(cl);
          WalkCluster(cl);
          cl = s->GetNext(cl);
          ++n;
        }
        See(s->GetLast());
        break;
      }
      case 9: {
        if (clusters.empty()) break;
        const mp::Cluster* cl = g.pick(clusters);
        const mp::Track* t = ATrack();
        const long long tm = Time();
        c.desc << "entry(" << tm << ") ";
        if (t) See(cl->GetEntry(t, tm));
        if (t && g.b()) See(cl->GetEntry(t));
        break;
      }
      case 10: {
        if (clusters.empty()) break;
        const mp::Cluster* cl = g.pick(clusters);
        c.desc << "get-next ";
        if (g.b()) {
          See(s->GetNext(cl));
        } else {
          const mp::Cluster* nx = nullptr;
          long long pos = 0;
          long len = 0;
          const long st = s->ParseNext(cl, nx, pos, len);
          if (st == 0) See(nx);
        }
        break;
      }
      case 11: {
        if (clusters.empty()) break;
        const mp::Cluster* cl = g.pick(clusters);
        c.desc << "parse ";
        long long pos = 0;
        long len = 0;
        if (g.b()) {
          cl->Parse(pos, len);
        } else if (g.b()) {
          cl->Load(pos, len);
        } else {
          const mp::BlockEntry* e = nullptr;
          if (cl->GetEntry((long)g.u(0, 6), e) > 0) See(e);
        }
        break;
      }
      case 12: {
        long long pos;
        if (!starts.empty() && g.p(75))
          pos = g.pick(starts) - s->m_start;
        else if (g.p(70) || clusters.empty())
          pos = g.p(70) ? (long long)g.u(0, d.size()) : (long long)g.edgy(0, INT64_MAX);
        else
          pos = g.pick(clusters)->GetPosition();
        if (pos < 0) break;
        c.desc << "preload(" << pos << ") ";
        if (g.b()) {
          const mp::Cluster* cl = s->FindOrPreloadCluster(pos);
          See(cl);
          if (cl && g.b()) WalkCluster(cl);
        } else {
          long long p = 0;
          long l = 0;
          mp::Cluster::HasBlockEntries(s.get(), pos, p, l);
        }
        break;
      }
      case 13: {
        const mp::SeekHead* sh = s->GetSeekHead();
        long long off = g.p(70) ? (long long)g.u(0, d.size()) : (long long)g.edgy(0, INT64_MAX);
        if (sh && sh->GetCount() && g.p(60))
          off = sh->GetEntry((int)g.u(0, sh->GetCount() - 1))->pos;
        c.desc << "parse-cues(" << off << ") ";
        long long p = 0;
        long l = 0;
        s->ParseCues(off, p, l);
        break;
      }
      default: {
        c.desc << "segment ";
        s->DoneParsing();
        s->GetDuration();
        s->GetCount();
        See(s->GetLast());
        if (r.avail < d.size()) r.avail = g.u(r.avail, d.size());
      }
    }
  }
  void Run() {
    if (g.p(15)) {
      r.avail = g.u(0, d.size());
      if (g.p(30)) r.hide_total = true;
    }
    long long pos = 0;
    {
      mp::EBMLHeader h;
      long long st = h.Parse(&r, pos);
      if (st != 0) {
        c.label("no EBML header");
        pos = 0;
        r.avail = d.size();
        if (h.Parse(&r, pos) != 0) pos = (long long)g.u(0, d.size());
      }
    }
    mp::Segment* raw = nullptr;
    const long long st = mp::Segment::CreateInstance(&r, pos, raw);
    s.reset(raw);
    if (st != 0 || !s) {
      c.check(!s || st == 0, "segment despite an error");
      c.label("no segment");
      return;
    }
    if (g.p(40)) {
      c.desc << "Load ";
      const long rc = s->Load();
      c.label(rc == 0 ? "loaded" : "load failed");
      // A caller may go on with the clusters that were loaded.
      if (rc != 0 && (!s->GetInfo() || !s->GetTracks() || !s->GetCount())) return;
    } else {
      c.desc << "ParseHeaders ";
      long long rc = s->ParseHeaders();
      for (int k = 0; k < 3 && rc > 0; ++k) {
        r.avail = std::min<size_t>(d.size(), r.avail + g.u(1, 200));
        rc = s->ParseHeaders();
      }
      c.label(rc == 0 ? "headers" : "headers failed");
      if (rc != 0) return;
      c.check(s->GetInfo() && s->GetTracks(), "headers without Info or Tracks");
    }
    const size_t n = g.u(1, 12);
    for (size_t k = 0; k < n; ++k) Op();
    r.avail = d.size();
    Op();
    c.count("frames", frames);
    c.count("clusters", clusters.size());
    if (!clusters.empty() || s->GetTracks()) c.nontrivial();
  }
};

void Run(Gen& g, Ctx& c, const Bytes& d) {
  c.desc << "data " << pbt::Hex(d, 3000) << "\n";
  Drive x(g, c, d);
  x.Run();
}

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.density = (unsigned)g.pick({5, 15, 40});
  o.max_clusters = 4;
  o.max_blocks = 4;
  o.monotone = g.b();
  return docgen::Generate(g, c, o);
}

void Tree(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  std::vector<El*> late;  // damage to the headers ends the story early
  for (auto& k : d.segment.kids)
    if (k.id == kCluster || k.id == kCues || k.id == kSeekHead) late.push_back(&k);
  if (!late.empty() && g.p(65))
    docgen::MutateTree(g, g.pick(late));
  else
    docgen::MutateTree(g, g.p(5) ? &d.ebml : &d.segment);
  d.data.clear();
  const uint64_t n = docgen::Layout(&d.ebml, 0);
  docgen::Layout(&d.segment, n);
  docgen::Serialize(d.ebml, &d.data);
  docgen::Serialize(d.segment, &d.data);
  if (g.p(20)) docgen::Mutate(g, &d.data);
  Run(g, c, d.data);
}

void Mutated(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  const size_t rounds = g.small(0, 2);
  for (size_t k = 0; k <= rounds; ++k) docgen::Mutate(g, &d.data);
  Run(g, c, d.data);
}

// Clusters with extreme and unordered times, cues to anywhere.
void Times(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  std::function<void(El*)> walk = [&](El* e) {
    for (auto& k : e->kids) {
      walk(&k);
      const bool time = k.id == kTimecode || k.id == kCueTime || k.id == kTimecodeScale ||
                        k.id == kChapterTimeStart || k.id == kChapterTimeEnd || k.id == kDuration ||
                        k.id == kCueClusterPosition || k.id == kCueBlockNumber ||
                        k.id == kSeekPosition || k.id == kBlockDuration ||
                        k.id == kDefaultDuration || k.id == kReferenceBlock || k.id == kDiscardPadding;
      if (!time || !g.p(40)) continue;
      k.body.clear();
      if (k.id == kDuration) {
        const double v = g.pick<double>({0, -1, 1e300, 1e18, 9.3e18, -1e300, 1e-300, 0.0 / 0.0});
        uint64_t b;
        memcpy(&b, &v, 8);
        PutUintN(&k.body, b, 8);
        continue;
      }
      PutUintN(&k.body, g.p(20) ? g.u(0, 5000) : g.edgy(0, INT64_MAX), 8);
    }
  };
  walk(&d.segment);
  d.data.clear();
  const uint64_t n = docgen::Layout(&d.ebml, 0);
  docgen::Layout(&d.segment, n);
  docgen::Serialize(d.ebml, &d.data);
  docgen::Serialize(d.segment, &d.data);
  Run(g, c, d.data);
}

// Element headers thrown together.
void Soup(Gen& g, Ctx& c) {
  static const std::vector<uint32_t>* ids = [] {
    auto* v = new std::vector<uint32_t>;
    for (auto& r : SchemaTable()) v->push_back(r.first);
    return v;
  }();
  Bytes d;
  if (g.p(90)) {
    PutId(&d, kEBML);
    PutSize(&d, 7, 1);
    PutId(&d, kDocType);
    PutSize(&d, 4, 1);
    for (char ch : std::string("webm")) d.push_back((uint8_t)ch);
    PutId(&d, kSegment);
    if (g.p(70)) PutSize(&d, kUnknown, 1);
    else PutSize(&d, g.small(0, 300), 0);
  }
  uint32_t in = kSegment;
  const size_t n = g.u(1, 30);
  for (size_t k = 0; k < n; ++k) {
    uint32_t id = g.pick(*ids);
    for (int t = 0; t < 12 && g.p(95); ++t) {
      auto it = SchemaTable().find(id);
      if (it != SchemaTable().end() && it->second.parent == in) break;
      id = g.pick(*ids);
    }
    PutId(&d, id);
    const auto it = SchemaTable().find(id);
    if (it != SchemaTable().end() && it->second.type == kMaster) {
      if (g.p(85)) in = id;
      else in = kSegment;
      if (g.p(15)) PutSize(&d, kUnknown, 1);
      else PutSize(&d, g.p(80) ? g.small(0, 60) : g.edgy(0, (1ull << 56) - 2), 0);
    } else {
      const uint64_t sz = g.p(90) ? g.small(0, 10) : g.edgy(0, (1ull << 56) - 2);
      PutSize(&d, sz, 0);
      const uint64_t body = g.p(90) ? std::min<uint64_t>(sz, 20) : g.u(0, 6);
      for (uint64_t q = 0; q < body; ++q)
        d.push_back(g.p(50) ? (uint8_t)g.u(0, 3) : g.pick<uint8_t>({0x80, 0x81, 0xFF, 0x7F, 0x40, 0x41, 1}));
      if (g.p(10)) in = kSegment;
      if (g.p(5)) in = kTracks;
      if (g.p(5)) in = kCluster;
    }
  }
  Run(g, c, d);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C16";
  p.level = "exploration";
  p.rule = "the parser got as far as a track list or a cluster";
  p.suites.push_back({"tree", Tree, 60000, 2000000});
  p.suites.push_back({"times", Times, 40000, 1500000});
  p.suites.push_back({"mutated", Mutated, 40000, 1500000});
  p.suites.push_back({"soup", Soup, 60000, 2000000});
  return pbt::Main(argc, argv, p);
}
