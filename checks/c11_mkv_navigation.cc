// C11: navigation in mkvparser (track iteration, seeking, cues, preloading)
// against a model of the document.
#include <algorithm>

#include "docgen.h"
#include "mkvdump.h"
#include "muxlib.h"
#include "pbt.h"

using namespace pbt;
using namespace docgen;
namespace mp = mkvparser;

namespace {

struct CueTP {
  uint64_t track, block;
  size_t cluster;  // index into World::clusters
};
struct Cue {
  uint64_t tc;
  std::vector<CueTP> tps;
};
struct World {
  Doc d;
  struct Cl {
    uint64_t tc = 0;
    uint64_t off = 0;            // relative to the segment payload
    uint64_t size = 0;           // of the element
    std::vector<size_t> blocks;  // indices into d.blocks
  };
  std::vector<Cl> clusters;      // with at least one block, in file order
  std::vector<Cue> cues;
  bool negative = false;
  long long scale = 0;
  long long ns(size_t b) const { return d.blocks[b].tc() * scale; }
  long long cns(size_t c) const { return (long long)clusters[c].tc * scale; }
  long long cues_off = -1;
  // The blocks of the first |loaded| clusters.
  size_t LoadedBlocks(size_t loaded) const {
    return loaded < clusters.size() ? clusters[loaded].blocks.front() : d.blocks.size();
  }
  // Is some block of the track so far from the one before (or from the start)
  // that track iteration gives up (100 clusters)?
  bool Gap(uint64_t track, size_t nblocks) const {
    size_t at = 0;
    for (size_t b = 0; b < nblocks; ++b)
      if (d.blocks[b].track == track) {
        const size_t k = cluster_of(b);
        if (k - at > 95) return true;
        at = k;
      }
    return cluster_of(nblocks - 1) - at > 95;
  }
  size_t cluster_of(size_t block) const {
    size_t lo = 0, hi = clusters.size();
    while (hi - lo > 1) {
      const size_t mid = (lo + hi) / 2;
      (clusters[mid].blocks.front() <= block ? lo : hi) = mid;
    }
    return lo;
  }
};

World Make(Gen& g, Ctx& c, bool preload, bool wide = false) {
  World w;
  Options o;
  o.mkv = true;
  o.max_clusters = 0;
  o.cues = false;
  o.density = 10;
  o.unknown_sizes = false;
  w.d = Generate(g, c, o);
  Doc& d = w.d;
  auto& S = d.segment.kids;
  for (size_t k = 0; k < S.size();)
    if (S[k].id == ebml::kCluster || S[k].id == ebml::kCues) S.erase(S.begin() + k);
    else ++k;
  d.blocks.clear();
  d.segment.unknown = g.p(20);
  w.negative = g.p(15);
  const bool unknown_clusters = !preload && g.p(25);
  const size_t nc = wide ? g.u(1000, 5000) : g.p(90) ? g.u(0, 8) : g.u(8, 60);
  const bool voids = g.p(20), empties = g.p(20);
  uint64_t tc = g.p(80) ? g.u(0, 50) : g.u(300, 2000);
  int64_t last = (int64_t)tc;
  std::vector<El> cls;
  std::vector<size_t> real;  // per cls entry with blocks
  for (size_t k = 0; k < nc; ++k) {
    El cl = Master(ebml::kCluster);
    cl.unknown = unknown_clusters && g.p(60);
    if (g.p(20)) cl.size_len = (int)g.u(4, 8);
    World::Cl m;
    m.tc = tc;
    cl.kids.push_back(Uint(ebml::kTimecode, tc));
    const size_t nb = empties && g.p(40) ? 0 : wide ? g.u(1, 2) : g.p(90) ? g.small(1, 8) : g.u(8, 40);
    int64_t t = w.negative ? std::max<int64_t>(last, (int64_t)tc - 300) : (int64_t)tc;
    for (size_t j = 0; j < nb; ++j) {
      t += g.p(30) ? 0 : (int64_t)g.small(0, 40);
      last = t;
      DocBlock b;
      b.cluster_tc = tc;
      b.track = g.pick(d.tracks).number;
      b.rel = (int16_t)(t - (int64_t)tc);
      b.key = g.p(40);
      b.simple = g.p(70);
      b.frames.push_back(g.blob(g.u(1, 6)));
      El e;
      e.type = ebml::kBinary;
      e.block = (int)d.blocks.size();
      e.id = b.simple ? ebml::kSimpleBlock : ebml::kBlock;
      if (!b.simple) {
        const bool key = b.key;
        b.key = false;  // not a flag of a Block
        e.body = BlockBody(g, &b, false);
        b.key = key;
        El gr = Master(ebml::kBlockGroup);
        gr.kids.push_back(e);
        if (!key) {
          b.refs.push_back(-1);
          gr.kids.push_back(Int(ebml::kReferenceBlock, -1));
        }
        cl.kids.push_back(gr);
      } else {
        e.body = BlockBody(g, &b, false);
        cl.kids.push_back(e);
      }
      m.blocks.push_back(d.blocks.size());
      d.blocks.push_back(b);
      if (voids && g.p(20)) cl.kids.push_back(Bin(ebml::kVoid, g.blob(g.u(0, 5))));
    }
    if (nb) {
      real.push_back(cls.size());
      w.clusters.push_back(m);
    }
    cls.push_back(cl);
    // Cluster times never decrease; without negative relative times neither do
    // block times across clusters.
    const uint64_t floor = w.negative ? tc : (uint64_t)last;
    tc = std::max(tc, floor) + (g.p(15) ? 0 : g.u(1, 100));
    if (tc < (uint64_t)std::max<int64_t>(0, last - 300)) tc = (uint64_t)last;
  }
  // Cue points at block times.
  const bool with_cues = g.p(preload ? 85 : 60);
  const bool cues_first = g.b();
  if (with_cues && !d.blocks.empty()) {
    std::map<uint64_t, std::vector<CueTP>> by;
    for (size_t k = 0; k < w.clusters.size(); ++k)
      for (size_t q = 0; q < w.clusters[k].blocks.size(); ++q) {
        const DocBlock& b = d.blocks[w.clusters[k].blocks[q]];
        if (!g.p(25) || b.tc() < 0) continue;
        auto& v = by[(uint64_t)b.tc()];
        bool dup = false;
        for (auto& tp : v) dup |= tp.track == b.track;
        if (dup) continue;
        // Block numbers may be absent, right, or of another block of the cluster.
        uint64_t num = g.p(60) ? 0 : g.p(80) ? q + 1 : g.u(1, w.clusters[k].blocks.size());
        v.push_back({b.track, num, k});
      }
    for (auto& kv : by) w.cues.push_back({kv.first, kv.second});
  }
  auto cues_el = [&] {
    El cu = Master(ebml::kCues);
    cu.size_len = 4;
    for (auto& q : w.cues) {
      El p = Master(ebml::kCuePoint);
      p.kids.push_back(Uint(ebml::kCueTime, q.tc));
      for (auto& tp : q.tps) {
        El t = Master(ebml::kCueTrackPositions);
        t.kids.push_back(Uint(ebml::kCueTrack, tp.track));
        t.kids.push_back(Uint(ebml::kCueClusterPosition, w.clusters[tp.cluster].off, 4));
        if (tp.block) t.kids.push_back(Uint(ebml::kCueBlockNumber, tp.block));
        p.kids.push_back(t);
      }
      cu.kids.push_back(p);
    }
    return cu;
  };
  const std::vector<El> base = S;
  std::vector<size_t> at;
  for (int pass = 0; pass < 2; ++pass) {  // the second pass knows the offsets
    S = base;
    size_t cues_at = 0;
    if (!w.cues.empty() && cues_first) cues_at = S.size(), S.push_back(cues_el());
    const size_t first = S.size();
    for (size_t k = 0; k < cls.size(); ++k) S.push_back(cls[k]);
    if (!w.cues.empty() && !cues_first) cues_at = S.size(), S.push_back(cues_el());
    d.Finish();
    for (size_t k = 0; k < real.size(); ++k) {
      const El& e = S[first + real[k]];
      w.clusters[k].off = e.pos - d.segment.body_pos();
      w.clusters[k].size = e.end() - e.pos;
    }
    if (!w.cues.empty()) w.cues_off = (long long)(S[cues_at].pos - d.segment.body_pos());
  }
  w.scale = (long long)d.scale;
  if (w.negative) c.label("negative-relative-times");
  if (!w.cues.empty()) c.label("cues");
  if (unknown_clusters) c.label("unknown-size-clusters");
  if (w.clusters.size() >= 3 && d.blocks.size() >= 5) c.nontrivial();
  c.desc << "scale " << w.scale << (d.segment.unknown ? " unknown-size segment" : "") << "\n";
  for (auto& t : d.tracks) c.desc << " track " << t.number << " type " << t.type << "\n";
  for (auto& m : w.clusters) {
    c.desc << " cluster at " << m.off << " tc " << m.tc << ":";
    for (size_t b : m.blocks)
      c.desc << " " << d.blocks[b].track << "@" << d.blocks[b].tc() << (d.blocks[b].key ? "K" : "");
    c.desc << "\n";
  }
  for (auto& q : w.cues) {
    c.desc << " cue " << q.tc << ":";
    for (auto& tp : q.tps) c.desc << " track " << tp.track << " cluster " << tp.cluster << " block " << tp.block;
    c.desc << "\n";
  }
  return w;
}

struct Nav {
  Gen& g;
  Ctx& c;
  World& w;
  muxlib::MemReader r;
  std::unique_ptr<mp::Segment> s;
  std::map<long long, size_t> by_pos;  // block payload position -> index
  Nav(Gen& g, Ctx& c, World& w) : g(g), c(c), w(w), r(w.d.data) {
    for (size_t k = 0; k < w.d.blocks.size(); ++k) by_pos[(long long)w.d.blocks[k].body_pos] = k;
    mp::EBMLHeader h;
    long long pos = 0;
    CheckEq(c, h.Parse(&r, pos), 0ll, "EBMLHeader::Parse");
    mp::Segment* p = nullptr;
    CheckEq(c, mp::Segment::CreateInstance(&r, pos, p), 0ll, "CreateInstance");
    s.reset(p);
  }
  // Index of the block an entry stands for, -1 for EOS.
  long Id(const mp::BlockEntry* e, const std::string& what) {
    c.check(e != nullptr, what + ": null entry");
    if (e->EOS()) return -1;
    const mp::Block* b = e->GetBlock();
    c.check(b != nullptr, what + ": entry without a block");
    auto it = by_pos.find(b->m_start);
    c.check(it != by_pos.end(), what + ": entry that is not in the document");
    const DocBlock& m = w.d.blocks[it->second];
    CheckEq(c, b->GetTrackNumber(), (long long)m.track, what + ": track");
    CheckEq(c, b->IsKey(), m.key, what + ": key");
    c.check(e->GetCluster() != nullptr, what + ": entry without cluster");
    CheckEq(c, b->GetTimeCode(e->GetCluster()), (long long)m.tc(), what + ": timecode");
    CheckEq(c, b->GetTime(e->GetCluster()), (long long)m.tc() * w.scale, what + ": time");
    return (long)it->second;
  }
  long long Time() {  // a time to ask for
    long long t;
    switch (g.weighted({4, 3, 1, 1})) {
      case 0:
        t = w.d.blocks.empty() ? 0 : w.ns(g.u(0, w.d.blocks.size() - 1));
        break;
      case 1:
        t = w.clusters.empty() ? 0 : w.cns(g.u(0, w.clusters.size() - 1));
        break;
      case 2:
        t = (long long)g.u(0, 5000) * w.scale;
        break;
      default:
        return (long long)g.edgy(0, INT64_MAX);
    }
    if (g.p(40)) t += g.p(50) ? (long long)g.u(0, 2) - 1 : g.i(-2 * w.scale, 2 * w.scale);
    return t;
  }
  const mp::Track* TrackOf(const DocTrack& t) {
    const mp::Track* p = s->GetTracks()->GetTrackByNumber((long)t.number);
    c.check(p != nullptr, "GetTrackByNumber");
    return p;
  }
  bool Vetted(const DocTrack& t, size_t b) const {
    const DocBlock& m = w.d.blocks[b];
    return m.track == t.number && (t.type != 1 || m.key);
  }
};

std::string N(long long v) { return std::to_string(v); }

void CheckCues(Nav& n) {
  World& w = n.w;
  Ctx& c = n.c;
  if (w.cues.empty()) return;
  const mp::Cues* cu = n.s->GetCues();
  c.check(cu != nullptr, "GetCues");
  // Loaded in steps.
  while (!cu->DoneParsing()) c.check(cu->LoadCuePoint(), "LoadCuePoint");
  c.check(!cu->LoadCuePoint(), "LoadCuePoint after the last");
  CheckEq(c, cu->GetCount(), (long)w.cues.size(), "Cues::GetCount");
  const mp::CuePoint* p = cu->GetFirst();
  for (size_t k = 0; k < w.cues.size(); ++k) {
    c.check(p != nullptr, "Cues iteration ends early");
    CheckEq(c, p->GetTimeCode(), (long long)w.cues[k].tc, "cue time");
    if (k + 1 == w.cues.size()) c.check(cu->GetLast() == p, "Cues::GetLast");
    p = cu->GetNext(p);
  }
  c.check(p == nullptr, "Cues iteration goes on");
  for (int q = 0; q < 4; ++q) {
    const DocTrack& t = n.g.pick(w.d.tracks);
    const long long ns = n.Time();
    const mp::CuePoint* cp = nullptr;
    const mp::CuePoint::TrackPosition* tp = nullptr;
    const bool ok = cu->Find(ns, n.TrackOf(t), cp, tp);
    if (ns < 0) {
      c.check(!ok, "Cues::Find of a negative time");
      continue;
    }
    size_t want = 0;
    for (size_t k = 0; k < w.cues.size(); ++k)
      if ((long long)w.cues[k].tc * w.scale <= ns) want = k;
    const CueTP* wt = nullptr;
    for (auto& x : w.cues[want].tps)
      if (x.track == t.number && !wt) wt = &x;
    const std::string what = "Cues::Find(" + N(ns) + ", track " + N((long long)t.number) + ")";
    CheckEq(c, ok, wt != nullptr, what);
    if (!ok) continue;
    CheckEq(c, cp->GetTimeCode(), (long long)w.cues[want].tc, what + " time");
    CheckEq(c, cp->GetTime(n.s.get()), (long long)w.cues[want].tc * w.scale, what + " ns");
    CheckEq(c, tp->m_track, (long long)wt->track, what + " track");
    CheckEq(c, tp->m_pos, (long long)w.clusters[wt->cluster].off, what + " position");
  }
}

// What Cues::GetBlock must find: the numbered block if it is that track's at
// that time, else the first of the track at that time; video must be a key.
long CueBlock(const World& w, const Cue& q, const CueTP& tp) {
  const auto& blocks = w.clusters[tp.cluster].blocks;
  {
    const size_t b = blocks[tp.block ? tp.block - 1 : 0];  // the default is 1
    if (w.d.blocks[b].track == tp.track && w.d.blocks[b].tc() == (int64_t)q.tc) return (long)b;
  }
  uint64_t type = 0;
  for (auto& t : w.d.tracks)
    if (t.number == tp.track) type = t.type;
  for (size_t b : blocks) {
    const DocBlock& m = w.d.blocks[b];
    if (m.track != tp.track || m.tc() != (int64_t)q.tc) continue;
    if (type == 2) return (long)b;
    if (type == 1 && m.key) return (long)b;
    return -1;
  }
  return -1;
}

void CheckCueBlock(Nav& n) {
  World& w = n.w;
  const mp::Cues* cu = n.s->GetCues();
  const size_t k = n.g.u(0, w.cues.size() - 1);
  const Cue& q = w.cues[k];
  const CueTP& tp = n.g.pick(q.tps);
  const mp::CuePoint* p = cu->GetFirst();
  for (size_t j = 0; j < k; ++j) p = cu->GetNext(p);
  n.c.check(p != nullptr, "cue point");
  const mp::Track* t = n.s->GetTracks()->GetTrackByNumber((long)tp.track);
  const mp::CuePoint::TrackPosition* ptp = p->Find(t);
  n.c.check(ptp != nullptr, "CuePoint::Find");
  const mp::BlockEntry* e = cu->GetBlock(p, ptp);
  const std::string what = "Cues::GetBlock(cue " + N((long long)q.tc) + ", track " + N((long long)tp.track) + ")";
  CheckEq(n.c, e ? n.Id(e, what) : -1, CueBlock(w, q, tp), what);
}

// Iteration over tracks, |loaded| clusters (all, if |done|) being loaded.
void Iterate(Nav& n, size_t loaded, bool done) {
  World& w = n.w;
  Ctx& c = n.c;
  const size_t nblocks = w.LoadedBlocks(loaded);
  // Track iteration.
  for (auto& t : w.d.tracks) {
    const mp::Track* tr = n.TrackOf(t);
    std::vector<long> want;
    for (size_t b = 0; b < nblocks; ++b)
      if (w.d.blocks[b].track == t.number && (!want.empty() || n.Vetted(t, b))) want.push_back((long)b);
    if (!want.empty() && w.Gap(t.number, nblocks)) continue;
    if (want.empty() && loaded > 99) continue;  // it gives up by design
    want.push_back(-1);
    const mp::BlockEntry* e = nullptr;
    long rc = tr->GetFirst(e);
    const std::string tn = "track " + N((long long)t.number);
    for (size_t k = 0;; ++k) {
      if (!done && want[k] < 0) {
        CheckEq(c, rc, (long)mp::E_BUFFER_NOT_FULL, tn + " iteration of what is loaded");
        c.check(e == nullptr, tn + " iteration goes beyond what is loaded");
        break;
      }
      const long id = n.Id(e, tn + " iteration");
      CheckEq(c, id, want[k], tn + " entry " + N((long long)k));
      CheckEq(c, rc, id < 0 ? 1l : 0l, tn + " iteration status");
      if (id < 0) break;
      const mp::BlockEntry* nx = nullptr;
      rc = tr->GetNext(e, nx);
      e = nx;
    }
  }
  if (loaded) {
    c.check(n.s->GetFirst()->GetPosition() == (long long)w.clusters[0].off, "Segment::GetFirst");
    c.check(n.s->GetLast()->GetPosition() == (long long)w.clusters[loaded - 1].off, "Segment::GetLast");
  }
}

// One query, with |loaded| clusters loaded.
void Query(Nav& n, size_t loaded, bool done) {
  World& w = n.w;
  Ctx& c = n.c;
  Gen& g = n.g;
  const size_t nblocks = w.LoadedBlocks(loaded);
  {
    const long long t = n.Time();
    switch (g.u(0, 3)) {
      case 0: {  // FindCluster
        const mp::Cluster* cl = n.s->FindCluster(t);
        const std::string what = "FindCluster(" + N(t) + ")";
        c.check(cl != nullptr, what);
        if (loaded == 0) {
          c.check(cl->EOS(), what + " of nothing");
          break;
        }
        size_t want = 0;
        if (t > w.cns(0))
          for (size_t k = 0; k < loaded; ++k)
            if (w.cns(k) <= t) want = k;
        c.check(!cl->EOS(), what + ": EOS");
        CheckEq(c, cl->GetPosition(), (long long)w.clusters[want].off, what);
        CheckEq(c, cl->GetTime(), w.cns(want), what + " time");
        CheckEq(c, cl->GetFirstTime(), w.ns(w.clusters[want].blocks.front()), what + " first time");
        CheckEq(c, cl->GetLastTime(), w.ns(w.clusters[want].blocks.back()), what + " last time");
        break;
      }
      case 1: {  // Cluster::GetEntry(track, t)
        if (loaded == 0) break;
        const size_t k = g.u(0, loaded - 1);
        const DocTrack& tk = g.pick(w.d.tracks);
        const mp::Cluster* cl = n.s->FindOrPreloadCluster((long long)w.clusters[k].off);
        c.check(cl && cl->GetIndex() == (long)k, "FindOrPreloadCluster of a loaded cluster");
        long want = -1;
        for (size_t b : w.clusters[k].blocks) {
          if (w.d.blocks[b].track != tk.number) continue;
          if (t < 0) {
            if (want < 0 && n.Vetted(tk, b)) want = (long)b;
            continue;
          }
          if (w.ns(b) > t) break;
          if (n.Vetted(tk, b)) want = (long)b;
        }
        const std::string what = "GetEntry(track " + N((long long)tk.number) + ", " + N(t) + ") of cluster " + N((long long)k);
        CheckEq(c, n.Id(cl->GetEntry(n.TrackOf(tk), t), what), want, what);
        break;
      }
      case 2: {  // Track::Seek
        const DocTrack& tk = g.pick(w.d.tracks);
        const mp::BlockEntry* e = nullptr;
        const std::string what = "Seek(track " + N((long long)tk.number) + ", " + N(t) + ")";
        const long rc = n.TrackOf(tk)->Seek(t, e);
        long first = -1;
        for (size_t b = 0; b < nblocks && first < 0; ++b)
          if (n.Vetted(tk, b)) first = (long)b;
        if (first < 0 ? loaded > 99 : w.cluster_of((size_t)first) > 98) break;  // it gives up by design
        if (first < 0 && !done) {
          CheckEq(c, rc, (long)mp::E_BUFFER_NOT_FULL, what + " without a target yet");
          break;
        }
        CheckEq(c, rc, 0l, what);
        const long got = n.Id(e, what);
        if (first < 0) {
          CheckEq(c, got, -1l, what + " without a target");
          break;
        }
        c.label("seek");
        if (w.negative) {
          // A target of the track, at or before the time if there is one.
          c.check(got >= 0, what + ": EOS");
          c.check(n.Vetted(tk, (size_t)got), what + ": not a valid target");
          if (tk.type == 1 && t > w.ns((size_t)first)) {
            c.check(w.ns((size_t)got) <= t, what + ": later than asked for");
            // Nothing better in the cluster found or one starting between.
            for (size_t b = (size_t)got + 1; b < nblocks; ++b)
              if (n.Vetted(tk, b) && w.ns(b) <= t && w.cns(w.cluster_of(b)) <= t)
                c.fail(what + ": block " + N((long long)b) + " is closer");
          }
          break;
        }
        long want = first;
        if (t > w.ns((size_t)first)) {
          if (tk.type == 1) {  // last key frame at or before the time
            for (size_t b = 0; b < nblocks; ++b)
              if (n.Vetted(tk, b) && w.ns(b) <= t) want = (long)b;
          } else {  // first block of the last cluster at or before with any
            for (size_t k = 0; k < loaded; ++k) {
              if (w.cns(k) > t) break;
              for (size_t b : w.clusters[k].blocks)
                if (w.d.blocks[b].track == tk.number) {
                  want = (long)b;
                  break;
                }
            }
          }
        }
        CheckEq(c, got, want, what);
        break;
      }
      default:
        if (!n.s->GetCues() || w.cues.empty()) break;
        CheckCues(n);
        CheckCueBlock(n);
    }
  }
}

void Navigate(Gen& g, Ctx& c) {
  World w = Make(g, c, false);
  Nav n(g, c, w);
  CheckEq(c, n.s->Load(), 0l, "Segment::Load");
  CheckEq(c, n.s->GetCount(), (unsigned long)w.clusters.size(), "Segment::GetCount");
  Iterate(n, w.clusters.size(), true);
  const size_t nq = g.u(1, 8);
  for (size_t q = 0; q < nq; ++q) Query(n, w.clusters.size(), true);
}

// Loading in any order: cues, positions and ParseNext create clusters ahead of
// LoadCluster; each cluster stays one object and all orders see the same.
void PreloadIn(Gen& g, Ctx& c, bool wide) {
  World w = Make(g, c, true, wide);
  Nav n(g, c, w);
  mp::Segment* s = n.s.get();
  CheckEq(c, s->ParseHeaders(), 0ll, "ParseHeaders");
  std::map<size_t, const mp::Cluster*> known;  // model index -> object
  size_t loaded = 0;
  bool done = false;
  auto see = [&](const mp::Cluster* cl, size_t k, const std::string& what) {
    c.check(cl != nullptr && !cl->EOS(), what + ": no cluster");
    CheckEq(c, cl->GetPosition(), (long long)w.clusters[k].off, what + ": position");
    CheckEq(c, cl->GetTimeCode(), (long long)w.clusters[k].tc, what + ": timecode");
    CheckEq(c, cl->GetIndex() >= 0, k < loaded, what + ": loaded");
    if (k < loaded) CheckEq(c, cl->GetIndex(), (long)k, what + ": index");
    auto it = known.find(k);
    if (it != known.end()) c.check(it->second == cl, what + ": another object for the same cluster");
    known[k] = cl;
  };
  bool cues_ready = false;
  size_t preloads = 0;
  const size_t nops = wide ? g.u(50, 6000) : g.u(1, 24);
  for (size_t q = 0; q < nops; ++q) {
    const size_t kind = wide ? g.weighted({100, 100, 1, 20, 20, 10, 0, 1, 2}) : g.weighted({4, 3, 3, 3, 3, 2, 2, 2, 4});
    switch (kind) {
      case 0: {
        const long rc = s->LoadCluster();
        c.desc << "load ";
        if (loaded < w.clusters.size()) {
          CheckEq(c, rc, 0l, "LoadCluster");
          ++loaded;
          see(s->GetLast(), loaded - 1, "LoadCluster");
        } else {
          CheckEq(c, rc, 1l, "LoadCluster at the end");
          done = true;
          c.check(s->DoneParsing(), "DoneParsing at the end");
        }
        break;
      }
      case 1: {
        if (w.clusters.empty()) break;
        const size_t k = g.u(0, w.clusters.size() - 1);
        c.desc << "preload(" << k << ") ";
        if (k >= loaded) ++preloads;
        see(s->FindOrPreloadCluster((long long)w.clusters[k].off), k, "FindOrPreloadCluster");
        break;
      }
      case 2: {
        if (w.cues.empty()) break;
        if (!cues_ready) {
          long long pos;
          long len;
          if (!s->GetCues()) CheckEq(c, s->ParseCues(w.cues_off, pos, len), 0l, "ParseCues");
          cues_ready = true;
          CheckCues(n);
        }
        c.desc << "cue ";
        ++preloads;
        CheckCueBlock(n);
        break;
      }
      case 3:
      case 4: {
        if (known.empty()) break;
        auto it = known.begin();
        std::advance(it, g.u(0, known.size() - 1));
        const size_t k = it->first;
        if (kind == 3) {
          const mp::Cluster* nx = nullptr;
          long long pos;
          long len;
          c.desc << "parsenext(" << k << ") ";
          const size_t before = loaded;
          const long rc = s->ParseNext(it->second, nx, pos, len);
          if (k < before && k + 1 >= before && k + 1 < w.clusters.size()) ++loaded;
          if (k + 1 < w.clusters.size()) {
            CheckEq(c, rc, 0l, "ParseNext of cluster " + N((long long)k));
            see(nx, k + 1, "ParseNext");
            ++preloads;
          } else {
            CheckEq(c, rc, 1l, "ParseNext of the last cluster");
          }
        } else {
          c.desc << "getnext(" << k << ") ";
          const mp::Cluster* nx = s->GetNext(it->second);
          if (k < loaded) {
            if (k + 1 < loaded)
              see(nx, k + 1, "GetNext");
            else
              c.check(nx && nx->EOS(), "GetNext of the last loaded cluster");
          } else if (k + 1 < w.clusters.size()) {
            see(nx, k + 1, "GetNext of a preloaded cluster");
          } else {
            c.check(nx == nullptr, "GetNext of the last cluster");
          }
        }
        break;
      }
      case 5: {  // entries of a known cluster
        if (known.empty()) break;
        auto it = known.begin();
        std::advance(it, g.u(0, known.size() - 1));
        const mp::BlockEntry* e = nullptr;
        c.desc << "entries(" << it->first << ") ";
        CheckEq(c, it->second->GetFirst(e), 0l, "Cluster::GetFirst");
        const auto& bl = w.clusters[it->first].blocks;
        const size_t upto = g.b() ? bl.size() : g.u(1, bl.size());
        for (size_t b = 0; b < upto; ++b) {
          CheckEq(c, n.Id(e, "entries"), (long)bl[b], "entry " + N((long long)b));
          c.check(e->GetCluster() == it->second, "entry of another cluster");
          const mp::BlockEntry* nx = nullptr;
          CheckEq(c, it->second->GetNext(e, nx), 0l, "Cluster::GetNext");
          e = nx;
        }
        if (upto == bl.size()) c.check(e == nullptr, "too many entries");
        break;
      }
      case 7:
        c.desc << "tracks ";
        Iterate(n, loaded, s->DoneParsing());
        c.label("iterate-loaded");
        break;
      case 8:
        c.desc << "query ";
        Query(n, loaded, s->DoneParsing());
        c.label("query-loaded");
        break;
      default: {  // iterate what is loaded
        size_t k = 0;
        c.desc << "iterate ";
        CheckEq(c, s->GetCount(), (unsigned long)loaded, "GetCount");
        for (const mp::Cluster* cl = s->GetFirst(); cl && !cl->EOS(); cl = s->GetNext(cl), ++k) {
          c.check(k < loaded, "iteration goes beyond the loaded clusters");
          see(cl, k, "iteration");
        }
        CheckEq(c, k, loaded, "clusters iterated");
      }
    }
  }
  (void)done;
  c.desc << "\n";
  if (preloads && g.p(70)) {
    while (loaded < w.clusters.size()) {
      CheckEq(c, s->LoadCluster(), 0l, "LoadCluster after preloading");
      ++loaded;
      see(s->GetLast(), loaded - 1, "LoadCluster after preloading");
    }
    CheckEq(c, s->LoadCluster(), 1l, "LoadCluster at the end");
    mkvdump::Lines got, want;
    mkvdump::DumpClusters(s, w.d.data, &got);
    mkvdump::ExpectClusters(w.d, &want);
    mkvdump::Compare(c, got, want, "clusters");
  }
  if (preloads) c.label("preloaded");
  if (wide && known.size() > 2048) c.label("more-than-2048");
}
void Preload(Gen& g, Ctx& c) { PreloadIn(g, c, false); }
// More clusters than the first allocations of the cluster table hold.
void Wide(Gen& g, Ctx& c) { PreloadIn(g, c, true); }

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C11";
  p.level = "exploration";
  p.rule =
      "A case is a document with ordered cluster times, several tracks and cues, and "
      "a sequence of navigation calls (track iteration, Seek, FindCluster, GetEntry, "
      "cue lookup, preloading, ParseNext) each compared with a model of the document. "
      "Non-trivial: at least 3 clusters with blocks and 5 blocks.";
  p.suites = {{"navigate", Navigate, 80000, 5000000, true},
              {"preload", Preload, 80000, 5000000, true},
              {"wide", Wide, 150, 40000, true}};
  p.assumptions = {"cluster and block times do not decrease in the file",
                   "cues point at the clusters of their blocks"};
  return pbt::Main(argc, argv, p);
}
