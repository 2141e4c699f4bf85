// C03: the index of a finalized file (Cues, SeekHead) points at what it names,
// also after the Cues were moved in front of the Clusters.
#include "muxlib.h"

using namespace muxlib;

namespace {

uint64_t CuesTrack(const Scenario& s) {
  if (s.cues_track >= 0) return s.tracks[s.cues_track].number;
  for (auto& t : s.tracks)
    if (t.is_video()) return t.number;
  return s.tracks[0].number;
}

// One cue point per cluster with a block of the cues track: the first such.
std::vector<const FoundBlock*> Expected(const Scenario& s, const FoundFile& f) {
  const uint64_t ct = CuesTrack(s);
  std::vector<const FoundBlock*> want;
  size_t last = SIZE_MAX;
  for (auto& b : f.blocks)
    if (b.track == ct && b.cluster != last) {
      want.push_back(&b);
      last = b.cluster;
    }
  return want;
}

// Checks every index entry of the document against the document itself.
void CheckIndex(Ctx& c, const Scenario& s, const Bytes& d, const FoundFile& f,
                bool moved) {
  const Node& seg = *f.segment;
  const uint64_t base = seg.body();
  const std::string w = moved ? "moved file: " : "";
  // SeekHead: every entry names the element found at its position; and every
  // indexable element has exactly one entry.
  const Node* sh = seg.child(ebml::kSeekHead);
  if (sh) {
    std::map<uint32_t, uint64_t> seen;
    for (auto* e : sh->children(ebml::kSeek)) {
      const Node* id = e->child(ebml::kSeekID);
      const Node* pos = e->child(ebml::kSeekPosition);
      c.check(id && pos, w + "seek entry without id or position");
      const uint32_t want = (uint32_t)ebml::GetUint(d, *id);
      const uint64_t at = base + ebml::GetUint(d, *pos);
      c.check(!seen.count(want), w + "duplicate seek entry");
      seen[want] = at;
      const Node* hit = nullptr;
      for (const Node& k : seg.kids)
        if (k.pos == at) hit = &k;
      std::ostringstream o;
      o << w << "seek entry for " << ebml::IdName(want)
        << " does not point at one (offset " << at << ")";
      c.check(hit && hit->id == want, o.str());
    }
    for (uint32_t id :
         {(uint32_t)ebml::kInfo, (uint32_t)ebml::kTracks,
          (uint32_t)ebml::kChapters, (uint32_t)ebml::kTags,
          (uint32_t)ebml::kCluster, (uint32_t)ebml::kCues}) {
      const Node* n = seg.child(id);
      if (!n) continue;
      c.check(seen.count(id) && seen[id] == n->pos,
              w + "no seek entry for the first " + ebml::IdName(id));
    }
  } else {
    c.check(!s.seekable || s.live, w + "no seek head");
  }
  const Node* cues = seg.child(ebml::kCues);
  if (!cues) {
    c.check(s.live || !s.output_cues, w + "no cues");
    return;
  }
  if (moved)
    c.check(f.clusters.empty() || cues->pos < f.clusters[0]->pos,
            "cues not in front of the clusters");
  const uint64_t ct = CuesTrack(s);
  const std::vector<const FoundBlock*> want = Expected(s, f);
  auto points = cues->children(ebml::kCuePoint);
  if (points.size() != want.size()) {
    std::ostringstream o;
    o << w << points.size() << " cue points for " << want.size()
      << " clusters with frames of the cues track";
    c.fail(o.str());
  }
  uint64_t prev = 0;
  for (size_t k = 0; k < points.size(); ++k) {
    const Node* t = points[k]->child(ebml::kCueTime);
    auto tps = points[k]->children(ebml::kCueTrackPositions);
    c.check(t && tps.size() == 1, w + "malformed cue point");
    const uint64_t time = ebml::GetUint(d, *t);
    c.check(k == 0 || time >= prev, w + "cue times decrease");
    prev = time;
    const Node* tr = tps[0]->child(ebml::kCueTrack);
    const Node* cp = tps[0]->child(ebml::kCueClusterPosition);
    c.check(tr && cp, w + "cue without track or position");
    pbt::CheckEq(c, ebml::GetUint(d, *tr), ct, w + "cue track");
    const uint64_t at = base + ebml::GetUint(d, *cp);
    const Node* cl = f.clusters[want[k]->cluster];
    pbt::CheckEq(c, at, cl->pos, w + "cue cluster position");
    pbt::CheckEq(c, time, want[k]->tc, w + "cue time");
    const Node* bn = tps[0]->child(ebml::kCueBlockNumber);
    if (bn) {
      c.check(s.output_block_number, w + "block number although disabled");
      pbt::CheckEq(c, ebml::GetUint(d, *bn), want[k]->index,
                   w + "cue block number");
      c.label("block-number");
    } else {
      c.check(want[k]->index == 1 || !s.output_block_number || s.accurate,
              w + "cue block number missing");
    }
  }
}

// The library's own parser must resolve every cue to its block.
void CheckWithParser(Ctx& c, const Scenario& s, const Bytes& d,
                     const FoundFile& f, bool moved) {
  if (!f.segment->child(ebml::kCues)) return;
  const std::string w = moved ? "moved file: " : "";
  MemReader r(d);
  mkvparser::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(&r, pos) == 0, w + "parser rejects header");
  mkvparser::Segment* sp = nullptr;
  mkvparser::Segment::CreateInstance(&r, pos, sp);
  std::unique_ptr<mkvparser::Segment> seg(sp);
  c.check(seg && seg->Load() == 0, w + "parser rejects segment");
  const mkvparser::Cues* cues = seg->GetCues();
  if (!cues) {
    c.check(f.segment->child(ebml::kCues)->kids.empty(),
            w + "parser found no cues");
    return;
  }
  while (!cues->DoneParsing()) cues->LoadCuePoint();
  const mkvparser::Track* t =
      seg->GetTracks()->GetTrackByNumber((long)CuesTrack(s));
  c.check(t != nullptr, w + "no cues track");
  size_t n = 0;
  const std::vector<const FoundBlock*> want = Expected(s, f);
  for (const mkvparser::CuePoint* cp = cues->GetFirst(); cp;
       cp = cues->GetNext(cp)) {
    const mkvparser::CuePoint::TrackPosition* tp = cp->Find(t);
    c.check(tp != nullptr, w + "cue without the track");
    const mkvparser::BlockEntry* e = cues->GetBlock(cp, tp);
    if (!e) {
      // The parser only seeks to key frames of a video track; a cluster that
      // was started by a limit may begin with another frame.
      const bool key = n >= want.size() || want[n]->key;
      c.check(t->GetType() != 2 && !(t->GetType() == 1 && key), w + "cue does not resolve to a block");
      c.label("cue-of-a-non-key-frame");
      ++n;
      continue;
    }
    c.check(!e->EOS(), w + "cue does not resolve to a block");
    c.check((uint64_t)e->GetBlock()->GetTrackNumber() == CuesTrack(s) &&
                e->GetBlock()->GetTimeCode(e->GetCluster()) == cp->GetTimeCode(),
            w + "cue resolves to another block");
    ++n;
  }
  pbt::CheckEq(c, n, f.segment->child(ebml::kCues)->kids.size(),
               w + "cue points seen by the parser");
}

void Index(Gen& g, Ctx& c) {
  GenOptions o;
  o.allow_live = false;
  if (g.p(30)) o.max_frames = 400;
  Scenario s = GenScenario(g, c, o);
  const bool move = s.seekable && s.output_cues && g.p(60);
  // Many small clusters make the moved cues big enough to shift themselves.
  c.desc << Describe(s) << (move ? " then move cues" : "");
  MemWriter w(s.seekable);
  mkvmuxer::Segment seg;
  RunResult r = RunScenario(&s, &w, &seg);
  c.check(r.init && r.configured, "muxer refused a valid configuration");
  if (!r.finalized) {
    c.label("finalize-reported-failure");
    return;
  }
  FoundFile f;
  DecodeFile(c, w.data, &f);
  CheckIndex(c, s, w.data, f, false);
  CheckWithParser(c, s, w.data, f, false);
  const Node* cues = f.segment->child(ebml::kCues);
  if (cues && cues->kids.size() >= 2) c.nontrivial();
  if (cues && cues->size >= 127) c.label("cues-larger-than-127-bytes");
  if (cues && cues->size >= 16383) c.label("cues-larger-than-16383-bytes");
  if (!move) return;
  c.label("moved-cues");
  MemReader rd(w.data);
  MemWriter w2(true);
  c.check(seg.CopyAndMoveCuesBeforeClusters(&rd, &w2), "moving cues failed");
  FoundFile f2;
  DecodeFile(c, w2.data, &f2);
  CheckIndex(c, s, w2.data, f2, true);
  CheckWithParser(c, s, w2.data, f2, true);
  // Nothing but the index changed.
  pbt::CheckEq(c, f2.blocks.size(), f.blocks.size(), "moved file: blocks");
  for (size_t k = 0; k < f.blocks.size(); ++k) {
    const FoundBlock &a = f.blocks[k], &b = f2.blocks[k];
    c.check(a.cluster == b.cluster && a.track == b.track && a.tc == b.tc &&
                a.key == b.key && a.data == b.data && a.simple == b.simple &&
                a.duration == b.duration && a.discard == b.discard &&
                a.additional == b.additional,
            "moved file: block differs");
  }
  for (uint32_t id : {(uint32_t)ebml::kInfo, (uint32_t)ebml::kTracks,
                      (uint32_t)ebml::kChapters, (uint32_t)ebml::kTags}) {
    const Node* a = f.segment->child(id);
    const Node* b = f2.segment->child(id);
    c.check((a == nullptr) == (b == nullptr), "moved file: element lost");
    if (a)
      c.check(ebml::GetBin(w.data, *a) == ebml::GetBin(w2.data, *b),
              "moved file: " + ebml::IdName(id) + " differs");
  }
  c.check(!f2.segment->unknown && f2.segment->end() == w2.data.size(),
          "moved file: segment size");
}

// Long files: cue sections of several hundred entries with large positions.
void Long(Gen& g, Ctx& c) {
  Scenario s;
  s.scale = 1000000;
  s.output_block_number = g.b();
  s.accurate = g.p(20);
  TrackSpec v;
  v.kind = 0;
  v.type = 1;
  v.codec = "V_VP8";
  v.width = v.height = 16;
  v.number = 1;
  s.tracks.push_back(v);
  if (g.b()) {
    TrackSpec a;
    a.kind = 1;
    a.type = 2;
    a.codec = "A_OPUS";
    a.rate = 48000;
    a.channels = 2;
    a.number = 2;
    s.tracks.push_back(a);
  }
  const size_t n = g.u(2, 1500);
  const size_t base_len = (size_t)g.small(1, 120);
  uint64_t ts = 0;
  for (size_t k = 0; k < n; ++k) {
    FrameOp f;
    f.track = s.tracks.size() > 1 && (k % 5) == 3 ? 1 : 0;
    f.ts = ts;
    f.key = f.track == 1 || (k % 7) != 6;
    f.data = Bytes(base_len + k % 7, (uint8_t)k);
    s.ops.push_back(f);
    ts += s.scale * (10 + k % 3);
  }
  c.desc << n << " frames of about " << base_len << " bytes, "
         << s.tracks.size() << " tracks" << (s.accurate ? " accurate" : "");
  MemWriter w(true);
  mkvmuxer::Segment seg;
  RunResult r = RunScenario(&s, &w, &seg);
  c.check(r.all_ok(), "valid history refused");
  FoundFile f;
  DecodeFile(c, w.data, &f);
  CheckIndex(c, s, w.data, f, false);
  MemReader rd(w.data);
  MemWriter w2(true);
  c.check(seg.CopyAndMoveCuesBeforeClusters(&rd, &w2), "moving cues failed");
  FoundFile f2;
  DecodeFile(c, w2.data, &f2);
  CheckIndex(c, s, w2.data, f2, true);
  CheckWithParser(c, s, w2.data, f2, true);
  pbt::CheckEq(c, f2.blocks.size(), f.blocks.size(), "moved file: blocks");
  const Node* cues = f2.segment->child(ebml::kCues);
  if (cues->size >= 127) c.label("cues-larger-than-127-bytes");
  if (cues->size >= 16383) c.label("cues-larger-than-16383-bytes");
  if (cues->kids.size() >= 2) c.nontrivial();
}

// --- files of gigabytes ----------------------------------------------------

// A file kept as pages; pages of zeros are not stored.
class SparseFile : public mkvmuxer::IMkvWriter, public mkvparser::IMkvReader {
 public:
  static const uint64_t kPage = 4096;
  mkvmuxer::int32 Write(const void* buf, mkvmuxer::uint32 len) override {
    const uint8_t* b = (const uint8_t*)buf;
    // Of a long write (a frame) only the ends can differ from zero.
    if (len > 1u << 20) {
      Put(pos_, b, 1 << 16);
      Put(pos_ + len - (1 << 16), b + len - (1 << 16), 1 << 16);
    } else {
      Put(pos_, b, len);
    }
    pos_ += len;
    if (pos_ > size) size = pos_;
    return 0;
  }
  mkvmuxer::int64 Position() const override { return (mkvmuxer::int64)pos_; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override {
    if (p < 0 || (uint64_t)p > size) return -1;
    pos_ = (uint64_t)p;
    return 0;
  }
  bool Seekable() const override { return true; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}

  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0) return -1;
    if ((uint64_t)pos > size || (uint64_t)len > size - (uint64_t)pos) return -1;
    Get((uint64_t)pos, buf, (uint64_t)len);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (total) *total = (long long)size;
    if (available) *available = (long long)size;
    return 0;
  }
  void Get(uint64_t pos, uint8_t* out, uint64_t len) const {
    while (len) {
      const uint64_t o = pos % kPage, n = std::min(len, kPage - o);
      auto it = pages_.find(pos / kPage);
      if (it == pages_.end())
        memset(out, 0, n);
      else
        memcpy(out, &it->second[o], n);
      pos += n;
      out += n;
      len -= n;
    }
  }
  uint64_t size = 0;

 private:
  void Put(uint64_t pos, const uint8_t* b, uint64_t len) {
    static const uint8_t kZeros[kPage] = {0};
    while (len) {
      const uint64_t o = pos % kPage, n = std::min(len, kPage - o);
      auto it = pages_.find(pos / kPage);
      if (it == pages_.end() && memcmp(b, kZeros, n))
        it = pages_.emplace(pos / kPage, Bytes(kPage, 0)).first;
      if (it != pages_.end()) memcpy(&it->second[o], b, n);
      pos += n;
      b += n;
      len -= n;
    }
  }
  std::map<uint64_t, Bytes> pages_;
  uint64_t pos_ = 0;
};

struct BigNode {
  uint32_t id = 0;
  uint64_t pos = 0, body = 0, end = 0;
  std::vector<BigNode> kids;
  const BigNode* child(uint32_t i) const {
    for (auto& k : kids)
      if (k.id == i) return &k;
    return nullptr;
  }
};

bool BigMaster(uint32_t id) {
  for (uint32_t m : {(uint32_t)ebml::kSegment, (uint32_t)ebml::kSeekHead,
                     (uint32_t)ebml::kSeek, (uint32_t)ebml::kCues,
                     (uint32_t)ebml::kCuePoint,
                     (uint32_t)ebml::kCueTrackPositions,
                     (uint32_t)ebml::kCluster, (uint32_t)ebml::kBlockGroup})
    if (m == id) return true;
  return false;
}

BigNode BigParse(Ctx& c, const SparseFile& f, uint64_t pos, uint64_t limit) {
  uint8_t h[16] = {0};
  f.Get(pos, h, std::min<uint64_t>(16, f.size - pos));
  BigNode n;
  n.pos = pos;
  int il = 1, sl = 1;
  while (il < 5 && !(h[0] & (0x80 >> (il - 1)))) ++il;
  c.check(il <= 4, "huge file: no element ID at " + std::to_string(pos));
  for (int k = 0; k < il; ++k) n.id = n.id << 8 | h[k];
  while (sl < 9 && !(h[il] & (0x80 >> (sl - 1)))) ++sl;
  c.check(sl <= 8, "huge file: no element size at " + std::to_string(pos));
  uint64_t v = h[il] & (0xff >> sl);
  for (int k = 1; k < sl; ++k) v = v << 8 | h[il + k];
  n.body = pos + il + sl;
  c.check(n.body <= limit && v <= limit - n.body,
          "huge file: " + ebml::IdName(n.id) + " at " + std::to_string(pos) +
              " ends behind its parent");
  n.end = n.body + v;
  if (BigMaster(n.id))
    for (uint64_t p = n.body; p < n.end;) {
      n.kids.push_back(BigParse(c, f, p, n.end));
      p = n.kids.back().end;
    }
  return n;
}

uint64_t BigUint(const SparseFile& f, const BigNode& n) {
  uint8_t b[8];
  const uint64_t len = std::min<uint64_t>(8, n.end - n.body);
  f.Get(n.body, b, len);
  uint64_t v = 0;
  for (uint64_t k = 0; k < len; ++k) v = v << 8 | b[k];
  return v;
}

struct BigFrame {
  uint64_t ms, len, mark;
  bool key;
};

void CheckBig(Ctx& c, SparseFile* f, const std::vector<BigFrame>& frames,
              bool moved) {
  const std::string w = moved ? "huge moved file: " : "huge file: ";
  const BigNode head = BigParse(c, *f, 0, f->size);
  const BigNode seg = BigParse(c, *f, head.end, f->size);
  c.check(seg.id == ebml::kSegment && seg.end == f->size, w + "segment size");
  // The frames.
  struct At {
    const BigNode* cluster;
    bool key;
    uint64_t ms;
    size_t index;
  };
  std::vector<At> found;
  for (auto& cl : seg.kids) {
    if (cl.id != ebml::kCluster) continue;
    const BigNode* tc = cl.child(ebml::kTimecode);
    c.check(tc != nullptr, w + "cluster without timecode");
    size_t index = 0;
    for (auto& b : cl.kids) {
      if (b.id != ebml::kSimpleBlock) continue;
      uint8_t h[12], e[8];
      c.check(b.end - b.body >= 20, w + "block too short");
      f->Get(b.body, h, 12);
      f->Get(b.end - 8, e, 8);
      const size_t k = found.size();
      c.check(k < frames.size(), w + "too many blocks");
      const BigFrame& want = frames[k];
      uint64_t first = 0, last = 0;
      for (int i = 0; i < 8; ++i) {
        first = first << 8 | h[4 + i];
        last = last << 8 | e[i];
      }
      const uint64_t ms = BigUint(*f, *tc) + (int16_t)(h[1] << 8 | h[2]);
      c.check(b.end - b.body == want.len + 4 && first == want.mark &&
                  last == ~want.mark && ms == want.ms &&
                  ((h[3] & 0x80) != 0) == want.key,
              w + "block " + std::to_string(k) + " is not the frame added");
      found.push_back({&cl, want.key, ms, ++index});
    }
  }
  pbt::CheckEq(c, found.size(), frames.size(), w + "blocks");
  // SeekHead.
  const BigNode* sh = seg.child(ebml::kSeekHead);
  c.check(sh != nullptr, w + "no seek head");
  std::map<uint32_t, uint64_t> seek;
  for (auto& s : sh->kids) {
    const BigNode *id = s.child(ebml::kSeekID), *at = s.child(ebml::kSeekPosition);
    c.check(id && at, w + "malformed seek entry");
    seek[(uint32_t)BigUint(*f, *id)] = seg.body + BigUint(*f, *at);
  }
  for (uint32_t id : {(uint32_t)ebml::kInfo, (uint32_t)ebml::kTracks,
                      (uint32_t)ebml::kCluster, (uint32_t)ebml::kCues}) {
    const BigNode* n = seg.child(id);
    c.check(n && seek.count(id) && seek[id] == n->pos,
            w + "seek entry of " + ebml::IdName(id));
  }
  const BigNode* cues = seg.child(ebml::kCues);
  c.check(moved == (cues->pos < seg.child(ebml::kCluster)->pos),
          w + "place of the cues");
  size_t n = 0;
  for (size_t k = 0; k < found.size(); ++k) {
    if (found[k].index != 1) continue;
    c.check(n < cues->kids.size(), w + "cue missing");
    const BigNode& p = cues->kids[n++];
    const BigNode *t = p.child(ebml::kCueTime),
                  *tp = p.child(ebml::kCueTrackPositions);
    const BigNode* cp = tp ? tp->child(ebml::kCueClusterPosition) : nullptr;
    c.check(t && cp, w + "malformed cue");
    pbt::CheckEq(c, seg.body + BigUint(*f, *cp), found[k].cluster->pos,
                 w + "cue cluster position");
    pbt::CheckEq(c, BigUint(*f, *t), found[k].ms, w + "cue time");
  }
  pbt::CheckEq(c, n, cues->kids.size(), w + "cue points");
  // The library's parser.
  mkvparser::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(f, pos) == 0, w + "parser rejects header");
  mkvparser::Segment* sp = nullptr;
  mkvparser::Segment::CreateInstance(f, pos, sp);
  std::unique_ptr<mkvparser::Segment> ps(sp);
  c.check(ps && ps->Load() == 0, w + "parser rejects segment");
  const mkvparser::Cues* pc = ps->GetCues();
  c.check(pc != nullptr, w + "parser found no cues");
  while (!pc->DoneParsing()) pc->LoadCuePoint();
  const mkvparser::Track* t = ps->GetTracks()->GetTrackByNumber(1);
  c.check(t != nullptr, w + "parser found no track");
  size_t k = 0;
  for (const mkvparser::CuePoint* cp = pc->GetFirst(); cp;
       cp = pc->GetNext(cp)) {
    while (k < found.size() && found[k].index != 1) ++k;
    c.check(k < found.size(), w + "parser reports too many cues");
    const mkvparser::BlockEntry* e = pc->GetBlock(cp, cp->Find(t));
    c.check(!found[k].key || (e && !e->EOS()), w + "cue does not resolve");
    if (e && !e->EOS()) {
      const mkvparser::Block* b = e->GetBlock();
      c.check((uint64_t)(b->m_start + b->m_size) <= f->size &&
                  (uint64_t)b->GetTimeCode(e->GetCluster()) == found[k].ms,
              w + "cue resolves to another block");
      const mkvparser::Block::Frame& fr = b->GetFrame(0);
      uint8_t x[8];
      c.check((uint64_t)fr.len == frames[k].len && fr.pos > 0 &&
                  f->Read(fr.pos, 8, x) == 0,
              w + "frame of the cued block");
      uint64_t v = 0;
      for (int i = 0; i < 8; ++i) v = v << 8 | x[i];
      c.check(v == frames[k].mark, w + "frame of the cued block");
    }
    ++k;
  }
  while (k < found.size() && found[k].index != 1) ++k;
  pbt::CheckEq(c, k, found.size(), w + "cue points seen by the parser");
}

void Huge(Gen& g, Ctx& c) {
  mkvmuxer::Segment seg;
  SparseFile f;
  c.check(seg.Init(&f), "init");
  seg.set_mode(mkvmuxer::Segment::kFile);
  seg.OutputCues(true);
  const uint64_t v = seg.AddVideoTrack(16, 16, 1);
  c.check(v == 1, "track refused");
  const bool one = g.p(35);  // nearly all in one cluster
  const uint64_t total = (one ? 1ull << 32 : g.pick<uint64_t>({1ull << 31, 1ull << 32})) +
                         g.u(0, 800u << 20);
  if (!one && g.p(50)) seg.set_max_cluster_size(g.pick<uint64_t>({1u << 20, 500u << 20, 3ull << 30}));
  const uint64_t frame = g.pick<uint64_t>({60u << 20, 150u << 20, 250u << 20});
  const unsigned key_pct = (unsigned)g.pick({15, 60, 100});
  const bool move = g.p(35);
  std::vector<BigFrame> frames;
  uint8_t* mem = (uint8_t*)calloc(1, 256u << 20);
  struct Free {
    uint8_t* p;
    ~Free() { free(p); }
  } freed{mem};
  uint64_t sum = 0, ms = 0;
  size_t after = g.u(1, 6);  // small frames behind the limit
  while (sum < total || after) {
    BigFrame b;
    if (sum >= total) --after;
    b.len = sum >= total || g.p(25) ? g.u(16, 400)
                                    : frame - g.u(0, 3u << 20);
    b.ms = ms;
    b.key = frames.empty() || (one && sum < total ? false : g.p(key_pct));
    b.mark = g.u(1, UINT64_MAX >> 1);
    for (int i = 0; i < 8; ++i) {
      mem[i] = (uint8_t)(b.mark >> (56 - 8 * i));
      mem[b.len - 8 + i] = (uint8_t)(~b.mark >> (56 - 8 * i));
    }
    c.desc << "frame " << b.len << " bytes at " << ms << " ms"
           << (b.key ? " key\n" : "\n");
    c.check(seg.AddFrame(mem, b.len, 1, ms * 1000000, b.key), "frame refused");
    memset(mem, 0, 8);
    memset(mem + b.len - 8, 0, 8);
    frames.push_back(b);
    sum += b.len;
    ms += g.u(1, one ? 100 : 2000);
  }
  c.check(seg.Finalize(), "finalize failed");
  CheckBig(c, &f, frames, false);
  c.count("gigabytes", f.size >> 30);
  c.nontrivial();
  if (!move) return;
  c.label("moved-cues");
  SparseFile f2;
  c.check(seg.CopyAndMoveCuesBeforeClusters(&f, &f2), "moving cues failed");
  CheckBig(c, &f2, frames, true);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C03";
  p.level = "exploration";
  p.rule =
      "A case is a muxing history in file mode, its finalized file and (60% of "
      "the eligible ones) the copy with the cues moved in front; all index "
      "entries are checked against an independent decoding. Suite long: up to "
      "1500 frames, hundreds of cue points. Suite huge: files of 2 to 5 GB (kept sparse). Non-trivial: at least 2 cue points.";
  p.suites = {{"index", Index, 150000, 4000000, true},
              {"long", Long, 600, 20000, true},
              {"huge", Huge, 24, 600, true}};
  p.assumptions = {"the reference EBML decoder in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
