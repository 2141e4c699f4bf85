// C01: every frame accepted by the muxer comes back from the file exactly once
// and unchanged.
#include "muxlib.h"

using namespace muxlib;

namespace {

// True if the block carries what the frame asked for.  *why explains.
bool Matches(const Scenario& s, const FrameOp& f, const FoundBlock& b,
             std::string* why) {
  std::ostringstream o;
  const uint64_t tn = s.tracks[f.track].number;
  if (b.track != tn)
    o << "track " << b.track << " instead of " << tn;
  else if (b.tc != f.ts / s.scale)
    o << "timecode " << b.tc << " instead of " << f.ts / s.scale;
  else if (b.key != f.key)
    o << "key flag " << b.key << " instead of " << f.key;
  else if (b.data != f.data)
    o << "payload differs (" << b.data.size() << " bytes, want "
      << f.data.size() << ")";
  else if ((f.discard != 0) != b.has_discard || b.discard != f.discard)
    o << "discard padding " << b.discard << " instead of " << f.discard;
  else if (f.additional.empty() == b.has_additional ||
           (b.has_additional && (b.additional != f.additional)))
    o << "additional data differ";
  else if (b.has_additional && b.add_id != f.add_id)
    o << "additional id " << b.add_id << " instead of " << f.add_id;
  else if (f.duration / s.scale > 0 &&
           (!b.has_duration || b.duration != f.duration / s.scale))
    o << "duration " << b.duration << " instead of " << f.duration / s.scale;
  else if (f.duration / s.scale == 0 && b.has_duration && !s.accurate)
    o << "unasked duration " << b.duration;
  else
    return true;
  *why = o.str();
  return false;
}

// The reference of a block group that is not a key frame: as given, or the
// track's previous frame.  |w| and |g| are the frames and blocks of one track.
void CheckReference(Ctx& c, const Scenario& s,
                    const std::vector<const FrameOp*>& w,
                    const std::vector<const FoundBlock*>& g, size_t k) {
  const FrameOp& f = *w[k];
  const FoundBlock& b = *g[k];
  if (b.simple) {
    c.check(f.additional.empty() && f.discard == 0 && f.duration == 0,
            "simple block for a frame that needs a group");
    return;
  }
  if (f.key) {
    c.check(!b.has_ref, "key frame with a reference");
    return;
  }
  c.check(b.has_ref, "block group of a delta frame has no reference");
  std::vector<uint64_t> may;
  if (f.set_ref) {
    may.push_back(f.ref);
  } else {
    may.push_back(k ? w[k - 1]->ts : 0);
    // Audio held back for a video frame refers to what has been written.
    if (s.has_video() && s.tracks[f.track].is_audio()) {
      may.push_back(0);
      for (size_t j = 0; j + 1 < k; ++j) may.push_back(w[j]->ts);
    }
    // A duration added at the end of a cluster: the reference is the track's
    // last block in this cluster, if any.
    if (s.accurate && f.additional.empty() && f.discard == 0 &&
        (k == 0 || g[k - 1]->cluster != b.cluster))
      may.push_back(0);
  }
  bool absolute = false;
  for (uint64_t r : may) {
    const uint64_t units = r / s.scale;
    if (b.ref_signed == (int64_t)units - (int64_t)b.tc) return;
    absolute = absolute || b.ref_unsigned == units;
  }
  if (!absolute) {
    std::ostringstream o;
    o << "reference of " << DescribeBlock(b) << " is " << b.ref_unsigned
      << ", not that of the frame at " << may[0] << " ns";
    c.fail(o.str());
  }
  c.known("C01",
          "ReferenceBlock is written as the absolute time of the referenced "
          "frame and unsigned, not relative to its block and signed");
}

void CompareReferences(Ctx& c, const Scenario& s,
                       const std::vector<const FrameOp*>& want,
                       const FoundFile& f) {
  for (size_t t = 0; t < s.tracks.size(); ++t) {
    std::vector<const FrameOp*> w;
    std::vector<const FoundBlock*> g;
    for (auto* op : want)
      if (op->track == t) w.push_back(op);
    for (auto& b : f.blocks)
      if (b.track == s.tracks[t].number) g.push_back(&b);
    c.check(w.size() == g.size(), "frame count of a track differs");
    for (size_t k = 0; k < w.size(); ++k) CheckReference(c, s, w, g, k);
  }
}

void CompareWithFile(Ctx& c, const Scenario& s, const FoundFile& f) {
  std::vector<const FrameOp*> want;
  for (auto& op : s.ops)
    if (!op.force_cluster && op.accepted) want.push_back(&op);
  if (want.size() != f.blocks.size()) {
    std::ostringstream o;
    o << "frame count: " << want.size() << " frames accepted, "
      << f.blocks.size() << " blocks in the file";
    c.fail(o.str());
  }
  std::string why;
  if (!s.accurate) {
    for (size_t k = 0; k < want.size(); ++k)
      if (!Matches(s, *want[k], f.blocks[k], &why))
        c.fail("frame mismatch: frame " + std::to_string(k) + " " +
               DescribeBlock(f.blocks[k]) + ": " + why);
    CompareReferences(c, s, want, f);
    return;
  }
  // With accurate cluster durations the muxer merges the tracks by timestamp:
  // per-track order and overall timestamp order must hold.
  for (size_t t = 0; t < s.tracks.size(); ++t) {
    std::vector<const FrameOp*> w;
    std::vector<const FoundBlock*> g;
    for (auto* op : want)
      if (op->track == t) w.push_back(op);
    for (auto& b : f.blocks)
      if (b.track == s.tracks[t].number) g.push_back(&b);
    c.check(w.size() == g.size(), "frame count of a track differs");
    for (size_t k = 0; k < w.size(); ++k) {
      if (!Matches(s, *w[k], *g[k], &why))
        c.fail("frame mismatch: track frame " + std::to_string(k) + " " +
               DescribeBlock(*g[k]) + ": " + why);
      // An added duration is only for the last frame of a track in a cluster
      // that is followed by another one.
      const bool last_in_cluster =
          k + 1 == w.size() || g[k + 1]->cluster != g[k]->cluster;
      const bool has_next = g[k]->cluster + 1 < f.clusters.size();
      const bool explicit_duration =
          w[k]->duration > 0 || w[k]->kind == kMetadata;
      if (explicit_duration && w[k]->duration / s.scale == 0)
        c.check(!g[k]->has_duration,
                "duration written for a frame whose duration was given as 0");
      if (!explicit_duration && g[k]->has_duration) {
        c.check(last_in_cluster && has_next,
                "duration invented for a frame that is not the last of its "
                "track in its cluster");
        bool ok = false;
        for (size_t j = 0; j < f.blocks.size(); ++j)
          if (f.blocks[j].cluster > g[k]->cluster &&
              f.blocks[j].cluster <= g[k]->cluster + 2)
            for (auto* x : want)
              if (x->ts / s.scale == f.blocks[j].tc &&
                  (x->ts - w[k]->ts) / s.scale == g[k]->duration)
                ok = true;
        c.check(ok, "last frame of the cluster has a wrong duration");
      }
      if (!explicit_duration && !g[k]->has_duration && last_in_cluster &&
          has_next) {
        // Allowed only when the distance rounds to zero.
        bool zero = false;
        for (auto* x : want)
          if (x->ts >= w[k]->ts && (x->ts - w[k]->ts) / s.scale == 0 &&
              x != w[k])
            zero = true;
        c.check(zero, "last frame of a finished cluster has no duration "
                      "although accurate durations were requested");
      }
    }
  }
  for (size_t k = 1; k < f.blocks.size(); ++k)
    c.check(f.blocks[k].tc >= f.blocks[k - 1].tc,
            "blocks not in timestamp order");
  CompareReferences(c, s, want, f);
}

void CompareWithParser(Ctx& c, const Scenario& s, const Bytes& data,
                       const FoundFile& f) {
  MemReader r(data);
  mkvparser::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(&r, pos) == 0, "library parser rejects the EBML header");
  mkvparser::Segment* sp = nullptr;
  long long st = mkvparser::Segment::CreateInstance(&r, pos, sp);
  std::unique_ptr<mkvparser::Segment> seg(sp);
  c.check(st == 0 && seg, "library parser rejects the segment header");
  const long ls = seg->Load();
  pbt::CheckEq(c, ls, 0, "library parser: load status");
  pbt::CheckEq(c, seg->GetCount(), f.clusters.size(), "cluster count");
  const mkvparser::Cluster* cl = seg->GetFirst();
  size_t k = 0, ci = 0;
  while (cl && !cl->EOS()) {
    c.check(ci < f.clusters.size(), "too many clusters from the parser");
    const mkvparser::BlockEntry* e = nullptr;
    c.check(cl->GetFirst(e) == 0, "GetFirst failed");
    while (e && !e->EOS()) {
      c.check(k < f.blocks.size(), "too many blocks from the parser");
      const FoundBlock& b = f.blocks[k];
      const mkvparser::Block* bl = e->GetBlock();
      c.check(bl != nullptr, "no block");
      c.check(b.cluster == ci, "block in a different cluster");
      pbt::CheckEq(c, (uint64_t)bl->GetTrackNumber(), b.track, "parser track");
      pbt::CheckEq(c, (uint64_t)bl->GetTimeCode(cl), b.tc, "parser timecode");
      pbt::CheckEq(c, (uint64_t)bl->GetTime(cl), b.tc * s.scale,
                   "parser time");
      pbt::CheckEq(c, bl->IsKey(), b.key, "parser key flag");
      pbt::CheckEq(c, bl->GetFrameCount(), 1, "parser frame count");
      pbt::CheckEq(c, bl->GetDiscardPadding(), b.discard,
                   "parser discard padding");
      const mkvparser::Block::Frame& fr = bl->GetFrame(0);
      pbt::CheckEq(c, (size_t)fr.len, b.data.size(), "parser frame size");
      Bytes got(fr.len);
      c.check(fr.Read(&r, got.data()) == 0, "frame read failed");
      c.check(got == b.data, "parser payload differs");
      if (e->GetKind() == mkvparser::BlockEntry::kBlockGroup) {
        const auto* bg = static_cast<const mkvparser::BlockGroup*>(e);
        if (b.has_duration)
          pbt::CheckEq(c, (uint64_t)bg->GetDurationTimeCode(), b.duration,
                       "parser block duration");
      }
      ++k;
      const mkvparser::BlockEntry* nx = nullptr;
      c.check(cl->GetNext(e, nx) == 0, "GetNext failed");
      e = nx;
    }
    ++ci;
    cl = seg->GetNext(cl);
  }
  pbt::CheckEq(c, k, f.blocks.size(), "blocks seen by the parser");
}

// Audio is held until a video frame arrives; without any, Finalize() reports
// failure, which the property allows.
bool AudioOnlyWithVideo(const Scenario& s) {
  if (!s.has_video()) return false;
  for (auto& op : s.ops)
    if (!op.force_cluster && !s.tracks[op.track].is_audio()) return false;
  return true;
}

void RoundtripWith(Gen& g, Ctx& c, const GenOptions& o) {
  Scenario s = GenScenario(g, c, o);
  c.desc << Describe(s);
  MemWriter w(s.seekable);
  RunResult r;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  c.check(r.init && r.configured, "muxer refused a valid configuration");
  for (size_t k = 0; k < s.ops.size(); ++k)
    if (!s.ops[k].accepted)
      c.fail("valid frame rejected: operation " + std::to_string(k));
  if (!r.finalized && AudioOnlyWithVideo(s)) {
    c.label("audio-held-for-video-that-never-came");
    return;
  }
  c.check(r.finalized, "finalize failed for a valid history");
  c.check(!w.bad_seek && !w.seek_on_non_seekable, "illegal seek");
  FoundFile f;
  DecodeFile(c, w.data, &f);
  CompareWithFile(c, s, f);
  CompareWithParser(c, s, w.data, f);
  c.count("frames", f.blocks.size());
  if (f.clusters.size() > 1) c.label("several-clusters");
  if (f.clusters.size() > 3) c.label("more-than-3-clusters");
  bool group = false;
  for (auto& b : f.blocks) group = group || !b.simple;
  if (group) c.label("block-groups");
  if (f.blocks.size() >= 3 && (f.clusters.size() > 1 || s.tracks.size() > 1))
    c.nontrivial();
}

void Roundtrip(Gen& g, Ctx& c) { RoundtripWith(g, c, GenOptions()); }

// Frames and additions whose lengths lie around the limits of 1, 2 and 3-byte
// size fields.
void Big(Gen& g, Ctx& c) {
  GenOptions o;
  o.big = true;
  RoundtripWith(g, c, o);
}

// Hundreds of frames on up to 20 tracks: every growing table is grown.
void Long(Gen& g, Ctx& c) {
  GenOptions o;
  o.long_history = true;
  o.max_frames = 500;
  RoundtripWith(g, c, o);
}

// Histories that also contain frames the muxer must or may refuse: whatever it
// accepted must be in the file, whatever it refused must not.
void Mixed(Gen& g, Ctx& c) {
  GenOptions o;
  o.allow_accurate = false;
  o.dense = true;
  Scenario s = GenScenario(g, c, o);
  // Disturb some operations.
  size_t disturbed = 0;
  for (auto& f : s.ops) {
    if (f.force_cluster || !g.p(25)) continue;
    ++disturbed;
    switch (g.u(0, 2)) {
      case 0:
        f.ts -= std::min(f.ts, g.u(0, 2000) * s.scale);
        break;
      case 1:
        f.data.clear();
        f.kind = kGeneric;
        break;
      case 2:
        f.ts += g.u(0, 3000) * s.scale;
        break;
    }
  }
  c.desc << Describe(s);
  MemWriter w(s.seekable);
  RunResult r;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  c.check(r.init && r.configured, "muxer refused a valid configuration");
  if (!r.finalized) {
    c.label("finalize-reported-failure");
    return;
  }
  FoundFile f;
  DecodeFile(c, w.data, &f);
  // Per track multiset in order of acceptance.
  std::string why;
  size_t total = 0;
  for (size_t t = 0; t < s.tracks.size(); ++t) {
    std::vector<const FrameOp*> want;
    std::vector<const FoundBlock*> got;
    for (auto& op : s.ops)
      if (!op.force_cluster && op.accepted && op.track == t)
        want.push_back(&op);
    for (auto& b : f.blocks)
      if (b.track == s.tracks[t].number) got.push_back(&b);
    pbt::CheckEq(c, got.size(), want.size(),
                 "mixed history, blocks of a track vs accepted frames");
    for (size_t k = 0; k < want.size(); ++k)
      if (!Matches(s, *want[k], *got[k], &why))
        c.fail("mixed history, frame mismatch: " + why);
    for (size_t k = 0; k < want.size(); ++k) CheckReference(c, s, want, got, k);
    total += got.size();
  }
  pbt::CheckEq(c, total, f.blocks.size(), "blocks of unknown tracks");
  if (r.rejected) c.label("with-rejections");
  if (disturbed && f.blocks.size() >= 2) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C01";
  p.level = "exploration";
  p.rule =
      "A case is a muxing history: segment settings (mode, seekability, "
      "timecode scale, cluster limits, cues, accurate durations), 1-6 tracks "
      "and 1-40 frame additions through every public frame entry point, with "
      "non-decreasing timestamps (suite mixed: also out-of-order and empty "
      "frames). Non-trivial: at least 3 blocks and more than one cluster or "
      "track (mixed: at least one disturbed operation and 2 blocks).";
  p.suites = {{"roundtrip", Roundtrip, 250000, 8000000, true},
              {"mixed", Mixed, 80000, 2500000, true},
              {"big", Big, 2500, 80000, true},
              {"long", Long, 3000, 100000, true}};
  p.assumptions = {"the reference EBML decoder in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
