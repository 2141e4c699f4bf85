// C02: whatever the muxer writes is a well-formed WebM/Matroska document.
#include <cmath>

#include "muxlib.h"

using namespace muxlib;

namespace {

bool WebmCodec(const std::string& c) {
  static const std::set<std::string> k = {
      "V_VP8",   "V_VP9",  "V_AV1", "A_VORBIS", "A_OPUS", "D_WEBVTT/SUBTITLES",
      "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA"};
  return k.count(c) != 0;
}

void CheckHeader(Ctx& c, const Scenario& s, const Bytes& d, const Node& h) {
  struct W {
    uint32_t id;
    uint64_t v;
  };
  for (const W& w : {W{ebml::kEBMLVersion, 1}, W{ebml::kEBMLReadVersion, 1},
                     W{ebml::kEBMLMaxIDLength, 4}, W{ebml::kEBMLMaxSizeLength, 8},
                     W{ebml::kDocTypeReadVersion, 2}}) {
    auto v = h.children(w.id);
    c.check(v.size() == 1, "EBML header: " + ebml::IdName(w.id) +
                               " not present exactly once");
    pbt::CheckEq(c, ebml::GetUint(d, *v[0]), w.v,
                 "EBML header " + ebml::IdName(w.id));
  }
  c.check(h.children(ebml::kDocType).size() == 1, "EBML header: DocType count");
  c.check(h.children(ebml::kDocTypeVersion).size() == 1,
          "EBML header: DocTypeVersion count");
  bool webm = true;
  bool v4 = false;
  for (auto& t : s.tracks) {
    webm = webm && WebmCodec(t.codec);
    v4 = v4 || t.codec_delay || t.seek_pre_roll;
  }
  pbt::CheckEq(c, ebml::GetStr(d, *h.child(ebml::kDocType)),
               std::string(webm ? "webm" : "matroska"), "DocType");
  const uint64_t dv = ebml::GetUint(d, *h.child(ebml::kDocTypeVersion));
  c.check(dv >= 2 && dv <= 4, "DocTypeVersion out of range");
  if (s.seekable && !s.live)
    for (auto& op : s.ops) v4 = v4 || (op.accepted && op.discard != 0);
  if (v4) pbt::CheckEq(c, dv, 4u, "DocTypeVersion with version 4 elements");
}

void CheckSegment(Ctx& c, const Scenario& s, const Bytes& d,
                  const FoundFile& f) {
  const Node& seg = *f.segment;
  const bool patched = s.seekable && !s.live;
  c.check(seg.unknown == !patched,
          patched ? "segment size still unknown after finalize"
                  : "segment size known although it cannot be");
  // Top-level layout.
  int stage = 0;  // seekhead/void, info, tracks, chapters, tags, clusters, cues
  for (const Node& n : seg.kids) {
    int st = 0;
    switch (n.id) {
      case ebml::kSeekHead: case ebml::kVoid: st = 0; break;
      case ebml::kInfo: st = 1; break;
      case ebml::kTracks: st = 2; break;
      case ebml::kChapters: st = 3; break;
      case ebml::kTags: st = 4; break;
      case ebml::kCluster: st = 5; break;
      case ebml::kCues: st = 6; break;
      default:
        c.fail("unexpected element in the segment: " + ebml::IdName(n.id));
    }
    c.check(st >= stage, "segment children out of order at " +
                             ebml::IdName(n.id));
    stage = st;
    if (n.id != ebml::kCluster) {
      c.check(!n.unknown, "unknown size for " + ebml::IdName(n.id));
      if (n.id != ebml::kVoid)
        c.check(seg.children(n.id).size() == 1,
                ebml::IdName(n.id) + " repeated");
    }
  }
  const Node* info = seg.child(ebml::kInfo);
  const Node* tracks = seg.child(ebml::kTracks);
  c.check(info && tracks, "Info or Tracks missing");
  c.check((seg.child(ebml::kChapters) != nullptr) == (s.chapters > 0),
          "Chapters present iff added");
  c.check((seg.child(ebml::kTags) != nullptr) == (s.tags > 0),
          "Tags present iff added");
  c.check((seg.child(ebml::kCues) != nullptr) == (s.output_cues && !s.live),
          "Cues present iff requested and in file mode");
  c.check((seg.child(ebml::kSeekHead) != nullptr) == patched,
          "SeekHead present iff the file could be patched");
  // Info.
  auto ts = info->children(ebml::kTimecodeScale);
  c.check(ts.size() == 1, "TimecodeScale count");
  pbt::CheckEq(c, ebml::GetUint(d, *ts[0]), s.scale, "TimecodeScale");
  c.check(info->child(ebml::kMuxingApp) && info->child(ebml::kWritingApp),
          "MuxingApp / WritingApp missing");
  auto du = info->children(ebml::kDuration);
  c.check(du.size() == (patched ? 1u : 0u), "Duration present iff patched");
  if (patched) {
    const double got = ebml::GetFloat(d, *du[0]);
    if (s.duration > 0) {
      c.check(std::fabs(got - s.duration) <= s.duration * 1e-6,
              "explicit duration not written");
    } else {
      uint64_t last = 0, maxdur = 0, n = 0;
      for (auto& op : s.ops)
        if (!op.force_cluster && op.accepted) {
          last = std::max(last, op.ts);
          maxdur = std::max(maxdur, op.duration);
          ++n;
        }
      const double lo = (double)last / s.scale;
      if (lo > 0) {
        if (got < lo * (1 - 1e-6)) {
          std::ostringstream o;
          o << "duration " << got << " shorter than the last timestamp " << lo;
          c.fail(o.str());
        }
        if (!s.estimate_duration) {
          const double hi = ((double)last + maxdur) / s.scale;
          if (got > hi * (1 + 1e-6)) {
            std::ostringstream o;
            o << "duration " << got << " beyond the end of the media " << hi;
            c.fail(o.str());
          }
        } else {
          // At most one average frame more than the last timestamp.
          const double hi = ((double)last * 2 + maxdur) / s.scale;
          c.check(got <= hi * (1 + 1e-6), "estimated duration too long");
          c.label("estimated-duration");
        }
        // The estimate: every track ends an average frame after its last.
        bool plain = s.estimate_duration;
        std::map<size_t, std::pair<uint64_t, uint64_t>> per;  // frames, last
        for (auto& op : s.ops) {
          if (op.force_cluster) continue;
          plain = plain && op.accepted && op.duration == 0;
          auto& x = per[op.track];
          ++x.first;
          x.second = op.ts;
        }
        if (plain && !s.accurate) {
          // (Of a held audio frame the muxer may not know it was the last of
          // its track: such tracks bound the estimate from above only.)
          double least = lo, most = lo;
          for (auto& x : per) {
            if (x.second.first < 2) continue;
            const double last = (double)x.second.second;
            const double e =
                (last + last / (double)(x.second.first - 1)) / s.scale;
            most = std::max(most, e);
            if (!(s.has_video() && s.tracks[x.first].is_audio()))
              least = std::max(least, e);
          }
          std::ostringstream o;
          o << "estimated duration " << got << ", want " << least << ".."
            << most;
          c.check(got >= least * (1 - 1e-6) && got <= most * (1 + 1e-6),
                  o.str());
          c.label("estimate-checked");
        }
        // Exact when the last frame was not held back.
        const FrameOp* lf = nullptr;
        for (auto& op : s.ops)
          if (!op.force_cluster && op.accepted) lf = &op;
        if (lf && (!s.has_video() || !s.tracks[lf->track].is_audio()) &&
            (lf->duration > 0 || !s.estimate_duration)) {
          const double want = ((double)lf->ts + lf->duration) / s.scale;
          c.check(std::fabs(got - want) <= want * 1e-6,
                  "duration is not the end of the last frame");
          c.label("duration-of-last-frame");
        }
      }
    }
  }
  // Tracks.
  auto te = tracks->children(ebml::kTrackEntry);
  pbt::CheckEq(c, te.size(), s.tracks.size(), "number of TrackEntry elements");
  std::set<uint64_t> numbers, uids;
  for (auto* t : te) {
    for (uint32_t id : {(uint32_t)ebml::kTrackNumber, (uint32_t)ebml::kTrackUID,
                        (uint32_t)ebml::kTrackType, (uint32_t)ebml::kCodecID})
      c.check(t->children(id).size() == 1,
              "TrackEntry: " + ebml::IdName(id) + " not present exactly once");
    const uint64_t num = ebml::GetUint(d, *t->child(ebml::kTrackNumber));
    const uint64_t uid = ebml::GetUint(d, *t->child(ebml::kTrackUID));
    c.check(num != 0 && numbers.insert(num).second, "track number not unique");
    c.check(uid != 0 && uids.insert(uid).second, "track uid not unique");
  }
  // Clusters.
  for (size_t k = 0; k < f.clusters.size(); ++k) {
    const Node& n = *f.clusters[k];
    const bool last = k + 1 == f.clusters.size();
    if (s.seekable && (!last || !s.live || s.accurate))
      c.check(!n.unknown, "cluster size still unknown");
    if (!s.seekable) c.check(n.unknown, "cluster size known without seeking");
    c.check(!n.kids.empty() && n.kids[0].id == ebml::kTimecode,
            "cluster does not start with its timecode");
    c.check(n.children(ebml::kTimecode).size() == 1, "cluster timecode count");
    if (s.fixed_timecode)
      pbt::CheckEq(c, n.kids[0].size, 8u, "fixed size cluster timecode");
    c.check(n.kids.size() >= 2, "empty cluster");
    for (const Node& e : n.kids)
      c.check(e.id == ebml::kTimecode || e.id == ebml::kSimpleBlock ||
                  e.id == ebml::kBlockGroup,
              "unexpected element in a cluster");
  }
  // Every block belongs to a declared track.
  for (auto& b : f.blocks)
    c.check(numbers.count(b.track) != 0, "block of an undeclared track");
}

void CheckNotified(Ctx& c, const std::set<std::pair<uint64_t, uint64_t>>& notes,
                   const Node& n) {
  if (!notes.count({n.id, n.pos}))
    c.fail("writer was not notified of the start of " + ebml::IdName(n.id) +
           " at " + std::to_string(n.pos));
  for (const Node& k : n.kids) CheckNotified(c, notes, k);
}

void StructureWith(Gen& g, Ctx& c, GenOptions o) {
  o.auto_uid = true;
  Scenario s = GenScenario(g, c, o);
  c.desc << Describe(s);
  MemWriter w(s.seekable);
  RunResult r;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  c.check(r.init && r.configured, "muxer refused a valid configuration");
  if (!r.finalized) {
    c.label("finalize-reported-failure");
    return;
  }
  FoundFile f;
  DecodeFile(c, w.data, &f);
  CheckHeader(c, s, w.data, f.top[0]);
  CheckSegment(c, s, w.data, f);
  // The notifications given to the writer name real elements.
  for (auto& n : w.notes) {
    if (n.first == ebml::kVoid) continue;  // reserved space, overwritten
    uint64_t pos = n.second;
    uint32_t id = 0;
    c.check(n.second >= 0 && pos < w.data.size() &&
                ebml::GetId(w.data, &pos, w.data.size(), &id) && id == n.first,
            "writer notified of an element that is not there");
  }
  std::set<std::pair<uint64_t, uint64_t>> notes;
  for (auto& n : w.notes) notes.insert({n.first, (uint64_t)n.second});
  for (const Node& n : f.top) CheckNotified(c, notes, n);
  if (f.blocks.size() >= 2) c.nontrivial();
  if (f.clusters.size() > 1) c.label("several-clusters");
}

void Structure(Gen& g, Ctx& c) { StructureWith(g, c, GenOptions()); }

// Payloads around the limits of 1, 2 and 3-byte size fields.
void Big(Gen& g, Ctx& c) {
  GenOptions o;
  o.big = true;
  StructureWith(g, c, o);
}

// Hundreds of frames on up to 20 tracks.
void Long(Gen& g, Ctx& c) {
  GenOptions o;
  o.long_history = true;
  o.max_frames = 500;
  StructureWith(g, c, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C02";
  p.level = "exploration";
  p.rule =
      "A case is a muxing history (settings, 1-6 tracks, chapters, tags, 1-40 "
      "frames; suites big and long: payloads up to 2 MiB, up to 500 frames) whose output is decoded by the independent strict EBML decoder. "
      "Non-trivial: the finalized file has at least 2 blocks.";
  p.suites = {{"structure", Structure, 250000, 8000000, true},
              {"big", Big, 2000, 60000, true},
              {"long", Long, 2500, 80000, true}};
  p.assumptions = {"the reference EBML decoder and schema in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
