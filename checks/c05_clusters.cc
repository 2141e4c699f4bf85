// C05: how frames are grouped into clusters.
#include "muxlib.h"

using namespace muxlib;

namespace {

const uint64_t kRange = 32767;

void Clusters(Gen& g, Ctx& c) {
  GenOptions o;
  Scenario s = GenScenario(g, c, o);
  // More pressure on the limits than the shared generator has.
  if (g.p(40)) s.max_cluster_duration = s.scale * g.u(1, 60);
  if (g.p(40)) s.max_cluster_size = g.u(1, 1500);
  // Audio and video at the same instant.
  if (g.p(30))
    for (size_t k = 1; k < s.ops.size(); ++k) {
      if (s.ops[k].force_cluster || s.ops[k - 1].force_cluster) continue;
      if (g.p(30)) s.ops[k].ts = s.ops[k - 1].ts;
    }
  uint64_t last = 0;
  for (auto& f : s.ops) {
    if (f.force_cluster) continue;
    if (f.ts < last) f.ts = last;
    last = f.ts;
    if (f.set_ref && (uint64_t)f.ref > f.ts) f.ref = (int64_t)f.ts;
  }
  c.desc << Describe(s);
  MemWriter w(s.seekable);
  RunResult r;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  c.check(r.init && r.configured, "muxer refused a valid configuration");
  c.check(r.rejected == 0, "muxer refused a valid frame");
  bool direct_seen = false;
  for (auto& f : s.ops)
    direct_seen = direct_seen || (!f.force_cluster && !s.tracks[f.track].is_audio());
  if (!r.finalized) {
    c.check(s.has_video() && !direct_seen, "finalize failed");
    c.label("audio-only-in-video-segment");
    return;
  }
  FoundFile f;
  DecodeFile(c, w.data, &f);

  // For every cluster.
  uint64_t prev_tc = 0;
  std::vector<size_t> nblocks(f.clusters.size(), 0);
  for (auto& b : f.blocks) ++nblocks[b.cluster];
  for (size_t k = 0; k < f.clusters.size(); ++k) {
    const Node& n = *f.clusters[k];
    const Node* t = n.child(ebml::kTimecode);
    c.check(n.children(ebml::kTimecode).size() == 1, "cluster timecode count");
    c.check(n.kids[0].id == ebml::kTimecode, "cluster does not start with its timecode");
    const uint64_t tc = ebml::GetUint(w.data, *t);
    c.check(k == 0 || tc >= prev_tc, "cluster timecodes decrease");
    prev_tc = tc;
    c.check(nblocks[k] > 0, "cluster without a block");
    if (s.fixed_timecode)
      pbt::CheckEq(c, t->size, 8u, "bytes of a fixed-size cluster timecode");
    else
      pbt::CheckEq(c, t->size, (uint64_t)ebml::MinUintLength(tc),
                   "bytes of a cluster timecode");
  }
  for (auto& b : f.blocks) {
    c.check(b.rel >= 0, "block before its cluster: " + DescribeBlock(b));
    if (b.index == 1)
      pbt::CheckEq(c, b.tc, b.cluster_tc, "cluster timecode vs its first block");
  }
  c.count("clusters", f.clusters.size());
  c.count("blocks", f.blocks.size());
  if (f.clusters.size() > 1) c.label("several-clusters");

  if (s.accurate) {
    // Held-back blocks change the order; only the rules above are checked,
    // plus: a key video frame shares its cluster with earlier audio only.
    c.label("accurate");
    return;
  }

  // File order equals input order.
  struct X {
    const FrameOp* op;
    const FoundBlock* b;
    bool forced;  // ForceNewClusterOnNextFrame() came just before
    bool audio, video;
    bool direct;  // decides about clusters itself (is not queued)
  };
  std::vector<X> x;
  bool forced = false;
  for (auto& op : s.ops) {
    if (op.force_cluster) {
      forced = true;
      continue;
    }
    x.push_back({&op, nullptr, forced, s.tracks[op.track].is_audio(),
                 s.tracks[op.track].is_video(), false});
    forced = false;
  }
  pbt::CheckEq(c, f.blocks.size(), x.size(), "blocks");
  const bool queueing = s.has_video();
  bool plain = true;  // no forced clusters, everything within one range
  for (size_t k = 0; k < x.size(); ++k) {
    x[k].b = &f.blocks[k];
    pbt::CheckEq(c, x[k].b->tc, x[k].op->ts / s.scale, "block timecode");
    plain = plain && !x[k].forced;
  }
  plain = plain && x.back().b->tc - x[0].b->tc <= kRange;

  // Which frames decide: all if nothing is queued; else all but audio.  Audio
  // that comes after a force or a gap is written directly too; it may be in
  // either role, so the rules that need certainty treat it as unknown.
  for (auto& y : x) y.direct = !queueing || !y.audio;

  size_t closed_by_size = 0, closed_by_duration = 0, by_key = 0;
  for (size_t k = 0; k < x.size(); ++k) {
    const X& y = x[k];
    const Node& cl = *f.clusters[y.b->cluster];
    // Key video frames start the non-audio part of a cluster.
    if (y.video && y.op->key) {
      for (size_t j = k; j-- > 0 && x[j].b->cluster == y.b->cluster;)
        c.check(x[j].audio,
                "key video frame after a non-audio frame in its cluster: " +
                    DescribeBlock(*y.b));
      // The audio at the start time of the key frame is with it.
      if (plain && queueing && k > 0 && y.b->cluster > 0 && x[k - 1].audio) {
        c.check(x[k - 1].b->cluster == y.b->cluster,
                "the audio at the start of a key frame is in the previous "
                "cluster: " + DescribeBlock(*x[k - 1].b));
        c.label("audio-kept-with-key-frame");
        // ... and only that one.
        if (k > 1 && x[k - 2].audio)
          c.check(x[k - 2].b->cluster != y.b->cluster,
                  "audio from before the key frame is in its cluster");
      }
    }
    if (!y.direct) continue;
    // The previous frame of this cluster that certainly was written directly.
    const X* before = nullptr;
    for (size_t j = k; j-- > 0 && x[j].b->cluster == y.b->cluster;)
      if (x[j].direct) {
        before = &x[j];
        break;
      }
    if (before) {
      c.check(!y.forced, "no new cluster although it was forced: " +
                             DescribeBlock(*y.b));
      if (s.max_cluster_duration)
        c.check((y.b->tc - y.b->cluster_tc) * s.scale < s.max_cluster_duration,
                "cluster longer than the maximum duration: " +
                    DescribeBlock(*y.b));
      if (s.max_cluster_size) {
        const size_t j = before - &x[0];
        const uint64_t end =
            j + 1 < f.blocks.size() && f.blocks[j + 1].cluster == y.b->cluster
                ? f.blocks[j + 1].pos
                : cl.end();
        c.check(end - cl.body() < s.max_cluster_size,
                "cluster continued beyond the maximum size: " +
                    DescribeBlock(*y.b));
      }
      continue;
    }
    // First direct frame of its cluster: a reason for the cluster.
    if (y.b->cluster == 0) continue;
    if (y.video && y.op->key) {
      ++by_key;
      continue;
    }
    if (!plain && queueing) continue;  // forced / far audio: role unknown
    if (y.forced) continue;
    // End of the previous cluster at the time of the decision.
    size_t last_direct = SIZE_MAX;
    for (size_t j = k; j-- > 0;) {
      if (x[j].b->cluster == y.b->cluster) continue;
      if (x[j].direct) {
        last_direct = j;
        break;
      }
    }
    c.check(last_direct != SIZE_MAX, "cluster without a deciding frame");
    const FoundBlock& d = *x[last_direct].b;
    const Node& pc = *f.clusters[d.cluster];
    const uint64_t delta = y.b->tc - d.cluster_tc;
    if (delta > kRange) continue;
    if (s.max_cluster_duration && delta * s.scale >= s.max_cluster_duration) {
      ++closed_by_duration;
      continue;
    }
    const uint64_t end =
        last_direct + 1 < f.blocks.size() &&
                f.blocks[last_direct + 1].cluster == d.cluster
            ? f.blocks[last_direct + 1].pos
            : pc.end();
    if (s.max_cluster_size && end - pc.body() >= s.max_cluster_size) {
      ++closed_by_size;
      continue;
    }
    c.fail("new cluster for no reason: " + DescribeBlock(*y.b));
  }
  if (by_key) c.label("closed-by-key-frame");
  if (closed_by_duration) c.label("closed-by-duration");
  if (closed_by_size) c.label("closed-by-size");
  if (!plain) c.label("forced-or-gap");
  if (f.clusters.size() > 1 && f.blocks.size() > 3) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C05";
  p.level = "exploration";
  p.rule =
      "A case is a muxing history with non-decreasing timestamps under random "
      "cluster limits, forced clusters, gaps and coinciding frames. "
      "Non-trivial: not in accurate-duration mode, more than one cluster and "
      "more than 3 blocks.";
  p.suites = {{"clusters", Clusters, 250000, 8000000, true}};
  p.assumptions = {"the reference EBML decoder in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
