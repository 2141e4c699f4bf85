#include "muxlib.h"

namespace muxlib {

namespace {
const char* kVideoCodecs[] = {"V_VP8", "V_VP9", "V_AV1", "V_MPEG4/ISO/AVC"};
const char* kAudioCodecs[] = {"A_VORBIS", "A_OPUS", "A_AAC"};
const char* kTextCodecs[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/METADATA",
                             "S_TEXT/UTF8"};
// A length at which some enclosing element's size field changes its length.
size_t NearSizeClass(Gen& g) {
  const uint64_t edge = g.pick<uint64_t>({127, 16383, 16383, 2097151});
  return edge - 40 + g.u(0, 45);
}
}  // namespace

Scenario GenScenario(Gen& g, Ctx& c, const GenOptions& o) {
  Scenario s;
  s.live = !o.force_file && o.allow_live && g.p(25);
  s.seekable = !(o.allow_non_seekable && !o.force_file && g.p(20));
  switch (g.weighted({6, 2, 2, 1})) {
    case 0: s.scale = 1000000; break;
    case 1: s.scale = g.pick<uint64_t>({1, 1000, 100000, 10000000}); break;
    case 2: s.scale = g.u(1, 5000000); break;
    case 3: s.scale = g.u(1, 2000000000); break;
  }
  switch (g.weighted({5, 2, 3})) {
    case 0: break;
    case 1: s.max_cluster_duration = 0; break;
    case 2: s.max_cluster_duration = s.scale * g.u(1, 200); break;
  }
  if (g.p(25)) s.max_cluster_size = g.small(1, 5000);
  s.output_cues = !g.p(15);
  s.output_block_number = !g.p(30);
  s.accurate = o.allow_accurate && g.p(20);
  s.fixed_timecode = g.p(25);
  s.estimate_duration = g.p(20);
  if (g.p(15)) s.duration = (double)g.small(1, 1000000);
  s.chapters = g.p(15) ? (int)g.u(1, 3) : 0;
  s.tags = g.p(15) ? (int)g.u(1, 3) : 0;
  if (o.tiny && g.p(25)) {
    s.has_date = true;
    s.date = g.i(-1000000, 1ll << 60);
  }
  s.auto_uid = o.auto_uid && g.p(20);
  if (!o.allow_chapters_and_tags && s.chapters && s.tags) s.tags = 0;

  const size_t ntracks = o.tiny ? g.u(1, 2)
                         : o.long_history ? g.u(1, 20)
                                          : (size_t)g.pick({1, 2, 2, 3, 4, 6});
  std::vector<bool> used(130, false);
  for (size_t k = 0; k < ntracks; ++k) {
    TrackSpec t;
    t.kind = (int)g.weighted({5, 4, 2});
    if (t.kind == 0) {
      t.type = 1;
      t.codec = kVideoCodecs[g.weighted({5, 4, 1, 1})];
      t.width = (int)g.edgy(1, 65535);
      t.height = (int)g.edgy(1, 65535);
    } else if (t.kind == 1) {
      t.type = 2;
      t.codec = kAudioCodecs[g.weighted({5, 4, 1})];
      t.rate = (int)g.pick({8000, 44100, 48000, 96000});
      t.channels = (int)g.u(1, 8);
      if (g.p(30)) {
        t.codec_delay = g.edgy(1, 100000000);
        t.seek_pre_roll = g.edgy(1, 100000000);
      }
    } else {
      t.type = g.pick<uint64_t>({0x11, 0x12, 0x21, 3});
      t.codec = kTextCodecs[g.u(0, 2)];
    }
    if (t.codec == "V_AV1" || g.p(40)) t.codec_private = g.blob(g.small(1, 200));
    if (g.p(20)) t.default_duration = g.edgy(1, 1000000000);
    if (g.p(35)) {
      int n = (int)g.u(1, 126);
      while (used[n]) n = n % 126 + 1;
      t.req_number = n;
      used[n] = true;
      t.number = n;
    } else {
      // lowest free number from the count up, as documented ("0: the muxer
      // picks")
      t.req_number = 0;
      t.number = 0;
    }
    s.tracks.push_back(t);
    // Automatic numbers are only known after AddTrack; avoid collisions of
    // later explicit numbers with them by tracking the same rule.
    if (t.req_number == 0) {
      size_t n = s.tracks.size();
      for (;;) {
        bool clash = false;
        for (size_t j = 0; j + 1 < s.tracks.size(); ++j)
          clash = clash || s.tracks[j].number == n;
        if (!clash) break;
        ++n;
      }
      s.tracks.back().number = n;
      if (n < used.size()) used[n] = true;
    }
  }
  if (s.output_cues && g.p(25)) s.cues_track = (int)g.u(0, ntracks - 1);

  const size_t nframes = o.tiny || o.big ? g.u(1, 6)
                         : o.long_history ? g.u(o.max_frames / 4, o.max_frames)
                                          : (size_t)g.small(1, o.max_frames);
  uint64_t ts = 0;
  switch (g.weighted({6, 2, 1})) {
    case 0: break;
    case 1: ts = g.small(0, 100000) * s.scale; break;
    case 2: ts = g.edgy(0, 1ull << 50); break;
  }
  // Step styles: dense frames, medium, or gaps beyond the 16-bit block range.
  const size_t style = g.weighted({5, 3, 2});
  std::vector<bool> started(ntracks, false);
  for (size_t k = 0; k < nframes; ++k) {
    if (g.p(5)) {
      FrameOp f;
      f.force_cluster = true;
      s.ops.push_back(f);
    }
    FrameOp f;
    f.track = g.u(0, ntracks - 1);
    const TrackSpec& t = s.tracks[f.track];
    uint64_t units;
    if (o.dense)
      units = style == 0 ? g.u(0, 40) : g.u(0, 500);
    else if (o.big_gaps && style == 2 && g.p(25))
      units = g.pick<uint64_t>({32766, 32767, 32768, 33000, 40000, 65535, 65536,
                                100000, 20000});
    else if (style >= 1 && g.p(30))
      units = g.u(0, 5000);
    else
      units = g.u(0, 40);
    uint64_t step = units * s.scale;
    if (g.p(30)) step += g.u(0, s.scale - 1);  // sub-timecode fraction
    if (k > 0) ts += step;
    f.ts = ts;
    f.key = t.is_video() ? (!started[f.track] || g.p(20)) : !g.p(4);
    started[f.track] = true;
    f.kind = (FrameKind)g.weighted({8, 1, 1, 1, 2});
    if (f.kind == kMetadata) f.key = true;
    const size_t n = o.big && g.p(60)
                         ? NearSizeClass(g)
                         : g.p(10) ? g.small(1, 40000) : g.small(1, 300);
    f.data = g.blob(n);
    if (f.kind == kAdditional || (f.kind == kGeneric && g.p(40))) {
      f.additional =
          g.blob(o.big && g.p(60) ? NearSizeClass(g) : g.small(1, 300));
      f.add_id = g.edgy(1, 1ull << 40);
    }
    if (f.kind == kDiscard || (f.kind == kGeneric && g.p(40)))
      f.discard = g.b() ? (int64_t)g.edgy(0, 1ull << 40)
                        : -(int64_t)g.edgy(0, 1ull << 40);
    if (f.kind == kMetadata || (f.kind == kGeneric && g.p(40)))
      f.duration = g.edgy(0, 100 * s.scale);
    if (f.kind == kGeneric && !f.key && g.p(50)) {
      f.set_ref = true;
      f.ref = (int64_t)g.u(0, ts);
    }
    s.ops.push_back(f);
  }
  // Classification.
  if (s.live) c.label("live");
  if (!s.seekable) c.label("non-seekable");
  if (s.accurate) c.label("accurate-duration");
  if (s.has_video() && ntracks > 1) c.label("multi-track-with-video");
  if (s.chapters) c.label("chapters");
  if (s.tags) c.label("tags");
  return s;
}

std::string Describe(const Scenario& s) {
  std::ostringstream o;
  o << (s.live ? "live" : "file") << (s.seekable ? "" : " non-seekable")
    << " scale=" << s.scale << " maxdur=" << s.max_cluster_duration
    << " maxsize=" << s.max_cluster_size << (s.output_cues ? "" : " nocues")
    << (s.output_block_number ? "" : " noblocknum")
    << (s.accurate ? " accurate" : "") << (s.fixed_timecode ? " fixedtc" : "")
    << (s.estimate_duration ? " estdur" : "") << " dur=" << s.duration
    << " cuestrack=" << s.cues_track << " chapters=" << s.chapters
    << " tags=" << s.tags << "\ntracks:";
  for (auto& t : s.tracks)
    o << " [" << t.number << " " << t.codec << " type " << t.type << "]";
  o << "\n";
  size_t k = 0;
  for (auto& f : s.ops) {
    if (++k > 60) {
      o << "...";
      break;
    }
    if (f.force_cluster) {
      o << "force_new_cluster; ";
      continue;
    }
    static const char* kinds[] = {"plain", "additional", "discard", "metadata",
                                  "generic"};
    o << kinds[f.kind] << "(track " << s.tracks[f.track].number << " ts "
      << f.ts << (f.key ? " key" : "") << " len " << f.data.size();
    if (f.additional.size()) o << " add " << f.additional.size();
    if (f.discard) o << " discard " << f.discard;
    if (f.duration) o << " dur " << f.duration;
    if (f.set_ref) o << " ref " << f.ref;
    o << "); ";
  }
  return o.str();
}

bool Configure(mkvmuxer::Segment* seg, Scenario* s) {
  seg->set_mode(s->live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
  seg->set_max_cluster_duration(s->max_cluster_duration);
  seg->set_max_cluster_size(s->max_cluster_size);
  seg->OutputCues(s->output_cues);
  seg->GetCues()->set_output_block_number(s->output_block_number);
  seg->AccurateClusterDuration(s->accurate);
  seg->UseFixedSizeClusterTimecode(s->fixed_timecode);
  seg->set_estimate_file_duration(s->estimate_duration);
  if (s->duration > 0) seg->set_duration(s->duration);
  seg->GetSegmentInfo()->set_timecode_scale(s->scale);
  if (s->has_date) seg->GetSegmentInfo()->set_date_utc(s->date);
  for (TrackSpec& t : s->tracks) {
    uint64_t n = 0;
    mkvmuxer::Track* tr = nullptr;
    if (t.kind == 0) {
      n = seg->AddVideoTrack(t.width, t.height, t.req_number);
      tr = seg->GetTrackByNumber(n);
    } else if (t.kind == 1) {
      n = seg->AddAudioTrack(t.rate, t.channels, t.req_number);
      tr = seg->GetTrackByNumber(n);
    } else {
      tr = seg->AddTrack(t.req_number);
      if (tr) {
        n = tr->number();
        tr->set_type(t.type);
      }
    }
    if (n == 0 || !tr) return false;
    t.number = n;
    tr->set_codec_id(t.codec.c_str());
    if (!s->auto_uid) tr->set_uid(1000 + n);
    if (!t.codec_private.empty() &&
        !tr->SetCodecPrivate(t.codec_private.data(), t.codec_private.size()))
      return false;
    if (t.default_duration) tr->set_default_duration(t.default_duration);
    if (t.codec_delay) tr->set_codec_delay(t.codec_delay);
    if (t.seek_pre_roll) tr->set_seek_pre_roll(t.seek_pre_roll);
  }
  for (int k = 0; k < s->chapters; ++k) {
    mkvmuxer::Chapter* ch = seg->AddChapter();
    if (!ch) return false;
    if (!ch->set_id(("chapter" + std::to_string(k)).c_str())) return false;
    ch->set_uid(500 + k);
    ch->set_time(*seg, k * 1000000000ull, (k + 1) * 1000000000ull);
    if (!ch->add_string("title", "eng", "us")) return false;
  }
  for (int k = 0; k < s->tags; ++k) {
    mkvmuxer::Tag* t = seg->AddTag();
    if (!t || !t->add_simple_tag("NAME", "value")) return false;
  }
  if (s->cues_track >= 0 && !seg->CuesTrack(s->tracks[s->cues_track].number))
    return false;
  return true;
}

bool AddOne(mkvmuxer::Segment* seg, const Scenario& s, FrameOp* op) {
  if (op->force_cluster) {
    seg->ForceNewClusterOnNextFrame();
    op->accepted = true;
    return true;
  }
  const uint64_t tn = s.tracks[op->track].number;
  const uint8_t* d = op->data.data();
  const uint64_t n = op->data.size();
  bool ok = false;
  switch (op->kind) {
    case kPlain:
      ok = seg->AddFrame(d, n, tn, op->ts, op->key);
      break;
    case kAdditional:
      ok = seg->AddFrameWithAdditional(d, n, op->additional.data(),
                                       op->additional.size(), op->add_id, tn,
                                       op->ts, op->key);
      break;
    case kDiscard:
      ok = seg->AddFrameWithDiscardPadding(d, n, op->discard, tn, op->ts,
                                           op->key);
      break;
    case kMetadata:
      ok = seg->AddMetadata(d, n, tn, op->ts, op->duration);
      break;
    case kGeneric: {
      mkvmuxer::Frame f;
      ok = f.Init(d, n);
      if (!op->additional.empty())
        ok = ok && f.AddAdditionalData(op->additional.data(),
                                       op->additional.size(), op->add_id);
      f.set_track_number(tn);
      f.set_timestamp(op->ts);
      f.set_is_key(op->key);
      f.set_discard_padding(op->discard);
      if (op->duration) f.set_duration(op->duration);
      if (op->set_ref) f.set_reference_block_timestamp(op->ref);
      ok = ok && seg->AddGenericFrame(&f);
      break;
    }
  }
  op->accepted = ok;
  return ok;
}

RunResult RunScenario(Scenario* s, mkvmuxer::IMkvWriter* w,
                      mkvmuxer::Segment* seg, bool stop_on_error) {
  RunResult r;
  r.init = seg->Init(w);
  if (!r.init) return r;
  r.configured = Configure(seg, s);
  if (!r.configured) return r;
  for (FrameOp& op : s->ops) {
    if (!AddOne(seg, *s, &op)) {
      ++r.rejected;
      if (stop_on_error) return r;
    }
  }
  r.finalized = seg->Finalize();
  return r;
}

void DecodeFile(Ctx& c, const Bytes& d, FoundFile* f) {
  std::string err;
  if (!ebml::ParseDocument(d, &f->top, &err))
    c.fail("output is not well-formed: " + err);
  c.check(f->top.size() == 2 && f->top[0].id == ebml::kEBML &&
              f->top[1].id == ebml::kSegment,
          "output is not an EBML header followed by one Segment");
  f->segment = &f->top[1];
  for (const Node& n : f->segment->kids) {
    if (n.id != ebml::kCluster) continue;
    const size_t ci = f->clusters.size();
    f->clusters.push_back(&n);
    const Node* tcn = n.child(ebml::kTimecode);
    c.check(tcn != nullptr, "cluster without a timecode");
    const uint64_t ctc = ebml::GetUint(d, *tcn);
    uint64_t idx = 0;
    for (const Node& e : n.kids) {
      if (e.id != ebml::kSimpleBlock && e.id != ebml::kBlockGroup) continue;
      FoundBlock b;
      b.cluster = ci;
      b.index = ++idx;
      b.cluster_tc = ctc;
      b.pos = e.pos;
      b.simple = e.id == ebml::kSimpleBlock;
      const Node* bn = &e;
      if (!b.simple) {
        bn = e.child(ebml::kBlock);
        c.check(bn != nullptr, "block group without a block");
        c.check(e.children(ebml::kBlock).size() == 1,
                "block group with several blocks");
      }
      ebml::RefBlock rb;
      if (!ebml::DecodeBlock(d, *bn, &rb, &err))
        c.fail("undecodable block: " + err);
      c.check(rb.frames.size() == 1 && ((rb.flags >> 1) & 3) == 0,
              "muxer wrote a laced block");
      b.track = rb.track;
      b.rel = rb.timecode;
      b.tc = ctc + rb.timecode;
      b.data = rb.frames[0];
      if (b.simple) {
        b.key = (rb.flags & 0x80) != 0;
      } else {
        b.key = e.child(ebml::kReferenceBlock) == nullptr;
        if (const Node* n2 = e.child(ebml::kReferenceBlock)) {
          c.check(e.children(ebml::kReferenceBlock).size() == 1,
                  "several reference blocks");
          b.has_ref = true;
          b.ref_unsigned = ebml::GetUint(d, *n2);
          b.ref_signed = ebml::GetInt(d, *n2);
        }
        if (const Node* n2 = e.child(ebml::kBlockDuration)) {
          b.has_duration = true;
          b.duration = ebml::GetUint(d, *n2);
        }
        if (const Node* n2 = e.child(ebml::kDiscardPadding)) {
          b.has_discard = true;
          b.discard = ebml::GetInt(d, *n2);
        }
        if (const Node* n2 = e.child(ebml::kBlockAdditions)) {
          const Node* more = n2->child(ebml::kBlockMore);
          c.check(more && n2->kids.size() == 1, "bad block additions");
          if (const Node* id = more->child(ebml::kBlockAddID))
            b.add_id = ebml::GetUint(d, *id);
          const Node* ad = more->child(ebml::kBlockAdditional);
          c.check(ad != nullptr, "block more without data");
          b.has_additional = true;
          b.additional = ebml::GetBin(d, *ad);
        }
      }
      f->blocks.push_back(b);
    }
  }
}

std::string DescribeBlock(const FoundBlock& b) {
  std::ostringstream o;
  o << "{cluster " << b.cluster << " #" << b.index << " track " << b.track
    << " tc " << b.tc << (b.key ? " key" : "") << " len " << b.data.size()
    << "}";
  return o.str();
}

}  // namespace muxlib
