// C23: mkvmuxer_sample carries every selected frame and the metadata it
// supports from any input file to the output, whatever the options.
#include <unistd.h>

#include <cfloat>
#include <cmath>
#include <cstring>
#include <map>

#include "apps.h"
#include "docgen.h"
#include "mkvdump.h"
#include "muxlib.h"
#include "pbt.h"

int mkvmuxer_sample_main(int argc, char* argv[]);

using namespace pbt;
namespace mp = mkvparser;

namespace {

struct FrameView {
  long long time = 0;
  bool key = false;
  long long discard = 0;
  Bytes data;
};

struct TrackView {
  long number = 0, type = 0;
  std::string head;
  std::vector<FrameView> frames;
  long long dw = 0, dh = 0, stereo = 0;
  std::string codec_id;
  bool codec = false, av1_without_private = false, valid_colour = true;
};

struct View {
  std::vector<TrackView> tracks;  // in file order, all types
  std::vector<std::pair<size_t, long long>> order;  // (track, time) per block
  std::vector<std::string> tags;
  long long scale = 0, duration = 0;
  bool has_cues = false;
  long long cues_pos = 0, first_cluster = -1;
};

std::string N(long long v) { return std::to_string(v); }
std::string D(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.9g", v);
  return b;
}

// Values given on the command line, which replace those of the input.
struct Override {
  long long pw = 0, ph = 0, dw = 0, dh = 0, stereo = 0, proj = -1, profile = -1,
            level = -1;
  bool has_yaw = false, has_pitch = false, has_roll = false;
  double yaw = 0, pitch = 0, roll = 0;
  Bytes pp;
};

std::string Head(const mp::Track* t, TrackView* tv, const Override& o) {
  std::string s = t->GetType() == 1 ? "video" : "audio";
  if (t->GetNameAsUTF8()) s += " name '" + std::string(t->GetNameAsUTF8()) + "'";
  if (t->GetCodecId()) {
    s += " codec " + std::string(t->GetCodecId());
    tv->codec = true;
  }
  size_t n = 0;
  const unsigned char* p = t->GetCodecPrivate(n);
  uint8_t vp9[6];
  if (t->GetType() == 1 && t->GetCodecId() && !strcmp(t->GetCodecId(), "V_VP9") &&
      (o.profile >= 0 || o.level >= 0)) {
    n = 0;
    p = vp9;
    if (o.profile >= 0)
      vp9[n++] = 1, vp9[n++] = 1, vp9[n++] = (uint8_t)o.profile;
    if (o.level >= 0) vp9[n++] = 2, vp9[n++] = 1, vp9[n++] = (uint8_t)o.level;
  }
  if (p && n) s += " private " + Hex(p, n, 500);
  tv->av1_without_private =
      t->GetCodecId() && !strcmp(t->GetCodecId(), "V_AV1") && !(p && n);
  if (t->GetType() == 2) {
    auto* a = static_cast<const mp::AudioTrack*>(t);
    s += " rate " + D(a->GetSamplingRate()) + " channels " + N(a->GetChannels());
    if (a->GetBitDepth() > 0) s += " bits " + N(a->GetBitDepth());
    s += " delay " + N((long long)a->GetCodecDelay()) + " preroll " +
         N((long long)a->GetSeekPreRoll());
    return s;
  }
  auto* v = static_cast<const mp::VideoTrack*>(t);
  s += " " + N(o.pw ? o.pw : v->GetWidth()) + "x" +
       N(o.ph ? o.ph : v->GetHeight());
  if (v->GetFrameRate() > 0) s += " fps " + D(v->GetFrameRate());
  if (auto* x = v->GetColour()) {
    const long long vals[] = {
        x->matrix_coefficients, x->bits_per_channel, x->chroma_subsampling_horz,
        x->chroma_subsampling_vert, x->cb_subsampling_horz,
        x->cb_subsampling_vert, x->chroma_siting_horz, x->chroma_siting_vert,
        x->range, x->transfer_characteristics, x->primaries, x->max_cll,
        x->max_fall};
    const char* const names[] = {"mc", "bits", "csh", "csv", "cbh", "cbv", "sith",
                                 "sitv", "range", "tc", "prim", "cll", "fall"};
    for (int k = 0; k < 13; ++k)
      if (vals[k] != mp::Colour::kValueNotPresent)
        s += std::string(" ") + names[k] + "=" + N(vals[k]);
    if (auto* m = x->mastering_metadata) {
      const float none = mp::MasteringMetadata::kValueNotPresent;
      if (m->luminance_max != none) s += " lmax=" + D(m->luminance_max);
      if (m->luminance_min != none) s += " lmin=" + D(m->luminance_min);
      if (m->luminance_max != none && m->luminance_min != none &&
          m->luminance_max < m->luminance_min)
        tv->valid_colour = false;
      const mp::PrimaryChromaticity* pcs[] = {m->r, m->g, m->b, m->white_point};
      for (int k = 0; k < 4; ++k)
        if (pcs[k]) {
          s += std::string(" ") + "rgbw"[k] + "=(" + D(pcs[k]->x) + "," +
               D(pcs[k]->y) + ")";
          // A lone coordinate leaves the other one out of range.
          if (!(pcs[k]->x >= 0 && pcs[k]->x <= 1 && pcs[k]->y >= 0 &&
                pcs[k]->y <= 1))
            tv->valid_colour = false;
        }
    }
  }
  if (v->GetProjection() || o.proj >= 0) {
    // Absent values have the default of Matroska, zero.
    auto* x = v->GetProjection();
    const float none = mp::Projection::kValueNotPresent;
    auto val = [&](float f) { return D(f == none ? 0 : f); };
    s += " proj=" + N(o.proj >= 0 ? o.proj
                      : x->type == mp::Projection::kTypeNotPresent
                          ? 0
                          : (long long)x->type);
    if (!o.pp.empty())
      s += " pp=" + Hex(o.pp, 500);
    else if (x && x->private_data && x->private_data_length)
      s += " pp=" + Hex(x->private_data, x->private_data_length, 500);
    s += " yaw=" + (o.has_yaw ? D(o.yaw) : x ? val(x->pose_yaw) : "0") +
         " pitch=" + (o.has_pitch ? D(o.pitch) : x ? val(x->pose_pitch) : "0") +
         " roll=" + (o.has_roll ? D(o.roll) : x ? val(x->pose_roll) : "0");
  }
  return s;
}

void Look(Ctx& c, const Bytes& d, const std::string& what, View* v,
          const Override& o = Override()) {
  muxlib::MemReader r(d);
  mp::EBMLHeader h;
  long long pos = 0;
  CheckEq(c, h.Parse(&r, pos), 0ll, what + ": EBML header");
  mp::Segment* s = nullptr;
  CheckEq(c, mp::Segment::CreateInstance(&r, pos, s), 0ll, what + ": segment");
  std::unique_ptr<mp::Segment> own(s);
  CheckEq(c, s->Load(), 0l, what + ": Load");
  v->scale = s->GetInfo()->GetTimeCodeScale();
  v->duration = s->GetInfo()->GetDuration();
  std::map<long, size_t> by_number;
  const mp::Tracks* ts = s->GetTracks();
  for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
    const mp::Track* t = ts->GetTrackByIndex(k);
    c.check(t != nullptr, what + ": null track");
    TrackView tv;
    tv.number = t->GetNumber();
    tv.type = t->GetType();
    if (tv.type == 1 || tv.type == 2) tv.head = Head(t, &tv, o);
    if (tv.type == 1) {
      auto* x = static_cast<const mp::VideoTrack*>(t);
      tv.dw = x->GetDisplayWidth(), tv.dh = x->GetDisplayHeight();
      tv.stereo = x->GetStereoMode();
    }
    if (t->GetCodecId()) tv.codec_id = t->GetCodecId();
    by_number[tv.number] = v->tracks.size();
    v->tracks.push_back(tv);
  }
  if (auto* tg = s->GetTags())
    for (int k = 0; k < tg->GetTagCount(); ++k) {
      std::string line;
      auto* t = tg->GetTag(k);
      for (int j = 0; j < t->GetSimpleTagCount(); ++j) {
        auto* st = t->GetSimpleTag(j);
        if (st->GetTagName() && st->GetTagString())
          line += std::string(st->GetTagName()) + "=" + st->GetTagString() + ";";
      }
      if (!line.empty()) v->tags.push_back(line);
    }
  if (s->GetCues()) {
    v->has_cues = true;
    v->cues_pos = s->GetCues()->m_element_start;
  }
  for (const mp::Cluster* cl = s->GetFirst(); cl && !cl->EOS();
       cl = s->GetNext(cl)) {
    if (v->first_cluster < 0) v->first_cluster = cl->m_element_start;
    const mp::BlockEntry* e = nullptr;
    CheckEq(c, cl->GetFirst(e), 0l, what + ": GetFirst");
    while (e && !e->EOS()) {
      const mp::Block* b = e->GetBlock();
      c.check(by_number.count((long)b->GetTrackNumber()) > 0,
              what + ": block of an unknown track");
      const size_t t = by_number[(long)b->GetTrackNumber()];
      v->order.push_back({t, b->GetTime(cl)});
      for (int k = 0; k < b->GetFrameCount(); ++k) {
        FrameView f;
        f.time = b->GetTime(cl);
        f.key = b->IsKey();
        f.discard = b->GetDiscardPadding();
        f.data.resize((size_t)b->GetFrame(k).len);
        CheckEq(c, b->GetFrame(k).Read(&r, f.data.data()), 0l,
                what + ": frame data");
        v->tracks[t].frames.push_back(f);
      }
      CheckEq(c, cl->GetNext(e, e), 0l, what + ": GetNext");
    }
  }
}

void Remux(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.monotone = g.p(90);
  o.density = (unsigned)g.pick({10, 35, 60});
  o.max_clusters = 5;
  o.max_blocks = 8;
  docgen::Doc d = docgen::Generate(g, c, o);
  // Most tracks have a codec (a file without one cannot be muxed).
  for (auto& k : d.segment.kids) {
    if (k.id != ebml::kTracks) continue;
    for (auto& t : k.kids) {
      if (t.id != ebml::kTrackEntry) continue;
      const docgen::El* ty = t.child(ebml::kTrackType);
      const bool video = ty && ty->u == 1;
      if (!t.child(ebml::kCodecID) && !g.p(4))
        t.kids.push_back(docgen::Str(
            ebml::kCodecID,
            video ? g.pick<std::string>({"V_VP8", "V_VP9"}) : "A_OPUS"));
    }
  }
  if (o.monotone) {  // across clusters as well
    uint64_t last = 0;
    for (auto& k : d.segment.kids) {
      if (k.id != ebml::kCluster) continue;
      docgen::El* tc = k.child(ebml::kTimecode);
      if (!tc) continue;
      uint64_t end = 0;
      std::function<void(docgen::El&)> walk = [&](docgen::El& e) {
        if (e.block >= 0)
          end = std::max<uint64_t>(end, (uint64_t)d.blocks[(size_t)e.block].rel);
        for (auto& q : e.kids) walk(q);
      };
      walk(k);
      if (tc->u < last) {
        const int len = (int)tc->size_len;
        *tc = docgen::Uint(ebml::kTimecode, last, 8);
        tc->size_len = len;
      }
      last = tc->u + end;
    }
  }
  d.Finish();
  c.desc << docgen::Describe(d.segment);

  apps::Cleanup clean;
  const std::string ipath = clean.add(ScratchPath("in.webm"));
  const std::string opath = clean.add(ScratchPath("out.webm"));
  apps::WriteFile(ipath, d.data);
  unlink(opath.c_str());
  setenv("TEST_TMPDIR", ScratchDir().c_str(), 1);

  std::vector<std::string> args = {"mkvmuxer_sample", "-i", ipath, "-o", opath};
  auto flag = [&](const char* name, const std::string& v) {
    args.push_back(name);
    args.push_back(v);
  };
  bool video = true, audio = true, live = false, cues = true, before = false;
  bool copy_tags = false, copy_dur = false, switched = false;
  if (g.p(10)) flag("-video", (video = g.b()) ? "1" : "0");
  if (g.p(10)) flag("-audio", (audio = g.b()) ? "1" : "0");
  if (g.p(20)) flag("-live", (live = g.b()) ? "1" : "0");
  if (g.p(20)) flag("-output_cues", (cues = g.b()) ? "1" : "0");
  if (g.p(20)) flag("-cues_on_video_track", g.b() ? "1" : "0");
  if (g.p(20)) flag("-cues_on_audio_track", g.b() ? "1" : "0");
  if (g.p(20)) flag("-output_cues_block_number", g.b() ? "1" : "0");
  if (!live && cues && g.p(30)) {
    before = true;
    flag("-cues_before_clusters", "1");
  }
  if (g.p(25)) flag("-max_cluster_duration", g.pick<std::string>({"0.01", "0.2", "1", "7"}));
  if (g.p(25)) flag("-max_cluster_size", std::to_string(g.u(1, 500)));
  if (g.p(25)) flag("-switch_tracks", (switched = g.b()) ? "1" : "0");
  if (g.p(25)) flag("-copy_tags", (copy_tags = g.b()) ? "1" : "0");
  if (g.p(25)) flag("-accurate_cluster_duration", g.b() ? "1" : "0");
  if (g.p(25)) flag("-fixed_size_cluster_timecode", g.b() ? "1" : "0");
  if (g.p(25)) flag("-copy_input_duration", (copy_dur = g.b()) ? "1" : "0");

  Override ov;
  if (g.p(20)) {
    c.label("video values given");
    if (g.p(40)) flag("-pixel_width", N(ov.pw = (long long)g.u(1, 70000)));
    if (g.p(40)) flag("-pixel_height", N(ov.ph = (long long)g.u(1, 70000)));
    if (g.p(40)) flag("-display_width", N(ov.dw = (long long)g.u(1, 70000)));
    if (g.p(40)) flag("-display_height", N(ov.dh = (long long)g.u(1, 70000)));
    if (g.p(40)) flag("-stereo_mode", N(ov.stereo = g.pick({1, 2, 3, 11})));
    if (g.p(40)) flag("-profile", N(ov.profile = (long long)g.u(0, 3)));
    if (g.p(40))
      flag("-level", N(ov.level = g.pick({10, 11, 20, 21, 30, 31, 40, 41, 50, 51,
                                          52, 60, 61, 62})));
    if (g.p(50)) {
      flag("-projection_type", N(ov.proj = (long long)g.u(0, 3)));
      if (ov.proj >= 2 || (ov.proj == 1 && g.b())) {
        ov.pp = g.blob(g.u(1, 60));
        const std::string path = clean.add(ScratchPath("proj.bin"));
        apps::WriteFile(path, ov.pp);
        flag("-projection_file", path);
      }
    }
    // Poses are used with a projection (of the input or given).
    auto pose = [&](const char* name, bool* has, double* v) {
      if (!g.p(30)) return;
      *has = true;
      *v = ((double)g.u(0, 2880) - 1440) / 8;
      flag(name, D(*v));
    };
    pose("-projection_pose_yaw", &ov.has_yaw, &ov.yaw);
    pose("-projection_pose_pitch", &ov.has_pitch, &ov.pitch);
    pose("-projection_pose_roll", &ov.has_roll, &ov.roll);
  }
  struct VttCue {
    uint64_t ms;
    std::string text;
  };
  std::vector<VttCue> vtt;
  int vtt_type = 0;
  std::string vtt_codec;
  if (g.p(20)) {
    const size_t kind = g.u(0, 3);
    const char* const opts[] = {"-webvtt-subtitles", "-webvtt-captions",
                                "-webvtt-descriptions", "-webvtt-metadata"};
    const char* const codecs[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS",
                                  "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA"};
    vtt_type = kind < 2 ? 0x11 : 0x21;
    vtt_codec = codecs[kind];
    uint64_t t = g.u(0, 500);
    const size_t cnt = g.u(1, 5);
    std::string text = "WEBVTT\n\n";
    for (size_t k = 0; k < cnt; ++k) {
      t += g.u(1, 400);
      const uint64_t e = t + g.u(1, 900);
      char line[100];
      snprintf(line, sizeof line,
               "%02d:%02d:%02d.%03d --> %02d:%02d:%02d.%03d\n",
               (int)(t / 3600000), (int)(t / 60000 % 60), (int)(t / 1000 % 60),
               (int)(t % 1000), (int)(e / 3600000), (int)(e / 60000 % 60),
               (int)(e / 1000 % 60), (int)(e % 1000));
      vtt.push_back({t, "cue text " + std::to_string(k)});
      text += line + vtt.back().text + "\n\n";
    }
    const std::string path = clean.add(ScratchPath("cues.vtt"));
    apps::WriteFile(path, text);
    flag(opts[kind], path);
    c.desc << "vtt:\n" << text;
    c.label("with WebVTT");
  }

  View in;
  Look(c, d.data, "input", &in, ov);

  // The tracks the output has, in order.
  std::vector<size_t> sel;
  const size_t n = in.tracks.size();
  size_t nv = 0, na = 0;
  for (size_t k = 0; k < n; ++k) {
    const size_t q = switched ? (k + 1) % n : k;
    const TrackView& t = in.tracks[q];
    if (t.type == 1 && video) sel.push_back(q), ++nv;
    if (t.type == 2 && audio) sel.push_back(q), ++na;
  }
  long vnum = 0, anum = 0;
  if (nv == 1 && g.p(15)) flag("-video_track_number", N(vnum = 50 + (long)g.u(0, 20)));
  if (na == 1 && g.p(15)) flag("-audio_track_number", N(anum = 80 + (long)g.u(0, 20)));
  c.desc << "args:";
  for (size_t k = 5; k < args.size(); ++k) c.desc << " " << args[k];
  c.desc << "\n";

  // Within what can be muxed?
  std::string why;
  if (sel.empty()) why = "no track selected";
  size_t vf = 0, nf = 0;
  for (size_t q : sel) {
    const TrackView& t = in.tracks[q];
    if (!t.codec) why = "no codec";
    if (t.av1_without_private) why = "AV1 without private data";
    if (!t.valid_colour && t.type == 1) why = "invalid colour";
    nf += t.frames.size();
    if (t.type == 1) vf += t.frames.size();
  }
  if (!nf) why = "no frames";
  if (nv && !vf) why = "no video frames";
  long long last = 0;
  for (auto& p : in.order) {
    bool s = false;
    for (size_t q : sel) s = s || q == p.first;
    if (!s && vtt.empty()) continue;
    if (p.second < last) why = "times not ordered";
    last = p.second;
  }

  const int rc = apps::Run(mkvmuxer_sample_main, args);
  if (rc != 0) {
    if (why.empty()) c.fail("remux of a muxable file failed");
    c.label("refused: " + why);
    return;
  }
  c.label(why.empty() ? "muxable" : "muxed although: " + why);
  std::string out;
  c.check(apps::ReadFile(opath, &out), "no output file");
  if (!nf) return;  // nothing to look at
  View got;
  Look(c, Bytes(out.begin(), out.end()), "output", &got);
  CheckEq(c, got.scale, in.scale, "timecode scale");
  CheckEq(c, got.tracks.size(), sel.size() + !vtt.empty(), "number of tracks");
  if (!vtt.empty()) {
    const TrackView& t = got.tracks.back();
    CheckEq(c, t.type, (long)vtt_type, "type of the WebVTT track");
    CheckEq(c, t.codec_id, vtt_codec, "codec of the WebVTT track");
    CheckEq(c, t.frames.size(), vtt.size(), "number of WebVTT cues");
    for (size_t k = 0; k < vtt.size(); ++k) {
      const long long ns = (long long)vtt[k].ms * 1000000;
      CheckEq(c, t.frames[k].time, ns / in.scale * in.scale, "time of a cue");
      const std::string text(t.frames[k].data.begin(), t.frames[k].data.end());
      c.check(text.find(vtt[k].text) != text.npos, "text of a cue");
    }
  }
  for (size_t k = 0; k < sel.size(); ++k) {
    const TrackView& a = in.tracks[sel[k]];
    const TrackView& b = got.tracks[k];
    const std::string w = "track " + std::to_string(k);
    // (A track without a codec gets a default one.)
    if (a.codec) CheckEq(c, b.head, a.head, w);
    if (vnum && b.type == 1) CheckEq(c, b.number, vnum, "video track number");
    if (anum && b.type == 2) CheckEq(c, b.number, anum, "audio track number");
    if (b.type == 1) {
      if (ov.dw) CheckEq(c, b.dw, ov.dw, w + ": display width");
      if (ov.dh) CheckEq(c, b.dh, ov.dh, w + ": display height");
      if (ov.stereo) CheckEq(c, b.stereo, ov.stereo, w + ": stereo mode");
    }
    CheckEq(c, b.frames.size(), a.frames.size(), w + ": frames");
    for (size_t j = 0; j < a.frames.size(); ++j) {
      const std::string x = w + " frame " + std::to_string(j);
      CheckEq(c, b.frames[j].time, a.frames[j].time, x + " time");
      CheckEq(c, b.frames[j].key, a.frames[j].key, x + " key");
      CheckEq(c, b.frames[j].discard, a.frames[j].discard, x + " discard padding");
      if (b.frames[j].data != a.frames[j].data) c.fail(x + ": data differs");
    }
  }
  if (copy_tags) {
    CheckEq(c, got.tags.size(), in.tags.size(), "tags");
    for (size_t k = 0; k < in.tags.size(); ++k)
      CheckEq(c, got.tags[k], in.tags[k], "tag " + std::to_string(k));
    if (!in.tags.empty()) c.label("tags copied");
  }
  if (copy_dur && !live && in.duration > 0) {
    const double diff = std::fabs((double)got.duration - (double)in.duration);
    c.check(diff <= 2 + 2e-7 * (double)in.duration,
            "copied duration: got " + N(got.duration) + ", want " +
                N(in.duration));
    c.label("duration copied");
  }
  if (!cues) CheckEq(c, got.has_cues, false, "cues although switched off");
  if (before && got.has_cues) {
    CheckEq(c, got.cues_pos < got.first_cluster, true, "cues before clusters");
    c.label("cues before clusters");
  }
  if (sel.size() > 1) c.label("several tracks");
  if (nv > 1 || na > 1) c.label("several tracks of one type");
  if (nf >= 3) c.nontrivial();
  c.count("frames", nf);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C23";
  p.level = "exploration";
  p.rule =
      "A case is a generated input file and a set of command-line options; the "
      "program runs in this process and the tracks, frames and tags of its "
      "output are compared with those of the input; non-trivial: at least 3 "
      "frames to carry and the program succeeded";
  p.suites = {{"remux", Remux, 40000, 500000, false}};
  p.assumptions = {
      "input and output are observed through mkvparser, whose reports are "
      "checked by C09 and C12",
      "display size, stereo mode, content "
      "encodings and block additions are not carried by the program"};
  return pbt::Main(argc, argv, p);
}
