// C25: webm_info, mkvparser_sample and dumpvtt print what the file says: every
// fact the options ask for, with its value, and nothing else.
#include <sys/stat.h>
#include <unistd.h>

#include <cinttypes>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <memory>

#include "apps.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
#include "docgen.h"
#include "muxlib.h"
#include "pbt.h"
#include "vp9gen.h"

int webm_info_main(int argc, char* argv[]);
int mkvparser_sample_main(int argc, char* argv[]);
int dumpvtt_main(int argc, const char* argv[]);

using namespace ebml;
using docgen::El;
using pbt::Bytes;
using pbt::CheckEq;
using pbt::Ctx;
using pbt::Gen;
namespace mp = mkvparser;

namespace {

// Text with the depth of each line.
struct Line {
  int depth;
  std::vector<std::string> words;
};

std::vector<std::string> Words(const std::string& s) {
  std::vector<std::string> w;
  std::string cur;
  for (char ch : s) {
    if (ch == ' ' || ch == '\t') {
      if (!cur.empty()) w.push_back(cur);
      cur.clear();
    } else {
      cur += ch;
    }
  }
  if (!cur.empty()) w.push_back(cur);
  return w;
}

// The label of a fact may be set off from its colon.
std::string Tighten(const std::string& s) {
  const size_t k = s.find(':');
  if (k == std::string::npos) return s;
  size_t e = k;
  while (e > 0 && (s[e - 1] == ' ' || s[e - 1] == '\t')) --e;
  return s.substr(0, e) + ": " + s.substr(k + 1);
}

std::vector<Line> Lines(const std::string& text) {
  std::vector<Line> out;
  size_t at = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    if (e == std::string::npos) e = text.size();
    const std::string s = text.substr(at, e - at);
    at = e + 1;
    Line l;
    l.depth = 0;
    while (l.depth < (int)s.size() && (s[l.depth] == ' ' || s[l.depth] == '\t')) ++l.depth;
    l.words = Words(Tighten(s));
    if (!l.words.empty()) out.push_back(l);
  }
  return out;
}

std::string Show(const Line& l) {
  std::string s(l.depth, ' ');
  for (auto& w : l.words) s += w + " ";
  return s;
}

// Words of the expectation that end in "*" match any end.
bool Matches(const std::string& got, const std::string& want) {
  if (!want.empty() && want.back() == '*')
    return got.compare(0, want.size() - 1, want, 0, want.size() - 1) == 0;
  const size_t bar = want.find('|');  // either of two
  if (want.compare(0, 1, "\x01") == 0)
    return got == want.substr(1, bar - 1) || got == want.substr(bar + 1);
  return got == want;
}

void Compare(Ctx& c, const std::string& got, const std::string& want, bool depth) {
  const std::vector<Line> a = Lines(got), b = Lines(want);
  for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) {
    std::string why;
    if (k >= a.size())
      why = "missing line: " + Show(b[k]);
    else if (k >= b.size())
      why = "unexpected line: " + Show(a[k]);
    else {
      bool same = a[k].words.size() == b[k].words.size() && (!depth || a[k].depth == b[k].depth);
      for (size_t w = 0; same && w < a[k].words.size(); ++w)
        same = Matches(a[k].words[w], b[k].words[w]);
      if (!same) why = "line " + std::to_string(k + 1) + ": '" + Show(a[k]) + "' want '" + Show(b[k]) + "'";
    }
    if (!why.empty()) {
      c.desc << "--- printed\n" << got << "\n--- expected\n" << want << "\n";
      c.fail(why);
    }
  }
}

struct Text {
  std::string s;
  int in = 0;
  void raw(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    char b[4096];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    s += b;
  }
  Text& line() {
    if (!s.empty() && s.back() != '\n') s += '\n';
    s.append((size_t)in, ' ');
    return *this;
  }
};

struct Opts {
  bool video = true, audio = true, size = false, offset = false, secs = true, ebml = true,
       segment = true, seekhead = false, info = true, tracks = true, clusters = false,
       blocks = false, codec = false, clusters_size = false, encrypted = false, cues = false,
       stats = false, level = false;
};

struct OptName {
  const char* name;
  bool Opts::*field;
};
const OptName kOpts[] = {
    {"video", &Opts::video},       {"audio", &Opts::audio},
    {"size", &Opts::size},         {"offset", &Opts::offset},
    {"times_seconds", &Opts::secs}, {"ebml_header", &Opts::ebml},
    {"segment", &Opts::segment},   {"seekhead", &Opts::seekhead},
    {"segment_info", &Opts::info}, {"tracks", &Opts::tracks},
    {"clusters", &Opts::clusters}, {"blocks", &Opts::blocks},
    {"codec_info", &Opts::codec},  {"clusters_size", &Opts::clusters_size},
    {"encrypted_info", &Opts::encrypted}, {"cues", &Opts::cues},
    {"frame_stats", &Opts::stats}, {"vp9_level", &Opts::level}};

std::vector<std::string> MakeArgs(Gen& g, Opts* o, const std::string& path) {
  std::vector<std::string> a = {"webm_info"};
  const bool all = g.p(60);
  const size_t n = g.p(50) ? g.u(0, 6) : 0;
  const size_t where = g.u(0, n);
  for (size_t k = 0; k <= n; ++k) {
    if (all && k == where) {
      a.push_back("-all");
      for (auto& x : kOpts) o->*x.field = true;
    }
    if (k == n) break;
    const OptName& x = kOpts[g.u(0, 17)];
    const bool on = g.p(65);
    a.push_back((on ? "-" : "-no") + std::string(x.name));
    o->*x.field = on;
  }
  const size_t at = g.u(1, a.size());
  a.insert(a.begin() + (long)at, path);
  a.insert(a.begin() + (long)at, "-i");
  return a;
}

std::string Str(const char* s) { return s ? s : ""; }

void Seconds(Text* t, const char* what, long long ns, bool secs, const char* unit_s,
             const char* unit_n) {
  t->line();
  if (secs)
    t->raw("%s(%s): %g", what, unit_s, (double)ns / 1e9);
  else
    t->raw("%s(%s): %lld", what, unit_n, ns);
}

void Where(Text* t, const Opts& o, long long start, long long size) {
  if (o.offset) t->raw(" @: %lld", start);
  if (o.size) t->raw(" size: %lld", size);
}

const mp::ContentEncoding::ContentEncryption* Encryption(const mp::Track* t) {
  if (!t->GetContentEncodingCount()) return nullptr;
  auto* e = t->GetContentEncodingByIndex(0);
  return e && e->GetEncryptionCount() ? e->GetEncryptionByIndex(0) : nullptr;
}

void HexBytes(Text* t, const unsigned char* p, long long n) {
  t->raw("0x");
  for (long long k = 0; k < n; ++k) t->raw("%02x", p[k]);
}

void ExpectTrack(Text* t, const Opts& o, const mp::Track* tr, bool* bad_private) {
  t->line().raw("Track:");
  Where(t, o, tr->m_element_start, tr->m_element_size);
  t->in += 2;
  t->line().raw("TrackType: %ld", tr->GetType());
  t->line().raw("TrackNumber: %ld", tr->GetNumber());
  if (!Str(tr->GetNameAsUTF8()).empty()) t->line().raw("Name: %s", tr->GetNameAsUTF8());
  if (tr->GetCodecId()) t->line().raw("CodecID: %s", tr->GetCodecId());
  if (!Str(tr->GetCodecNameAsUTF8()).empty())
    t->line().raw("CodecName: %s", tr->GetCodecNameAsUTF8());
  size_t n = 0;
  if (const unsigned char* p = tr->GetCodecPrivate(n)) {
    t->line().raw("PrivateData(size): %zu", n);
    if (tr->GetType() == 1 && Str(tr->GetCodecId()) == "V_VP9") {
      // id, length 1, value; the checks of the feature reader are in C20.
      static const char* const kNames[] = {"", "VP9 profile", "VP9 level", "VP9 bit_depth",
                                           "VP9 chroma subsampling"};
      int v[5] = {-1, -1, -1, -1, -1};
      *bad_private = n < 3;
      for (size_t k = 0; k + 3 <= n; k += 3) {
        if (p[k] < 1 || p[k] > 4) {
          *bad_private = true;
          return;
        }
        v[p[k]] = p[k + 2];
      }
      if (*bad_private) return;
      for (int k = 1; k <= 4; ++k)
        if (v[k] != -1) t->line().raw("%s: %d", kNames[k], v[k]);
    }
  }
  if (tr->GetDefaultDuration())
    t->line().raw("DefaultDuration: %llu", tr->GetDefaultDuration());
  if (tr->GetContentEncodingCount()) {
    auto* e = tr->GetContentEncodingByIndex(0);
    t->line().raw("ContentEncodingOrder: %lld", e->encoding_order());
    t->line().raw("ContentEncodingScope: %lld", e->encoding_scope());
    t->line().raw("ContentEncodingType: %lld", e->encoding_type());
    if (auto* x = Encryption(tr)) {
      t->line().raw("ContentEncAlgo: %lld", x->algo);
      if (x->key_id_len > 0) {
        t->line().raw("ContentEncKeyID: ");
        for (long long k = 0; k < x->key_id_len; ++k) t->raw("0x%02x, ", x->key_id[k]);
      }
      if (x->signature_len > 0) {
        t->line().raw("ContentSignature: ");
        HexBytes(t, x->signature, x->signature_len);
      }
      if (x->sig_key_id_len > 0) {
        t->line().raw("ContentSigKeyID: ");
        HexBytes(t, x->sig_key_id, x->sig_key_id_len);
      }
      t->line().raw("ContentSigAlgo: %lld", x->sig_algo);
      t->line().raw("ContentSigHashAlgo: %lld", x->sig_hash_algo);
      t->line().raw("CipherMode: %lld", x->aes_settings.cipher_mode);
    }
  }
  if (tr->GetType() == 1) {
    auto* v = static_cast<const mp::VideoTrack*>(tr);
    t->line().raw("PixelWidth: %lld", v->GetWidth());
    t->line().raw("PixelHeight: %lld", v->GetHeight());
    if (v->GetFrameRate() > 0) t->line().raw("FrameRate: %g", v->GetFrameRate());
    if (v->GetDisplayUnit() > 0 || v->GetDisplayWidth() != v->GetWidth() ||
        v->GetDisplayHeight() != v->GetHeight()) {
      t->line().raw("DisplayWidth: %lld", v->GetDisplayWidth());
      t->line().raw("DisplayHeight: %lld", v->GetDisplayHeight());
      t->line().raw("DisplayUnit: %lld", v->GetDisplayUnit());
    }
    if (auto* x = v->GetColour()) {
      t->line().raw("Colour:");
      t->in += 2;
      const std::pair<const char*, long long> vals[] = {
          {"MatrixCoefficients", x->matrix_coefficients},
          {"BitsPerChannel", x->bits_per_channel},
          {"ChromaSubsamplingHorz", x->chroma_subsampling_horz},
          {"ChromaSubsamplingVert", x->chroma_subsampling_vert},
          {"CbSubsamplingHorz", x->cb_subsampling_horz},
          {"CbSubsamplingVert", x->cb_subsampling_vert},
          {"ChromaSitingHorz", x->chroma_siting_horz},
          {"ChromaSitingVert", x->chroma_siting_vert},
          {"Range", x->range},
          {"TransferCharacteristics", x->transfer_characteristics},
          {"Primaries", x->primaries},
          {"MaxCLL", x->max_cll},
          {"MaxFALL", x->max_fall}};
      for (auto& y : vals)
        if (y.second != mp::Colour::kValueNotPresent) t->line().raw("%s: %lld", y.first, y.second);
      if (auto* m = x->mastering_metadata) {
        t->line().raw("MasteringMetadata:");
        t->in += 2;
        const std::pair<const char*, const mp::PrimaryChromaticity*> ps[] = {
            {"PrimaryRChromaticity", m->r},
            {"PrimaryGChromaticity", m->g},
            {"PrimaryBChromaticity", m->b},
            {"WhitePointChromaticity", m->white_point}};
        for (auto& y : ps)
          if (y.second) {
            t->line().raw("%sX: %g", y.first, y.second->x);
            t->line().raw("%sY: %g", y.first, y.second->y);
          }
        if (m->luminance_max != mp::MasteringMetadata::kValueNotPresent)
          t->line().raw("LuminanceMax: %g", m->luminance_max);
        if (m->luminance_min != mp::MasteringMetadata::kValueNotPresent)
          t->line().raw("LuminanceMin: %g", m->luminance_min);
        t->in -= 2;
      }
      t->in -= 2;
    }
    if (auto* x = v->GetProjection()) {
      t->line().raw("Projection:");
      t->in += 2;
      if (x->type != mp::Projection::kTypeNotPresent)
        t->line().raw("ProjectionType: %d", (int)x->type);
      if (x->private_data)
        t->line().raw("ProjectionPrivate(size): %zu", x->private_data_length);
      if (x->pose_yaw != mp::Projection::kValueNotPresent)
        t->line().raw("ProjectionPoseYaw: %g", x->pose_yaw);
      if (x->pose_pitch != mp::Projection::kValueNotPresent)
        t->line().raw("ProjectionPosePitch: %g", x->pose_pitch);
      if (x->pose_roll != mp::Projection::kValueNotPresent)
        t->line().raw("ProjectionPoseRoll: %g", x->pose_roll);
      t->in -= 2;
    }
  } else if (tr->GetType() == 2) {
    auto* a = static_cast<const mp::AudioTrack*>(tr);
    t->line().raw("Channels: %lld", a->GetChannels());
    if (a->GetBitDepth() > 0) t->line().raw("BitDepth: %lld", a->GetBitDepth());
    t->line().raw("SamplingFrequency: %g", a->GetSamplingRate());
    if (tr->GetCodecDelay()) t->line().raw("CodecDelay: %llu", tr->GetCodecDelay());
    if (tr->GetSeekPreRoll()) t->line().raw("SeekPreRoll: %llu", tr->GetSeekPreRoll());
  }
  t->in -= 2;
}

// One VPx frame of the generated stream.
struct Coded {
  vp9gen::Header h;
  Bytes data;
};
struct Sample {       // one frame of a block
  Bytes clear;        // without encryption
  std::vector<Coded> coded;  // VP9
  bool super = false;
  bool vp9 = false, vp8 = false;
  bool encrypted = false, sub = false;
  std::vector<uint32_t> parts;
  Bytes stored;
};

struct Stats {
  int frames = 0, displayed = 0, since = 0, min_dist = INT_MAX;
  bool any_alt = false;
  int64_t min_end = 0, max_window = 0, max_end = 0;
  std::vector<int64_t> times;
};

void ExpectVp8(Text* t, const Bytes& d) {
  if (d.size() < 3) return;
  const bool key = !(d[0] & 1);
  if (key && !(d.size() >= 6 && d[3] == 0x9D && d[4] == 1 && d[5] == 0x2A)) {
    t->raw(" invalid VP8 signature");
    return;
  }
  const unsigned tag = d[0] | d[1] << 8 | d[2] << 16;
  t->raw(" key:%d v:%d altref:%d partition_length:%u", key, (tag >> 1) & 7, !(tag >> 4 & 1),
         tag >> 5);
}

void ExpectVp9(Text* t, const Sample& s, int64_t time, Stats* st,
               vp9_parser::Vp9HeaderParser* parser, vp9_parser::Vp9LevelStats* level) {
  for (size_t k = 0; k < s.coded.size(); ++k) {
    const vp9gen::Header& h = s.coded[k].h;
    parser->ParseUncompressedHeader(s.coded[k].data.data(), s.coded[k].data.size());
    level->AddFrame(*parser, time);
    st->times.push_back(time);
    ++st->frames;
    if (!h.shown) {
      if (st->any_alt && st->since < st->min_dist) {
        st->min_dist = st->since;
        st->min_end = time;
      }
      st->any_alt = true;
      st->since = 0;
    } else {
      ++st->since;
      ++st->displayed;
    }
    if (s.super) t->raw(" packed [%zu]: {", k);
    t->raw(" key:%d v:%d altref:%d errm:%d", h.key, h.profile, !h.shown, h.error_res);
    if (h.key && !h.segmentation)
      t->raw(" rt:%d ct:%d fpm:%d", 1 << h.log2_rows, 1 << h.log2_cols, h.parallel);
    else
      t->raw(" rt:* ct:* fpm:*");
    if (h.key) {
      t->raw(" cs:%d", h.color_space);
      if (h.display_width != h.width || h.display_height != h.height)
        t->raw(" dw:%d dh:%d", h.display_width, h.display_height);
    }
    if (s.super) t->raw(" size: %zu }", s.coded[k].data.size());
  }
  int64_t in = 0;
  for (int64_t x : st->times) in += x >= time - 999999999;
  if (in > st->max_window) {
    st->max_window = in;
    st->max_end = time;
  }
}

void ExpectCues(Text* t, const Opts& o, mp::Segment* seg) {
  const mp::Cues* cues = seg->GetCues();
  if (!cues) return;
  while (!cues->DoneParsing()) cues->LoadCuePoint();
  const mp::CuePoint* p = cues->GetFirst();
  if (!p) {
    t->line().raw("No cue points.");
    return;
  }
  t->line().raw("Cues:");
  if (o.offset) t->raw(" @:%lld", cues->m_element_start);
  if (o.size) t->raw(" size:%lld", cues->m_element_size);
  t->in += 2;
  const mp::Tracks* ts = seg->GetTracks();
  for (int n = 1; p; p = cues->GetNext(p), ++n) {
    for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
      const mp::Track* tr = ts->GetTrackByIndex(k);
      const mp::CuePoint::TrackPosition* found = p->Find(tr);
      if (!found) continue;
      t->line().raw("Cue Point:%d type:%c track:%ld", n, tr->GetType() == 1 ? 'V' : 'A',
                    tr->GetNumber());
      if (o.secs)
        t->raw(" secs:%g", (double)p->GetTime(seg) / 1e9);
      else
        t->raw(" nano:%lld", p->GetTime(seg));
      if (o.blocks) t->raw(" block:%lld", found->m_block);
      if (o.offset) t->raw(" @:%lld", found->m_pos);
    }
  }
  t->in -= 2;
}

// The report webm_info is to print. |samples| by file position of the frame;
// false if the program is to fail.
bool ExpectInfo(Ctx& c, const Opts& options, const Bytes& data,
                const std::map<long long, const Sample*>& samples, Text* t) {
  Opts o = options;
  muxlib::MemReader r(data);
  mp::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(&r, pos) == 0, "harness: EBML header");
  mp::Segment* raw = nullptr;
  c.check(mp::Segment::CreateInstance(&r, pos, raw) == 0, "harness: segment");
  std::unique_ptr<mp::Segment> seg(raw);
  c.check(seg->Load() >= 0, "harness: Load");
  if (o.ebml) {
    t->line().raw("EBML Header:");
    t->in += 2;
    t->line().raw("EBMLVersion: %lld", h.m_version);
    t->line().raw("EBMLReadVersion: %lld", h.m_readVersion);
    t->line().raw("EBMLMaxIDLength: %lld", h.m_maxIdLength);
    t->line().raw("EBMLMaxSizeLength: %lld", h.m_maxSizeLength);
    t->line().raw("Doc Type: %s", h.m_docType);
    t->line().raw("DocTypeVersion: %lld", h.m_docTypeVersion);
    t->line().raw("DocTypeReadVersion: %lld", h.m_docTypeReadVersion);
    t->in -= 2;
  }
  if (o.segment) {
    t->line().raw("Segment:");
    Where(t, o, seg->m_element_start,
          seg->m_size < 0 ? -1 : seg->m_size + seg->m_start - seg->m_element_start);
    t->in += 2;
  }
  if (o.seekhead) {
    if (const mp::SeekHead* s = seg->GetSeekHead()) {
      t->line().raw("SeekHead:");
      Where(t, o, s->m_element_start, s->m_element_size);
      t->in += 2;
      for (int k = 0; k < s->GetCount(); ++k) {
        t->line().raw("Entry[%d]", k);
        Where(t, o, s->GetEntry(k)->element_start, s->GetEntry(k)->element_size);
        t->in += 2;
        t->line().raw("Seek ID: %llx", s->GetEntry(k)->id);
        t->line().raw("Seek position: %lld", s->GetEntry(k)->pos);
        t->in -= 2;
      }
      for (int k = 0; k < s->GetVoidElementCount(); ++k) {
        t->line().raw("Void element[%d]", k);
        Where(t, o, s->GetVoidElement(k)->element_start, s->GetVoidElement(k)->element_size);
      }
      t->in -= 2;
    }
  }
  if (o.info) {
    const mp::SegmentInfo* i = seg->GetInfo();
    t->line().raw("SegmentInfo:");
    Where(t, o, i->m_element_start, i->m_element_size);
    t->in += 2;
    t->line().raw("TimecodeScale: %lld", i->GetTimeCodeScale());
    Seconds(t, "Duration", i->GetDuration(), o.secs, "secs", "nano");
    if (!Str(i->GetTitleAsUTF8()).empty()) t->line().raw("Title: %s", i->GetTitleAsUTF8());
    if (!Str(i->GetMuxingAppAsUTF8()).empty())
      t->line().raw("MuxingApp: %s", i->GetMuxingAppAsUTF8());
    if (!Str(i->GetWritingAppAsUTF8()).empty())
      t->line().raw("WritingApp: %s", i->GetWritingAppAsUTF8());
    t->in -= 2;
  }
  const mp::Tracks* ts = seg->GetTracks();
  if (o.tracks) {
    t->line().raw("Tracks:");
    Where(t, o, ts->m_element_start, ts->m_element_size);
    t->in += 2;
    for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
      bool bad = false;
      ExpectTrack(t, o, ts->GetTrackByIndex(k), &bad);
      if (bad) return false;
    }
    t->in -= 2;
  }
  const mp::Cluster* cl = seg->GetFirst();
  if (o.cues && cl && seg->GetCues() &&
      seg->GetCues()->m_element_start < cl->m_element_start) {
    ExpectCues(t, o, seg.get());
    o.cues = false;
    c.label("cues before clusters");
  }
  if (o.clusters) t->line().raw("Clusters (count):%lu", seg->GetCount());
  long long total = 0;
  Stats st;
  vp9_parser::Vp9HeaderParser parser;
  vp9_parser::Vp9LevelStats level;
  for (; cl && !cl->EOS(); cl = seg->GetNext(cl)) {
    const mp::BlockEntry* e;
    long n = 0;
    long long first = -1, last = -1;
    c.check(cl->GetFirst(e) == 0, "harness: GetFirst");
    for (; e && !e->EOS(); ++n) {
      if (!n) first = e->GetBlock()->GetTime(cl);
      last = e->GetBlock()->GetTime(cl);
      c.check(cl->GetNext(e, e) == 0, "harness: GetNext");
    }
    // The extent is known now.
    total += cl->GetElementSize();
    if (o.clusters) {
      t->line().raw("Cluster:");
      Where(t, o, cl->m_element_start, cl->GetElementSize());
      t->in += 2;
      Seconds(t, "Timecode ", cl->GetTime(), o.secs, "sec", "nano");
      Seconds(t, "Duration ", last - first, o.secs, "sec", "nano");
      t->line().raw("# Blocks: %ld", n);
    }
    if (o.blocks) {
      c.check(cl->GetFirst(e) == 0, "harness: GetFirst");
      while (e && !e->EOS()) {
        const mp::Block* b = e->GetBlock();
        const mp::Track* tr = ts->GetTrackByNumber((long)b->GetTrackNumber());
        if (!tr) return false;
        const bool video = tr->GetType() == 1;
        if ((video && o.video) || (tr->GetType() == 2 && o.audio)) {
          const bool group = e->GetKind() == mp::BlockEntry::kBlockGroup;
          const long long time = b->GetTime(cl);
          if (group) {
            t->line().raw("BlockGroup:");
            t->in += 2;
          }
          t->line().raw("Block: type:%s frame:%s", video ? "V" : "A", b->IsKey() ? "I" : "P");
          if (o.secs)
            t->raw(" secs:%5g", (double)time / 1e9);
          else
            t->raw(" nano:%10lld", time);
          if (o.offset) t->raw(" @_payload: %lld", b->m_start);
          if (o.size) t->raw(" size_payload: %lld", b->m_size);
          const auto* enc = Encryption(tr);
          const bool encrypted_stream = enc && enc->aes_settings.cipher_mode == 1;
          auto bytes = [&](int k) {
            const mp::Block::Frame& f = b->GetFrame(k);
            return Bytes(data.begin() + f.pos, data.begin() + f.pos + f.len);
          };
          if (o.encrypted && encrypted_stream) {
            const Bytes f = bytes(0);
            t->raw(" enc: %d sub: %d", f[0] & 1, f[0] >> 1 & 1);
            if ((f[0] & 1) && f.size() >= 9) {
              uint64_t be = 0, le = 0;
              for (int k = 0; k < 8; ++k) {
                be = be << 8 | f[1 + k];
                le |= (uint64_t)f[1 + k] << (8 * k);
              }
              t->raw(" iv: \x01%" PRIx64 "|%" PRIx64, be, le);
            }
          }
          if (o.codec) {
            const int nf = b->GetFrameCount();
            if (nf > 1) t->in += 2;
            for (int k = 0; k < nf && video; ++k) {
              if (nf > 1) t->line().raw("VP8 data:");
              const auto it = samples.find(b->GetFrame(k).pos);
              const Sample* s = it == samples.end() ? nullptr : it->second;
              const Bytes f = bytes(k);
              if (encrypted_stream && (f[0] & 3) == 3 && f.size() >= 10)
                for (size_t q = 0; q < f[9] && 14 + 4 * q <= f.size(); ++q)
                  t->raw(" off[%zu]:%u", q,
                         (unsigned)f[10 + 4 * q] << 24 | f[11 + 4 * q] << 16 |
                             f[12 + 4 * q] << 8 | f[13 + 4 * q]);
              if (s && s->encrypted && !s->sub) continue;
              if (s && s->vp9) ExpectVp9(t, *s, time, &st, &parser, &level);
              if (s && s->vp8) ExpectVp8(t, s->clear);
            }
            if (nf > 1) t->in -= 2;
          }
          if (group) {
            if (b->GetDiscardPadding() != 0)
              t->line().raw("DiscardPadding: %lld", b->GetDiscardPadding());
            t->in -= 2;
          }
        }
        c.check(cl->GetNext(e, e) == 0, "harness: GetNext");
      }
    }
    if (o.clusters) t->in -= 2;
  }
  if (o.clusters_size) t->line().raw("Clusters (size):%lld", total);
  if (o.cues) ExpectCues(t, o, seg.get());
  const long long duration = seg->GetInfo()->GetDuration();
  t->in = 0;
  if (o.stats && st.min_dist != INT_MAX) {
    c.label("frame stats");
    t->line().raw("Actual fps:%g Displayed fps:%g", st.frames / ((double)duration / 1e9),
                  st.displayed / ((double)duration / 1e9));
    t->line().raw("Minimum Altref Distance:%d at:%g seconds", st.min_dist, (double)st.min_end / 1e9);
    const double end = (double)st.max_end / 1e9;
    t->line().raw("Maximum Window:%g-%g seconds Window fps:%lld",
                  st.max_end > 1000000000 ? end - 1 : 0.0, end, (long long)st.max_window);
  }
  if (o.level) {
    level.set_duration(duration);
    t->line().raw("VP9 Level:%d", (int)level.GetLevel());
    t->line().raw("mlsr:%lld mlps:%lld mlpb:%lld abr:%g mcs:%g cr:%g mct:%d mad:%d mrf:%d",
                  (long long)level.GetMaxLumaSampleRate(), (long long)level.GetMaxLumaPictureSize(),
                  (long long)level.GetMaxLumaPictureBreadth(), level.GetAverageBitRate(),
                  level.GetMaxCpbSize(), level.GetCompressionRatio(), level.GetMaxColumnTiles(),
                  level.GetMinimumAltrefDistance(), level.GetMaxReferenceFrames());
  }
  return true;
}

void CheckInfo(Gen& g, Ctx& c, const Bytes& data,
               const std::map<long long, const Sample*>& samples) {
  apps::Cleanup clean;
  const std::string in = clean.add(pbt::ScratchPath("in.webm"));
  const std::string out = clean.add(pbt::ScratchPath("out.txt"));
  apps::WriteFile(in, data);
  Opts o;
  const std::vector<std::string> args = MakeArgs(g, &o, in);
  for (auto& a : args) c.desc << (a == in ? "FILE" : a) << " ";
  c.desc << "\n";
  Text want;
  const bool ok = ExpectInfo(c, o, data, samples, &want);
  const int rc = apps::Run(webm_info_main, args, out);
  std::string got;
  c.check(apps::ReadFile(out, &got), "harness: output");
  if (!ok) {
    c.label("refused");
    CheckEq(c, rc, 1, "exit status");
    return;
  }
  Compare(c, got, want.s, true);
  CheckEq(c, rc, 0, "exit status");
  c.nontrivial();
  c.count("lines", Lines(got).size());
}

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.monotone = g.p(60);
  o.density = (unsigned)g.pick({10, 35, 70});
  o.max_clusters = 4;
  o.max_blocks = 5;
  docgen::Doc d = docgen::Generate(g, c, o);
  c.desc << docgen::Describe(d.segment);
  return d;
}

void Info(Gen& g, Ctx& c) {
  const docgen::Doc d = MakeDoc(g, c);
  // The frames are no VP8 or VP9: what is printed of those, suite codec checks.
  Bytes data = d.data;
  for (size_t k = 0; k + 5 <= data.size(); ++k)
    if (!memcmp(&data[k], "V_VP", 4) && (data[k + 4] == '8' || data[k + 4] == '9')) data[k + 2] = 'X';
  CheckInfo(g, c, data, {});
}

void Store(Gen& g, Sample* s, bool encrypted_stream) {
  s->stored = s->clear;
  if (!encrypted_stream) return;
  Bytes b;
  s->encrypted = g.p(60);
  s->sub = s->encrypted && g.p(50);
  b.push_back((uint8_t)((s->encrypted ? 1 : 0) | (s->sub ? 2 : 0)));
  if (s->encrypted) {
    const Bytes iv = g.p(10) ? Bytes(8, 0) : g.bytes(8);
    b.insert(b.end(), iv.begin(), iv.end());
  }
  if (s->sub) {
    const size_t n = g.u(0, 3);
    b.push_back((uint8_t)n);
    for (size_t k = 0; k < n; ++k) {
      const uint32_t v = (uint32_t)g.edgy(0, 0xFFFFFFFFu);
      s->parts.push_back(v);
      for (int q = 3; q >= 0; --q) b.push_back((uint8_t)(v >> (8 * q)));
    }
  }
  b.insert(b.end(), s->clear.begin(), s->clear.end());
  // Too short for an initialisation vector.
  if (s->encrypted && !s->sub && g.p(10)) b.resize(g.u(1, 9));
  s->stored = b;
}

// VP8 and VP9 streams, in the clear and encrypted.
void Codec(Gen& g, Ctx& c) {
  docgen::Doc d;
  d.ebml = docgen::Master(kEBML);
  d.ebml.kids.push_back(docgen::Str(kDocType, "webm"));
  d.segment = docgen::Master(kSegment);
  El info = docgen::Master(kInfo);
  info.kids.push_back(docgen::Uint(kTimecodeScale, g.p(70) ? 1000000 : g.u(1, 50000000)));
  if (g.p(60)) info.kids.push_back(docgen::Float(kDuration, (double)g.small(1, 100000), 8));
  d.segment.kids.push_back(info);
  El tracks = docgen::Master(kTracks);
  const size_t nt = g.u(1, 3);
  std::vector<int> kind;  // 0 VP8, 1 VP9, 2 audio
  std::vector<bool> enc;
  for (size_t t = 0; t < nt; ++t) {
    int k = t == 0 ? (g.p(25) ? 0 : 1) : (int)g.pick<int>({2, 2, 0});
    kind.push_back(k);
    enc.push_back(g.p(30));
    El te = docgen::Master(kTrackEntry);
    te.kids.push_back(docgen::Uint(kTrackNumber, t + 1));
    te.kids.push_back(docgen::Uint(kTrackUID, t + 1));
    te.kids.push_back(docgen::Uint(kTrackType, k == 2 ? 2 : 1));
    te.kids.push_back(docgen::Str(kCodecID, k == 0 ? "V_VP8" : k == 1 ? "V_VP9" : "A_OPUS"));
    if (k == 1 && g.p(40)) {
      Bytes p;
      if (g.b()) p.insert(p.end(), {1, 1, (uint8_t)g.u(0, 3)});
      if (g.b()) p.insert(p.end(), {2, 1, g.pick<uint8_t>({10, 11, 20, 31, 40, 52, 62})});
      if (g.b()) p.insert(p.end(), {3, 1, g.pick<uint8_t>({8, 10, 12})});
      if (p.empty() || g.b()) p.insert(p.end(), {4, 1, (uint8_t)g.u(0, 3)});
      if (g.p(5)) p = {9, 1, 1};
      te.kids.push_back(docgen::Bin(kCodecPrivate, p));
    }
    if (k == 2) {
      El a = docgen::Master(kAudio);
      a.kids.push_back(docgen::Uint(kChannels, 2));
      te.kids.push_back(a);
    } else {
      El v = docgen::Master(kVideo);
      v.kids.push_back(docgen::Uint(kPixelWidth, 16));
      v.kids.push_back(docgen::Uint(kPixelHeight, 16));
      te.kids.push_back(v);
    }
    if (enc[t]) {
      El aes = docgen::Master(kContentEncAESSettings);
      aes.kids.push_back(docgen::Uint(kAESSettingsCipherMode, 1));
      El en = docgen::Master(kContentEncryption);
      en.kids.push_back(docgen::Uint(kContentEncAlgo, 5));
      en.kids.push_back(docgen::Bin(kContentEncKeyID, g.bytes(g.u(1, 16))));
      en.kids.push_back(aes);
      El one = docgen::Master(kContentEncoding);
      one.kids.push_back(docgen::Uint(kContentEncodingScope, 1));
      one.kids.push_back(docgen::Uint(kContentEncodingType, 1));
      one.kids.push_back(en);
      El all = docgen::Master(kContentEncodings);
      all.kids.push_back(one);
      te.kids.push_back(all);
    }
    tracks.kids.push_back(te);
  }
  d.segment.kids.push_back(tracks);
  std::deque<Sample> samples;
  struct Placed {
    size_t cluster, kid;
    bool group;
    uint64_t off;
    Sample* s;
  };
  std::vector<Placed> placed;
  vp9gen::State state;
  uint64_t tc = 0;
  const size_t nc = g.u(1, 3);
  const size_t step = g.pick<size_t>({1, 33, 200, 1500});
  for (size_t k = 0; k < nc; ++k) {
    El cl = docgen::Master(kCluster);
    cl.unknown = k + 1 == nc && g.p(15);
    cl.kids.push_back(docgen::Uint(kTimecode, tc));
    const size_t nb = g.u(1, 8);
    uint64_t rel = 0;
    for (size_t q = 0; q < nb; ++q) {
      docgen::DocBlock b;
      const size_t t = g.p(60) ? 0 : g.u(0, nt - 1);
      b.track = t + 1;
      b.rel = (int16_t)rel;
      rel += g.p(85) ? step : g.u(0, 1500);
      if (rel > 32767) rel = 32767;
      b.simple = g.p(60);
      b.key = g.b();
      b.lacing = g.p(12) ? (int)g.pick<int>({1, 3}) : 0;
      const size_t nf = b.lacing ? g.u(2, 3) : 1;
      std::vector<Sample*> here;
      for (size_t m = 0; m < nf; ++m) {
        samples.emplace_back();
        Sample& s = samples.back();
        const vp9gen::State before = state;
        if (kind[t] == 1) {
          s.vp9 = true;
          s.super = g.p(20);
          const size_t n = s.super ? g.u(1, 4) : 1;
          size_t longest = 0;
          for (size_t w = 0; w < n; ++w) {
            vp9gen::Plan plan;
            plan.dim = 1024;
            plan.shown = g.p(30) ? 0 : 1;
            Coded x;
            x.h = vp9gen::MakeHeader(g, &state, plan);
            x.data = x.h.data;
            x.data.resize(x.data.size() + g.u(1, 12));
            if (!s.super && (x.data.back() & 0xE0) == 0xC0) x.data.back() = 0;
            longest = std::max(longest, x.data.size());
            s.clear.insert(s.clear.end(), x.data.begin(), x.data.end());
            s.coded.push_back(x);
          }
          if (s.super) {
            c.label("superframe");
            const int mag = longest > 255 ? 2 : (int)g.u(1, 4);
            const uint8_t mark = (uint8_t)(0xC0 | (mag - 1) << 3 | (n - 1));
            s.clear.push_back(mark);
            for (auto& x : s.coded)
              for (int z = 0; z < mag; ++z) s.clear.push_back((uint8_t)(x.data.size() >> (8 * z)));
            s.clear.push_back(mark);
          }
        } else if (kind[t] == 0) {
          s.vp8 = true;
          s.clear = {(uint8_t)g.u(0, 255), (uint8_t)g.u(0, 255), (uint8_t)g.u(0, 255), 0x9D, 1, 0x2A};
          if (g.p(20)) s.clear[3 + g.u(0, 2)] ^= 1;
          s.clear.resize(g.p(80) ? 6 + g.u(0, 6) : g.u(1, 6));
        } else {
          s.clear = g.bytes(g.u(1, 12));
        }
        Store(g, &s, enc[t] && kind[t] != 2);
        if (enc[t] && kind[t] == 2) Store(g, &s, true);
        // What is encrypted whole does not change the state of the decoder.
        if (s.vp9 && s.encrypted && !s.sub) {
          state = before;
          c.label("hidden VP9 frame");
        }
        b.frames.push_back(s.stored);
        here.push_back(&s);
        c.desc << tc + (uint64_t)b.rel << " track " << t + 1 << (s.encrypted ? " encrypted" : "")
               << (s.sub ? " sub" : "") << " " << pbt::Hex(s.stored, 200) << "\n";
        for (auto& x : s.coded) c.desc << "   " << vp9gen::Show(x.h) << "\n";
      }
      const Bytes body = docgen::BlockBody(g, &b, false);
      for (size_t m = 0; m < nf; ++m)
        placed.push_back({d.segment.kids.size(), cl.kids.size(), !b.simple, b.frame_off[m], here[m]});
      if (b.simple) {
        cl.kids.push_back(docgen::Bin(kSimpleBlock, body));
      } else {
        El gr = docgen::Master(kBlockGroup);
        gr.kids.push_back(docgen::Bin(kBlock, body));
        if (g.p(30)) gr.kids.push_back(docgen::Int(kDiscardPadding, g.i(-1000000, 1000000)));
        if (!b.key) gr.kids.push_back(docgen::Int(kReferenceBlock, -1));
        cl.kids.push_back(gr);
      }
    }
    tc += rel + g.u(0, 50);
    d.segment.kids.push_back(cl);
  }
  d.Finish();
  std::map<long long, const Sample*> at;
  for (auto& p : placed) {
    const El& kid = d.segment.kids[p.cluster].kids[p.kid];
    const El& leaf = p.group ? kid.kids[0] : kid;
    at[(long long)(leaf.body_pos() + p.off)] = p.s;
  }
  CheckInfo(g, c, d.data, at);
}

void ExpectSample(Ctx& c, const Bytes& data, Text* t, int* rc) {
  muxlib::MemReader r(data);
  mp::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(&r, pos) == 0, "harness: EBML header");
  int v[4];
  mp::GetVersion(v[0], v[1], v[2], v[3]);
  t->line().raw("libwebm version: %d.%d.%d.%d", v[0], v[1], v[2], v[3]);
  t->line().raw("EBML Header");
  t->line().raw("EBML Version: %lld", h.m_version);
  t->line().raw("EBML MaxIDLength: %lld", h.m_maxIdLength);
  t->line().raw("EBML MaxSizeLength: %lld", h.m_maxSizeLength);
  t->line().raw("Doc Type: %s", h.m_docType);
  t->line().raw("Pos: %lld", pos);
  mp::Segment* raw = nullptr;
  c.check(mp::Segment::CreateInstance(&r, pos, raw) == 0, "harness: segment");
  std::unique_ptr<mp::Segment> seg(raw);
  c.check(seg->Load() >= 0, "harness: Load");
  const auto named = [&](const char* label, const char* s) {
    t->line().raw("%s: %s", label, s ? s : "NULL");
  };
  const mp::SegmentInfo* i = seg->GetInfo();
  t->line().raw("Segment Info");
  t->line().raw("TimeCodeScale: %lld", i->GetTimeCodeScale());
  t->line().raw("Duration: %lld", i->GetDuration());
  t->line().raw("Duration(secs): %7.3lf", (double)i->GetDuration() / 1e9);
  named("Track Name", i->GetTitleAsUTF8());
  named("Muxing App", i->GetMuxingAppAsUTF8());
  named("Writing App", i->GetWritingAppAsUTF8());
  t->line().raw("Position(Segment): %lld", seg->m_start);
  t->line().raw("Size(Segment): %lld", seg->m_size);
  t->line().raw("Track Info");
  const mp::Tracks* ts = seg->GetTracks();
  for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
    const mp::Track* tr = ts->GetTrackByIndex(k);
    t->line().raw("Track Type: %ld", tr->GetType());
    t->line().raw("Track Number: %ld", tr->GetNumber());
    t->line().raw("Track Uid: %llu", tr->GetUid());
    named("Track Name", tr->GetNameAsUTF8());
    named("Codec Id", tr->GetCodecId());
    size_t n = 0;
    if (tr->GetCodecPrivate(n)) t->line().raw("Codec private length: %zu bytes", n);
    named("Codec Name", tr->GetCodecNameAsUTF8());
    if (tr->GetType() == 1) {
      auto* x = static_cast<const mp::VideoTrack*>(tr);
      t->line().raw("Video Width: %lld", x->GetWidth());
      t->line().raw("Video Height: %lld", x->GetHeight());
      t->line().raw("Video Rate: %f", x->GetFrameRate());
      if (auto* y = x->GetColour()) {
        t->line().raw("Video Colour:");
        const std::pair<const char*, long long> vals[] = {
            {"MatrixCoefficients", y->matrix_coefficients},
            {"BitsPerChannel", y->bits_per_channel},
            {"ChromaSubsamplingHorz", y->chroma_subsampling_horz},
            {"ChromaSubsamplingVert", y->chroma_subsampling_vert},
            {"CbSubsamplingHorz", y->cb_subsampling_horz},
            {"CbSubsamplingVert", y->cb_subsampling_vert},
            {"ChromaSitingHorz", y->chroma_siting_horz},
            {"ChromaSitingVert", y->chroma_siting_vert},
            {"Range", y->range},
            {"TransferCharacteristics", y->transfer_characteristics},
            {"Primaries", y->primaries},
            {"MaxCLL", y->max_cll},
            {"MaxFALL", y->max_fall}};
        for (auto& z : vals)
          if (z.second != mp::Colour::kValueNotPresent)
            t->line().raw("%s: %lld", z.first, z.second);
        if (auto* m = y->mastering_metadata) {
          t->line().raw("Mastering Metadata:");
          if (m->luminance_max != mp::MasteringMetadata::kValueNotPresent)
            t->line().raw("LuminanceMax: %f", m->luminance_max);
          if (m->luminance_min != mp::MasteringMetadata::kValueNotPresent)
            t->line().raw("LuminanceMin: %f", m->luminance_min);
          const std::pair<const char*, const mp::PrimaryChromaticity*> ps[] = {
              {"PrimaryRChromaticity", m->r},
              {"PrimaryGChromaticity", m->g},
              {"PrimaryBChromaticity", m->b},
              {"WhitePointChromaticity", m->white_point}};
          for (auto& z : ps)
            if (z.second) {
              t->line().raw("%sX: %f", z.first, z.second->x);
              t->line().raw("%sY: %f", z.first, z.second->y);
            }
        }
      }
      if (auto* y = x->GetProjection()) {
        t->line().raw("Video Projection:");
        if (y->type != mp::Projection::kTypeNotPresent)
          t->line().raw("ProjectionType: %d", (int)y->type);
        if (y->private_data) t->line().raw("ProjectionPrivate: %zu bytes", y->private_data_length);
        if (y->pose_yaw != mp::Projection::kValueNotPresent)
          t->line().raw("ProjectionPoseYaw: %f", y->pose_yaw);
        if (y->pose_pitch != mp::Projection::kValueNotPresent)
          t->line().raw("ProjectionPosePitch: %f", y->pose_pitch);
        if (y->pose_roll != mp::Projection::kValueNotPresent)
          t->line().raw("ProjectionPoseRoll: %f", y->pose_roll);
      }
    }
    if (tr->GetType() == 2) {
      auto* x = static_cast<const mp::AudioTrack*>(tr);
      t->line().raw("Audio Channels: %lld", x->GetChannels());
      t->line().raw("Audio BitDepth: %lld", x->GetBitDepth());
      t->line().raw("Addio Sample Rate: %.3f", x->GetSamplingRate());
      t->line().raw("Audio Codec Delay: %llu", tr->GetCodecDelay());
      t->line().raw("Audio Seek Pre Roll: %llu", tr->GetSeekPreRoll());
    }
  }
  t->line().raw("Cluster Info");
  t->line().raw("Cluster Count: %lu", seg->GetCount());
  if (!seg->GetCount()) {
    t->line().raw("Segment has no clusters.");
    *rc = 1;
    return;
  }
  const mp::Cluster* cl = seg->GetFirst();
  for (; cl && !cl->EOS(); cl = seg->GetNext(cl)) {
    t->line().raw("Cluster Time Code: %lld", cl->GetTimeCode());
    t->line().raw("Cluster Time (ns): %lld", cl->GetTime());
    const mp::BlockEntry* e;
    c.check(cl->GetFirst(e) == 0, "harness: GetFirst");
    while (e && !e->EOS()) {
      const mp::Block* b = e->GetBlock();
      const mp::Track* tr = ts->GetTrackByNumber((long)b->GetTrackNumber());
      if (!tr) {
        t->line().raw("Block:UNKNOWN TRACK TYPE");
      } else {
        t->line().raw("Block:%s,%s,%15lld,%lld", tr->GetType() == 1 ? "V" : "A",
                      b->IsKey() ? "I" : "P", b->GetTime(cl), b->GetDiscardPadding());
        for (int k = 0; k < b->GetFrameCount(); ++k)
          t->line().raw("%15ld,%15llx", b->GetFrame(k).len, b->GetFrame(k).pos);
      }
      c.check(cl->GetNext(e, e) == 0, "harness: GetNext");
    }
  }
  if (const mp::Cues* cues = seg->GetCues()) {
    while (!cues->DoneParsing()) cues->LoadCuePoint();
    const mp::CuePoint* p = cues->GetFirst();
    if (p) t->line().raw("Cues");
    for (int n = 1; p; p = cues->GetNext(p), ++n)
      for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
        const mp::Track* tr = ts->GetTrackByIndex(k);
        if (const auto* x = p->Find(tr))
          t->line().raw("Cue Point %4d Track %3ld(%c) Time %14lld Block %4lld Pos %8llx", n,
                        tr->GetNumber(), tr->GetType() == 1 ? 'V' : 'A', p->GetTime(seg.get()),
                        x->m_block, x->m_pos);
      }
  }
  if (const mp::Tags* tags = seg->GetTags()) {
    if (tags->GetTagCount() > 0) {
      t->line().raw("Tags");
      for (int k = 0; k < tags->GetTagCount(); ++k) {
        t->line().raw("Tag");
        for (int q = 0; q < tags->GetTag(k)->GetSimpleTagCount(); ++q) {
          auto* s = tags->GetTag(k)->GetSimpleTag(q);
          t->line().raw("Simple Tag \"%s\" Value \"%s\"",
                        s->GetTagName() ? s->GetTagName() : "(null)",
                        s->GetTagString() ? s->GetTagString() : "(null)");
        }
      }
    }
  }
  *rc = 0;
}

void SampleSuite(Gen& g, Ctx& c) {
  const docgen::Doc d = MakeDoc(g, c);
  apps::Cleanup clean;
  const std::string in = clean.add(pbt::ScratchPath("in.webm"));
  const std::string out = clean.add(pbt::ScratchPath("out.txt"));
  apps::WriteFile(in, d.data);
  Text want;
  int want_rc = 0;
  ExpectSample(c, d.data, &want, &want_rc);
  const int rc = apps::Run(mkvparser_sample_main, {"mkvparser_sample", in}, out);
  std::string got;
  c.check(apps::ReadFile(out, &got), "harness: output");
  Compare(c, got, want.s, false);
  CheckEq(c, rc, want_rc, "exit status");
  if (!rc) c.nontrivial();
}

// dumpvtt
void Vtt(Gen& g, Ctx& c) {
  struct Cue {
    std::string id;
    long long t[2];
    std::vector<std::pair<std::string, std::string>> settings;
    std::vector<std::string> lines;
  };
  const auto word = [&](size_t max) {
    static const char kAlpha[] = "abcXYZ0189%,.";
    std::string s;
    const size_t n = g.u(1, max);
    for (size_t k = 0; k < n; ++k) s += kAlpha[g.u(0, sizeof kAlpha - 2)];
    return s;
  };
  std::string text = "WEBVTT\n\n", want;
  Text t;
  const size_t n = g.u(0, 5);
  for (size_t k = 0; k < n; ++k) {
    Cue q;
    if (g.b()) q.id = word(8);
    for (auto& x : q.t)
      x = g.p(80) ? (long long)g.u(0, 20000000) : (long long)g.edgy(0, 3600000ll * 99999);
    if (q.t[1] < q.t[0]) std::swap(q.t[0], q.t[1]);
    const size_t ns = g.u(0, 3), nl = g.u(1, 3);
    for (size_t x = 0; x < ns; ++x) q.settings.push_back({word(6), word(6)});
    for (size_t x = 0; x < nl; ++x) q.lines.push_back(word(5) + (g.b() ? " " + word(5) : ""));
    if (!q.id.empty()) text += q.id + "\n";
    t.raw("cue identifier: \"%s\"\n", q.id.c_str());
    for (int x = 0; x < 2; ++x) {
      const long long ms = q.t[x];
      char b[64];
      snprintf(b, sizeof b, "%02lld:%02lld:%02lld.%03lld", ms / 3600000, ms / 60000 % 60,
               ms / 1000 % 60, ms % 1000);
      text += b;
      if (!x) text += " --> ";
      t.raw("cue %s time: \"HH=%lld MM=%lld SS=%lld SSS=%lld\"\n", x ? "stop" : "start",
            ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000);
    }
    if (q.settings.empty()) t.raw("cue setting: <no settings present>\n");
    for (auto& s : q.settings) {
      text += " " + s.first + ":" + s.second;
      t.raw("cue setting: name=%s value=%s\n", s.first.c_str(), s.second.c_str());
    }
    text += "\n";
    for (size_t x = 0; x < q.lines.size(); ++x) {
      text += q.lines[x] + "\n";
      t.raw("cue payload[%zu]: \"%s\"\n", x + 1, q.lines[x].c_str());
    }
    text += "\n";
  }
  c.desc << text;
  if (n) c.nontrivial();
  apps::Cleanup clean;
  const std::string in = clean.add(pbt::ScratchPath("in.vtt"));
  const std::string out = clean.add(pbt::ScratchPath("out.txt"));
  apps::WriteFile(in, text);
  const int rc = apps::Run(dumpvtt_main, {"dumpvtt", in}, out);
  std::string got;
  c.check(apps::ReadFile(out, &got), "harness: output");
  Compare(c, got, t.s, false);
  CheckEq(c, rc, 0, "exit status");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C25";
  p.level = "exploration";
  p.rule =
      "A case is a generated file and a set of options; the printed report is compared, line by "
      "line, with the one made from what the file holds; non-trivial if the program succeeded";
  p.suites.push_back({"info", Info, 40000, 800000, false});
  p.suites.push_back({"codec", Codec, 40000, 800000, false});
  p.suites.push_back({"sample", SampleSuite, 25000, 500000, false});
  p.suites.push_back({"vtt", Vtt, 15000, 200000, false});
  return pbt::Main(argc, argv, p);
}
