// C04: header metadata given to the muxer is in the file, all of it and nothing
// else, and the library's parser reads the same values back.
#include <cfloat>
#include <cmath>

#include "muxlib.h"

using namespace muxlib;

namespace {

// Expected element tree.
struct T {
  uint32_t id;
  std::string value;
  std::vector<T> kids;
  T(uint32_t i) : id(i) {}
  T(uint32_t i, const std::string& v) : id(i), value(v) {}
};
std::string Num(uint64_t v) { return std::to_string(v); }
std::string Flt(float v) {
  char b[64];
  snprintf(b, sizeof(b), "%.9g", v);
  return b;
}
std::string Hx(const Bytes& b) { return pbt::Hex(b.data(), b.size(), b.size()); }

T FromNode(const Bytes& d, const Node& n) {
  T t(n.id);
  const ebml::Schema* s = ebml::Lookup(n.id);
  if (!s) {
    t.value = "?";
    return t;
  }
  switch (s->type) {
    case ebml::kMaster:
      for (auto& k : n.kids) t.kids.push_back(FromNode(d, k));
      break;
    case ebml::kUint: t.value = Num(ebml::GetUint(d, n)); break;
    case ebml::kInt:
    case ebml::kDate: t.value = std::to_string(ebml::GetInt(d, n)); break;
    case ebml::kFloat: t.value = Flt((float)ebml::GetFloat(d, n)); break;
    case ebml::kString:
    case ebml::kUtf8: t.value = ebml::GetStr(d, n); break;
    case ebml::kBinary: t.value = Hx(ebml::GetBin(d, n)); break;
  }
  return t;
}

void Compare(Ctx& c, T want, T got, const std::string& path) {
  const std::string p = path + "/" + ebml::IdName(want.id);
  if (want.value != got.value)
    c.fail("metadata " + p + ": got '" + got.value + "', want '" + want.value +
           "'");
  auto by_id = [](const T& a, const T& b) { return a.id < b.id; };
  std::stable_sort(want.kids.begin(), want.kids.end(), by_id);
  std::stable_sort(got.kids.begin(), got.kids.end(), by_id);
  size_t i = 0, j = 0;
  while (i < want.kids.size() || j < got.kids.size()) {
    if (j >= got.kids.size() ||
        (i < want.kids.size() && want.kids[i].id < got.kids[j].id))
      c.fail("metadata " + p + "/" + ebml::IdName(want.kids[i].id) +
             " is missing (want '" + want.kids[i].value + "')");
    if (i >= want.kids.size() || got.kids[j].id < want.kids[i].id)
      c.fail("metadata " + p + "/" + ebml::IdName(got.kids[j].id) +
             " was never given (got '" + got.kids[j].value + "')");
    Compare(c, want.kids[i++], got.kids[j++], p);
  }
}

const T* Kid(const T& t, uint32_t id) {
  for (auto& k : t.kids)
    if (k.id == id) return &k;
  return nullptr;
}

uint64_t Value(Gen& g) { return g.edgy(0, (1ull << 63) - 1); }
uint64_t Value1(Gen& g) { return g.edgy(1, (1ull << 63) - 1); }

// Sets a random colour on the object and the expected tree.  Returns false if
// it contains a value the muxer must refuse.
bool GenColour(Gen& g, Ctx& c, mkvmuxer::Colour* col, T* t, bool allow_bad) {
  const bool bad = allow_bad && g.p(25);
  int bad_field = bad ? (int)g.u(0, 7) : -1;
  bool any = false;
  auto field = [&](uint32_t id, uint64_t v, void (mkvmuxer::Colour::*set)(uint64_t)) {
    (col->*set)(v);
    t->kids.push_back(T(id, Num(v)));
    any = true;
  };
  if (bad_field == 0 || g.p(50))
    field(ebml::kMatrixCoefficients,
          bad_field == 0 ? g.u(11, 300) : g.u(0, 10),
          &mkvmuxer::Colour::set_matrix_coefficients);
  if (g.p(40))
    field(ebml::kBitsPerChannel, Value(g),
          &mkvmuxer::Colour::set_bits_per_channel);
  if (g.p(40))
    field(ebml::kChromaSubsamplingHorz, Value(g),
          &mkvmuxer::Colour::set_chroma_subsampling_horz);
  if (g.p(40))
    field(ebml::kChromaSubsamplingVert, Value(g),
          &mkvmuxer::Colour::set_chroma_subsampling_vert);
  if (g.p(40))
    field(ebml::kCbSubsamplingHorz, Value(g),
          &mkvmuxer::Colour::set_cb_subsampling_horz);
  if (g.p(40))
    field(ebml::kCbSubsamplingVert, Value(g),
          &mkvmuxer::Colour::set_cb_subsampling_vert);
  if (bad_field == 1 || g.p(40))
    field(ebml::kChromaSitingHorz, bad_field == 1 ? g.u(3, 300) : g.u(0, 2),
          &mkvmuxer::Colour::set_chroma_siting_horz);
  if (bad_field == 2 || g.p(40))
    field(ebml::kChromaSitingVert, bad_field == 2 ? g.u(3, 300) : g.u(0, 2),
          &mkvmuxer::Colour::set_chroma_siting_vert);
  if (bad_field == 3 || g.p(40))
    field(ebml::kRange, bad_field == 3 ? g.u(4, 300) : g.u(0, 3),
          &mkvmuxer::Colour::set_range);
  if (bad_field == 4 || g.p(40))
    field(ebml::kTransferCharacteristics,
          bad_field == 4 ? g.u(19, 300) : g.u(1, 18),
          &mkvmuxer::Colour::set_transfer_characteristics);
  if (bad_field == 5 || g.p(40))
    field(ebml::kPrimaries,
          bad_field == 5 ? g.u(23, 300)
                         : (g.p(20) ? 22 : g.u(0, 10)),
          &mkvmuxer::Colour::set_primaries);
  if (g.p(40))
    field(ebml::kMaxCLL, Value(g), &mkvmuxer::Colour::set_max_cll);
  if (g.p(40))
    field(ebml::kMaxFALL, Value(g), &mkvmuxer::Colour::set_max_fall);
  if (bad_field >= 6 || g.p(40)) {
    mkvmuxer::MasteringMetadata mm;
    T m(ebml::kMasteringMetadata);
    // Either luminance, or both.
    const bool has_max = g.p(70), has_min = g.p(70);
    float mx = 9999.99f;
    if (has_max) {
      mx = std::min(9999.99f, (float)g.u(0, 999999) / 100.0f);
      mm.set_luminance_max(mx);
      m.kids.push_back(T(ebml::kLuminanceMax, Flt(mx)));
    }
    if (has_min) {
      const float mn =
          std::min(std::min(mx, 999.99f), (float)g.u(0, 99999) / 100.0f);
      mm.set_luminance_min(mn);
      m.kids.push_back(T(ebml::kLuminanceMin, Flt(mn)));
    }
    if (bad_field == 7) {
      switch (g.u(0, 4)) {
        case 0: mm.set_luminance_max(10000.5f); break;
        case 1: mm.set_luminance_max(-0.5f); break;
        case 2:
          mm.set_luminance_max(5000);
          mm.set_luminance_min(1000.5f);
          break;
        case 3: mm.set_luminance_min(-0.5f); break;
        case 4:
          mm.set_luminance_max(10);
          mm.set_luminance_min(10.5f);
          break;
      }
    }
    mkvmuxer::PrimaryChromaticity pc[4];
    const mkvmuxer::PrimaryChromaticity* pp[4] = {0, 0, 0, 0};
    const uint32_t ids[4] = {ebml::kPrimaryRChromaticityX,
                             ebml::kPrimaryGChromaticityX,
                             ebml::kPrimaryBChromaticityX,
                             ebml::kWhitePointChromaticityX};
    const int bad_primary = bad_field == 6 ? (int)g.u(0, 3) : -1;
    const int passes = g.p(30) ? 2 : 1;  // the last call counts
    std::vector<T> chroma;
    for (int pass = 0; pass < passes; ++pass) {
      chroma.clear();
      for (int k = 0; k < 4; ++k) {
        pp[k] = nullptr;
        if (k != bad_primary && !g.p(50)) continue;
        float x = (float)g.u(0, 1000) / 1000.0f;
        float y = (float)g.u(0, 1000) / 1000.0f;
        if (k == bad_primary) (g.b() ? x : y) = g.b() ? 1.5f : -0.25f;
        pc[k] = mkvmuxer::PrimaryChromaticity(x, y);
        pp[k] = &pc[k];
        chroma.push_back(T(ids[k], Flt(x)));
        chroma.push_back(T(ids[k] + 1, Flt(y)));
      }
      c.check(mm.SetChromaticity(pp[0], pp[1], pp[2], pp[3]),
              "SetChromaticity failed");
    }
    for (auto& x : chroma) m.kids.push_back(x);
    c.check(col->SetMasteringMetadata(mm), "SetMasteringMetadata failed");
    if (!m.kids.empty()) {
      t->kids.push_back(m);
      any = true;
    }
  }
  return !bad;
}

struct Built {
  T info{ebml::kInfo};
  T tracks{ebml::kTracks};
  T chapters{ebml::kChapters};
  T tags{ebml::kTags};
  bool valid = true;
  std::vector<uint64_t> numbers;
  uint64_t scale = 1000000;
};

Bytes RandomBytes(Gen& g, size_t lo, size_t hi) { return g.blob(g.small(lo, hi)); }

// A text; sometimes the empty one.
std::string Text(Gen& g, size_t n) { return g.p(6) ? "" : g.str(n, 1); }

void AddTrackGen(Gen& g, Ctx& c, mkvmuxer::Segment* seg, Built* b,
                 bool allow_bad) {
  const int kind = (int)g.weighted({5, 3, 2});
  T te(ebml::kTrackEntry);
  uint64_t n = 0;
  mkvmuxer::Track* t = nullptr;
  int width = 0, height = 0, rate = 0, channels = 0;
  if (kind == 0) {
    width = (int)g.edgy(1, INT32_MAX);
    height = (int)g.edgy(1, INT32_MAX);
    n = seg->AddVideoTrack(width, height, 0);
    t = seg->GetTrackByNumber(n);
  } else if (kind == 1) {
    rate = (int)g.edgy(1, 1000000);
    channels = (int)g.edgy(1, 1000);
    n = seg->AddAudioTrack(rate, channels, 0);
    t = seg->GetTrackByNumber(n);
  } else {
    t = seg->AddTrack(0);
    if (t) {
      n = t->number();
      t->set_type(g.pick<uint64_t>({0x11, 3, 0x12, 0x20, 0x21}));
    }
  }
  c.check(n != 0 && t != nullptr, "track refused");
  b->numbers.push_back(n);
  te.kids.push_back(T(ebml::kTrackNumber, Num(n)));
  const uint64_t uid = (Value1(g) & ~0xFFull) | n;  // unique, non-zero
  t->set_uid(uid);
  te.kids.push_back(T(ebml::kTrackUID, Num(uid)));
  te.kids.push_back(T(ebml::kTrackType, Num(t->type())));
  std::string codec = kind == 0 ? "V_VP8" : kind == 1 ? "A_VORBIS" : "";
  if (kind == 2 || g.p(60)) {
    codec = g.p(50) ? g.pick<std::string>({"V_VP9", "A_OPUS", "V_AV1",
                                           "D_WEBVTT/CAPTIONS"})
                    : g.str(40, 1);
    t->set_codec_id(codec.c_str());
  }
  te.kids.push_back(T(ebml::kCodecID, codec));
  if (codec == "V_AV1" || g.p(50)) {
    const int passes = g.p(20) ? 2 : 1;
    Bytes cp;
    for (int k = 0; k < passes; ++k) {
      cp = RandomBytes(g, 1, 400);
      c.check(t->SetCodecPrivate(cp.data(), cp.size()), "codec private refused");
    }
    if (g.p(10))
      c.check(!t->SetCodecPrivate(nullptr, 5) && !t->SetCodecPrivate(cp.data(), 0),
              "empty codec private accepted");
    te.kids.push_back(T(ebml::kCodecPrivate, Hx(cp)));
  }
  if (g.p(40)) {
    std::string s = Text(g, 200);
    if (g.p(20)) t->set_name("overwritten");
    t->set_name(s.c_str());
    if (g.p(10)) t->set_name(nullptr);  // ignored
    te.kids.push_back(T(ebml::kName, s));
  }
  if (g.p(40)) {
    std::string s = Text(g, 20);
    t->set_language(s.c_str());
    if (g.p(10)) t->set_language(nullptr);  // ignored
    te.kids.push_back(T(ebml::kLanguage, s));
  }
  if (g.p(30)) {
    uint64_t v = Value1(g);
    t->set_max_block_additional_id(v);
    te.kids.push_back(T(ebml::kMaxBlockAdditionID, Num(v)));
  }
  if (g.p(30)) {
    uint64_t v = Value1(g);
    t->set_codec_delay(v);
    te.kids.push_back(T(ebml::kCodecDelay, Num(v)));
  }
  if (g.p(30)) {
    uint64_t v = Value1(g);
    t->set_seek_pre_roll(v);
    te.kids.push_back(T(ebml::kSeekPreRoll, Num(v)));
  }
  if (g.p(30)) {
    uint64_t v = Value1(g);
    t->set_default_duration(v);
    te.kids.push_back(T(ebml::kDefaultDuration, Num(v)));
  }
  // The parser refuses metadata tracks with content encodings.
  if (t->type() != 0x21 && g.p(25)) {
    T ces(ebml::kContentEncodings);
    const int ne = (int)g.u(1, 3);
    for (int k = 0; k < ne; ++k) {
      c.check(t->AddContentEncoding(), "AddContentEncoding failed");
      mkvmuxer::ContentEncoding* e = t->GetContentEncodingByIndex(k);
      c.check(e != nullptr, "content encoding not found");
      Bytes id;
      const int passes = g.p(20) ? 2 : 1;
      for (int q = 0; q < passes; ++q) {
        id = RandomBytes(g, 1, 100);
        c.check(e->SetEncryptionID(id.data(), id.size()), "SetEncryptionID");
      }
      T ce(ebml::kContentEncoding);
      ce.kids.push_back(T(ebml::kContentEncodingOrder, "0"));
      ce.kids.push_back(T(ebml::kContentEncodingScope, "1"));
      ce.kids.push_back(T(ebml::kContentEncodingType, "1"));
      T en(ebml::kContentEncryption);
      en.kids.push_back(T(ebml::kContentEncAlgo, "5"));
      en.kids.push_back(T(ebml::kContentEncKeyID, Hx(id)));
      T aes(ebml::kContentEncAESSettings);
      aes.kids.push_back(T(ebml::kAESSettingsCipherMode, "1"));
      en.kids.push_back(aes);
      ce.kids.push_back(en);
      ces.kids.push_back(ce);
    }
    te.kids.push_back(ces);
    c.label("content-encoding");
  }
  if (kind == 0) {
    auto* v = static_cast<mkvmuxer::VideoTrack*>(t);
    T ve(ebml::kVideo);
    uint64_t pw = width, ph = height;
    if (g.p(25)) v->set_pixel_width(pw = g.edgy(1, INT32_MAX));
    if (g.p(25)) v->set_pixel_height(ph = g.edgy(1, INT32_MAX));
    ve.kids.push_back(T(ebml::kPixelWidth, Num(pw)));
    ve.kids.push_back(T(ebml::kPixelHeight, Num(ph)));
    auto opt = [&](unsigned pct, uint32_t id,
                   void (mkvmuxer::VideoTrack::*set)(uint64_t)) {
      if (!g.p(pct)) return;
      uint64_t x = Value1(g);
      (v->*set)(x);
      ve.kids.push_back(T(id, Num(x)));
    };
    opt(40, ebml::kDisplayWidth, &mkvmuxer::VideoTrack::set_display_width);
    opt(40, ebml::kDisplayHeight, &mkvmuxer::VideoTrack::set_display_height);
    opt(25, ebml::kPixelCropLeft, &mkvmuxer::VideoTrack::set_crop_left);
    opt(25, ebml::kPixelCropRight, &mkvmuxer::VideoTrack::set_crop_right);
    opt(25, ebml::kPixelCropTop, &mkvmuxer::VideoTrack::set_crop_top);
    opt(25, ebml::kPixelCropBottom, &mkvmuxer::VideoTrack::set_crop_bottom);
    if (g.p(30)) {
      const uint64_t m = g.u(0, 12);
      const bool ok = m <= 3 || m == 11;  // the modes the muxer supports
      pbt::CheckEq(c, v->SetStereoMode(m), ok, "SetStereoMode verdict");
      if (ok && m > 0) ve.kids.push_back(T(ebml::kStereoMode, Num(m)));
    }
    if (g.p(30)) {
      const uint64_t m = g.u(0, 3);
      pbt::CheckEq(c, v->SetAlphaMode(m), m <= 1, "SetAlphaMode verdict");
      if (m == 1) ve.kids.push_back(T(ebml::kAlphaMode, "1"));
    }
    if (g.p(25)) {
      std::string cs = g.str(12, 1);
      if (g.p(20)) v->set_colour_space("YUY2");
      v->set_colour_space(cs.c_str());
      ve.kids.push_back(
          T(ebml::kColourSpace,
            Hx(Bytes(cs.begin(), cs.end()))));
    }
    if (g.p(25)) {
      const float fr = (float)g.u(1, 100000) / 7.0f;
      v->set_frame_rate(fr);
      ve.kids.push_back(T(ebml::kFrameRate, Flt(fr)));
    }
    if (g.p(50)) {
      T ct(ebml::kColour);
      const int passes = g.p(20) ? 2 : 1;
      bool ok = true;
      for (int k = 0; k < passes; ++k) {
        mkvmuxer::Colour col;
        ct.kids.clear();
        ok = GenColour(g, c, &col, &ct, allow_bad);
        c.check(v->SetColour(col), "SetColour failed");
      }
      if (!ok) b->valid = false;
      if (!ct.kids.empty()) ve.kids.push_back(ct);
      c.label("colour");
    }
    if (g.p(35)) {
      mkvmuxer::Projection pr;
      T pt(ebml::kProjection);
      const int ty = (int)g.u(0, 3);
      pr.set_type((mkvmuxer::Projection::ProjectionType)ty);
      pt.kids.push_back(T(ebml::kProjectionType, Num(ty)));
      if (g.p(60)) {
        Bytes pd = RandomBytes(g, 1, 200);
        if (g.p(20)) pr.SetProjectionPrivate((const uint8_t*)"xyz", 3);
        c.check(pr.SetProjectionPrivate(pd.data(), pd.size()),
                "SetProjectionPrivate");
        pt.kids.push_back(T(ebml::kProjectionPrivate, Hx(pd)));
      }
      const float yaw = (float)g.i(-1800, 1800) / 10, pitch = (float)g.i(-900, 900) / 10,
                  roll = (float)g.i(-1800, 1800) / 10;
      pr.set_pose_yaw(yaw);
      pr.set_pose_pitch(pitch);
      pr.set_pose_roll(roll);
      pt.kids.push_back(T(ebml::kProjectionPoseYaw, Flt(yaw)));
      pt.kids.push_back(T(ebml::kProjectionPosePitch, Flt(pitch)));
      pt.kids.push_back(T(ebml::kProjectionPoseRoll, Flt(roll)));
      c.check(v->SetProjection(pr), "SetProjection failed");
      if (g.p(20)) c.check(v->SetProjection(pr), "SetProjection failed");
      ve.kids.push_back(pt);
      c.label("projection");
    }
    te.kids.push_back(ve);
  } else if (kind == 1) {
    auto* a = static_cast<mkvmuxer::AudioTrack*>(t);
    T ae(ebml::kAudio);
    double r = rate;
    if (g.p(20)) a->set_sample_rate(r = (double)g.u(1, 1000000) / 3);
    ae.kids.push_back(T(ebml::kSamplingFrequency, Flt((float)r)));
    uint64_t ch = channels;
    if (g.p(20)) a->set_channels(ch = Value1(g));
    ae.kids.push_back(T(ebml::kChannels, Num(ch)));
    if (g.p(40)) {
      uint64_t bd = Value1(g);
      a->set_bit_depth(bd);
      ae.kids.push_back(T(ebml::kBitDepth, Num(bd)));
    }
    te.kids.push_back(ae);
  }
  b->tracks.kids.push_back(te);
}

void Build(Gen& g, Ctx& c, mkvmuxer::Segment* seg, Built* b, bool allow_bad) {
  mkvmuxer::SegmentInfo* info = seg->GetSegmentInfo();
  if (g.p(60)) b->scale = g.edgy(1, 1000000000);
  info->set_timecode_scale(b->scale);
  b->info.kids.push_back(T(ebml::kTimecodeScale, Num(b->scale)));
  std::string mux = info->muxing_app(), wr = info->writing_app();
  if (g.p(40)) {
    mux = Text(g, 100);
    info->set_muxing_app(mux.c_str());
    if (g.p(10)) info->set_muxing_app(nullptr);  // ignored
  }
  if (g.p(40)) {
    wr = Text(g, 100);
    info->set_writing_app(wr.c_str());
    if (g.p(10)) info->set_writing_app(nullptr);  // ignored
  }
  b->info.kids.push_back(T(ebml::kMuxingApp, mux));
  b->info.kids.push_back(T(ebml::kWritingApp, wr));
  if (g.p(40)) {
    int64_t d = (int64_t)g.edgy(0, UINT64_MAX);
    if (d == INT64_MIN) d = 0;
    info->set_date_utc(d);
    b->info.kids.push_back(T(ebml::kDateUTC, std::to_string(d)));
  }
  const int nt = (int)g.pick({1, 1, 2, 3, 5});
  for (int k = 0; k < nt; ++k) AddTrackGen(g, c, seg, b, allow_bad);
  T ed(ebml::kEditionEntry);
  const int nc = g.p(50) ? (int)g.u(1, 6) : 0;
  for (int k = 0; k < nc; ++k) {
    mkvmuxer::Chapter* ch = seg->AddChapter();
    c.check(ch != nullptr, "chapter refused");
    T at(ebml::kChapterAtom);
    std::string id = Text(g, 30);
    if (g.p(20)) ch->set_id("other");
    if (g.p(20)) {
      ch->set_id(nullptr);
      c.label("chapter without id");
    } else {
      c.check(ch->set_id(id.c_str()), "chapter id refused");
      at.kids.push_back(T(ebml::kChapterStringUID, id));
    }
    const uint64_t uid = Value1(g);
    ch->set_uid(uid);
    at.kids.push_back(T(ebml::kChapterUID, Num(uid)));
    const uint64_t st = Value(g) / 2, en = st + Value(g) / 2;
    ch->set_time(*seg, st, en);
    at.kids.push_back(T(ebml::kChapterTimeStart, Num(st / b->scale)));
    at.kids.push_back(T(ebml::kChapterTimeEnd, Num(en / b->scale)));
    const int nd = (int)g.u(0, 5);
    for (int q = 0; q < nd; ++q) {
      T di(ebml::kChapterDisplay);
      std::string title = Text(g, 60), lang = Text(g, 8), co = Text(g, 4);
      const bool hl = g.p(60), hc = g.p(60);
      c.check(ch->add_string(title.c_str(), hl ? lang.c_str() : nullptr,
                             hc ? co.c_str() : nullptr),
              "chapter string refused");
      di.kids.push_back(T(ebml::kChapString, title));
      if (hl) di.kids.push_back(T(ebml::kChapLanguage, lang));
      if (hc) di.kids.push_back(T(ebml::kChapCountry, co));
      at.kids.push_back(di);
    }
    ed.kids.push_back(at);
  }
  if (nc) {
    b->chapters.kids.push_back(ed);
    c.label("chapters");
  }
  const int ng = g.p(50) ? (int)g.u(1, 6) : 0;
  for (int k = 0; k < ng; ++k) {
    mkvmuxer::Tag* tg = seg->AddTag();
    c.check(tg != nullptr, "tag refused");
    T tt(ebml::kTag);
    const int ns = (int)g.u(0, 5);
    for (int q = 0; q < ns; ++q) {
      std::string n = Text(g, 30), v = Text(g, 200);
      c.check(tg->add_simple_tag(n.c_str(), v.c_str()), "simple tag refused");
      T st(ebml::kSimpleTag);
      st.kids.push_back(T(ebml::kTagName, n));
      st.kids.push_back(T(ebml::kTagString, v));
      tt.kids.push_back(st);
    }
    b->tags.kids.push_back(tt);
  }
  if (ng) c.label("tags");
}

// The parser skips empty elements, so an empty text comes back as none.
std::string S(const char* p) { return p ? p : ""; }

#define CHK(got, want, what) \
  pbt::CheckEq(c, std::string(got), std::string(want), std::string("parser: ") + what)

void CheckFloat(Ctx& c, double got, const T* want, const std::string& what) {
  if (!want) return;
  CHK(Flt((float)got), want->value, what);
}
void CheckNum(Ctx& c, uint64_t got, const T* want, const std::string& what,
              const std::string& dflt = "") {
  if (want)
    CHK(Num(got), want->value, what);
  else if (!dflt.empty())
    CHK(Num(got), dflt, what + " (default)");
}

void CheckParser(Ctx& c, const Bytes& data, const Built& b) {
  MemReader r(data);
  mkvparser::EBMLHeader h;
  long long pos = 0;
  c.check(h.Parse(&r, pos) == 0, "parser rejects the header");
  mkvparser::Segment* sp = nullptr;
  mkvparser::Segment::CreateInstance(&r, pos, sp);
  std::unique_ptr<mkvparser::Segment> seg(sp);
  c.check(seg != nullptr, "no segment");
  pbt::CheckEq(c, seg->Load(), 0, "parser load status");
  const mkvparser::SegmentInfo* in = seg->GetInfo();
  c.check(in != nullptr, "parser found no info");
  CHK(Num(in->GetTimeCodeScale()), Num(b.scale), "timecode scale");
  CHK(S(in->GetMuxingAppAsUTF8()), Kid(b.info, ebml::kMuxingApp)->value,
      "muxing app");
  CHK(S(in->GetWritingAppAsUTF8()), Kid(b.info, ebml::kWritingApp)->value,
      "writing app");
  const mkvparser::Tracks* ts = seg->GetTracks();
  c.check(ts && ts->GetTracksCount() == b.tracks.kids.size(),
          "parser: track count");
  for (size_t k = 0; k < b.tracks.kids.size(); ++k) {
    const T& w = b.tracks.kids[k];
    const mkvparser::Track* t = ts->GetTrackByIndex(k);
    c.check(t != nullptr, "parser lost a track");
    CheckNum(c, t->GetNumber(), Kid(w, ebml::kTrackNumber), "track number");
    CheckNum(c, t->GetUid(), Kid(w, ebml::kTrackUID), "track uid");
    CheckNum(c, t->GetType(), Kid(w, ebml::kTrackType), "track type");
    CHK(S(t->GetCodecId()), Kid(w, ebml::kCodecID)->value, "codec id");
    if (const T* x = Kid(w, ebml::kName)) CHK(S(t->GetNameAsUTF8()), x->value, "name");
    if (const T* x = Kid(w, ebml::kLanguage))
      CHK(S(t->GetLanguage()), x->value, "language");
    if (const T* x = Kid(w, ebml::kCodecPrivate)) {
      size_t n = 0;
      const unsigned char* p = t->GetCodecPrivate(n);
      c.check(p != nullptr, "parser: no codec private");
      CHK(Hx(Bytes(p, p + n)), x->value, "codec private");
    }
    CheckNum(c, t->GetDefaultDuration(), Kid(w, ebml::kDefaultDuration),
             "default duration", "0");
    CheckNum(c, t->GetCodecDelay(), Kid(w, ebml::kCodecDelay), "codec delay",
             "0");
    CheckNum(c, t->GetSeekPreRoll(), Kid(w, ebml::kSeekPreRoll),
             "seek pre-roll", "0");
    // The parser reads content encodings of audio and video tracks only.
    const T* ces = t->GetType() == 1 || t->GetType() == 2
                       ? Kid(w, ebml::kContentEncodings)
                       : nullptr;
    pbt::CheckEq(c, (size_t)t->GetContentEncodingCount(),
                 ces ? ces->kids.size() : 0, "parser: content encodings");
    for (size_t q = 0; ces && q < ces->kids.size(); ++q) {
      const mkvparser::ContentEncoding* e = t->GetContentEncodingByIndex(q);
      c.check(e != nullptr, "parser: content encoding");
      const T& we = ces->kids[q];
      CheckNum(c, e->encoding_order(), Kid(we, ebml::kContentEncodingOrder),
               "encoding order");
      CheckNum(c, e->encoding_scope(), Kid(we, ebml::kContentEncodingScope),
               "encoding scope");
      CheckNum(c, e->encoding_type(), Kid(we, ebml::kContentEncodingType),
               "encoding type");
      c.check(e->GetEncryptionCount() == 1, "parser: encryption count");
      const auto* en = e->GetEncryptionByIndex(0);
      const T* wn = Kid(we, ebml::kContentEncryption);
      CheckNum(c, en->algo, Kid(*wn, ebml::kContentEncAlgo), "enc algo");
      CHK(Hx(Bytes(en->key_id, en->key_id + en->key_id_len)),
          Kid(*wn, ebml::kContentEncKeyID)->value, "enc key id");
      c.check(en->aes_settings.cipher_mode == 1, "parser: cipher mode");
    }
    if (const T* v = Kid(w, ebml::kVideo)) {
      c.check(t->GetType() == mkvparser::Track::kVideo, "parser: not video");
      const auto* vt = static_cast<const mkvparser::VideoTrack*>(t);
      CheckNum(c, vt->GetWidth(), Kid(*v, ebml::kPixelWidth), "width");
      CheckNum(c, vt->GetHeight(), Kid(*v, ebml::kPixelHeight), "height");
      CheckNum(c, vt->GetDisplayWidth(), Kid(*v, ebml::kDisplayWidth),
               "display width");
      CheckNum(c, vt->GetDisplayHeight(), Kid(*v, ebml::kDisplayHeight),
               "display height");
      CheckNum(c, vt->GetStereoMode(), Kid(*v, ebml::kStereoMode),
               "stereo mode", "0");
      CheckFloat(c, vt->GetFrameRate(), Kid(*v, ebml::kFrameRate),
                 "frame rate");
      const T* cs = Kid(*v, ebml::kColourSpace);
      if (cs) {
        std::string s = S(vt->GetColourSpace());
        CHK(Hx(Bytes(s.begin(), s.end())), cs->value, "colour space");
      }
      const T* col = Kid(*v, ebml::kColour);
      const mkvparser::Colour* pc = vt->GetColour();
      c.check((col != nullptr) == (pc != nullptr), "parser: colour presence");
      if (col) {
        struct F {
          uint32_t id;
          long long v;
        };
        for (const F& f :
             {F{ebml::kMatrixCoefficients, pc->matrix_coefficients},
              F{ebml::kBitsPerChannel, pc->bits_per_channel},
              F{ebml::kChromaSubsamplingHorz, pc->chroma_subsampling_horz},
              F{ebml::kChromaSubsamplingVert, pc->chroma_subsampling_vert},
              F{ebml::kCbSubsamplingHorz, pc->cb_subsampling_horz},
              F{ebml::kCbSubsamplingVert, pc->cb_subsampling_vert},
              F{ebml::kChromaSitingHorz, pc->chroma_siting_horz},
              F{ebml::kChromaSitingVert, pc->chroma_siting_vert},
              F{ebml::kRange, pc->range},
              F{ebml::kTransferCharacteristics, pc->transfer_characteristics},
              F{ebml::kPrimaries, pc->primaries}, F{ebml::kMaxCLL, pc->max_cll},
              F{ebml::kMaxFALL, pc->max_fall}}) {
          const T* x = Kid(*col, f.id);
          CHK(std::to_string(f.v),
              x ? x->value : std::to_string(mkvparser::Colour::kValueNotPresent),
              ebml::IdName(f.id));
        }
        const T* mm = Kid(*col, ebml::kMasteringMetadata);
        const mkvparser::MasteringMetadata* pm = pc->mastering_metadata;
        c.check((mm != nullptr) == (pm != nullptr), "parser: mastering metadata");
        if (mm) {
          CheckFloat(c, pm->luminance_max, Kid(*mm, ebml::kLuminanceMax), "luminance max");
          CheckFloat(c, pm->luminance_min, Kid(*mm, ebml::kLuminanceMin), "luminance min");
          struct P {
            uint32_t id;
            const mkvparser::PrimaryChromaticity* p;
          };
          for (const P& p : {P{ebml::kPrimaryRChromaticityX, pm->r},
                             P{ebml::kPrimaryGChromaticityX, pm->g},
                             P{ebml::kPrimaryBChromaticityX, pm->b},
                             P{ebml::kWhitePointChromaticityX, pm->white_point}}) {
            const T* x = Kid(*mm, p.id);
            c.check((x != nullptr) == (p.p != nullptr),
                    "parser: " + ebml::IdName(p.id));
            if (x) {
              CheckFloat(c, p.p->x, x, ebml::IdName(p.id));
              CheckFloat(c, p.p->y, Kid(*mm, p.id + 1), ebml::IdName(p.id + 1));
            }
          }
        }
      }
      const T* pr = Kid(*v, ebml::kProjection);
      const mkvparser::Projection* pp = vt->GetProjection();
      c.check((pr != nullptr) == (pp != nullptr), "parser: projection presence");
      if (pr) {
        CheckNum(c, pp->type, Kid(*pr, ebml::kProjectionType), "projection type");
        CheckFloat(c, pp->pose_yaw, Kid(*pr, ebml::kProjectionPoseYaw), "yaw");
        CheckFloat(c, pp->pose_pitch, Kid(*pr, ebml::kProjectionPosePitch), "pitch");
        CheckFloat(c, pp->pose_roll, Kid(*pr, ebml::kProjectionPoseRoll), "roll");
        if (const T* x = Kid(*pr, ebml::kProjectionPrivate))
          CHK(Hx(Bytes(pp->private_data, pp->private_data + pp->private_data_length)),
              x->value, "projection private");
      }
    }
    if (const T* a = Kid(w, ebml::kAudio)) {
      const auto* at = static_cast<const mkvparser::AudioTrack*>(t);
      CheckFloat(c, at->GetSamplingRate(), Kid(*a, ebml::kSamplingFrequency),
                 "sampling rate");
      CheckNum(c, at->GetChannels(), Kid(*a, ebml::kChannels), "channels");
      CheckNum(c, at->GetBitDepth(), Kid(*a, ebml::kBitDepth), "bit depth", "0");
    }
  }
  const mkvparser::Chapters* chs = seg->GetChapters();
  c.check((chs != nullptr) == !b.chapters.kids.empty(), "parser: chapters");
  if (chs) {
    c.check(chs->GetEditionCount() == 1, "parser: editions");
    const auto* e = chs->GetEdition(0);
    const T& we = b.chapters.kids[0];
    pbt::CheckEq(c, (size_t)e->GetAtomCount(), we.kids.size(), "parser: atoms");
    for (size_t k = 0; k < we.kids.size(); ++k) {
      const auto* at = e->GetAtom((int)k);
      const T& wa = we.kids[k];
      const T* sid = Kid(wa, ebml::kChapterStringUID);
      c.check((at->GetStringUID() != nullptr) == (sid && !sid->value.empty()),
              "parser: chapter string uid presence");
      if (sid) CHK(S(at->GetStringUID()), sid->value, "chapter string uid");
      CheckNum(c, at->GetUID(), Kid(wa, ebml::kChapterUID), "chapter uid");
      CheckNum(c, at->GetStartTimecode(), Kid(wa, ebml::kChapterTimeStart),
               "chapter start");
      CheckNum(c, at->GetStopTimecode(), Kid(wa, ebml::kChapterTimeEnd),
               "chapter stop");
      std::vector<const T*> ds;
      for (auto& x : wa.kids)
        if (x.id == ebml::kChapterDisplay) ds.push_back(&x);
      pbt::CheckEq(c, (size_t)at->GetDisplayCount(), ds.size(),
                   "parser: displays");
      for (size_t q = 0; q < ds.size(); ++q) {
        const auto* d = at->GetDisplay((int)q);
        CHK(S(d->GetString()), Kid(*ds[q], ebml::kChapString)->value, "title");
        const T* l = Kid(*ds[q], ebml::kChapLanguage);
        if (l) CHK(S(d->GetLanguage()), l->value, "chapter language");
        const T* co = Kid(*ds[q], ebml::kChapCountry);
        if (co) CHK(S(d->GetCountry()), co->value, "chapter country");
      }
    }
  }
  const mkvparser::Tags* tgs = seg->GetTags();
  c.check((tgs != nullptr) == !b.tags.kids.empty(), "parser: tags");
  std::vector<T> wtags;  // the parser skips empty elements
  for (auto& t : b.tags.kids)
    if (!t.kids.empty()) wtags.push_back(t);
  if (tgs) {
    pbt::CheckEq(c, (size_t)tgs->GetTagCount(), wtags.size(),
                 "parser: tag count");
    for (size_t k = 0; k < wtags.size(); ++k) {
      const auto* tg = tgs->GetTag((int)k);
      const T& wt = wtags[k];
      pbt::CheckEq(c, (size_t)tg->GetSimpleTagCount(), wt.kids.size(),
                   "parser: simple tags");
      for (size_t q = 0; q < wt.kids.size(); ++q) {
        CHK(S(tg->GetSimpleTag((int)q)->GetTagName()),
            Kid(wt.kids[q], ebml::kTagName)->value, "tag name");
        CHK(S(tg->GetSimpleTag((int)q)->GetTagString()),
            Kid(wt.kids[q], ebml::kTagString)->value, "tag string");
      }
    }
  }
}

void Dump(std::ostream& o, const T& t) {
  o << ebml::IdName(t.id);
  if (!t.value.empty()) o << "=" << t.value.substr(0, 40);
  if (!t.kids.empty()) {
    o << "{";
    for (auto& k : t.kids) {
      Dump(o, k);
      o << " ";
    }
    o << "}";
  }
}

void Metadata(Gen& g, Ctx& c) {
  const bool seekable = !g.p(20);
  const bool live = g.p(20);
  const bool allow_bad = g.p(15);
  MemWriter w(seekable);
  Built b;
  bool added = true, finalized = false;
  {
    mkvmuxer::Segment seg;
    c.check(seg.Init(&w), "init");
    seg.set_mode(live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
    Build(g, c, &seg, &b, allow_bad);
    Dump(c.desc, b.info);
    Dump(c.desc, b.tracks);
    Dump(c.desc, b.chapters);
    Dump(c.desc, b.tags);
    const uint8_t byte = 1;
    for (int round = 0; round < 2; ++round)
      for (uint64_t n : b.numbers)
        added = seg.AddFrame(&byte, 1, n, round * 10 * b.scale, true) && added;
    if (added) finalized = seg.Finalize();
  }
  if (!b.valid) {
    c.label("invalid-colour");
    c.check(!added, "invalid colour description accepted");
    c.nontrivial();
    return;
  }
  c.check(added, "valid metadata refused");
  if (!finalized) {
    // audio only although a video track exists cannot happen here
    c.fail("finalize failed");
  }
  FoundFile f;
  DecodeFile(c, w.data, &f);
  const Node* info = f.segment->child(ebml::kInfo);
  c.check(info != nullptr, "no info");
  T gi = FromNode(w.data, *info);
  // The duration is C02's.
  for (size_t k = 0; k < gi.kids.size(); ++k)
    if (gi.kids[k].id == ebml::kDuration) {
      gi.kids.erase(gi.kids.begin() + k);
      break;
    }
  Compare(c, b.info, gi, "");
  const Node* tn = f.segment->child(ebml::kTracks);
  c.check(tn != nullptr, "no tracks");
  Compare(c, b.tracks, FromNode(w.data, *tn), "");
  const Node* ch = f.segment->child(ebml::kChapters);
  c.check((ch != nullptr) == !b.chapters.kids.empty(), "chapters presence");
  if (ch) Compare(c, b.chapters, FromNode(w.data, *ch), "");
  const Node* tg = f.segment->child(ebml::kTags);
  c.check((tg != nullptr) == !b.tags.kids.empty(), "tags presence");
  if (tg) Compare(c, b.tags, FromNode(w.data, *tg), "");
  CheckParser(c, w.data, b);
  size_t n = 0;
  for (auto& t : b.tracks.kids) n += t.kids.size();
  if (n >= 6 || ch || tg) c.nontrivial();
}

// Which tracks a segment takes, and which number, codec and cues track it keeps.
void Refusals(Gen& g, Ctx& c) {
  MemWriter w(true);
  mkvmuxer::Segment seg;
  c.check(seg.Init(&w), "init");
  struct Tr {
    uint64_t number, type;
  };
  std::vector<Tr> tracks;
  auto used = [&](uint64_t n) {
    for (auto& t : tracks)
      if (t.number == n) return true;
    return false;
  };
  uint64_t cues_track = 0;
  bool started = false, refused = false;
  const size_t n = g.p(20) ? g.u(100, 140) : g.u(3, 30);
  const unsigned auto_pct = (unsigned)g.pick({10, 50, 97});
  const uint8_t byte = 1;
  uint64_t ts = 0;
  for (size_t k = 0; k < n; ++k) {
    if (!tracks.empty() && g.p(8)) {
      const uint64_t x = g.p(50) ? g.pick(tracks).number : g.u(0, 130);
      c.desc << "cues track " << x << "; ";
      pbt::CheckEq(c, seg.CuesTrack(x), used(x), "CuesTrack verdict");
      if (used(x) && !started) cues_track = x;
      if (used(x) && started) {
        cues_track = 0;  // changing it now is out of scope
        break;
      }
      continue;
    }
    if (!tracks.empty() && g.p(started ? 30 : 2)) {
      const uint64_t x = g.p(70) ? g.pick(tracks).number : g.u(0, 200);
      c.desc << "frame of track " << x << "; ";
      pbt::CheckEq(c, seg.AddFrame(&byte, 1, x, ts += 1000000, true), used(x),
                   "verdict on a frame of track " + std::to_string(x));
      started = true;  // the header is written even if the frame is refused
      refused = refused || !used(x);
      continue;
    }
    const int32_t x = g.p(auto_pct) ? 0
                      : g.p(80) ? (int32_t)g.u(1, 40)
                                : g.pick<int32_t>({-1, 126, 127, 128, 255, 256,
                                                   257, INT32_MIN, INT32_MAX,
                                                   65537});
    uint64_t got = 0;
    const int kind = (int)g.u(0, 2);
    if (kind == 0) {
      got = seg.AddVideoTrack(16, 16, x);
    } else if (kind == 1) {
      got = seg.AddAudioTrack(8000, 1, x);
    } else {
      mkvmuxer::Track* t = seg.AddTrack(x);
      got = t ? t->number() : 0;
      if (t) {
        t->set_type(0x11);
        t->set_codec_id("S");
      }
    }
    c.desc << "add track " << x << " -> " << got << "; ";
    uint64_t want = 0;
    if (x > 0 && x <= 126 && !used(x)) want = x;
    if (x == 0) {
      want = tracks.size() + 1;
      while (used(want)) ++want;
      if (want > 126) {
        want = 0;
        c.label("no number left");
      }
    }
    if (started) want = 0;
    pbt::CheckEq(c, got, want,
                 "number of the track added with " + std::to_string(x));
    if (!got) {
      refused = true;
      continue;
    }
    tracks.push_back({got, kind == 0 ? 1u : kind == 1 ? 2u : 0x11u});
    c.check(seg.GetTrackByNumber(got) != nullptr, "track not found");
  }
  if (tracks.empty()) return;
  if (refused) c.nontrivial();
  // A frame of each, so that the file can be finished.
  for (auto& t : tracks)
    c.check(seg.AddFrame(&byte, 1, t.number, ts += 1000000, true),
            "frame of track " + std::to_string(t.number) + " refused");
  c.check(seg.AddVideoTrack(16, 16, 0) == 0 && seg.AddTrack(0) == nullptr &&
              seg.AddAudioTrack(8000, 1, 0) == 0,
          "track accepted after the header was written");
  c.check(seg.Finalize(), "finalize failed");
  FoundFile f;
  DecodeFile(c, w.data, &f);
  const Node* tn = f.segment->child(ebml::kTracks);
  c.check(tn != nullptr, "no tracks");
  auto entries = tn->children(ebml::kTrackEntry);
  pbt::CheckEq(c, entries.size(), tracks.size(), "tracks in the file");
  std::map<uint64_t, uint64_t> want, have;
  for (auto& t : tracks) want[t.number] = t.type;
  for (auto* e : entries)
    have[ebml::GetUint(w.data, *e->child(ebml::kTrackNumber))] =
        ebml::GetUint(w.data, *e->child(ebml::kTrackType));
  c.check(want == have, "numbers and types of the tracks in the file");
  if (!cues_track) return;
  if (const Node* cues = f.segment->child(ebml::kCues))
    for (auto* p : cues->children(ebml::kCuePoint))
      for (auto* tp : p->children(ebml::kCueTrackPositions))
        pbt::CheckEq(c, ebml::GetUint(w.data, *tp->child(ebml::kCueTrack)),
                     cues_track, "cue track");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C04";
  p.level = "exploration";
  p.rule =
      "A case is a header configuration: segment info, 1-5 tracks with any "
      "subset of the optional settings (some set twice), colour, mastering "
      "metadata, projection, content encodings, chapters with displays and tags; "
      "the file's element tree is compared with the expected tree both ways. "
      "Non-trivial: at least 6 track settings, or chapters or tags present, or "
      "an invalid colour that must be refused. Suite refusals: sequences of "
      "calls that add tracks with any number, choose the cues track and add "
      "frames of any track; non-trivial: something was refused.";
  p.suites = {{"metadata", Metadata, 150000, 5000000, true},
              {"refusals", Refusals, 10000, 400000, true}};
  p.assumptions = {"the reference EBML decoder and schema in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
