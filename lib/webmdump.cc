#include "webmdump.h"

#include <algorithm>
#include <cstdio>
#include <map>
#include <sstream>

#include "webm/dom_types.h"

namespace webmdump {

using namespace ebml;
using webm::Action;
using webm::Element;
using webm::ElementMetadata;
using webm::Status;

namespace {

std::string HexOf(const uint8_t* p, size_t n) {
  static const char* kHex = "0123456789abcdef";
  std::string s;
  s.reserve(2 * n);
  for (size_t k = 0; k < n; ++k) {
    s += kHex[p[k] >> 4];
    s += kHex[p[k] & 15];
  }
  return s;
}
std::string HexOf(const Bytes& b) { return HexOf(b.data(), b.size()); }
std::string HexOf(const std::string& b) {
  return HexOf(reinterpret_cast<const uint8_t*>(b.data()), b.size());
}

std::string Num(uint64_t v) { return std::to_string(v); }
std::string Dbl(double v) {
  char buf[64];
  snprintf(buf, sizeof(buf), "%.17g", v);
  return buf;
}

std::string Meta(uint32_t id, uint64_t header, uint64_t size, uint64_t pos) {
  std::string s = IdName(id);
  s += header == webm::kUnknownHeaderSize ? " h?" : " h" + Num(header);
  s += size == webm::kUnknownElementSize ? " n?" : " n" + Num(size);
  s += pos == webm::kUnknownElementPosition ? " @?" : " @" + Num(pos);
  return s;
}
std::string Meta(const ElementMetadata& m) {
  return Meta((uint32_t)m.id, m.header_size, m.size, m.position);
}

std::string BlockText(uint64_t track, int frames, int tc, int lacing,
                      bool visible) {
  std::ostringstream s;
  s << "t" << track << " f" << frames << " tc" << tc << " l" << lacing << " v"
    << visible;
  return s.str();
}
std::string SimpleText(bool key, bool discardable) {
  return std::string(" k") + (key ? "1" : "0") + " d" + (discardable ? "1" : "0");
}

// ---- dump of the parsed structures ----

typedef std::map<uint32_t, std::string> Fields;
std::string Join(const Fields& f) {
  std::string s = "{";
  for (auto& x : f) {
    s += IdName(x.first);
    s += x.second;
    s += ";";
  }
  return s + "}";
}

std::string Show(uint64_t v) { return Num(v); }
std::string Show(int64_t v) { return std::to_string(v); }
std::string Show(double v) { return Dbl(v); }
std::string Show(bool v) { return v ? "1" : "0"; }
std::string Show(const std::string& v) { return HexOf(v); }
std::string Show(const Bytes& v) { return HexOf(v); }
std::string Show(const webm::Block& b) {
  return BlockText(b.track_number, b.num_frames, b.timecode, (int)b.lacing,
                   b.is_visible);
}
std::string Show(const webm::SimpleBlock& b) {
  return Show(static_cast<const webm::Block&>(b)) +
         SimpleText(b.is_key_frame, b.is_discardable);
}
std::string Show(const webm::VirtualBlock& b) {
  return "t" + Num(b.track_number) + " tc" + std::to_string(b.timecode);
}
template <typename E>
typename std::enable_if<std::is_enum<E>::value, std::string>::type Show(E v) {
  return Num((uint64_t)v);
}

struct Out {
  Fields f;
  template <typename T>
  void operator()(uint32_t id, const Element<T>& e);
  template <typename T>
  void operator()(uint32_t id, const std::vector<Element<T>>& v);
};

#define STRUCT(T, ...)                     \
  void Visit(Out& f, const webm::T& v) {   \
    __VA_ARGS__                            \
  }                                        \
  std::string Show(const webm::T& v) {     \
    Out o;                                 \
    Visit(o, v);                           \
    return Join(o.f);                      \
  }
#define DECL(T) std::string Show(const webm::T& v);
DECL(BlockMore) DECL(BlockAdditions) DECL(TimeSlice) DECL(Slices)
DECL(BlockGroup) DECL(Cluster) DECL(Ebml) DECL(Info) DECL(Seek) DECL(Audio)
DECL(MasteringMetadata) DECL(Colour) DECL(Projection) DECL(Video)
DECL(ContentEncAesSettings) DECL(ContentEncryption) DECL(ContentEncoding)
DECL(ContentEncodings) DECL(TrackEntry) DECL(CueTrackPositions) DECL(CuePoint)
DECL(ChapterDisplay) DECL(ChapterAtom) DECL(EditionEntry) DECL(SimpleTag)
DECL(Targets) DECL(Tag)

template <typename T>
void Out::operator()(uint32_t id, const Element<T>& e) {
  f[id] = (e.is_present() ? "+" : "-") + Show(e.value());
}
template <typename T>
void Out::operator()(uint32_t id, const std::vector<Element<T>>& v) {
  std::string s = "[";
  for (auto& e : v) s += (e.is_present() ? "+" : "-") + Show(e.value()) + ",";
  f[id] = s + "]";
}

STRUCT(BlockMore, f(kBlockAddID, v.id); f(kBlockAdditional, v.data);)
STRUCT(BlockAdditions, f(kBlockMore, v.block_mores);)
STRUCT(TimeSlice, f(kLaceNumber, v.lace_number);)
STRUCT(Slices, f(kTimeSlice, v.slices);)
STRUCT(BlockGroup, f(kBlock, v.block); f(kBlockVirtual, v.virtual_block);
       f(kBlockAdditions, v.additions); f(kBlockDuration, v.duration);
       f(kReferenceBlock, v.references); f(kDiscardPadding, v.discard_padding);
       f(kSlices, v.slices);)
STRUCT(Cluster, f(kTimecode, v.timecode); f(kPrevSize, v.previous_size);
       f(kSimpleBlock, v.simple_blocks); f(kBlockGroup, v.block_groups);)
STRUCT(Ebml, f(kEBMLVersion, v.ebml_version);
       f(kEBMLReadVersion, v.ebml_read_version);
       f(kEBMLMaxIDLength, v.ebml_max_id_length);
       f(kEBMLMaxSizeLength, v.ebml_max_size_length);
       f(kDocType, v.doc_type); f(kDocTypeVersion, v.doc_type_version);
       f(kDocTypeReadVersion, v.doc_type_read_version);)
STRUCT(Info, f(kTimecodeScale, v.timecode_scale); f(kDuration, v.duration);
       f(kDateUTC, v.date_utc); f(kTitle, v.title);
       f(kMuxingApp, v.muxing_app); f(kWritingApp, v.writing_app);)
STRUCT(Seek, f(kSeekID, v.id); f(kSeekPosition, v.position);)
STRUCT(Audio, f(kSamplingFrequency, v.sampling_frequency);
       f(kOutputSamplingFrequency, v.output_frequency);
       f(kChannels, v.channels); f(kBitDepth, v.bit_depth);)
STRUCT(MasteringMetadata,
       f(kPrimaryRChromaticityX, v.primary_r_chromaticity_x);
       f(kPrimaryRChromaticityY, v.primary_r_chromaticity_y);
       f(kPrimaryGChromaticityX, v.primary_g_chromaticity_x);
       f(kPrimaryGChromaticityY, v.primary_g_chromaticity_y);
       f(kPrimaryBChromaticityX, v.primary_b_chromaticity_x);
       f(kPrimaryBChromaticityY, v.primary_b_chromaticity_y);
       f(kWhitePointChromaticityX, v.white_point_chromaticity_x);
       f(kWhitePointChromaticityY, v.white_point_chromaticity_y);
       f(kLuminanceMax, v.luminance_max); f(kLuminanceMin, v.luminance_min);)
STRUCT(Colour, f(kMatrixCoefficients, v.matrix_coefficients);
       f(kBitsPerChannel, v.bits_per_channel);
       f(kChromaSubsamplingHorz, v.chroma_subsampling_x);
       f(kChromaSubsamplingVert, v.chroma_subsampling_y);
       f(kCbSubsamplingHorz, v.cb_subsampling_x);
       f(kCbSubsamplingVert, v.cb_subsampling_y);
       f(kChromaSitingHorz, v.chroma_siting_x);
       f(kChromaSitingVert, v.chroma_siting_y); f(kRange, v.range);
       f(kTransferCharacteristics, v.transfer_characteristics);
       f(kPrimaries, v.primaries); f(kMaxCLL, v.max_cll);
       f(kMaxFALL, v.max_fall);
       f(kMasteringMetadata, v.mastering_metadata);)
STRUCT(Projection, f(kProjectionType, v.type);
       f(kProjectionPrivate, v.projection_private);
       f(kProjectionPoseYaw, v.pose_yaw);
       f(kProjectionPosePitch, v.pose_pitch);
       f(kProjectionPoseRoll, v.pose_roll);)
STRUCT(Video, f(kFlagInterlaced, v.interlaced); f(kStereoMode, v.stereo_mode);
       f(kAlphaMode, v.alpha_mode); f(kPixelWidth, v.pixel_width);
       f(kPixelHeight, v.pixel_height);
       f(kPixelCropBottom, v.pixel_crop_bottom);
       f(kPixelCropTop, v.pixel_crop_top);
       f(kPixelCropLeft, v.pixel_crop_left);
       f(kPixelCropRight, v.pixel_crop_right);
       f(kDisplayWidth, v.display_width); f(kDisplayHeight, v.display_height);
       f(kDisplayUnit, v.display_unit);
       f(kAspectRatioType, v.aspect_ratio_type); f(kFrameRate, v.frame_rate);
       f(kColour, v.colour); f(kProjection, v.projection);)
STRUCT(ContentEncAesSettings,
       f(kAESSettingsCipherMode, v.aes_settings_cipher_mode);)
STRUCT(ContentEncryption, f(kContentEncAlgo, v.algorithm);
       f(kContentEncKeyID, v.key_id);
       f(kContentEncAESSettings, v.aes_settings);)
STRUCT(ContentEncoding, f(kContentEncodingOrder, v.order);
       f(kContentEncodingScope, v.scope); f(kContentEncodingType, v.type);
       f(kContentEncryption, v.encryption);)
STRUCT(ContentEncodings, f(kContentEncoding, v.encodings);)
STRUCT(TrackEntry, f(kTrackNumber, v.track_number); f(kTrackUID, v.track_uid);
       f(kTrackType, v.track_type); f(kFlagEnabled, v.is_enabled);
       f(kFlagDefault, v.is_default); f(kFlagForced, v.is_forced);
       f(kFlagLacing, v.uses_lacing);
       f(kDefaultDuration, v.default_duration); f(kName, v.name);
       f(kLanguage, v.language); f(kCodecID, v.codec_id);
       f(kCodecPrivate, v.codec_private); f(kCodecName, v.codec_name);
       f(kCodecDelay, v.codec_delay); f(kSeekPreRoll, v.seek_pre_roll);
       f(kVideo, v.video); f(kAudio, v.audio);
       f(kContentEncodings, v.content_encodings);)
STRUCT(CueTrackPositions, f(kCueTrack, v.track);
       f(kCueClusterPosition, v.cluster_position);
       f(kCueRelativePosition, v.relative_position);
       f(kCueDuration, v.duration); f(kCueBlockNumber, v.block_number);)
STRUCT(CuePoint, f(kCueTime, v.time);
       f(kCueTrackPositions, v.cue_track_positions);)
STRUCT(ChapterDisplay, f(kChapString, v.string);
       f(kChapLanguage, v.languages); f(kChapCountry, v.countries);)
STRUCT(ChapterAtom, f(kChapterUID, v.uid); f(kChapterStringUID, v.string_uid);
       f(kChapterTimeStart, v.time_start); f(kChapterTimeEnd, v.time_end);
       f(kChapterDisplay, v.displays); f(kChapterAtom, v.atoms);)
STRUCT(EditionEntry, f(kChapterAtom, v.atoms);)
STRUCT(SimpleTag, f(kTagName, v.name); f(kTagLanguage, v.language);
       f(kTagDefault, v.is_default); f(kTagString, v.string);
       f(kTagBinary, v.binary); f(kSimpleTag, v.tags);)
STRUCT(Targets, f(kTargetTypeValue, v.type_value); f(kTargetType, v.type);
       f(kTagTrackUID, v.track_uids);)
STRUCT(Tag, f(kTargets, v.targets); f(kSimpleTag, v.tags);)

// ---- the model's own table of elements, types and default values ----

struct Row {
  uint32_t id;
  char kind;  // u i f s b(inary) B(ool) I(d) m(aster) S(imple) K(block) V(irt)
  bool repeated;
  const char* def;  // as Show() prints it
};
const std::map<uint32_t, std::vector<Row>>& Table() {
  static const auto* t = new std::map<uint32_t, std::vector<Row>>{
      {1, {{kEBML, 'm', false, ""}, {kSegment, 'm', false, ""}}},
      {kSegment,
       {{kSeekHead, 'm', true, ""}, {kInfo, 'm', true, ""},
        {kCluster, 'm', true, ""}, {kTracks, 'm', true, ""},
        {kCues, 'm', true, ""}, {kChapters, 'm', true, ""},
        {kTags, 'm', true, ""}}},
      {kSeekHead, {{kSeek, 'm', true, ""}}},
      {kTracks, {{kTrackEntry, 'm', true, ""}}},
      {kCues, {{kCuePoint, 'm', true, ""}}},
      {kChapters, {{kEditionEntry, 'm', true, ""}}},
      {kTags, {{kTag, 'm', true, ""}}},
      {kEBML,
       {{kEBMLVersion, 'u', false, "1"}, {kEBMLReadVersion, 'u', false, "1"},
        {kEBMLMaxIDLength, 'u', false, "4"},
        {kEBMLMaxSizeLength, 'u', false, "8"},
        {kDocType, 's', false, "matroska"},
        {kDocTypeVersion, 'u', false, "1"},
        {kDocTypeReadVersion, 'u', false, "1"}}},
      {kSeek, {{kSeekID, 'I', false, "0"}, {kSeekPosition, 'u', false, "0"}}},
      {kInfo,
       {{kTimecodeScale, 'u', false, "1000000"}, {kDuration, 'f', false, "0"},
        {kDateUTC, 'i', false, "0"}, {kTitle, 's', false, ""},
        {kMuxingApp, 's', false, ""}, {kWritingApp, 's', false, ""}}},
      {kCluster,
       {{kTimecode, 'u', false, "0"}, {kPrevSize, 'u', false, "0"},
        {kSimpleBlock, 'S', true, ""}, {kBlockGroup, 'm', true, ""}}},
      {kBlockGroup,
       {{kBlock, 'K', false, ""}, {kBlockVirtual, 'V', false, ""},
        {kBlockAdditions, 'm', false, ""}, {kBlockDuration, 'u', false, "0"},
        {kReferenceBlock, 'i', true, "0"}, {kDiscardPadding, 'i', false, "0"},
        {kSlices, 'm', false, ""}}},
      {kBlockAdditions, {{kBlockMore, 'm', true, ""}}},
      {kBlockMore,
       {{kBlockAddID, 'u', false, "1"}, {kBlockAdditional, 'b', false, ""}}},
      {kSlices, {{kTimeSlice, 'm', true, ""}}},
      {kTimeSlice, {{kLaceNumber, 'u', false, "0"}}},
      {kTrackEntry,
       {{kTrackNumber, 'u', false, "0"}, {kTrackUID, 'u', false, "0"},
        {kTrackType, 'u', false, "0"}, {kFlagEnabled, 'B', false, "1"},
        {kFlagDefault, 'B', false, "1"}, {kFlagForced, 'B', false, "0"},
        {kFlagLacing, 'B', false, "1"}, {kDefaultDuration, 'u', false, "0"},
        {kName, 's', false, ""}, {kLanguage, 's', false, "eng"},
        {kCodecID, 's', false, ""}, {kCodecPrivate, 'b', false, ""},
        {kCodecName, 's', false, ""}, {kCodecDelay, 'u', false, "0"},
        {kSeekPreRoll, 'u', false, "0"}, {kVideo, 'm', false, ""},
        {kAudio, 'm', false, ""}, {kContentEncodings, 'm', false, ""}}},
      {kVideo,
       {{kFlagInterlaced, 'u', false, "0"}, {kStereoMode, 'u', false, "0"},
        {kAlphaMode, 'u', false, "0"}, {kPixelWidth, 'u', false, "0"},
        {kPixelHeight, 'u', false, "0"}, {kPixelCropBottom, 'u', false, "0"},
        {kPixelCropTop, 'u', false, "0"}, {kPixelCropLeft, 'u', false, "0"},
        {kPixelCropRight, 'u', false, "0"}, {kDisplayWidth, 'u', false, "0"},
        {kDisplayHeight, 'u', false, "0"}, {kDisplayUnit, 'u', false, "0"},
        {kAspectRatioType, 'u', false, "0"}, {kFrameRate, 'f', false, "0"},
        {kColour, 'm', false, ""}, {kProjection, 'm', false, ""}}},
      {kColour,
       {{kMatrixCoefficients, 'u', false, "2"},
        {kBitsPerChannel, 'u', false, "0"},
        {kChromaSubsamplingHorz, 'u', false, "0"},
        {kChromaSubsamplingVert, 'u', false, "0"},
        {kCbSubsamplingHorz, 'u', false, "0"},
        {kCbSubsamplingVert, 'u', false, "0"},
        {kChromaSitingHorz, 'u', false, "0"},
        {kChromaSitingVert, 'u', false, "0"}, {kRange, 'u', false, "0"},
        {kTransferCharacteristics, 'u', false, "2"},
        {kPrimaries, 'u', false, "2"}, {kMaxCLL, 'u', false, "0"},
        {kMaxFALL, 'u', false, "0"}, {kMasteringMetadata, 'm', false, ""}}},
      {kMasteringMetadata,
       {{kPrimaryRChromaticityX, 'f', false, "0"},
        {kPrimaryRChromaticityY, 'f', false, "0"},
        {kPrimaryGChromaticityX, 'f', false, "0"},
        {kPrimaryGChromaticityY, 'f', false, "0"},
        {kPrimaryBChromaticityX, 'f', false, "0"},
        {kPrimaryBChromaticityY, 'f', false, "0"},
        {kWhitePointChromaticityX, 'f', false, "0"},
        {kWhitePointChromaticityY, 'f', false, "0"},
        {kLuminanceMax, 'f', false, "0"}, {kLuminanceMin, 'f', false, "0"}}},
      {kProjection,
       {{kProjectionType, 'u', false, "0"},
        {kProjectionPrivate, 'b', false, ""},
        {kProjectionPoseYaw, 'f', false, "0"},
        {kProjectionPosePitch, 'f', false, "0"},
        {kProjectionPoseRoll, 'f', false, "0"}}},
      {kAudio,
       {{kSamplingFrequency, 'f', false, "8000"},
        {kOutputSamplingFrequency, 'f', false, "8000"},
        {kChannels, 'u', false, "1"}, {kBitDepth, 'u', false, "0"}}},
      {kContentEncodings, {{kContentEncoding, 'm', true, ""}}},
      {kContentEncoding,
       {{kContentEncodingOrder, 'u', false, "0"},
        {kContentEncodingScope, 'u', false, "1"},
        {kContentEncodingType, 'u', false, "0"},
        {kContentEncryption, 'm', false, ""}}},
      {kContentEncryption,
       {{kContentEncAlgo, 'u', false, "0"}, {kContentEncKeyID, 'b', false, ""},
        {kContentEncAESSettings, 'm', false, ""}}},
      {kContentEncAESSettings, {{kAESSettingsCipherMode, 'u', false, "1"}}},
      {kCuePoint,
       {{kCueTime, 'u', false, "0"}, {kCueTrackPositions, 'm', true, ""}}},
      {kCueTrackPositions,
       {{kCueTrack, 'u', false, "0"}, {kCueClusterPosition, 'u', false, "0"},
        {kCueRelativePosition, 'u', false, "0"},
        {kCueDuration, 'u', false, "0"}, {kCueBlockNumber, 'u', false, "1"}}},
      {kEditionEntry, {{kChapterAtom, 'm', true, ""}}},
      {kChapterAtom,
       {{kChapterUID, 'u', false, "0"}, {kChapterStringUID, 's', false, ""},
        {kChapterTimeStart, 'u', false, "0"},
        {kChapterTimeEnd, 'u', false, "0"}, {kChapterDisplay, 'm', true, ""},
        {kChapterAtom, 'm', true, ""}}},
      {kChapterDisplay,
       {{kChapString, 's', false, ""}, {kChapLanguage, 's', true, "eng"},
        {kChapCountry, 's', true, ""}}},
      {kTag, {{kTargets, 'm', false, ""}, {kSimpleTag, 'm', true, ""}}},
      {kTargets,
       {{kTargetTypeValue, 'u', false, "50"}, {kTargetType, 's', false, ""},
        {kTagTrackUID, 'u', true, "0"}}},
      {kSimpleTag,
       {{kTagName, 's', false, ""}, {kTagLanguage, 's', false, "und"},
        {kTagDefault, 'B', false, "1"}, {kTagString, 's', false, ""},
        {kTagBinary, 'b', false, ""}, {kSimpleTag, 'm', true, ""}}},
  };
  return *t;
}

const Row* FindRow(uint32_t parent, uint32_t id) {
  auto it = Table().find(parent);
  if (it == Table().end()) return nullptr;
  for (auto& r : it->second)
    if (r.id == id) return &r;
  return nullptr;
}

typedef std::set<const El*> SkipSet;

std::string DefaultText(const Row& r) {
  if (r.kind == 's') return HexOf(std::string(r.def));
  return r.def;
}

struct BlockHead {
  uint64_t track = 0;
  int tc = 0;
  uint8_t flags = 0;
  size_t len = 0;
};
BlockHead HeadOf(const Bytes& b) {
  BlockHead h;
  int n = 1;
  while (n <= 8 && !(b[0] & (0x80 >> (n - 1)))) ++n;
  h.track = b[0] & ((1u << (8 - n)) - 1);
  for (int k = 1; k < n; ++k) h.track = h.track << 8 | b[k];
  h.tc = (int16_t)(b[n] << 8 | b[n + 1]);
  h.flags = b[n + 2];
  h.len = n + 3;
  return h;
}

// The frames of a well-formed block.
struct BlockInfo {
  BlockHead h;
  int lacing = 0;
  std::vector<Bytes> frames;
  std::vector<uint64_t> pos;
};
BlockInfo InfoOf(const El& e) {
  BlockInfo b;
  b.h = HeadOf(e.body);
  b.lacing = b.h.flags & 6;
  Node n;
  n.id = e.id;
  n.pos = 0;
  n.header_size = 0;
  n.size = e.body.size();
  RefBlock r;
  std::string err;
  if (!DecodeBlock(e.body, n, &r, &err))
    throw pbt::Failure{"harness: the generated block does not decode: " + err};
  b.frames = r.frames;
  for (uint64_t p : r.frame_pos) b.pos.push_back(p + e.body_pos());
  return b;
}
std::string BlockShow(const El& e, bool simple) {
  const BlockInfo b = InfoOf(e);
  std::string s = BlockText(b.h.track, (int)b.frames.size(), b.h.tc, b.lacing,
                            !(b.h.flags & 8));
  if (simple) s += SimpleText(b.h.flags & 0x80, b.h.flags & 1);
  return s;
}

std::string DumpMaster(uint32_t id, const std::vector<const El*>& kids,
                       const SkipSet& skip);

std::string Value(const Row& r, const El& e, const SkipSet& skip) {
  switch (r.kind) {
    case 'm': {
      std::vector<const El*> kids;
      for (auto& k : e.kids) kids.push_back(&k);
      return DumpMaster(e.id, kids, skip);
    }
    case 'S': return BlockShow(e, true);
    case 'K': return BlockShow(e, false);
    case 'V': {
      const BlockHead h = HeadOf(e.body);
      return "t" + Num(h.track) + " tc" + std::to_string(h.tc);
    }
  }
  if (e.body.empty()) return DefaultText(r);
  switch (r.kind) {
    case 'u': case 'I': {
      uint64_t v = 0;
      for (uint8_t x : e.body) v = v << 8 | x;
      return Num(v);
    }
    case 'B': return e.body.back() ? "1" : "0";
    case 'i': {
      uint64_t v = (e.body[0] & 0x80) ? UINT64_MAX : 0;
      for (uint8_t x : e.body) v = v << 8 | x;
      return std::to_string((int64_t)v);
    }
    case 'f': {
      uint64_t v = 0;
      for (uint8_t x : e.body) v = v << 8 | x;
      if (e.body.size() == 4) {
        float f;
        uint32_t w = (uint32_t)v;
        memcpy(&f, &w, 4);
        return Dbl(f);
      }
      double f;
      memcpy(&f, &v, 8);
      return Dbl(f);
    }
    case 's': {
      std::string s(e.body.begin(), e.body.end());
      while (!s.empty() && s.back() == 0) s.pop_back();
      return HexOf(s);
    }
    default:
      return HexOf(e.body);
  }
}

std::string DumpMaster(uint32_t id, const std::vector<const El*>& kids,
                       const SkipSet& skip) {
  Fields f;
  std::map<uint32_t, bool> has_value;
  for (auto& r : Table().at(id)) {
    std::vector<const El*> here;
    for (auto* k : kids)
      if (k->id == r.id && !skip.count(k)) here.push_back(k);
    if (r.repeated) {
      std::string s = "[";
      for (auto* k : here) s += "+" + Value(r, *k, skip) + ",";
      if (here.empty() && r.id == kChapLanguage)
        s += "-" + DefaultText(r) + ",";
      f[r.id] = s + "]";
    } else if (!here.empty()) {
      f[r.id] = "+" + Value(r, *here.back(), skip);
      has_value[r.id] = !here.back()->body.empty();
    } else if (r.kind == 'm') {
      f[r.id] = "-" + DumpMaster(r.id, {}, skip);
    } else if (r.kind == 'K') {
      f[r.id] = "-" + BlockText(0, 0, 0, 0, false);
    } else if (r.kind == 'V') {
      f[r.id] = "-t0 tc0";
    } else {
      f[r.id] = "-" + DefaultText(r);
    }
  }
  // Elements whose default is another element's value.
  auto from = [&](uint32_t to, uint32_t src) {
    if (!has_value[to]) f[to] = f[to].substr(0, 1) + f[src].substr(1);
  };
  if (id == kVideo) {
    from(kDisplayWidth, kPixelWidth);
    from(kDisplayHeight, kPixelHeight);
  }
  if (id == kAudio) from(kOutputSamplingFrequency, kSamplingFrequency);
  return Join(f);
}

struct Model {
  const Policy& p;
  std::vector<std::string> log;
  SkipSet skipped;

  static std::string M(const El& e) {
    return Meta(e.id, e.header, e.unknown ? webm::kUnknownElementSize : e.size,
                e.pos);
  }
  static std::string Lost(const El& e) {
    return Meta(e.id, webm::kUnknownHeaderSize, webm::kUnknownElementSize,
                webm::kUnknownElementPosition);
  }

  static const char* EventName(uint32_t id) {
    switch (id) {
      case kEBML: return "ebml ";
      case kInfo: return "info ";
      case kSeek: return "seek ";
      case kTrackEntry: return "track ";
      case kCuePoint: return "cue ";
      case kEditionEntry: return "edition ";
      case kTag: return "tag ";
    }
    return nullptr;
  }

  std::string Dump(const El& e, size_t from, size_t to) {
    std::vector<const El*> kids;
    for (size_t k = from; k < to; ++k) kids.push_back(&e.kids[k]);
    return DumpMaster(e.id, kids, skipped);
  }

  // OnElementBegin; false when skipped.
  bool Begin(const El& e) {
    log.push_back("begin " + M(e));
    if (p.Skip(0, e.pos, e.id)) {
      skipped.insert(&e);
      return false;
    }
    return true;
  }
  void BlockBody(const El& e, bool simple) {
    const BlockInfo b = InfoOf(e);
    const std::string text = M(e) + " " + BlockShow(e, simple);
    const char* name = simple ? "simple" : "block";
    log.push_back(std::string(name) + "+ " + text);
    if (p.Skip(simple ? 3 : 5, e.pos, e.id)) {
      skipped.insert(&e);
      return;
    }
    for (size_t k = 0; k < b.frames.size(); ++k)
      log.push_back("frame " + M(e) + " @" + Num(b.pos[k]) + " n" +
                    Num(b.frames[k].size()) + " = " + HexOf(b.frames[k]));
    log.push_back(std::string(name) + "- " + text);
  }
  // Children from index `from`, then the end events. `seen`: the element's own
  // header and begin events happened.
  void Children(const El& e, size_t from, bool seen) {
    const std::string m = seen ? M(e) : Lost(e);
    if (e.id == kCluster) {
      bool started = !seen;
      for (size_t k = from; k < e.kids.size(); ++k) {
        const El& kid = e.kids[k];
        if (!Begin(kid)) continue;
        if (!started && (kid.id == kSimpleBlock || kid.id == kBlockGroup)) {
          started = true;
          log.push_back("cluster+ " + m + " " + Dump(e, 0, k));
          if (p.Skip(2, e.pos, e.id)) {
            skipped.insert(&e);
            return;
          }
        }
        Body(kid, e.id);
      }
      if (!started) {
        log.push_back("cluster+ " + m + " " + Dump(e, 0, e.kids.size()));
        if (p.Skip(2, e.pos, e.id)) {
          skipped.insert(&e);
          return;
        }
      }
      log.push_back("cluster- " + m + " " + Dump(e, 0, e.kids.size()));
      return;
    }
    if (seen && e.id == kSegment) {
      log.push_back("segment+ " + m);
      if (p.Skip(1, e.pos, e.id)) return;
    }
    if (seen && e.id == kBlockGroup) {
      log.push_back("group+ " + m);
      if (p.Skip(4, e.pos, e.id)) {
        skipped.insert(&e);
        return;
      }
    }
    for (size_t k = from; k < e.kids.size(); ++k)
      if (Begin(e.kids[k])) Body(e.kids[k], e.id);
    if (e.id == kSegment)
      log.push_back("segment- " + m);
    else if (e.id == kBlockGroup)
      log.push_back("group- " + m + " " + Dump(e, 0, e.kids.size()));
    else if (const char* n = EventName(e.id))
      log.push_back(n + m + " " + Dump(e, 0, e.kids.size()));
  }
  void Body(const El& e, uint32_t parent) {
    if (e.id == kVoid) {
      log.push_back("void " + M(e) + " = " + HexOf(e.body));
    } else if (!KnownChild(parent, e.id)) {
      Bytes b;
      if (e.master())
        for (auto& k : e.kids) docgen::Serialize(k, &b);
      else
        b = e.body;
      log.push_back("unknown " + M(e) + " = " + HexOf(b));
    } else if (e.id == kSimpleBlock) {
      BlockBody(e, true);
    } else if (e.id == kBlock) {
      BlockBody(e, false);
    } else if (e.master()) {
      Children(e, 0, true);
    }
  }
};

}  // namespace

bool KnownChild(uint32_t parent, uint32_t id) {
  return id == kVoid || FindRow(parent, id) != nullptr;
}

std::vector<std::string> Expect(const std::vector<El>& top, const Policy& p) {
  Model m{p, {}, {}};
  for (auto& e : top)
    if (m.Begin(e)) m.Body(e, 1);
  return m.log;
}

std::vector<std::string> ExpectAfterSeek(const std::vector<El>& top,
                                         const std::vector<size_t>& path,
                                         const Policy& p) {
  Model m{p, {}, {}};
  std::vector<const El*> chain;
  const std::vector<El>* level = &top;
  for (size_t k : path) {
    chain.push_back(&(*level)[k]);
    level = &chain.back()->kids;
  }
  // chain.back() is the target; its ancestors are entered half way: what came
  // before was not seen.
  for (size_t d = 1; d < chain.size(); ++d)
    for (size_t k = 0; k < path[d]; ++k)
      m.skipped.insert(&chain[d - 1]->kids[k]);
  for (size_t d = chain.size() - 1; d > 0; --d)
    m.Children(*chain[d - 1], path[d] + (d + 1 == chain.size() ? 0 : 1), false);
  for (size_t k = path[0] + (chain.size() == 1 ? 0 : 1); k < top.size(); ++k)
    if (m.Begin(top[k])) m.Body(top[k], 1);
  return m.log;
}

std::string Diff(const std::vector<std::string>& got,
                 const std::vector<std::string>& want) {
  for (size_t k = 0; k < got.size() || k < want.size(); ++k) {
    const std::string a = k < got.size() ? got[k] : "(no more events)";
    const std::string b = k < want.size() ? want[k] : "(no more events)";
    if (a != b) {
      // Long lines: show where they differ.
      size_t x = 0;
      while (x < a.size() && x < b.size() && a[x] == b[x]) ++x;
      const size_t from = x > 60 ? x - 60 : 0;
      return "event " + Num(k) + " at column " + Num(x) + ": got ..." +
             a.substr(from, 200) + " want ..." + b.substr(from, 200) +
             (from ? " (line: " + b.substr(0, 60) + ")" : "") +
             (k ? " (after: " + want[k - 1].substr(0, 100) + ")" : "");
    }
  }
  return "";
}

// The model reads the document the way the EBML rules say.  Where a parser
// that does not know all of Matroska cannot tell where an element of unknown
// size ends, the tree is changed:
//  - children unknown to webm_parser are removed from masters of unknown size
//    (the first unknown element ends them);
//  - a void that follows a master of unknown size would belong to it;
//  - strict: removes voids and unknown children everywhere (used for seeks,
//    where all ancestors act as masters of unknown size);
//  - unknown_masters: makes further masters of unknown size where their end
//    is unambiguous.
void Normalize(pbt::Gen& g, El* e, uint32_t parent, bool strict,
               bool unknown_masters) {
  if (!e->master() || !KnownChild(parent, e->id)) {
    if (e->id == kBlockVirtual) {
      // track, timecode, flags
      Bytes b;
      PutSize(&b, g.u(1, 200));
      PutUintN(&b, g.u(0, 65535), 2);
      b.push_back((uint8_t)g.u(0, 255));
      if (g.p(25)) Append(&b, g.blob(g.small(1, 9)));
      e->body = b;
    }
    return;
  }
  if (e->unknown || strict) {
    e->kids.erase(std::remove_if(e->kids.begin(), e->kids.end(),
                                 [&](const El& k) {
                                   return !KnownChild(e->id, k.id) ||
                                          (strict && k.id == kVoid);
                                 }),
                  e->kids.end());
  }
  for (size_t k = 0; k < e->kids.size(); ++k) {
    El& kid = e->kids[k];
    const El* next = k + 1 < e->kids.size() ? &e->kids[k + 1] : nullptr;
    if (unknown_masters && kid.master() && KnownChild(e->id, kid.id) &&
        !kid.unknown && g.p(6)) {
      const bool clear_end = next ? !KnownChild(kid.id, next->id) : !e->unknown;
      if (clear_end) {
        kid.unknown = true;
        kid.size_len = (int)g.pick({1, 8, 4});
      }
    }
    Normalize(g, &kid, e->id, strict, unknown_masters);
  }
}

// ---- recorder ----

int Recorder::Interrupt(const std::string& key) {
  ++events;
  if (!pending_.empty()) {
    if (pending_ != key && error.empty())
      error = "resumed with \"" + key.substr(0, 200) + "\" after \"" +
              pending_.substr(0, 200) + "\" was interrupted";
  }
  if (repeats_ < 3 && x_->Hit(x_->callback_pct)) {
    ++interrupts;
    ++repeats_;
    pending_ = key;
    if (x_->exceptions && x_->Hit(50)) throw Thrown();
    switch (x_->Next() % 4) {
      case 0: return Status::kWouldBlock;
      case 1: return Status::kOkPartial;
      case 2: return 7;  // an application-specific code
      default: return Status::kSeekFailed;
    }
  }
  pending_.clear();
  repeats_ = 0;
  return 0;
}

Status Recorder::Event(const std::string& line) {
  if (int s = Interrupt(line)) return Status(s);
  log.push_back(line);
  return Status(Status::kOkCompleted);
}

Status Recorder::ActionEvent(const std::string& line, bool skip, Action* a) {
  // What an interrupted callback leaves in *a must not matter.
  if (x_->callback_pct) *a = x_->Next() % 2 ? Action::kSkip : Action::kRead;
  if (int s = Interrupt(line)) return Status(s);
  *a = skip ? Action::kSkip : Action::kRead;
  log.push_back(line);
  return Status(Status::kOkCompleted);
}

Status Recorder::Data(const std::string& key, webm::Reader* r,
                      std::uint64_t* n) {
  if (data_key_.empty()) {
    data_key_ = key;
    data_.clear();
    data_left_ = *n;
  } else if (data_key_ != key || *n != data_left_) {
    if (error.empty())
      error = "data callback resumed with \"" + key + "\" " + Num(*n) +
              " bytes left; expected \"" + data_key_ + "\" " +
              Num(data_left_) + " left";
  }
  if (int s = Interrupt(key)) return Status(s);
  // Once data was consumed the callback must not throw.
  struct Restore {
    bool* p;
    bool v;
    ~Restore() { *p = v; }
  } restore = {&x_->exceptions, x_->exceptions};
  x_->exceptions = false;
  while (*n > 0) {
    uint8_t buf[64];
    uint64_t got = 0;
    Status st(Status::kOkCompleted);
    if (g_hole.len && r->Position() >= g_hole.at &&
        r->Position() < g_hole.at + g_hole.len) {
      uint64_t want = g_hole.at + g_hole.len - r->Position();
      if (want > *n) want = *n;
      st = r->Skip(want, &got);
    } else {
      uint64_t want = *n < sizeof(buf) ? *n : sizeof(buf);
      if (g_hole.len && r->Position() < g_hole.at &&
          want > g_hole.at - r->Position())
        want = g_hole.at - r->Position();
      if (x_->partial_pct) want = 1 + x_->Next() % want;
      st = r->Read(want, buf, &got);
      data_.insert(data_.end(), buf, buf + got);
    }
    *n -= got;
    data_left_ = *n;
    if (!st.completed_ok() && st.code != Status::kOkPartial) {
      pending_ = key;
      return st;
    }
    if (*n > 0)
      if (int s = Interrupt(key)) return Status(s);
  }
  log.push_back(key + " = " + HexOf(data_));
  data_key_.clear();
  return Status(Status::kOkCompleted);
}

Status Recorder::OnElementBegin(const ElementMetadata& m, Action* a) {
  return ActionEvent("begin " + Meta(m),
                     p_.Skip(0, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnUnknownElement(const ElementMetadata& m, webm::Reader* r,
                                  std::uint64_t* n) {
  return Data("unknown " + Meta(m), r, n);
}
Status Recorder::OnVoid(const ElementMetadata& m, webm::Reader* r,
                        std::uint64_t* n) {
  return Data("void " + Meta(m), r, n);
}
Status Recorder::OnFrame(const webm::FrameMetadata& m, webm::Reader* r,
                         std::uint64_t* n) {
  return Data("frame " + Meta(m.parent_element) + " @" + Num(m.position) +
                  " n" + Num(m.size),
              r, n);
}
Status Recorder::OnEbml(const ElementMetadata& m, const webm::Ebml& v) {
  return Event("ebml " + Meta(m) + " " + Show(v));
}
Status Recorder::OnSegmentBegin(const ElementMetadata& m, Action* a) {
  return ActionEvent("segment+ " + Meta(m),
                     p_.Skip(1, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnSeek(const ElementMetadata& m, const webm::Seek& v) {
  return Event("seek " + Meta(m) + " " + Show(v));
}
Status Recorder::OnInfo(const ElementMetadata& m, const webm::Info& v) {
  return Event("info " + Meta(m) + " " + Show(v));
}
Status Recorder::OnClusterBegin(const ElementMetadata& m,
                                const webm::Cluster& v, Action* a) {
  return ActionEvent("cluster+ " + Meta(m) + " " + Show(v),
                     p_.Skip(2, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnSimpleBlockBegin(const ElementMetadata& m,
                                    const webm::SimpleBlock& v, Action* a) {
  return ActionEvent("simple+ " + Meta(m) + " " + Show(v),
                     p_.Skip(3, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnSimpleBlockEnd(const ElementMetadata& m,
                                  const webm::SimpleBlock& v) {
  return Event("simple- " + Meta(m) + " " + Show(v));
}
Status Recorder::OnBlockGroupBegin(const ElementMetadata& m, Action* a) {
  return ActionEvent("group+ " + Meta(m),
                     p_.Skip(4, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnBlockBegin(const ElementMetadata& m, const webm::Block& v,
                              Action* a) {
  return ActionEvent("block+ " + Meta(m) + " " + Show(v),
                     p_.Skip(5, m.position, (uint32_t)m.id), a);
}
Status Recorder::OnBlockEnd(const ElementMetadata& m, const webm::Block& v) {
  return Event("block- " + Meta(m) + " " + Show(v));
}
Status Recorder::OnBlockGroupEnd(const ElementMetadata& m,
                                 const webm::BlockGroup& v) {
  return Event("group- " + Meta(m) + " " + Show(v));
}
Status Recorder::OnClusterEnd(const ElementMetadata& m,
                              const webm::Cluster& v) {
  return Event("cluster- " + Meta(m) + " " + Show(v));
}
Status Recorder::OnTrackEntry(const ElementMetadata& m,
                              const webm::TrackEntry& v) {
  return Event("track " + Meta(m) + " " + Show(v));
}
Status Recorder::OnCuePoint(const ElementMetadata& m,
                            const webm::CuePoint& v) {
  return Event("cue " + Meta(m) + " " + Show(v));
}
Status Recorder::OnEditionEntry(const ElementMetadata& m,
                                const webm::EditionEntry& v) {
  return Event("edition " + Meta(m) + " " + Show(v));
}
Status Recorder::OnTag(const ElementMetadata& m, const webm::Tag& v) {
  return Event("tag " + Meta(m) + " " + Show(v));
}
Status Recorder::OnSegmentEnd(const ElementMetadata& m) {
  return Event("segment- " + Meta(m));
}

// ---- reader ----

ebml::Hole g_hole;

Status ChunkReader::Take(std::uint64_t n, std::uint8_t* buffer,
                         std::uint64_t* got) {
  ++calls;
  *got = 0;
  if (n == 0) {
    if (error.empty()) error = "a read of 0 bytes";
    return Status(Status::kWouldBlock);
  }
  if (!last_blocked_ && x_->Hit(x_->reader_pct)) {
    last_blocked_ = x_->Next() % 3 != 0;
    return Status(x_->Hit(70) ? (int)Status::kWouldBlock : 9);
  }
  last_blocked_ = false;
  const uint64_t size = g_hole.FileSize(d_);
  if (pos_ >= size) return Status(Status::kEndOfFile);
  uint64_t take = std::min<uint64_t>(n, size - pos_);
  if (take > 1 && x_->Hit(x_->partial_pct)) take = 1 + x_->Next() % take;
  if (buffer) g_hole.Copy(d_, pos_, take, buffer);
  pos_ += take;
  *got = take;
  return Status(take == n ? Status::kOkCompleted : Status::kOkPartial);
}
Status ChunkReader::Read(std::size_t n, std::uint8_t* buffer,
                         std::uint64_t* got) {
  return Take(n, buffer, got);
}
Status ChunkReader::Skip(std::uint64_t n, std::uint64_t* got) {
  return Take(n, nullptr, got);
}

RunResult Run(const Bytes& d, const Policy& p, Disturb x, int64_t seek) {
  RunResult r;
  Recorder rec(p, &x);
  ChunkReader reader(d, &x);
  webm::WebmParser parser;
  if (seek >= 0) {
    reader.Seek((uint64_t)seek);
    parser.DidSeek();
  }
  uint64_t idle = 0, last_pos = 0, last_log = 0;
  for (;;) {
    ++r.feeds;
    Status st(Status::kOkPartial);
    bool threw = false;
    try {
      st = parser.Feed(&rec, &reader);
    } catch (const Thrown&) {
      threw = true;
    }
    if (!reader.error.empty()) r.error = reader.error;
    if (!rec.error.empty()) r.error = rec.error;
    if (!r.error.empty()) break;
    if (!threw) {
      r.status = st.code;
      if (st.completed_ok() || st.is_parsing_error() ||
          st.code == Status::kEndOfFile)
        break;
    }
    if (reader.Position() == last_pos && rec.log.size() == last_log) {
      if (++idle > 2000) {
        r.error = "no progress: Feed keeps returning " +
                  std::to_string(st.code);
        break;
      }
    } else {
      idle = 0;
      last_pos = reader.Position();
      last_log = rec.log.size();
    }
  }
  r.pos = reader.Position();
  if (r.error.empty()) {
    // A finished parser stays finished: no events, no reads.
    const uint64_t calls = reader.calls, events = rec.events;
    Status again(Status::kOkPartial);
    if (r.status != Status::kEndOfFile) {
      again = parser.Feed(&rec, &reader);
      if (again.code != r.status)
        r.error = "Feed after status " + std::to_string(r.status) +
                  " returned " + std::to_string(again.code);
      else if (rec.events != events)
        r.error = "Feed after status " + std::to_string(r.status) +
                  " made callbacks";
      else if (calls != reader.calls)
        r.error = "Feed after status " + std::to_string(r.status) + " read data";
    }
  }
  r.log = std::move(rec.log);
  r.interrupts = rec.interrupts;
  return r;
}

}  // namespace webmdump
