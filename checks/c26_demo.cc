// C26: the webm_parser demo prints exactly what the file holds.
#include <map>
#include <sstream>

#include "apps.h"
#include "pbt.h"
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/webm_parser.h"
#include "webmdump.h"

int demo_main(int argc, char* argv[]);

using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;
using webm::Action;
using webm::Element;
using webm::ElementMetadata;
using webm::Status;

namespace {

// Names of the values of enumerations, by element.
const std::map<std::string, std::map<uint64_t, const char*>>& Names() {
  static const std::map<std::string, std::map<uint64_t, const char*>> m = {
      {"lacing", {{0, "none"}, {2, "Xiph"}, {4, "fixed"}, {6, "EBML"}}},
      {"MatrixCoefficients",
       {{0, "identity, RGB/XYZ"}, {1, "Rec. ITU-R BT.709-5"}, {2, "unspecified"},
        {4, "US FCC"}, {5, "Rec. ITU-R BT.470-6 System B, G"}, {6, "SMPTE 170M"},
        {7, "SMPTE 240M"}, {8, "YCgCo"}, {9, "Rec. ITU-R BT.2020, non-constant luma"},
        {10, "Rec. ITU-R BT.2020 , constant luma"}}},
      {"Range",
       {{0, "unspecified"}, {1, "broadcast"}, {2, "full"},
        {3, "defined by MatrixCoefficients/TransferCharacteristics"}}},
      {"TransferCharacteristics",
       {{1, "Rec. ITU-R BT.709-6"}, {2, "unspecified"},
        {4, "gamma 2.2, Rec. ITU-R BT.470-6 System M"},
        {5, "gamma 2.8, Rec. ITU-R BT.470-6 System B, G"}, {6, "SMPTE 170M"},
        {7, "SMPTE 240M"}, {8, "linear"}, {9, "log, 100:1 range"},
        {10, "log, 316.2:1 range"}, {11, "IEC 61966-2-4"},
        {12, "Rec. ITU-R BT.1361, extended colour gamut"},
        {13, "IEC 61966-2-1, sRGB or sYCC"}, {14, "Rec. ITU-R BT.2020-2, 10-bit"},
        {15, "Rec. ITU-R BT.2020-2, 12-bit"}, {16, "SMPTE ST 2084"},
        {17, "SMPTE ST 428-1"}, {18, "ARIB STD-B67/Rec. ITU-R BT.[HDR-TV] HLG"}}},
      {"Primaries",
       {{1, "Rec. ITU-R BT.709-6"}, {2, "unspecified"},
        {4, "Rec. ITU-R BT.470-6 System M"}, {5, "Rec. ITU-R BT.470-6 System B, G"},
        {6, "SMPTE 170M"}, {7, "SMPTE 240M"}, {8, "generic film"},
        {9, "Rec. ITU-R BT.2020-2"}, {10, "SMPTE ST 428-1"},
        {22, "EBU Tech. 3213-E/JEDEC P22 phosphors"}}},
      {"ProjectionType", {{0, "rectangular"}, {1, "equirectangular"}, {2, "cube map"}}},
      {"FlagInterlaced", {{0, "unspecified"}, {1, "interlaced"}, {2, "progressive"}}},
      {"StereoMode",
       {{0, "mono"}, {1, "side-by-side, left eye first"},
        {2, "top-bottom, right eye first"}, {3, "top-bottom, left eye first"},
        {4, "checkboard, right eye first"}, {5, "checkboard, left eye first"},
        {6, "row interleaved, right eye first"}, {7, "row interleaved, left eye first"},
        {8, "column interleaved, right eye first"},
        {9, "column interleaved, left eye first"}, {10, "anaglyph, cyan/red"},
        {11, "side-by-side, right eye first"}, {12, "anaglyph, green/magenta"},
        {13, "block laced, left eye first"}, {14, "block laced, right eye first"}}},
      {"DisplayUnit",
       {{0, "pixels"}, {1, "centimeters"}, {2, "inches"}, {3, "display aspect ratio"}}},
      {"AspectRatioType", {{0, "free resizing"}, {1, "keep aspect ratio"}, {2, "fixed"}}},
      {"AESSettingsCipherMode", {{1, "CTR"}}},
      {"ContentEncAlgo",
       {{0, "only signed, not encrypted"}, {1, "DES"}, {2, "3DES"}, {3, "Twofish"},
        {4, "Blowfish"}, {5, "AES"}}},
      {"ContentEncodingType", {{0, "compression"}, {1, "encryption"}}},
      {"TrackType",
       {{1, "video"}, {2, "audio"}, {3, "complex"}, {16, "logo"}, {17, "subtitle"},
        {18, "buttons"}, {32, "control"}}},
  };
  return m;
}

// The WebM elements (those webm_parser has a name for).
bool InDemo(uint32_t id) {
  for (uint32_t x : {ebml::kCrc32, ebml::kMaxBlockAdditionID, ebml::kContentSigKeyID,
                     ebml::kContentSigHashAlgo, ebml::kColourSpace, ebml::kContentCompression,
                     ebml::kContentCompSettings, ebml::kContentSigAlgo, ebml::kContentSignature,
                     ebml::kContentCompAlgo, ebml::kPosition})
    if (id == x) return false;
  return ebml::Lookup(id) != nullptr;
}

// The expected text, from the callbacks (which C15 judges).
class Expect : public webm::Callback {
 public:
  std::string text;
  size_t entries = 0;

  Status OnElementBegin(const ElementMetadata& m, Action* a) override {
    *a = Action::kRead;
    for (uint32_t id : {ebml::kSeekHead, ebml::kTracks, ebml::kCues, ebml::kChapters, ebml::kTags})
      if ((uint32_t)m.id == id) Head(1, ebml::IdName(id), m);
    return Status(Status::kOkCompleted);
  }
  Status OnUnknownElement(const ElementMetadata& m, webm::Reader* r, uint64_t* n) override {
    Head(0, "UNKNOWN_ELEMENT!", m, false);
    return Callback::OnUnknownElement(m, r, n);
  }
  Status OnVoid(const ElementMetadata& m, webm::Reader* r, uint64_t* n) override {
    Head(0, "Void", m, false);
    return Callback::OnVoid(m, r, n);
  }
  Status OnEbml(const ElementMetadata& m, const webm::Ebml& v) override {
    Head(0, "EBML", m);
    in_ = 1;
    Must("EBMLVersion", v.ebml_version);
    Must("EBMLReadVersion", v.ebml_read_version);
    Must("EBMLMaxIDLength", v.ebml_max_id_length);
    Must("EBMLMaxSizeLength", v.ebml_max_size_length);
    Must("DocType", v.doc_type);
    Must("DocTypeVersion", v.doc_type_version);
    Must("DocTypeReadVersion", v.doc_type_read_version);
    return Status(Status::kOkCompleted);
  }
  Status OnSegmentBegin(const ElementMetadata& m, Action* a) override {
    *a = Action::kRead;
    Head(0, "Segment", m);
    return Status(Status::kOkCompleted);
  }
  Status OnSeek(const ElementMetadata& m, const webm::Seek& v) override {
    Head(2, "Seek", m);
    in_ = 3;
    Must("SeekID", v.id);
    Must("SeekPosition", v.position);
    return Status(Status::kOkCompleted);
  }
  Status OnInfo(const ElementMetadata& m, const webm::Info& v) override {
    Head(1, "Info", m);
    in_ = 2;
    Must("TimecodeScale", v.timecode_scale);
    May("Duration", v.duration);
    May("DateUTC", v.date_utc);
    May("Title", v.title);
    May("MuxingApp", v.muxing_app);
    May("WritingApp", v.writing_app);
    return Status(Status::kOkCompleted);
  }
  Status OnClusterBegin(const ElementMetadata& m, const webm::Cluster& v, Action* a) override {
    *a = Action::kRead;
    Head(1, "Cluster", m);
    in_ = 2;
    Must("Timecode", v.timecode);
    May("PrevSize", v.previous_size);
    return Status(Status::kOkCompleted);
  }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const webm::SimpleBlock& v, Action* a) override {
    *a = Action::kRead;
    Head(2, "SimpleBlock", m);
    in_ = 3;
    BlockLines(v, std::string(v.is_key_frame ? ", key frame" : "") +
                      (v.is_discardable ? ", discardable" : ""));
    return Status(Status::kOkCompleted);
  }
  Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override {
    *a = Action::kRead;
    Head(2, "BlockGroup", m);
    return Status(Status::kOkCompleted);
  }
  Status OnBlockBegin(const ElementMetadata& m, const webm::Block& v, Action* a) override {
    *a = Action::kRead;
    Head(3, "Block", m);
    in_ = 4;
    BlockLines(v, "");
    return Status(Status::kOkCompleted);
  }
  Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r, uint64_t* n) override {
    Line("frame byte range") << ": [" << m.position << ", " << m.position + m.size << ")";
    Emit();
    return Callback::OnFrame(m, r, n);
  }
  Status OnBlockGroupEnd(const ElementMetadata&, const webm::BlockGroup& v) override {
    if (v.virtual_block.is_present()) {
      // The demo indents this line like the last one before it.
      Line("BlockVirtual");
      Emit();
      in_ = 4;
      Line("track number") << ": " << v.virtual_block.value().track_number;
      Emit();
      Line("timecode") << ": " << v.virtual_block.value().timecode;
      Emit();
    }
    in_ = 3;
    Group("BlockAdditions", v.additions, [&](const webm::BlockAdditions& x) {
      Group("BlockMore", x.block_mores, [&](const webm::BlockMore& y) {
        Must("BlockAddID", y.id);
        Must("BlockAdditional", y.data);
      });
    });
    May("BlockDuration", v.duration);
    May("ReferenceBlock", v.references);
    May("DiscardPadding", v.discard_padding);
    Group("Slices", v.slices, [&](const webm::Slices& x) {
      Group("TimeSlice", x.slices, [&](const webm::TimeSlice& y) { May("LaceNumber", y.lace_number); });
    });
    return Status(Status::kOkCompleted);
  }
  Status OnTrackEntry(const ElementMetadata& m, const webm::TrackEntry& v) override {
    Head(2, "TrackEntry", m);
    in_ = 3;
    Must("TrackNumber", v.track_number);
    Must("TrackUID", v.track_uid);
    Must("TrackType", v.track_type);
    Must("FlagEnabled", v.is_enabled);
    Must("FlagDefault", v.is_default);
    Must("FlagForced", v.is_forced);
    Must("FlagLacing", v.uses_lacing);
    May("DefaultDuration", v.default_duration);
    May("Name", v.name);
    May("Language", v.language);
    Must("CodecID", v.codec_id);
    May("CodecPrivate", v.codec_private);
    May("CodecName", v.codec_name);
    May("CodecDelay", v.codec_delay);
    Must("SeekPreRoll", v.seek_pre_roll);
    Group("Video", v.video, [&](const webm::Video& x) { VideoLines(x); });
    Group("Audio", v.audio, [&](const webm::Audio& x) {
      Must("SamplingFrequency", x.sampling_frequency);
      May("OutputSamplingFrequency", x.output_frequency);
      Must("Channels", x.channels);
      May("BitDepth", x.bit_depth);
    });
    Group("ContentEncodings", v.content_encodings, [&](const webm::ContentEncodings& e) {
      Group("ContentEncoding", e.encodings, [&](const webm::ContentEncoding& x) {
        Must("ContentEncodingOrder", x.order);
        Must("ContentEncodingScope", x.scope);
        Must("ContentEncodingType", x.type);
        Group("ContentEncryption", x.encryption, [&](const webm::ContentEncryption& y) {
          May("ContentEncAlgo", y.algorithm);
          May("ContentEncKeyID", y.key_id);
          Group("ContentEncAESSettings", y.aes_settings, [&](const webm::ContentEncAesSettings& z) {
            Must("AESSettingsCipherMode", z.aes_settings_cipher_mode);
          });
        });
      });
    });
    return Status(Status::kOkCompleted);
  }
  Status OnCuePoint(const ElementMetadata& m, const webm::CuePoint& v) override {
    Head(2, "CuePoint", m);
    in_ = 3;
    Must("CueTime", v.time);
    Group("CueTrackPositions", v.cue_track_positions, [&](const webm::CueTrackPositions& x) {
      Must("CueTrack", x.track);
      Must("CueClusterPosition", x.cluster_position);
      May("CueRelativePosition", x.relative_position);
      May("CueDuration", x.duration);
      May("CueBlockNumber", x.block_number);
    });
    return Status(Status::kOkCompleted);
  }
  Status OnEditionEntry(const ElementMetadata& m, const webm::EditionEntry& v) override {
    Head(2, "EditionEntry", m);
    in_ = 3;
    Group("ChapterAtom", v.atoms, [&](const webm::ChapterAtom& x) { Atom(x); });
    return Status(Status::kOkCompleted);
  }
  Status OnTag(const ElementMetadata& m, const webm::Tag& v) override {
    Head(2, "Tag", m);
    in_ = 3;
    Group("Targets", v.targets, [&](const webm::Targets& x) {
      May("TargetTypeValue", x.type_value);
      May("TargetType", x.type);
      Must("TagTrackUID", x.track_uids);
    });
    Group("SimpleTag", v.tags, [&](const webm::SimpleTag& x) { Simple(x); });
    return Status(Status::kOkCompleted);
  }

 private:
  void Atom(const webm::ChapterAtom& v) {
    Must("ChapterUID", v.uid);
    May("ChapterStringUID", v.string_uid);
    Must("ChapterTimeStart", v.time_start);
    May("ChapterTimeEnd", v.time_end);
    Group("ChapterDisplay", v.displays, [&](const webm::ChapterDisplay& x) {
      Must("ChapString", x.string);
      Must("ChapLanguage", x.languages);
      May("ChapCountry", x.countries);
    });
    Group("ChapterAtom", v.atoms, [&](const webm::ChapterAtom& x) { Atom(x); });
  }
  void Simple(const webm::SimpleTag& v) {
    Must("TagName", v.name);
    Must("TagLanguage", v.language);
    Must("TagDefault", v.is_default);
    May("TagString", v.string);
    May("TagBinary", v.binary);
    Group("SimpleTag", v.tags, [&](const webm::SimpleTag& x) { Simple(x); });
  }
  void VideoLines(const webm::Video& x) {
    Must("FlagInterlaced", x.interlaced);
    May("StereoMode", x.stereo_mode);
    May("AlphaMode", x.alpha_mode);
    Must("PixelWidth", x.pixel_width);
    Must("PixelHeight", x.pixel_height);
    May("PixelCropBottom", x.pixel_crop_bottom);
    May("PixelCropTop", x.pixel_crop_top);
    May("PixelCropLeft", x.pixel_crop_left);
    May("PixelCropRight", x.pixel_crop_right);
    May("DisplayWidth", x.display_width);
    May("DisplayHeight", x.display_height);
    May("DisplayUnit", x.display_unit);
    May("AspectRatioType", x.aspect_ratio_type);
    May("FrameRate", x.frame_rate);
    Group("Colour", x.colour, [&](const webm::Colour& v) {
      May("MatrixCoefficients", v.matrix_coefficients);
      May("BitsPerChannel", v.bits_per_channel);
      May("ChromaSubsamplingHorz", v.chroma_subsampling_x);
      May("ChromaSubsamplingVert", v.chroma_subsampling_y);
      May("CbSubsamplingHorz", v.cb_subsampling_x);
      May("CbSubsamplingVert", v.cb_subsampling_y);
      May("ChromaSitingHorz", v.chroma_siting_x);
      May("ChromaSitingVert", v.chroma_siting_y);
      May("Range", v.range);
      May("TransferCharacteristics", v.transfer_characteristics);
      May("Primaries", v.primaries);
      May("MaxCLL", v.max_cll);
      May("MaxFALL", v.max_fall);
      Group("MasteringMetadata", v.mastering_metadata, [&](const webm::MasteringMetadata& w) {
        May("PrimaryRChromaticityX", w.primary_r_chromaticity_x);
        May("PrimaryRChromaticityY", w.primary_r_chromaticity_y);
        May("PrimaryGChromaticityX", w.primary_g_chromaticity_x);
        May("PrimaryGChromaticityY", w.primary_g_chromaticity_y);
        May("PrimaryBChromaticityX", w.primary_b_chromaticity_x);
        May("PrimaryBChromaticityY", w.primary_b_chromaticity_y);
        May("WhitePointChromaticityX", w.white_point_chromaticity_x);
        May("WhitePointChromaticityY", w.white_point_chromaticity_y);
        May("LuminanceMax", w.luminance_max);
        May("LuminanceMin", w.luminance_min);
      });
    });
    Group("Projection", x.projection, [&](const webm::Projection& v) {
      Must("ProjectionType", v.type);
      May("ProjectionPrivate", v.projection_private);
      Must("ProjectionPoseYaw", v.pose_yaw);
      Must("ProjectionPosePitch", v.pose_pitch);
      Must("ProjectionPoseRoll", v.pose_roll);
    });
  }
  void BlockLines(const webm::Block& v, const std::string& more) {
    Line("track number") << ": " << v.track_number;
    Emit();
    Line("frames") << ": " << v.num_frames;
    Emit();
    Line("timecode") << ": " << v.timecode;
    Emit();
    Line("lacing") << ": ";
    Show("lacing", v.lacing);
    Emit();
    Line("flags") << ": " << (v.is_visible ? "visible" : "invisible") << more;
    Emit();
  }

  std::ostringstream o_;
  int in_ = 0;
  std::ostringstream& Line(const std::string& name) {
    o_.str("");
    o_ << std::string((size_t)(2 * in_), ' ') << name;
    return o_;
  }
  void Emit() { text += o_.str() + "\n"; }
  void Head(int in, const std::string& name, const ElementMetadata& m, bool keep = true) {
    const int was = in_;
    in_ = in;
    ++entries;
    const uint64_t b = m.position + m.header_size;
    Line(name) << " header: [" << m.position << ", " << b << ") body: [" << b << ", ";
    if (m.size == webm::kUnknownElementSize) o_ << "?)";
    else o_ << b + m.size << ")";
    Emit();
    in_ = keep ? in : was;
  }
  void Show(const char*, const std::string& v) { o_ << v; }
  void Show(const char*, const std::vector<uint8_t>& v) { o_ << "<" << v.size() << " bytes>"; }
  void Show(const char* name, webm::Id v) {
    (void)name;
    if (!InDemo((uint32_t)v)) o_ << (uint64_t)v << " (?)";
    else o_ << ebml::IdName((uint32_t)v);
  }
  template <typename T>
  typename std::enable_if<std::is_enum<T>::value && !std::is_same<T, webm::Id>::value>::type Show(
      const char* name, T v) {
    auto t = Names().find(name);
    if (t == Names().end()) abort();
    auto it = t->second.find((uint64_t)v);
    o_ << (uint64_t)v << " (" << (it == t->second.end() ? "?" : it->second) << ")";
  }
  template <typename T>
  typename std::enable_if<std::is_arithmetic<T>::value>::type Show(const char*, T v) { o_ << v; }
  template <typename T>
  void Must(const char* name, const Element<T>& e) {
    Line(name) << (e.is_present() ? ": " : " (implicit): ");
    Show(name, e.value());
    Emit();
  }
  template <typename T>
  void Must(const char* name, const std::vector<Element<T>>& v) {
    for (auto& e : v) Must(name, e);
  }
  template <typename T>
  void May(const char* name, const Element<T>& e) {
    if (e.is_present()) Must(name, e);
  }
  template <typename T>
  void May(const char* name, const std::vector<Element<T>>& v) {
    for (auto& e : v) May(name, e);
  }
  template <typename T, typename F>
  void Group(const char* name, const Element<T>& e, F f) {
    if (!e.is_present()) return;
    Line(name);
    Emit();
    ++in_;
    f(e.value());
    --in_;
  }
  template <typename T, typename F>
  void Group(const char* name, const std::vector<Element<T>>& v, F f) {
    for (auto& e : v) Group(name, e, f);
  }
};

// Runs of blanks within a line do not count; those that start it do.
// Non-breaking hyphens and blanks are hyphens and blanks.
std::vector<std::string> Lines(std::string s) {
  for (size_t k; (k = s.find("\xE2\x80\x91")) != std::string::npos;) s.replace(k, 3, "-");
  for (size_t k; (k = s.find("\xC2\xA0")) != std::string::npos;) s.replace(k, 2, " ");
  std::vector<std::string> out;
  for (size_t at = 0; at < s.size();) {
    size_t e = s.find('\n', at);
    if (e == std::string::npos) e = s.size();
    std::string l;
    bool lead = true;
    for (size_t k = at; k < e; ++k) {
      lead = lead && s[k] == ' ';
      if (!lead && s[k] == ' ' && l.back() == ' ') continue;
      l += s[k];
    }
    const size_t b = l.find_first_not_of(' ');
    if (b != std::string::npos && l.substr(b) == "BlockVirtual") l = l.substr(b);
    out.push_back(l);
    at = e + 1;
  }
  return out;
}

// Lets seek entries name any element.
void NameAny(Gen& g, El* e) {
  static const std::vector<uint32_t> ids = [] {
    std::vector<uint32_t> v;
    for (auto& x : ebml::SchemaTable()) v.push_back(x.first);
    return v;
  }();
  if (e->id == ebml::kSeekID && !e->body.empty() && g.p(70)) {
    e->u = g.p(90) ? g.pick(ids) : (uint32_t)g.u(0x81, 0xFE);
    e->body.clear();
    ebml::PutUintN(&e->body, e->u, g.b() ? 4 : ebml::IdLength((uint32_t)e->u));
  }
  for (auto& k : e->kids) NameAny(g, &k);
}

void Run(Gen& g, Ctx& c, bool damaged) {
  docgen::Options o;
  o.density = (unsigned)g.pick({20, 35, 60, 90});
  if (g.p(5)) o.wide = 1;
  docgen::Doc d = docgen::Generate(g, c, o);
  if (!damaged || g.b()) {
    webmdump::Normalize(g, &d.ebml, 1, false, false);
    webmdump::Normalize(g, &d.segment, 1, false, g.p(40));
  }
  NameAny(g, &d.segment);
  Bytes data;
  uint64_t pos = 0;
  pos += docgen::Layout(&d.ebml, pos);
  docgen::Serialize(d.ebml, &data);
  docgen::Layout(&d.segment, pos);
  docgen::Serialize(d.segment, &data);
  c.desc << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  if (damaged) {
    if (g.b()) data.resize((size_t)g.u(0, data.size()));
    else docgen::Mutate(g, &data);
  }
  Expect want;
  webm::BufferReader reader(data);
  webm::WebmParser parser;
  const Status status = parser.Feed(&want, &reader);
  c.label(status.completed_ok() ? "complete" : "error");
  if (!damaged) c.check(status.completed_ok(), "a well-formed document is refused");
  apps::Cleanup files;
  const std::string in = files.add(pbt::ScratchPath("in.webm")), out = files.add(pbt::ScratchPath("out"));
  apps::WriteFile(in, data);
  const int rc = apps::Run(demo_main, {"demo", in}, out);
  std::string text;
  c.check(apps::ReadFile(out, &text), "no output");
  pbt::CheckEq(c, rc, status.completed_ok() ? 0 : 1, "exit status");
  const auto a = Lines(text), b = Lines(want.text);
  for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) {
    const std::string x = k < a.size() ? "'" + a[k] + "'" : "the end";
    const std::string y = k < b.size() ? "'" + b[k] + "'" : "the end";
    if (x != y) c.fail("line " + std::to_string(k + 1) + " is " + x + ", want " + y);
  }
  if (want.entries >= 5) c.nontrivial();
}

void Whole(Gen& g, Ctx& c) { Run(g, c, false); }
void Damaged(Gen& g, Ctx& c) { Run(g, c, true); }

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C26";
  p.level = "exploration";
  p.rule =
      "A case is a generated document (suite damaged: cut or mutated) given to the "
      "webm_parser demo; its output is compared line by line with the text made "
      "from the callbacks of the parser (which C15 judges). Non-trivial: at least 5 "
      "elements with an entry of their own.";
  p.suites = {{"whole", Whole, 40000, 1500000, true},
              {"damaged", Damaged, 25000, 800000, true}};
  p.assumptions = {"runs of blanks within a line are not compared",
                   "the callbacks of the parser are right (C15)"};
  return pbt::Main(argc, argv, p);
}
