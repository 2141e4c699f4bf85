#include "ebml.h"

namespace ebml {

const std::map<uint32_t, Schema>& SchemaTable() {
  static const std::map<uint32_t, Schema>* table = [] {
    static const Schema rows[] = {
#define E(id, type, parent) {k##id, type, #id, parent}
        E(EBML, kMaster, 1),
        E(EBMLVersion, kUint, kEBML),
        E(EBMLReadVersion, kUint, kEBML),
        E(EBMLMaxIDLength, kUint, kEBML),
        E(EBMLMaxSizeLength, kUint, kEBML),
        E(DocType, kString, kEBML),
        E(DocTypeVersion, kUint, kEBML),
        E(DocTypeReadVersion, kUint, kEBML),
        E(Void, kBinary, 0),
        E(Crc32, kBinary, 0),
        E(Segment, kMaster, 1),
        E(SeekHead, kMaster, kSegment),
        E(Seek, kMaster, kSeekHead),
        E(SeekID, kBinary, kSeek),
        E(SeekPosition, kUint, kSeek),
        E(Info, kMaster, kSegment),
        E(TimecodeScale, kUint, kInfo),
        E(Duration, kFloat, kInfo),
        E(DateUTC, kDate, kInfo),
        E(Title, kUtf8, kInfo),
        E(MuxingApp, kUtf8, kInfo),
        E(WritingApp, kUtf8, kInfo),
        E(Cluster, kMaster, kSegment),
        E(Timecode, kUint, kCluster),
        E(Position, kUint, kCluster),
        E(PrevSize, kUint, kCluster),
        E(SimpleBlock, kBinary, kCluster),
        E(BlockGroup, kMaster, kCluster),
        E(Block, kBinary, kBlockGroup),
        E(BlockVirtual, kBinary, kBlockGroup),
        E(BlockAdditions, kMaster, kBlockGroup),
        E(BlockMore, kMaster, kBlockAdditions),
        E(BlockAddID, kUint, kBlockMore),
        E(BlockAdditional, kBinary, kBlockMore),
        E(BlockDuration, kUint, kBlockGroup),
        E(ReferenceBlock, kInt, kBlockGroup),
        E(DiscardPadding, kInt, kBlockGroup),
        E(Slices, kMaster, kBlockGroup),
        E(TimeSlice, kMaster, kSlices),
        E(LaceNumber, kUint, kTimeSlice),
        E(Tracks, kMaster, kSegment),
        E(TrackEntry, kMaster, kTracks),
        E(TrackNumber, kUint, kTrackEntry),
        E(TrackUID, kUint, kTrackEntry),
        E(TrackType, kUint, kTrackEntry),
        E(FlagEnabled, kUint, kTrackEntry),
        E(FlagDefault, kUint, kTrackEntry),
        E(FlagForced, kUint, kTrackEntry),
        E(FlagLacing, kUint, kTrackEntry),
        E(DefaultDuration, kUint, kTrackEntry),
        E(MaxBlockAdditionID, kUint, kTrackEntry),
        E(Name, kUtf8, kTrackEntry),
        E(Language, kString, kTrackEntry),
        E(CodecID, kString, kTrackEntry),
        E(CodecPrivate, kBinary, kTrackEntry),
        E(CodecName, kUtf8, kTrackEntry),
        E(CodecDelay, kUint, kTrackEntry),
        E(SeekPreRoll, kUint, kTrackEntry),
        E(Video, kMaster, kTrackEntry),
        E(FlagInterlaced, kUint, kVideo),
        E(StereoMode, kUint, kVideo),
        E(AlphaMode, kUint, kVideo),
        E(PixelWidth, kUint, kVideo),
        E(PixelHeight, kUint, kVideo),
        E(PixelCropBottom, kUint, kVideo),
        E(PixelCropTop, kUint, kVideo),
        E(PixelCropLeft, kUint, kVideo),
        E(PixelCropRight, kUint, kVideo),
        E(DisplayWidth, kUint, kVideo),
        E(DisplayHeight, kUint, kVideo),
        E(DisplayUnit, kUint, kVideo),
        E(AspectRatioType, kUint, kVideo),
        E(ColourSpace, kBinary, kVideo),
        E(FrameRate, kFloat, kVideo),
        E(Colour, kMaster, kVideo),
        E(MatrixCoefficients, kUint, kColour),
        E(BitsPerChannel, kUint, kColour),
        E(ChromaSubsamplingHorz, kUint, kColour),
        E(ChromaSubsamplingVert, kUint, kColour),
        E(CbSubsamplingHorz, kUint, kColour),
        E(CbSubsamplingVert, kUint, kColour),
        E(ChromaSitingHorz, kUint, kColour),
        E(ChromaSitingVert, kUint, kColour),
        E(Range, kUint, kColour),
        E(TransferCharacteristics, kUint, kColour),
        E(Primaries, kUint, kColour),
        E(MaxCLL, kUint, kColour),
        E(MaxFALL, kUint, kColour),
        E(MasteringMetadata, kMaster, kColour),
        E(PrimaryRChromaticityX, kFloat, kMasteringMetadata),
        E(PrimaryRChromaticityY, kFloat, kMasteringMetadata),
        E(PrimaryGChromaticityX, kFloat, kMasteringMetadata),
        E(PrimaryGChromaticityY, kFloat, kMasteringMetadata),
        E(PrimaryBChromaticityX, kFloat, kMasteringMetadata),
        E(PrimaryBChromaticityY, kFloat, kMasteringMetadata),
        E(WhitePointChromaticityX, kFloat, kMasteringMetadata),
        E(WhitePointChromaticityY, kFloat, kMasteringMetadata),
        E(LuminanceMax, kFloat, kMasteringMetadata),
        E(LuminanceMin, kFloat, kMasteringMetadata),
        E(Projection, kMaster, kVideo),
        E(ProjectionType, kUint, kProjection),
        E(ProjectionPrivate, kBinary, kProjection),
        E(ProjectionPoseYaw, kFloat, kProjection),
        E(ProjectionPosePitch, kFloat, kProjection),
        E(ProjectionPoseRoll, kFloat, kProjection),
        E(Audio, kMaster, kTrackEntry),
        E(SamplingFrequency, kFloat, kAudio),
        E(OutputSamplingFrequency, kFloat, kAudio),
        E(Channels, kUint, kAudio),
        E(BitDepth, kUint, kAudio),
        E(ContentEncodings, kMaster, kTrackEntry),
        E(ContentEncoding, kMaster, kContentEncodings),
        E(ContentEncodingOrder, kUint, kContentEncoding),
        E(ContentEncodingScope, kUint, kContentEncoding),
        E(ContentEncodingType, kUint, kContentEncoding),
        E(ContentCompression, kMaster, kContentEncoding),
        E(ContentCompAlgo, kUint, kContentCompression),
        E(ContentCompSettings, kBinary, kContentCompression),
        E(ContentEncryption, kMaster, kContentEncoding),
        E(ContentEncAlgo, kUint, kContentEncryption),
        E(ContentEncKeyID, kBinary, kContentEncryption),
        E(ContentSignature, kBinary, kContentEncryption),
        E(ContentSigKeyID, kBinary, kContentEncryption),
        E(ContentSigAlgo, kUint, kContentEncryption),
        E(ContentSigHashAlgo, kUint, kContentEncryption),
        E(ContentEncAESSettings, kMaster, kContentEncryption),
        E(AESSettingsCipherMode, kUint, kContentEncAESSettings),
        E(Cues, kMaster, kSegment),
        E(CuePoint, kMaster, kCues),
        E(CueTime, kUint, kCuePoint),
        E(CueTrackPositions, kMaster, kCuePoint),
        E(CueTrack, kUint, kCueTrackPositions),
        E(CueClusterPosition, kUint, kCueTrackPositions),
        E(CueRelativePosition, kUint, kCueTrackPositions),
        E(CueDuration, kUint, kCueTrackPositions),
        E(CueBlockNumber, kUint, kCueTrackPositions),
        E(Chapters, kMaster, kSegment),
        E(EditionEntry, kMaster, kChapters),
        E(ChapterAtom, kMaster, kEditionEntry),
        E(ChapterUID, kUint, kChapterAtom),
        E(ChapterStringUID, kUtf8, kChapterAtom),
        E(ChapterTimeStart, kUint, kChapterAtom),
        E(ChapterTimeEnd, kUint, kChapterAtom),
        E(ChapterDisplay, kMaster, kChapterAtom),
        E(ChapString, kUtf8, kChapterDisplay),
        E(ChapLanguage, kString, kChapterDisplay),
        E(ChapCountry, kString, kChapterDisplay),
        E(Tags, kMaster, kSegment),
        E(Tag, kMaster, kTags),
        E(Targets, kMaster, kTag),
        E(TargetTypeValue, kUint, kTargets),
        E(TargetType, kString, kTargets),
        E(TagTrackUID, kUint, kTargets),
        E(SimpleTag, kMaster, kTag),
        E(TagName, kUtf8, kSimpleTag),
        E(TagLanguage, kString, kSimpleTag),
        E(TagDefault, kUint, kSimpleTag),
        E(TagString, kUtf8, kSimpleTag),
        E(TagBinary, kBinary, kSimpleTag),
#undef E
    };
    auto* m = new std::map<uint32_t, Schema>;
    for (const Schema& s : rows) (*m)[s.id] = s;
    return m;
  }();
  return *table;
}

std::string IdName(uint32_t id) {
  const Schema* s = Lookup(id);
  if (s) return s->name;
  char buf[16];
  snprintf(buf, sizeof(buf), "0x%X", id);
  return buf;
}

int IdLength(uint32_t id) {
  return id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1;
}

void PutUintN(Bytes* out, uint64_t v, int n) {
  for (int k = n - 1; k >= 0; --k) out->push_back((uint8_t)(v >> (8 * k)));
}

void PutId(Bytes* out, uint32_t id) { PutUintN(out, id, IdLength(id)); }

int MinSizeLength(uint64_t size) {
  for (int len = 1; len <= 8; ++len)
    if (size < (1ull << (7 * len)) - 1) return len;
  return 9;
}

void PutSize(Bytes* out, uint64_t size, int len) {
  if (size == kUnknown) {
    if (len == 0) len = 1;
    PutUintN(out, (1ull << (7 * len)) - 1 + (1ull << (7 * len)), len);
    return;
  }
  if (len == 0) len = MinSizeLength(size);
  PutUintN(out, size | (1ull << (7 * len)), len);
}

int MinUintLength(uint64_t v) {
  int n = 1;
  while (n < 8 && (v >> (8 * n)) != 0) ++n;
  return n;
}

int MinIntLength(int64_t v) {
  for (int n = 1; n < 8; ++n) {
    int64_t lo = -(1ll << (8 * n - 1)), hi = (1ll << (8 * n - 1)) - 1;
    if (v >= lo && v <= hi) return n;
  }
  return 8;
}

Bytes Element(uint32_t id, const Bytes& body, int size_len) {
  Bytes out;
  PutId(&out, id);
  PutSize(&out, body.size(), size_len);
  Append(&out, body);
  return out;
}

Bytes UintElement(uint32_t id, uint64_t v) {
  Bytes b;
  PutUintN(&b, v, MinUintLength(v));
  return Element(id, b);
}

Bytes IntElement(uint32_t id, int64_t v) {
  Bytes b;
  PutUintN(&b, (uint64_t)v, MinIntLength(v));
  return Element(id, b);
}

Bytes Float4(uint32_t id, float v) {
  uint32_t x;
  memcpy(&x, &v, 4);
  Bytes b;
  PutUintN(&b, x, 4);
  return Element(id, b);
}

Bytes Float8(uint32_t id, double v) {
  uint64_t x;
  memcpy(&x, &v, 8);
  Bytes b;
  PutUintN(&b, x, 8);
  return Element(id, b);
}

Bytes StrElement(uint32_t id, const std::string& s) {
  return Element(id, Bytes(s.begin(), s.end()));
}

Bytes VoidElement(uint64_t total) {
  // total >= 2
  for (int len = 1; len <= 8; ++len) {
    uint64_t body = total - 1 - len;
    if (total >= (uint64_t)(1 + len) && body < (1ull << (7 * len)) - 1)
      return Element(kVoid, Bytes(body, 0), len);
  }
  return Bytes();
}

bool GetId(const Bytes& d, uint64_t* pos, uint64_t end, uint32_t* id) {
  if (*pos >= end) return false;
  uint8_t b = d[*pos];
  int len = b >= 0x80 ? 1 : b >= 0x40 ? 2 : b >= 0x20 ? 3 : b >= 0x10 ? 4 : 0;
  if (len == 0 || *pos + len > end) return false;
  uint32_t v = 0;
  for (int k = 0; k < len; ++k) v = (v << 8) | d[*pos + k];
  *pos += len;
  *id = v;
  return true;
}

bool GetSize(const Bytes& d, uint64_t* pos, uint64_t end, uint64_t* size,
             bool* unknown, int* plen) {
  if (*pos >= end) return false;
  uint8_t b = d[*pos];
  int len = 1;
  while (len <= 8 && !(b & (0x80 >> (len - 1)))) ++len;
  if (len > 8 || *pos + len > end) return false;
  uint64_t v = b & (0xFF >> len);
  for (int k = 1; k < len; ++k) v = (v << 8) | d[*pos + k];
  *pos += len;
  *unknown = v == (1ull << (7 * len)) - 1;
  *size = v;
  if (plen) *plen = len;
  return true;
}

namespace {

bool IsAncestorOrSame(uint32_t id, uint32_t parent) {
  // Whether an element `id` may directly follow inside `parent`.
  const Schema* s = Lookup(id);
  return s && (s->parent == parent || s->parent == 0);
}

bool ParseLevel(const Bytes& d, uint64_t* pos, uint64_t end, uint32_t parent,
                bool parent_unknown, std::vector<Node>* out,
                std::string* err) {
  while (*pos < end) {
    Node n;
    n.pos = *pos;
    uint64_t p = *pos;
    if (!GetId(d, &p, end, &n.id)) {
      *err = "bad element id at " + std::to_string(*pos) + " in " +
             IdName(parent);
      return false;
    }
    const Schema* s = Lookup(n.id);
    if (!s) {
      *err = "element " + IdName(n.id) + " at " + std::to_string(*pos) +
             " is not a known WebM element";
      return false;
    }
    if (!IsAncestorOrSame(n.id, parent)) {
      if (parent_unknown) return true;  // ends the unknown-sized parent
      *err = "element " + IdName(n.id) + " at " + std::to_string(*pos) +
             " is not allowed inside " + IdName(parent);
      return false;
    }
    uint64_t size;
    if (!GetSize(d, &p, end, &size, &n.unknown, &n.size_len)) {
      *err = "bad size field of " + IdName(n.id) + " at " +
             std::to_string(*pos);
      return false;
    }
    n.header_size = p - n.pos;
    if (!n.unknown && size > end - p) {
      *err = IdName(n.id) + " at " + std::to_string(*pos) + " with size " +
             std::to_string(size) + " runs past the end of its parent " +
             IdName(parent) + " (" + std::to_string(end) + ")";
      return false;
    }
    if (n.unknown && n.id != kSegment && n.id != kCluster) {
      *err = "unknown size on " + IdName(n.id);
      return false;
    }
    if (s->type == kMaster) {
      uint64_t e = n.unknown ? end : p + size;
      if (!ParseLevel(d, &p, e, n.id, n.unknown, &n.kids, err)) return false;
      n.size = n.unknown ? p - n.body() : size;
    } else {
      n.size = size;
    }
    *pos = n.end();
    out->push_back(n);
  }
  return true;
}

}  // namespace

bool ParseDocument(const Bytes& d, std::vector<Node>* out, std::string* err) {
  uint64_t pos = 0;
  return ParseLevel(d, &pos, d.size(), 1, false, out, err);
}

uint64_t GetUint(const Bytes& d, const Node& n) {
  uint64_t v = 0;
  for (uint64_t k = 0; k < n.size; ++k) v = (v << 8) | d[n.body() + k];
  return v;
}
int64_t GetInt(const Bytes& d, const Node& n) {
  if (n.size == 0) return 0;
  uint64_t v = (d[n.body()] & 0x80) ? UINT64_MAX : 0;
  for (uint64_t k = 0; k < n.size; ++k) v = (v << 8) | d[n.body() + k];
  return (int64_t)v;
}
double GetFloat(const Bytes& d, const Node& n) {
  if (n.size == 4) {
    uint32_t v = (uint32_t)GetUint(d, n);
    float f;
    memcpy(&f, &v, 4);
    return f;
  }
  if (n.size == 8) {
    uint64_t v = GetUint(d, n);
    double f;
    memcpy(&f, &v, 8);
    return f;
  }
  return 0;
}
std::string GetStr(const Bytes& d, const Node& n) {
  return std::string(d.begin() + n.body(), d.begin() + n.end());
}
Bytes GetBin(const Bytes& d, const Node& n) {
  return Bytes(d.begin() + n.body(), d.begin() + n.end());
}

bool DecodeBlock(const Bytes& d, const Node& n, RefBlock* out,
                 std::string* err) {
  uint64_t p = n.body(), end = n.end();
  bool unk;
  if (!GetSize(d, &p, end, &out->track, &unk, nullptr) || p + 3 > end) {
    *err = "truncated block header";
    return false;
  }
  out->timecode = (int16_t)((d[p] << 8) | d[p + 1]);
  out->flags = d[p + 2];
  p += 3;
  int lacing = (out->flags >> 1) & 3;
  if (lacing == 0) {
    out->frames.push_back(Bytes(d.begin() + p, d.begin() + end));
    out->frame_pos.push_back(p);
    return true;
  }
  if (p >= end) {
    *err = "no lace count";
    return false;
  }
  int count = d[p++] + 1;
  std::vector<uint64_t> sizes;
  if (lacing == 1) {
    uint64_t sum = 0;
    for (int k = 0; k + 1 < count; ++k) {
      uint64_t sz = 0;
      for (;;) {
        if (p >= end) {
          *err = "truncated lace size";
          return false;
        }
        uint8_t b = d[p++];
        sz += b;
        if (b != 255) break;
      }
      sizes.push_back(sz);
      sum += sz;
    }
    if (sum > end - p) {
      *err = "lace too long";
      return false;
    }
    sizes.push_back(end - p - sum);
  } else if (lacing == 2) {
    if ((end - p) % count) {
      *err = "fixed lace not divisible";
      return false;
    }
    for (int k = 0; k < count; ++k) sizes.push_back((end - p) / count);
  } else {
    uint64_t sum = 0;
    int64_t cur = 0;
    for (int k = 0; k + 1 < count; ++k) {
      uint64_t v;
      int len;
      if (!GetSize(d, &p, end, &v, &unk, &len)) {
        *err = "bad ebml lace size";
        return false;
      }
      if (k == 0)
        cur = (int64_t)v;
      else
        cur += (int64_t)v - ((1ll << (7 * len - 1)) - 1);
      if (cur < 0) {
        *err = "negative lace";
        return false;
      }
      sizes.push_back((uint64_t)cur);
      sum += cur;
    }
    if (sum > end - p) {
      *err = "lace too long";
      return false;
    }
    sizes.push_back(end - p - sum);
  }
  for (uint64_t s : sizes) {
    out->frames.push_back(Bytes(d.begin() + p, d.begin() + p + s));
    out->frame_pos.push_back(p);
    p += s;
  }
  return true;
}

}  // namespace ebml
