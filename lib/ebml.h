// Independent EBML / Matroska reference code used as oracle and as generator
// back end.  Nothing here comes from the library under test.
#ifndef VERIF_EBML_H_
#define VERIF_EBML_H_

#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ebml {

typedef std::vector<uint8_t> Bytes;

// Element types.
enum Type { kMaster, kUint, kInt, kFloat, kString, kUtf8, kBinary, kDate };

struct Schema {
  uint32_t id;
  Type type;
  const char* name;
  uint32_t parent;  // 0: anywhere (Void), 1: document level
};

const std::map<uint32_t, Schema>& SchemaTable();
inline const Schema* Lookup(uint32_t id) {
  auto it = SchemaTable().find(id);
  return it == SchemaTable().end() ? nullptr : &it->second;
}
const uint64_t kUnknown = UINT64_MAX;

// ---- reference encoder ----
int IdLength(uint32_t id);
void PutId(Bytes* out, uint32_t id);
// Shortest length for a known size.
int MinSizeLength(uint64_t size);
// len 0: shortest. size kUnknown: all ones of the length (default 1).
void PutSize(Bytes* out, uint64_t size, int len = 0);
void PutUintN(Bytes* out, uint64_t v, int n);
int MinUintLength(uint64_t v);  // at least 1
int MinIntLength(int64_t v);    // at least 1
inline void Append(Bytes* out, const Bytes& b) {
  out->insert(out->end(), b.begin(), b.end());
}
// An element with the given body.
Bytes Element(uint32_t id, const Bytes& body, int size_len = 0);
Bytes UintElement(uint32_t id, uint64_t v);
Bytes IntElement(uint32_t id, int64_t v);
Bytes Float4(uint32_t id, float v);
Bytes Float8(uint32_t id, double v);
Bytes StrElement(uint32_t id, const std::string& s);
Bytes VoidElement(uint64_t total_size);

// ---- strict reference decoder ----
struct Node {
  uint32_t id = 0;
  uint64_t pos = 0;          // first byte of the ID
  uint64_t header_size = 0;  // ID + size field
  uint64_t size = 0;         // body size (real extent, even when unknown)
  int size_len = 0;
  bool unknown = false;
  std::vector<Node> kids;

  uint64_t body() const { return pos + header_size; }
  uint64_t end() const { return pos + header_size + size; }
  const Node* child(uint32_t cid) const {
    for (const Node& k : kids)
      if (k.id == cid) return &k;
    return nullptr;
  }
  std::vector<const Node*> children(uint32_t cid) const {
    std::vector<const Node*> v;
    for (const Node& k : kids)
      if (k.id == cid) v.push_back(&k);
    return v;
  }
};

// A run of zero bytes of the file that is not kept in memory: the file is
// |d| with |len| zeros inserted at |at|.
struct Hole {
  uint64_t at = UINT64_MAX, len = 0;
  uint64_t FileSize(const Bytes& d) const { return d.size() + len; }
  // Copies file bytes [pos, pos + n); they must exist.
  void Copy(const Bytes& d, uint64_t pos, uint64_t n, uint8_t* out) const {
    while (n > 0) {
      uint64_t take = n;
      if (pos < at) {
        take = at - pos < n ? at - pos : n;
        memcpy(out, d.data() + pos, take);
      } else if (pos < at + len) {
        take = at + len - pos < n ? at + len - pos : n;
        memset(out, 0, take);
      } else {
        memcpy(out, d.data() + (pos - len), take);
      }
      out += take;
      pos += take;
      n -= take;
    }
  }
};

// Reads a variable length id / size at *pos; false when malformed.
bool GetId(const Bytes& d, uint64_t* pos, uint64_t end, uint32_t* id);
bool GetSize(const Bytes& d, uint64_t* pos, uint64_t end, uint64_t* size,
             bool* unknown, int* len);

// Parses the whole document; on error returns false and sets *err.
bool ParseDocument(const Bytes& d, std::vector<Node>* out, std::string* err);

uint64_t GetUint(const Bytes& d, const Node& n);
int64_t GetInt(const Bytes& d, const Node& n);
double GetFloat(const Bytes& d, const Node& n);
std::string GetStr(const Bytes& d, const Node& n);
Bytes GetBin(const Bytes& d, const Node& n);

// A block (SimpleBlock or Block payload) decoded by the reference decoder.
struct RefBlock {
  uint64_t track = 0;
  int16_t timecode = 0;
  uint8_t flags = 0;
  std::vector<Bytes> frames;
  std::vector<uint64_t> frame_pos;  // absolute
};
bool DecodeBlock(const Bytes& d, const Node& n, RefBlock* out,
                 std::string* err);

std::string IdName(uint32_t id);

// IDs used by the harnesses.
enum : uint32_t {
  kEBML = 0x1A45DFA3,
  kEBMLVersion = 0x4286,
  kEBMLReadVersion = 0x42F7,
  kEBMLMaxIDLength = 0x42F2,
  kEBMLMaxSizeLength = 0x42F3,
  kDocType = 0x4282,
  kDocTypeVersion = 0x4287,
  kDocTypeReadVersion = 0x4285,
  kVoid = 0xEC,
  kCrc32 = 0xBF,
  kSegment = 0x18538067,
  kSeekHead = 0x114D9B74,
  kSeek = 0x4DBB,
  kSeekID = 0x53AB,
  kSeekPosition = 0x53AC,
  kInfo = 0x1549A966,
  kTimecodeScale = 0x2AD7B1,
  kDuration = 0x4489,
  kDateUTC = 0x4461,
  kTitle = 0x7BA9,
  kMuxingApp = 0x4D80,
  kWritingApp = 0x5741,
  kCluster = 0x1F43B675,
  kTimecode = 0xE7,
  kPosition = 0xA7,
  kPrevSize = 0xAB,
  kSimpleBlock = 0xA3,
  kBlockGroup = 0xA0,
  kBlock = 0xA1,
  kBlockVirtual = 0xA2,
  kBlockAdditions = 0x75A1,
  kBlockMore = 0xA6,
  kBlockAddID = 0xEE,
  kBlockAdditional = 0xA5,
  kBlockDuration = 0x9B,
  kReferenceBlock = 0xFB,
  kDiscardPadding = 0x75A2,
  kSlices = 0x8E,
  kTimeSlice = 0xE8,
  kLaceNumber = 0xCC,
  kTracks = 0x1654AE6B,
  kTrackEntry = 0xAE,
  kTrackNumber = 0xD7,
  kTrackUID = 0x73C5,
  kTrackType = 0x83,
  kFlagEnabled = 0xB9,
  kFlagDefault = 0x88,
  kFlagForced = 0x55AA,
  kFlagLacing = 0x9C,
  kDefaultDuration = 0x23E383,
  kMaxBlockAdditionID = 0x55EE,
  kName = 0x536E,
  kLanguage = 0x22B59C,
  kCodecID = 0x86,
  kCodecPrivate = 0x63A2,
  kCodecName = 0x258688,
  kCodecDelay = 0x56AA,
  kSeekPreRoll = 0x56BB,
  kVideo = 0xE0,
  kFlagInterlaced = 0x9A,
  kStereoMode = 0x53B8,
  kAlphaMode = 0x53C0,
  kPixelWidth = 0xB0,
  kPixelHeight = 0xBA,
  kPixelCropBottom = 0x54AA,
  kPixelCropTop = 0x54BB,
  kPixelCropLeft = 0x54CC,
  kPixelCropRight = 0x54DD,
  kDisplayWidth = 0x54B0,
  kDisplayHeight = 0x54BA,
  kDisplayUnit = 0x54B2,
  kAspectRatioType = 0x54B3,
  kColourSpace = 0x2EB524,
  kFrameRate = 0x2383E3,
  kColour = 0x55B0,
  kMatrixCoefficients = 0x55B1,
  kBitsPerChannel = 0x55B2,
  kChromaSubsamplingHorz = 0x55B3,
  kChromaSubsamplingVert = 0x55B4,
  kCbSubsamplingHorz = 0x55B5,
  kCbSubsamplingVert = 0x55B6,
  kChromaSitingHorz = 0x55B7,
  kChromaSitingVert = 0x55B8,
  kRange = 0x55B9,
  kTransferCharacteristics = 0x55BA,
  kPrimaries = 0x55BB,
  kMaxCLL = 0x55BC,
  kMaxFALL = 0x55BD,
  kMasteringMetadata = 0x55D0,
  kPrimaryRChromaticityX = 0x55D1,
  kPrimaryRChromaticityY = 0x55D2,
  kPrimaryGChromaticityX = 0x55D3,
  kPrimaryGChromaticityY = 0x55D4,
  kPrimaryBChromaticityX = 0x55D5,
  kPrimaryBChromaticityY = 0x55D6,
  kWhitePointChromaticityX = 0x55D7,
  kWhitePointChromaticityY = 0x55D8,
  kLuminanceMax = 0x55D9,
  kLuminanceMin = 0x55DA,
  kProjection = 0x7670,
  kProjectionType = 0x7671,
  kProjectionPrivate = 0x7672,
  kProjectionPoseYaw = 0x7673,
  kProjectionPosePitch = 0x7674,
  kProjectionPoseRoll = 0x7675,
  kAudio = 0xE1,
  kSamplingFrequency = 0xB5,
  kOutputSamplingFrequency = 0x78B5,
  kChannels = 0x9F,
  kBitDepth = 0x6264,
  kContentEncodings = 0x6D80,
  kContentEncoding = 0x6240,
  kContentEncodingOrder = 0x5031,
  kContentEncodingScope = 0x5032,
  kContentEncodingType = 0x5033,
  kContentCompression = 0x5034,
  kContentCompAlgo = 0x4254,
  kContentCompSettings = 0x4255,
  kContentEncryption = 0x5035,
  kContentEncAlgo = 0x47E1,
  kContentEncKeyID = 0x47E2,
  kContentSignature = 0x47E3,
  kContentSigKeyID = 0x47E4,
  kContentSigAlgo = 0x47E5,
  kContentSigHashAlgo = 0x47E6,
  kContentEncAESSettings = 0x47E7,
  kAESSettingsCipherMode = 0x47E8,
  kCues = 0x1C53BB6B,
  kCuePoint = 0xBB,
  kCueTime = 0xB3,
  kCueTrackPositions = 0xB7,
  kCueTrack = 0xF7,
  kCueClusterPosition = 0xF1,
  kCueRelativePosition = 0xF0,
  kCueDuration = 0xB2,
  kCueBlockNumber = 0x5378,
  kChapters = 0x1043A770,
  kEditionEntry = 0x45B9,
  kChapterAtom = 0xB6,
  kChapterUID = 0x73C4,
  kChapterStringUID = 0x5654,
  kChapterTimeStart = 0x91,
  kChapterTimeEnd = 0x92,
  kChapterDisplay = 0x80,
  kChapString = 0x85,
  kChapLanguage = 0x437C,
  kChapCountry = 0x437E,
  kTags = 0x1254C367,
  kTag = 0x7373,
  kTargets = 0x63C0,
  kTargetTypeValue = 0x68CA,
  kTargetType = 0x63CA,
  kTagTrackUID = 0x63C5,
  kSimpleTag = 0x67C8,
  kTagName = 0x45A3,
  kTagLanguage = 0x447A,
  kTagDefault = 0x4484,
  kTagString = 0x4487,
  kTagBinary = 0x4485,
};

}  // namespace ebml

#endif  // VERIF_EBML_H_
