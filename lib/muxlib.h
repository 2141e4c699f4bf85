// Scenario generator, runner and reference decoding for the muxer checks.
#ifndef VERIF_MUXLIB_H_
#define VERIF_MUXLIB_H_

#include <functional>
#include <memory>

#include "ebml.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"
#include "pbt.h"

namespace muxlib {

using ebml::Bytes;
using ebml::Node;
using pbt::Ctx;
using pbt::Gen;

// In-memory writer with fault injection and protocol monitoring.
class MemWriter : public mkvmuxer::IMkvWriter {
 public:
  explicit MemWriter(bool seekable) : seekable_(seekable) {}
  mkvmuxer::int32 Write(const void* buf, mkvmuxer::uint32 len) override {
    if (Fault()) return fail_code;
    if (pos_ < (int64_t)data.size()) overwrote = true;
    if (pos_ + (int64_t)len > (int64_t)data.size()) data.resize(pos_ + len);
    if (len) memcpy(&data[pos_], buf, len);
    pos_ += len;
    ++writes;
    return 0;
  }
  mkvmuxer::int64 Position() const override { return pos_; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override {
    if (Fault()) return fail_code;
    ++seeks;
    if (!seekable_) {
      seek_on_non_seekable = true;
      return -1;
    }
    if (p < 0 || p > (int64_t)data.size()) {
      bad_seek = true;
      return -1;
    }
    pos_ = p;
    return 0;
  }
  bool Seekable() const override { return seekable_; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) override {
    notes.push_back({id, p});
  }

  Bytes data;
  uint64_t ops = 0, writes = 0, seeks = 0;
  uint64_t fail_at = UINT64_MAX;  // index of the first failing operation
  bool fail_forever = false;
  mkvmuxer::int32 fail_code = -1;
  bool faulted = false;
  bool seek_on_non_seekable = false, bad_seek = false, overwrote = false;
  std::vector<std::pair<uint64_t, int64_t>> notes;

 private:
  bool Fault() {
    uint64_t k = ops++;
    if (k == fail_at || (fail_forever && k > fail_at && fail_at != UINT64_MAX)) {
      faulted = true;
      return true;
    }
    return false;
  }
  bool seekable_;
  int64_t pos_ = 0;
};

// Reader over memory for mkvparser.
class MemReader : public mkvparser::IMkvReader {
 public:
  explicit MemReader(const Bytes& d, const ebml::Hole& hole = ebml::Hole())
      : d_(d), hole_(hole), avail_(hole.FileSize(d)) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    ++reads;
    if (pos < 0 || len < 0) return -1;
    if (len == 0) return 0;
    if (pos >= (long long)avail_ || len > (long long)avail_ - pos) return -1;
    hole_.Copy(d_, pos, len, buf);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (total) *total = hole_.FileSize(d_);
    if (available) *available = avail_;
    return 0;
  }
  void set_available(size_t n) { avail_ = n; }
  size_t available() const { return avail_; }
  uint64_t reads = 0;

 private:
  const Bytes& d_;
  const ebml::Hole hole_;
  size_t avail_;
};

struct TrackSpec {
  int kind = 0;  // 0 video, 1 audio, 2 generic
  uint64_t type = 1;
  int32_t req_number = 0;
  uint64_t number = 0;  // as assigned
  std::string codec;
  Bytes codec_private;
  uint64_t default_duration = 0, codec_delay = 0, seek_pre_roll = 0;
  int width = 0, height = 0, rate = 0, channels = 0;
  bool is_video() const { return type == 1; }
  bool is_audio() const { return type == 2; }
};

enum FrameKind { kPlain, kAdditional, kDiscard, kMetadata, kGeneric };

struct FrameOp {
  bool force_cluster = false;  // a ForceNewClusterOnNextFrame() call
  FrameKind kind = kPlain;
  size_t track = 0;  // index
  uint64_t ts = 0;   // ns
  bool key = true;
  Bytes data;
  Bytes additional;
  uint64_t add_id = 0;
  int64_t discard = 0;
  uint64_t duration = 0;
  bool set_ref = false;
  int64_t ref = 0;
  // outcome
  bool accepted = false;
};

struct Scenario {
  bool live = false;
  bool seekable = true;
  uint64_t scale = 1000000;
  uint64_t max_cluster_duration = 30000000000ull;
  uint64_t max_cluster_size = 0;
  bool output_cues = true;
  bool output_block_number = true;
  bool accurate = false;
  bool fixed_timecode = false;
  bool estimate_duration = false;
  double duration = 0;
  int cues_track = -1;  // index or -1
  int chapters = 0, tags = 0;
  bool auto_uid = false;
  bool has_date = false;
  int64_t date = 0;
  std::vector<TrackSpec> tracks;
  std::vector<FrameOp> ops;
  bool has_video() const {
    for (auto& t : tracks)
      if (t.kind == 0) return true;
    return false;
  }
};

struct GenOptions {
  bool allow_live = true;
  bool allow_non_seekable = true;
  bool force_file = false;
  unsigned max_frames = 40;
  bool allow_accurate = true;
  bool big_gaps = true;
  bool dense = false;  // all timecodes within the range of one cluster
  bool allow_chapters_and_tags = true;
  bool tiny = false;  // small scenarios for fault enumeration
  bool big = false;   // few frames, of lengths around the size classes
  bool auto_uid = false;  // sometimes leave the track UIDs to the muxer
  bool long_history = false;  // max_frames/4..max_frames frames, up to 20 tracks
};

Scenario GenScenario(Gen& g, Ctx& c, const GenOptions& o);
std::string Describe(const Scenario& s);

// Configures a segment: settings and tracks.  False if the library refuses.
bool Configure(mkvmuxer::Segment* seg, Scenario* s);
bool AddOne(mkvmuxer::Segment* seg, const Scenario& s, FrameOp* op);

// Full run with a writer. Returns false when a call failed; op.accepted says
// which.
struct RunResult {
  bool init = false, configured = false, finalized = false;
  size_t rejected = 0;
  bool all_ok() const { return init && configured && finalized && !rejected; }
};
RunResult RunScenario(Scenario* s, mkvmuxer::IMkvWriter* w,
                      mkvmuxer::Segment* seg, bool stop_on_error = false);

// One block as found in the file by the reference decoder.
struct FoundBlock {
  size_t cluster = 0;         // index
  uint64_t index = 0;         // 1-based in cluster
  uint64_t cluster_tc = 0;
  uint64_t pos = 0;           // absolute position of the element
  bool simple = false;
  uint64_t track = 0;
  int rel = 0;
  uint64_t tc = 0;            // absolute, unscaled
  bool key = false;
  Bytes data;
  bool has_duration = false;
  uint64_t duration = 0;      // unscaled
  bool has_discard = false;
  int64_t discard = 0;
  bool has_additional = false;
  Bytes additional;
  uint64_t add_id = 1;
  bool has_ref = false;
  uint64_t ref_unsigned = 0;  // ReferenceBlock read either way
  int64_t ref_signed = 0;
};

struct FoundFile {
  std::vector<Node> top;
  const Node* segment = nullptr;
  std::vector<const Node*> clusters;
  std::vector<FoundBlock> blocks;
};
// Decodes with the reference decoder; fails the case if the file is malformed.
void DecodeFile(Ctx& c, const Bytes& d, FoundFile* f);
std::string DescribeBlock(const FoundBlock& b);

}  // namespace muxlib

#endif  // VERIF_MUXLIB_H_
