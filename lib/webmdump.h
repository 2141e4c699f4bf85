// webm_parser harness: an event recorder, a chunked reader, and a reference
// model that computes the expected events from an element tree.
#ifndef VERIF_WEBMDUMP_H_
#define VERIF_WEBMDUMP_H_

#include <set>
#include <string>
#include <vector>

#include "docgen.h"
#include "webm/callback.h"
#include "webm/reader.h"
#include "webm/status.h"
#include "webm/webm_parser.h"

namespace webmdump {

using docgen::Bytes;
using docgen::El;

// Which events are answered with Action::kSkip: a pure function of the event,
// so that recorder and model agree and chunking does not matter.
struct Policy {
  uint64_t seed = 0;
  unsigned pct = 0;
  // kind: 0 element, 1 segment, 2 cluster, 3 simple block, 4 group, 5 block
  bool Skip(int kind, uint64_t pos, uint32_t id) const {
    if (!pct) return false;
    return pbt::Mix(seed ^ pbt::Mix(pos * 8 + kind) ^ pbt::Mix(id)) % 100 < pct;
  }
};

struct Thrown {};  // what an interrupting callback throws

// Interruptions: how often a callback or the reader does not complete.
struct Disturb {
  uint64_t state = 0;
  unsigned callback_pct = 0;  // callbacks that ask to be called again
  unsigned reader_pct = 0;    // reads that return no data
  unsigned partial_pct = 0;   // short reads
  bool exceptions = false;
  uint64_t Next() { return state = pbt::Mix(state + 1); }
  bool Hit(unsigned pct) { return pct && Next() % 100 < pct; }
};

class ChunkReader : public webm::Reader {
 public:
  ChunkReader(const Bytes& d, Disturb* x) : d_(d), x_(x) {}
  webm::Status Read(std::size_t n, std::uint8_t* buffer,
                    std::uint64_t* got) override;
  webm::Status Skip(std::uint64_t n, std::uint64_t* got) override;
  std::uint64_t Position() const override { return pos_; }
  void Seek(uint64_t p) { pos_ = p; }
  uint64_t calls = 0;
  std::string error;  // contract violations by the parser

 private:
  webm::Status Take(std::uint64_t n, std::uint8_t* buffer, std::uint64_t* got);
  const Bytes& d_;
  Disturb* x_;
  uint64_t pos_ = 0;
  bool last_blocked_ = false;
};

class Recorder : public webm::Callback {
 public:
  explicit Recorder(const Policy& p, Disturb* x) : p_(p), x_(x) {}

  std::vector<std::string> log;
  std::string error;  // contract violations by the parser
  uint64_t interrupts = 0;
  uint64_t events = 0;

  webm::Status OnElementBegin(const webm::ElementMetadata& m,
                              webm::Action* a) override;
  webm::Status OnUnknownElement(const webm::ElementMetadata& m,
                                webm::Reader* r, std::uint64_t* n) override;
  webm::Status OnEbml(const webm::ElementMetadata& m,
                      const webm::Ebml& v) override;
  webm::Status OnVoid(const webm::ElementMetadata& m, webm::Reader* r,
                      std::uint64_t* n) override;
  webm::Status OnSegmentBegin(const webm::ElementMetadata& m,
                              webm::Action* a) override;
  webm::Status OnSeek(const webm::ElementMetadata& m,
                      const webm::Seek& v) override;
  webm::Status OnInfo(const webm::ElementMetadata& m,
                      const webm::Info& v) override;
  webm::Status OnClusterBegin(const webm::ElementMetadata& m,
                              const webm::Cluster& v,
                              webm::Action* a) override;
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata& m,
                                  const webm::SimpleBlock& v,
                                  webm::Action* a) override;
  webm::Status OnSimpleBlockEnd(const webm::ElementMetadata& m,
                                const webm::SimpleBlock& v) override;
  webm::Status OnBlockGroupBegin(const webm::ElementMetadata& m,
                                 webm::Action* a) override;
  webm::Status OnBlockBegin(const webm::ElementMetadata& m,
                            const webm::Block& v, webm::Action* a) override;
  webm::Status OnBlockEnd(const webm::ElementMetadata& m,
                          const webm::Block& v) override;
  webm::Status OnBlockGroupEnd(const webm::ElementMetadata& m,
                               const webm::BlockGroup& v) override;
  webm::Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r,
                       std::uint64_t* n) override;
  webm::Status OnClusterEnd(const webm::ElementMetadata& m,
                            const webm::Cluster& v) override;
  webm::Status OnTrackEntry(const webm::ElementMetadata& m,
                            const webm::TrackEntry& v) override;
  webm::Status OnCuePoint(const webm::ElementMetadata& m,
                          const webm::CuePoint& v) override;
  webm::Status OnEditionEntry(const webm::ElementMetadata& m,
                              const webm::EditionEntry& v) override;
  webm::Status OnTag(const webm::ElementMetadata& m,
                     const webm::Tag& v) override;
  webm::Status OnSegmentEnd(const webm::ElementMetadata& m) override;

 private:
  webm::Status Event(const std::string& line);
  webm::Status ActionEvent(const std::string& line, bool skip, webm::Action* a);
  // Data-consuming callbacks: reads in pieces, logs once all is consumed.
  webm::Status Data(const std::string& key, webm::Reader* r, std::uint64_t* n);
  // Non-zero: return this status now.
  int Interrupt(const std::string& key);
  Policy p_;
  Disturb* x_;
  std::string pending_;     // interrupted event: must come again
  unsigned repeats_ = 0;
  std::string data_key_;
  Bytes data_;
  uint64_t data_left_ = 0;
};

struct RunResult {
  std::vector<std::string> log;
  int status = 0;       // final Feed status
  uint64_t pos = 0;     // reader position at the end
  std::string error;    // contract violation observed
  uint64_t feeds = 0;
  uint64_t interrupts = 0;
};

// Parses until completion or a final error; resumes after interruptions.
// seek >= 0: the reader starts there and DidSeek() is called.
RunResult Run(const Bytes& d, const Policy& p, Disturb x, int64_t seek = -1);
// The hole in the files parsed (see ebml::Hole).
extern ebml::Hole g_hole;

// --- reference model ---

// Is id a child that webm_parser models in this parent (1: document level)?
bool KnownChild(uint32_t parent, uint32_t id);
// The events of these document-level elements (laid out).
std::vector<std::string> Expect(const std::vector<El>& top, const Policy& p);
// The same after a seek to the element at `path` (indices from document level).
std::vector<std::string> ExpectAfterSeek(const std::vector<El>& top,
                                         const std::vector<size_t>& path,
                                         const Policy& p);

// Shapes a generated document so that its meaning is unambiguous for a parser
// that does not know every Matroska element: see the .cc file.
void Normalize(pbt::Gen& g, El* e, uint32_t parent, bool strict,
               bool unknown_masters);

std::string Diff(const std::vector<std::string>& got,
                 const std::vector<std::string>& want);

}  // namespace webmdump

#endif  // VERIF_WEBMDUMP_H_
