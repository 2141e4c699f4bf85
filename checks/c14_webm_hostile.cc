// C14: webm_parser handles arbitrary bytes: no crash, undefined behaviour,
// exception, leak or endless loop; it ends with a documented status that stays;
// and everything it reports on the way lies inside the data and is properly
// nested and contiguous.
#include <new>

#include "pbt.h"
#include "webmdump.h"

using namespace ebml;
using docgen::El;
using pbt::Ctx;
using pbt::Gen;
using pbt::Bytes;
using webm::Action;
using webm::ElementMetadata;
using webm::Status;
using webmdump::Disturb;
using webmdump::Policy;

namespace {

std::string Text(const ElementMetadata& m) {
  return IdName((uint32_t)m.id) + " at " + std::to_string(m.position) +
         " header " + std::to_string(m.header_size) + " size " +
         std::to_string(m.size);
}

// Checks the relations between reported elements.
class Invariants : public webm::Callback {
 public:
  Invariants(const Bytes& d, const Policy& p, webmdump::ChunkReader* r, bool seek)
      : d_(d), p_(p), r_(r), seek_(seek) {}
  std::string error;
  uint64_t events = 0, frames = 0, begins = 0;

  Status OnElementBegin(const ElementMetadata& m, Action* a) override {
    ++events;
    ++begins;
    if (r_->Position() != m.position + m.header_size &&
        !error.size())
      Err("header of " + Text(m) + " ends at " + std::to_string(r_->Position()));
    // The header in the data says the same.
    uint64_t pos = m.position;
    uint32_t id = 0;
    uint64_t size = 0;
    bool unknown = false;
    int len = 0;
    if (!GetId(d_, &pos, d_.size(), &id) ||
        !GetSize(d_, &pos, d_.size(), &size, &unknown, &len))
      Err("no element header in the data for " + Text(m));
    else if (id != (uint32_t)m.id || pos != m.position + m.header_size ||
             (unknown ? m.size != webm::kUnknownElementSize : m.size != size))
      Err("the data has another header than " + Text(m));
    if (have_prev_) {
      const bool at_body = m.position == prev_.position + prev_.header_size;
      const bool known = prev_.size != webm::kUnknownElementSize;
      const bool at_end = known && m.position == prev_.position + prev_.header_size + prev_.size;
      const bool skipped_unknown = prev_skipped_ && !known;
      if (prev_skipped_ && known ? !at_end : !at_body && !at_end && !skipped_unknown)
        Err(Text(m) + " does not follow " + Text(prev_));
    }
    while (!ends_.empty() && ends_.back() <= m.position) ends_.pop_back();
    if (m.size != webm::kUnknownElementSize) {
      const uint64_t end = m.position + m.header_size + m.size;
      if (!ends_.empty() && end > ends_.back())
        Err(Text(m) + " exceeds its parent, which ends at " +
            std::to_string(ends_.back()));
      ends_.push_back(end);
    }
    prev_ = m;
    have_prev_ = true;
    prev_skipped_ = p_.Skip(0, m.position, (uint32_t)m.id);
    *a = prev_skipped_ ? Action::kSkip : Action::kRead;
    return Done();
  }
  Status OnUnknownElement(const ElementMetadata& m, webm::Reader* r,
                          std::uint64_t* n) override {
    Same(m);
    return Consume(m, r, n);
  }
  Status OnVoid(const ElementMetadata& m, webm::Reader* r,
                std::uint64_t* n) override {
    Same(m);
    return Consume(m, r, n);
  }
  Status OnSegmentBegin(const ElementMetadata& m, Action* a) override {
    Same(m);
    Status s = Act(1, m, a);
    if (*a == Action::kSkip) have_prev_ = false;  // silent until its end
    return s;
  }
  Status OnClusterBegin(const ElementMetadata& m, const webm::Cluster&,
                        Action* a) override {
    if (m.id != webm::Id::kCluster) Err("cluster event for " + Text(m));
    Status s = Act(2, m, a);
    if (*a == Action::kSkip) have_prev_ = false;  // no events until after it
    return s;
  }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const webm::SimpleBlock& b,
                            Action* a) override {
    Same(m);
    Block(m, b);
    return Act(3, m, a);
  }
  // Elements reported as a whole: all of their bytes have been read.
#define WHOLE(NAME, TYPE)                                       \
  Status NAME(const ElementMetadata& m, const webm::TYPE&) override { \
    return Whole(m);                                            \
  }
  WHOLE(OnEbml, Ebml)
  WHOLE(OnSeek, Seek)
  WHOLE(OnInfo, Info)
  WHOLE(OnBlockGroupEnd, BlockGroup)
  WHOLE(OnClusterEnd, Cluster)
  WHOLE(OnTrackEntry, TrackEntry)
  WHOLE(OnCuePoint, CuePoint)
  WHOLE(OnEditionEntry, EditionEntry)
  WHOLE(OnTag, Tag)
#undef WHOLE
  Status OnSegmentEnd(const ElementMetadata& m) override { return Whole(m); }
  // At the end of the data, with everything said to be complete.
  void Completed() {
    for (uint64_t e : ends_)
      if (e > d_.size())
        Err("parsing completed within an element that ends at " + std::to_string(e));
  }
  Status OnSimpleBlockEnd(const ElementMetadata& m,
                          const webm::SimpleBlock& b) override {
    return BlockEnd(m, b);
  }
  Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override {
    Status s = Act(4, m, a);
    if (*a == Action::kSkip) have_prev_ = false;
    return s;
  }
  Status OnBlockBegin(const ElementMetadata& m, const webm::Block& b,
                      Action* a) override {
    Same(m);
    Block(m, b);
    return Act(5, m, a);
  }
  Status OnBlockEnd(const ElementMetadata& m, const webm::Block& b) override {
    return BlockEnd(m, b);
  }
  Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r,
                 std::uint64_t* n) override {
    const ElementMetadata& e = m.parent_element;
    Same(e);
    const uint64_t body = e.position + e.header_size, end = body + e.size;
    if (!frame_open_) {  // first call for this frame
      if (*n != m.size) Err("frame starts with less than its size left");
      frame_open_ = true;
      ++frames;
      ++frames_here_;
      if (frames_here_ == 1 ? m.position < body + 4 : m.position != next_frame_)
        Err("frame at " + std::to_string(m.position) + " in " + Text(e));
      if (m.position > end || m.size > end - m.position)
        Err("frame of " + std::to_string(m.size) + " bytes at " +
            std::to_string(m.position) + " exceeds " + Text(e));
      if (r->Position() != m.position)
        Err("frame at " + std::to_string(m.position) + " but the reader is at " +
            std::to_string(r->Position()));
      next_frame_ = m.position + m.size;
    } else if (*n > m.size) {
      Err("more bytes left than the frame has");
    }
    Status s = Consume(e, r, n);
    if (*n == 0 && s.completed_ok()) frame_open_ = false;
    return s;
  }

 private:
  Status Done() { return Status(error.empty() ? 0 : 77); }
  void Err(const std::string& s) {
    if (error.empty()) error = s;
  }
  Status Whole(const ElementMetadata& m) {
    ++events;
    if (m.size != webm::kUnknownElementSize) {
      const uint64_t end = m.position + m.header_size + m.size;
      if (r_->Position() != end)
        Err(Text(m) + " is reported as complete at " +
            std::to_string(r_->Position()));
    }
    return Done();
  }
  void Same(const ElementMetadata& m) {
    ++events;
    if (have_prev_ && !(m == prev_)) Err("event for " + Text(m) + " while in " + Text(prev_));
  }
  Status Act(int kind, const ElementMetadata& m, Action* a) {
    ++events;
    *a = p_.Skip(kind, m.position, (uint32_t)m.id) ? Action::kSkip : Action::kRead;
    return Done();
  }
  void Block(const ElementMetadata& m, const webm::Block& b) {
    frames_here_ = 0;
    next_frame_ = 0;
    frame_open_ = false;
    if (b.num_frames < 1 || b.num_frames > 256) Err("number of frames");
    if (m.size < 4) Err("block too small");
  }
  Status BlockEnd(const ElementMetadata& m, const webm::Block& b) {
    Same(m);
    if (frames_here_ != (uint64_t)b.num_frames)
      Err(std::to_string(frames_here_) + " frames delivered of " +
          std::to_string(b.num_frames));
    if (next_frame_ != m.position + m.header_size + m.size)
      Err("the last frame does not end with " + Text(m));
    return Done();
  }
  Status Consume(const ElementMetadata&, webm::Reader* r, std::uint64_t* n) {
    while (*n > 0) {
      uint64_t got = 0;
      Status s(0);
      if (*n % 3 == 0) {
        s = r->Skip(*n, &got);
      } else {
        uint8_t buf[32];
        s = r->Read(*n < 32 ? *n : 32, buf, &got);
      }
      *n -= got;
      if (!s.ok()) return s;
    }
    return Done();
  }

  const Bytes& d_;
  Policy p_;
  webmdump::ChunkReader* r_;
  bool seek_;
  ElementMetadata prev_{};
  bool have_prev_ = false, prev_skipped_ = false;
  std::vector<uint64_t> ends_;
  bool frame_open_ = false;
  uint64_t frames_here_ = 0, next_frame_ = 0;
};

void Check(Gen& g, Ctx& c, const Bytes& d) {
  Policy p;
  if (g.p(40)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = (unsigned)g.pick({5, 20, 60});
  }
  Disturb x;
  x.state = g.u(0, 1u << 20);
  if (g.p(30)) x.partial_pct = 50;
  if (g.p(20)) x.reader_pct = 20;
  const bool seek = g.p(20);
  const uint64_t start = seek ? g.u(0, d.size()) : 0;
  c.desc << "data " << pbt::Hex(d, 2000) << "\nskip pct " << p.pct << " seed "
         << p.seed << " seek " << (seek ? (int64_t)start : -1) << "\n";
  webmdump::ChunkReader reader(d, &x);
  Invariants inv(d, p, &reader, seek);
  webm::WebmParser parser;
  if (seek) {
    reader.Seek(start);
    parser.DidSeek();
  }
  Status st(0);
  uint64_t idle = 0, last = reader.Position(), ev = 0;
  for (;;) {
    try {
      st = parser.Feed(&inv, &reader);
    } catch (const std::exception& e) {
      c.fail(std::string("exception ") + e.what());
    }
    if (!inv.error.empty()) c.fail(inv.error);
    if (!reader.error.empty()) c.fail(reader.error);
    if (st.completed_ok() || st.is_parsing_error() || st.code == Status::kEndOfFile)
      break;
    if (st.code != Status::kWouldBlock && st.code != 9)
      c.fail("Feed returned " + std::to_string(st.code));
    if (reader.Position() == last && ev == inv.events) {
      if (++idle > 1000) c.fail("no progress");
    } else {
      idle = 0;
      last = reader.Position();
      ev = inv.events;
    }
  }
  if (st.is_parsing_error() && (st.code > Status::kInvalidElementId ||
                                st.code < Status::kExceededRecursionDepthLimit))
    c.fail("undocumented status " + std::to_string(st.code));
  if (st.completed_ok()) {
    inv.Completed();
    if (!inv.error.empty()) c.fail(inv.error);
  }
  if (st.completed_ok())
    pbt::CheckEq(c, reader.Position(), (uint64_t)d.size(),
                 "bytes consumed when completed");
  if (st.code != Status::kEndOfFile) {
    const uint64_t calls = reader.calls, events = inv.events;
    const Status again = parser.Feed(&inv, &reader);
    if (again.code != st.code || calls != reader.calls || events != inv.events)
      c.fail("the final status is not final");
  }
  c.count("elements", inv.begins);
  c.count("frames", inv.frames);
  c.label("status " + std::to_string(st.code));
  if (seek) c.label("seek");
  if (inv.begins >= 5) c.nontrivial();
}

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.density = (unsigned)g.pick({10, 25, 50});
  o.max_clusters = 3;
  return docgen::Generate(g, c, o);
}

void Mutated(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  const size_t rounds = g.small(0, 3);
  for (size_t k = 0; k <= rounds; ++k) docgen::Mutate(g, &d.data);
  Check(g, c, d.data);
}

// Blocks with arbitrary payloads in an otherwise valid cluster.
void Blocks(Gen& g, Ctx& c) {
  El seg = docgen::Master(kSegment), cl = docgen::Master(kCluster);
  cl.kids.push_back(docgen::Uint(kTimecode, 0));
  const size_t n = g.u(1, 4);
  for (size_t k = 0; k < n; ++k) {
    Bytes b;
    PutSize(&b, g.u(1, 3), (int)g.u(1, g.p(80) ? 1 : 8));
    PutUintN(&b, g.u(0, 65535), 2);
    b.push_back((uint8_t)(g.u(0, 3) << 1 | (g.b() ? 0x80 : 0)));
    b.push_back((uint8_t)(g.p(80) ? g.u(0, 5) : g.u(0, 255)));
    const size_t extra = g.small(0, 60);
    for (size_t q = 0; q < extra; ++q)
      b.push_back(g.p(50) ? (uint8_t)g.u(0, 255)
                          : g.pick<uint8_t>({0x80, 0x81, 0xFF, 0xBF, 0x40, 0x01, 0, 1, 2, 0x5F}));
    if (g.p(30)) b.resize(g.u(0, b.size()));
    const bool simple = g.b();
    El e = docgen::Bin(simple ? kSimpleBlock : g.p(90) ? kBlock : kBlockVirtual, b);
    if (simple) {
      cl.kids.push_back(e);
    } else {
      El gr = docgen::Master(kBlockGroup);
      gr.kids.push_back(e);
      cl.kids.push_back(gr);
    }
  }
  seg.kids.push_back(cl);
  docgen::Layout(&seg, 0);
  Bytes d;
  docgen::Serialize(seg, &d);
  Check(g, c, d);
}

// A soup of element headers.
void Soup(Gen& g, Ctx& c) {
  static const std::vector<uint32_t>* ids = [] {
    auto* v = new std::vector<uint32_t>;
    for (auto& r : SchemaTable()) v->push_back(r.first);
    return v;
  }();
  Bytes d;
  if (g.p(80)) {
    PutId(&d, kSegment);
    PutSize(&d, kUnknown, 1);
  }
  uint32_t in = kSegment;
  const size_t n = g.u(1, 40);
  for (size_t k = 0; k < n; ++k) {
    if (g.p(5)) {
      pbt::Bytes b = g.bytes(g.u(1, 6));
      Append(&d, b);
      continue;
    }
    uint32_t id = g.pick(*ids);
    if (g.p(75)) {
      std::vector<uint32_t> kids;
      for (auto& r : SchemaTable())
        if (r.second.parent == in) kids.push_back(r.first);
      if (in == kChapterAtom || in == kSimpleTag) kids.push_back(in);
      if (!kids.empty()) id = g.pick(kids);
    }
    PutId(&d, id);
    const Schema* s = Lookup(id);
    if (s->type == kMaster) {
      if (g.p(50))
        PutSize(&d, kUnknown, (int)g.u(1, 8));
      else
        PutSize(&d, g.p(90) ? g.small(0, 100) : g.edgy(0, (1ull << 56) - 2));
      in = id;
    } else {
      const uint64_t size = g.p(90) ? g.small(0, 12) : g.edgy(0, (1ull << 56) - 2);
      PutSize(&d, size);
      Append(&d, g.blob(size <= 64 && g.p(95) ? size : g.u(0, 20)));
      if (g.p(15)) in = kSegment;
    }
  }
  Check(g, c, d);
}

// Deep nesting of the recursive elements.
void Deep(Gen& g, Ctx& c) {
  const bool atoms = g.b();
  El e = docgen::Master(atoms ? kChapterAtom : kSimpleTag);
  const size_t n = g.u(1, 60);
  for (size_t k = 0; k < n; ++k) {
    El up = docgen::Master(atoms ? kChapterAtom : kSimpleTag);
    up.kids.push_back(e);
    if (g.p(20)) up.unknown = true;
    if (g.p(20)) up.kids.push_back(docgen::Uint(kChapterUID, 1));
    e = up;
  }
  El top = docgen::Master(atoms ? kEditionEntry : kTag);
  top.kids.push_back(e);
  El mid = docgen::Master(atoms ? kChapters : kTags);
  mid.kids.push_back(top);
  El seg = docgen::Master(kSegment);
  seg.kids.push_back(mid);
  docgen::Layout(&seg, 0);
  Bytes d;
  docgen::Serialize(seg, &d);
  c.label(n >= 25 ? "beyond-recursion-limit" : "nested");
  Check(g, c, d);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C14";
  p.level = "exploration";
  p.rule =
      "A case is hostile data (a mutated document, blocks with arbitrary "
      "payloads, a soup of element headers, deep nesting), skip decisions, "
      "short reads and possibly a seek; the run is checked under address and "
      "undefined-behaviour sanitizers and against invariants of the reported "
      "elements and frames; non-trivial: at least 5 elements are reported";
  p.suites = {{"mutated", Mutated, 60000, 1500000, true},
              {"blocks", Blocks, 80000, 2000000, true},
              {"soup", Soup, 80000, 2000000, true},
              {"deep", Deep, 4000, 60000, true}};
  return pbt::Main(argc, argv, p);
}
