// C12: block payloads.  For every byte string as the body of a SimpleBlock or
// Block both parsers agree with an independent decoder of the block format:
// either the frames are exactly those the lacing describes, or the block is
// refused and none of its frames is delivered.
#include "mkvparser/mkvparser.h"
#include "docgen.h"
#include "muxlib.h"
#include "pbt.h"
#include "webmdump.h"

using namespace ebml;
using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;

namespace {

struct Decoded {
  bool valid = false;       // all frames at least one byte
  bool zero_frames = false; // well formed, but a frame other than the last is empty
  bool single_ebml = false; // EBML lacing with one frame: readers differ
  uint64_t track = 0;
  int16_t rel = 0;
  uint8_t flags = 0;
  int lacing = 0;
  int count = 0;
  std::vector<std::pair<uint64_t, uint64_t>> frames;  // offset in body, size
};

bool Vint(const Bytes& b, size_t* p, uint64_t* v, int* len) {
  if (*p >= b.size() || b[*p] == 0) return false;
  int n = 1;
  while (!(b[*p] & (0x80 >> (n - 1)))) ++n;
  if (b.size() - *p < (size_t)n) return false;
  uint64_t x = b[*p] & (0xFF >> n);
  if (n == 8) x = 0;
  for (int k = 1; k < n; ++k) x = x << 8 | b[*p + k];
  *p += n;
  *v = x;
  *len = n;
  return true;
}

Decoded Decode(const Bytes& b) {
  Decoded d;
  size_t p = 0;
  int len = 0;
  if (!Vint(b, &p, &d.track, &len)) return d;
  if (b.size() - p < 3) return d;
  d.rel = (int16_t)(b[p] << 8 | b[p + 1]);
  d.flags = b[p + 2];
  p += 3;
  d.lacing = d.flags >> 1 & 3;
  d.count = 1;
  std::vector<__int128> sizes;
  if (d.lacing) {
    if (p >= b.size()) return d;
    d.count = b[p++] + 1;
  }
  if (d.lacing == 3 && d.count == 1) d.single_ebml = true;
  if (d.lacing == 1) {
    for (int k = 0; k + 1 < d.count; ++k) {
      uint64_t s = 0;
      for (;;) {
        if (p >= b.size()) return d;
        s += b[p];
        if (b[p++] != 255) break;
      }
      sizes.push_back(s);
    }
  } else if (d.lacing == 2) {
    const size_t rest = b.size() - p;
    if (rest % d.count) return d;
    for (int k = 0; k + 1 < d.count; ++k) sizes.push_back(rest / d.count);
  } else if (d.lacing == 3) {
    __int128 s = 0;
    for (int k = 0; k + 1 < d.count; ++k) {
      uint64_t v = 0;
      if (!Vint(b, &p, &v, &len)) return d;
      if (k == 0)
        s = v;
      else
        s += (__int128)v - (((__int128)1 << (7 * len - 1)) - 1);
      if (s < 0) return d;
      sizes.push_back(s);
    }
  }
  __int128 sum = 0;
  bool zero = false;
  for (auto s : sizes) {
    sum += s;
    if (s == 0) zero = true;
  }
  const uint64_t rest = b.size() - p;
  if (sum >= (__int128)rest) return d;  // the last frame has at least one byte
  sizes.push_back((__int128)rest - sum);
  for (auto s : sizes) {
    d.frames.push_back({p, (uint64_t)s});
    p += (size_t)s;
  }
  d.zero_frames = zero;
  d.valid = !zero;
  return d;
}

std::string Frames(const Decoded& d, const Bytes& b, uint64_t body_pos) {
  std::ostringstream o;
  o << "track " << d.track << " time " << d.rel << " flags " << (int)(d.flags & 0x8F & ~0x06)
    << " lacing " << d.lacing << " frames " << d.frames.size();
  for (auto& f : d.frames)
    o << "\n  " << body_pos + f.first << "+" << f.second << " "
      << pbt::Hex(Bytes(b.begin() + f.first, b.begin() + f.first + f.second), 40);
  return o.str();
}

class Collect : public webm::Callback {
 public:
  explicit Collect(uint64_t pos) : pos_(pos) {}
  bool begun = false, ended = false;
  std::ostringstream head, frames;
  int n = 0;
  int num_frames = 0;
  std::string sentinel;
  webm::Status OnSimpleBlockBegin(const webm::ElementMetadata& m,
                                  const webm::SimpleBlock& b,
                                  webm::Action* a) override {
    Begin(m, b, (b.is_key_frame ? 0x80 : 0) | (b.is_discardable ? 1 : 0));
    *a = webm::Action::kRead;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockBegin(const webm::ElementMetadata& m, const webm::Block& b,
                            webm::Action* a) override {
    Begin(m, b, 0);
    *a = webm::Action::kRead;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnSimpleBlockEnd(const webm::ElementMetadata& m,
                                const webm::SimpleBlock&) override {
    if (m.position == pos_) ended = true;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnBlockEnd(const webm::ElementMetadata& m,
                          const webm::Block&) override {
    if (m.position == pos_) ended = true;
    return webm::Status(webm::Status::kOkCompleted);
  }
  webm::Status OnFrame(const webm::FrameMetadata& m, webm::Reader* r,
                       std::uint64_t* left) override {
    Bytes b(*left);
    uint64_t got = 0;
    webm::Status st(webm::Status::kOkCompleted);
    while (*left) {
      st = r->Read(*left, &b[b.size() - *left], &got);
      *left -= got;
      if (!st.ok()) return st;
    }
    if (m.parent_element.position != pos_) {
      sentinel = pbt::Hex(b, 40);
      return webm::Status(webm::Status::kOkCompleted);
    }
    ++n;
    frames << "\n  " << m.position << "+" << m.size << " " << pbt::Hex(b, 40);
    return webm::Status(webm::Status::kOkCompleted);
  }
  std::string Text() const {
    return head.str() + " frames " + std::to_string(n) + frames.str();
  }

 private:
  void Begin(const webm::ElementMetadata& m, const webm::Block& b, int f) {
    if (m.position != pos_) return;
    begun = true;
    num_frames = b.num_frames;
    const int lac = b.lacing == webm::Lacing::kNone ? 0
                    : b.lacing == webm::Lacing::kXiph ? 1
                    : b.lacing == webm::Lacing::kFixed ? 2
                                                       : 3;
    head << "track " << b.track_number << " time " << b.timecode << " flags "
         << (f | (b.is_visible ? 0 : 8)) << " lacing " << lac;
  }
  uint64_t pos_;
};

void Check(Gen& g, Ctx& c, const Bytes& body) {
  const bool simple = g.b();
  const Decoded d = Decode(body);
  docgen::Doc doc;
  doc.ebml = docgen::Master(kEBML);
  doc.ebml.kids.push_back(docgen::Str(kDocType, "webm"));
  doc.segment = docgen::Master(kSegment);
  El info = docgen::Master(kInfo);
  info.kids.push_back(docgen::Uint(kTimecodeScale, 1000000));
  doc.segment.kids.push_back(info);
  El tracks = docgen::Master(kTracks);
  for (uint64_t t = 1; t <= 2; ++t) {
    El te = docgen::Master(kTrackEntry);
    te.kids.push_back(docgen::Uint(kTrackNumber, t));
    te.kids.push_back(docgen::Uint(kTrackUID, t));
    te.kids.push_back(docgen::Uint(kTrackType, 17));
    te.kids.push_back(docgen::Str(kCodecID, "D_X"));
    tracks.kids.push_back(te);
  }
  doc.segment.kids.push_back(tracks);
  El cl = docgen::Master(kCluster);
  cl.unknown = g.p(20);
  doc.segment.unknown = g.p(20);
  cl.kids.push_back(docgen::Uint(kTimecode, 40000));
  El bl = docgen::Bin(simple ? kSimpleBlock : kBlock, body);
  bl.size_len = g.p(20) ? (int)g.u(4, 8) : 0;
  if (simple) {
    cl.kids.push_back(bl);
  } else {
    El gr = docgen::Master(kBlockGroup);
    gr.kids.push_back(bl);
    cl.kids.push_back(gr);
  }
  const Bytes sent_body = {0x82, 0, 7, 0x80, 0xAA, 0xBB, 0xCC};
  const bool sentinel = !g.p(15);
  if (sentinel) cl.kids.push_back(docgen::Bin(kSimpleBlock, sent_body));
  doc.segment.kids.push_back(cl);
  doc.Finish();
  const El& lcl = doc.segment.kids[2];
  const El& lbl = simple ? lcl.kids[1] : lcl.kids[1].kids[0];
  c.desc << "body " << pbt::Hex(body, 4000) << (simple ? " simple" : " group")
         << (sentinel ? "" : " no sentinel") << "\nexpected "
         << (d.valid ? "valid" : d.zero_frames ? "zero-size frames" : "invalid")
         << "\n" << Frames(d, body, lbl.body_pos()) << "\n";
  static const char* const kLacing[] = {"none", "xiph", "fixed", "ebml"};
  c.label(std::string(d.valid ? "valid " : "refused ") + kLacing[d.lacing]);
  if (d.lacing && d.count > 1) c.nontrivial();
  Decoded want = d;
  if (!simple) want.flags &= ~0x81;
  const std::string expected = Frames(want, body, lbl.body_pos());

  // webm_parser
  {
    webmdump::Disturb x;
    x.state = g.u(0, 1u << 20);
    if (g.p(30)) x.partial_pct = 50;
    webmdump::ChunkReader reader(doc.data, &x);
    Collect cb(lbl.pos);
    webm::WebmParser parser;
    const webm::Status st = parser.Feed(&cb, &reader);
    if (!reader.error.empty()) c.fail(reader.error);
    if ((d.valid || d.zero_frames) && body.size() >= 5) {
      if (!st.completed_ok() && !(st.code == webm::Status::kEndOfFile))
        c.fail("webm_parser refuses the block, status " + std::to_string(st.code));
      if (!cb.ended) c.fail("webm_parser does not report the end of the block");
      pbt::CheckEq(c, cb.num_frames, d.count, "webm_parser number of frames");
      pbt::CheckEq(c, cb.Text(), expected, "webm_parser block");
      if (sentinel)
        pbt::CheckEq(c, cb.sentinel, pbt::Hex({0xAA, 0xBB, 0xCC}, 40),
                     "webm_parser block after it");
    } else {
      if (st.completed_ok()) c.fail("webm_parser accepts the block");
      if (cb.n || cb.ended)
        c.fail("webm_parser delivers frames of a malformed block: " + cb.Text());
    }
  }
  // mkvparser
  {
    muxlib::MemReader reader(doc.data);
    mkvparser::Segment* raw = nullptr;
    mkvparser::EBMLHeader eh;
    long long pos = 0;
    if (eh.Parse(&reader, pos) != 0) c.fail("EBML header");
    if (mkvparser::Segment::CreateInstance(&reader, pos, raw)) c.fail("segment");
    std::unique_ptr<mkvparser::Segment> seg(raw);
    const long load = seg->Load();
    if (load < 0 && d.valid && d.track >= 1 && !d.single_ebml)
      c.fail("mkvparser Load " + std::to_string(load));
    const mkvparser::Cluster* cluster = seg->GetFirst();
    std::vector<const mkvparser::BlockEntry*> es;
    long st = 0;
    if (load >= 0 && cluster && !cluster->EOS()) {
      const mkvparser::BlockEntry* e = nullptr;
      st = cluster->GetFirst(e);
      while (st >= 0 && e && !e->EOS()) {
        es.push_back(e);
        const mkvparser::BlockEntry* next = nullptr;
        st = cluster->GetNext(e, next);
        e = next;
      }
    }
    const mkvparser::BlockEntry* hit = nullptr;
    for (auto* e : es)
      if ((uint64_t)e->GetBlock()->m_start == lbl.body_pos()) hit = e;
    if (d.single_ebml) {
      // Whether a size precedes the single frame is read differently; what is
      // reported must end with the block.
      c.label("single EBML");
      if (hit) {
        const auto& f = hit->GetBlock()->GetFrame(0);
        if (hit->GetBlock()->GetFrameCount() != 1 || f.len <= 0 ||
            f.pos < (long long)lbl.body_pos() + 5 ||
            (uint64_t)(f.pos + f.len) != lbl.end())
          c.fail("mkvparser single-frame EBML lacing");
      }
    } else if (d.valid && d.track >= 1) {
      if (!hit || st < 0)
        c.fail("mkvparser does not report the block, status " + std::to_string(st));
      const mkvparser::Block* b = hit->GetBlock();
      std::ostringstream o;
      o << "track " << b->GetTrackNumber() << " time "
        << b->GetTimeCode(cluster) - 40000 << " flags "
        << ((simple && b->IsKey() ? 0x80 : 0) | (b->IsInvisible() ? 8 : 0) |
            (want.flags & 1))
        << " lacing "
        << (b->GetLacing() == mkvparser::Block::kLacingNone ? 0
            : b->GetLacing() == mkvparser::Block::kLacingXiph ? 1
            : b->GetLacing() == mkvparser::Block::kLacingFixed ? 2
                                                                : 3)
        << " frames " << b->GetFrameCount();
      for (int k = 0; k < b->GetFrameCount(); ++k) {
        const auto& f = b->GetFrame(k);
        Bytes buf(f.len > 0 ? f.len : 0);
        if (f.len < 0 || f.Read(&reader, buf.data()) != 0) c.fail("frame read");
        o << "\n  " << f.pos << "+" << f.len << " " << pbt::Hex(buf, 40);
      }
      pbt::CheckEq(c, o.str(), expected, "mkvparser block");
      if (!simple && !b->IsKey()) c.fail("block without references is not key");
      pbt::CheckEq(c, es.size(), (size_t)(sentinel ? 2 : 1), "mkvparser entries");
      if (sentinel) {
        const auto* sb = es[1]->GetBlock();
        if (sb->GetFrameCount() != 1 || sb->GetFrame(0).len != 3 ||
            sb->GetTrackNumber() != 2)
          c.fail("mkvparser block after it");
      }
    } else if (hit) {
      c.fail("mkvparser reports a malformed block");
    }
  }
}

void PutNumber(Bytes* o, uint64_t v, int len) {
  for (int k = len - 1; k >= 0; --k)
    o->push_back((uint8_t)((v >> (8 * k)) | (k == len - 1 ? 0x100 >> len : 0)));
}

void PutTrackEtc(Gen& g, Bytes* o, int lacing) {
  PutNumber(o, g.u(1, 2), (int)(g.p(85) ? 1 : g.u(2, 8)));
  PutUintN(o, (uint16_t)g.i(-32768, 32767), 2);
  o->push_back((uint8_t)(g.pick<uint8_t>({0, 0x80, 0x08, 0x89, 1, 0xF9}) | lacing << 1));
}

uint64_t FrameSize(Gen& g, uint64_t prev) {
  switch (g.u(0, 5)) {
    case 0: return g.u(1, 10);
    case 1: return g.pick<uint64_t>({126, 127, 128, 129, 254, 255, 256, 509, 510, 511, 765});
    case 2: return prev;
    case 3: {  // around the limits of one and two byte differences
      const int64_t d = g.pick<int64_t>({-64, -63, -62, 62, 63, 64, -8191, -8190, 8191, 8192, 1, -1});
      return (int64_t)prev + d >= 1 ? prev + d : g.u(1, 100);
    }
    case 4: return g.small(1, 1000);
    default: return g.p(2) ? g.u(8000, 20000) : g.u(1, 40);
  }
}

Bytes ValidBody(Gen& g) {
  Bytes o;
  const int lacing = (int)g.u(0, 3);
  PutTrackEtc(g, &o, lacing);
  const int n = !lacing ? 1 : g.p(90) ? (int)g.u(1, 8) : (int)g.u(1, 256);
  std::vector<uint64_t> sz;
  uint64_t prev = g.u(1, 30);
  const bool zeros = g.p(10);
  for (int k = 0; k < n; ++k) {
    uint64_t s = lacing == 2 && k ? prev : n > 20 ? g.u(1, 12) : FrameSize(g, prev);
    if (zeros && lacing != 2 && k + 1 < n && g.p(30)) s = 0;
    sz.push_back(s);
    prev = s;
  }
  if (lacing) {
    o.push_back((uint8_t)(n - 1));
    for (int k = 0; k + 1 < n; ++k) {
      if (lacing == 1) {
        uint64_t s = sz[k];
        for (; s >= 255; s -= 255) o.push_back(255);
        o.push_back((uint8_t)s);
      } else if (lacing == 3) {
        if (k == 0) {
          int l = MinSizeLength(sz[0]);
          if (g.p(20)) l = (int)g.u(l, 8);
          PutNumber(&o, sz[0], l);
        } else {
          const int64_t d = (int64_t)sz[k] - (int64_t)sz[k - 1];
          int l = 1;
          while (d < -((1ll << (7 * l - 1)) - 1) || d > (1ll << (7 * l - 1)) - 1 + (g.p(10) ? 1 : 0)) ++l;
          if (g.p(15)) l = (int)g.u(l, 8);
          PutNumber(&o, (uint64_t)(d + ((1ll << (7 * l - 1)) - 1)), l);
        }
      }
    }
  }
  uint64_t total = 0;
  for (auto s : sz) total += s;
  Bytes p = g.blob(total);
  o.insert(o.end(), p.begin(), p.end());
  return o;
}

void Valid(Gen& g, Ctx& c) { Check(g, c, ValidBody(g)); }

void Near(Gen& g, Ctx& c) {
  Bytes b = ValidBody(g);
  const size_t n = g.u(1, 3);
  for (size_t k = 0; k < n && !b.empty(); ++k) {
    const size_t at = g.p(60) ? g.u(0, std::min<size_t>(b.size() - 1, 16)) : g.u(0, b.size() - 1);
    switch (g.u(0, 5)) {
      case 0: b[at] = (uint8_t)g.u(0, 255); break;
      case 1: b[at] = g.pick<uint8_t>({0, 1, 0x40, 0x80, 0xFF, 0x7F, 0xBF, 0xC0, 0x20, 0x10}); break;
      case 2: b.resize(at); break;
      case 3: b.insert(b.begin() + at, (uint8_t)g.u(0, 255)); break;
      case 4: b.erase(b.begin() + at); break;
      default: b[at] = (uint8_t)(b[at] + (g.b() ? 1 : -1));
    }
  }
  Check(g, c, b);
}

void Arbitrary(Gen& g, Ctx& c) {
  Bytes b;
  if (g.p(90)) {
    PutTrackEtc(g, &b, (int)g.u(0, 3));
    if (g.p(90)) b.push_back((uint8_t)(g.p(85) ? g.u(0, 4) : g.u(0, 255)));
  }
  const size_t n = g.small(0, 40);
  for (size_t k = 0; k < n; ++k)
    b.push_back(g.p(60) ? (uint8_t)(0x80 + g.u(0, 80))
                        : g.p(50) ? (uint8_t)g.u(0, 255)
                                  : g.pick<uint8_t>({0, 1, 2, 3, 0xFF, 0x40, 0x20, 0x5F, 0x60, 0xBF, 0xC0, 0xC1}));
  Check(g, c, b);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C12";
  p.level = "exploration";
  p.rule = "the block uses lacing with at least two frames";
  p.suites.push_back({"valid", Valid, 60000, 2000000});
  p.suites.push_back({"near", Near, 60000, 2000000});
  p.suites.push_back({"arbitrary", Arbitrary, 80000, 3000000});
  return pbt::Main(argc, argv, p);
}
