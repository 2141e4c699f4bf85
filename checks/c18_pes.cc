// C18: VPx frames survive packetisation.  What WritePesPacket and Webm2Pes
// write is a well-formed PES stream (by an independent decoder of the wire
// format) holding exactly the frames and times of the input, VpxPesParser
// reads the same frames back, and no byte stream makes the parser misbehave.
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
#include "apps.h"
#include "pbt.h"
#include "pesgen.h"

using libwebm::VideoFrame;
using libwebm::VpxPesParser;
using libwebm::Webm2Pes;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;
using pesgen::Frame;
using pesgen::Packet;

namespace {

int64_t Time(Gen& g) {
  const int64_t kWrap = (int64_t)((1ll << 33) * 100000 / 9);
  switch (g.u(0, 3)) {
    case 0: return (int64_t)g.u(0, 100) * 10000000;
    case 1: return (int64_t)g.u(0, 100000) * 1000000;
    case 2: return (int64_t)(((__int128)g.edgy(0, (1ull << 33) - 1) * 100000 + 8) / 9);
    default: return (int64_t)g.u(0, kWrap - 100000);
  }
}

// The time of a tick count that is right for the frame, but for rounding.
bool NsOk(int64_t got, int64_t want) {
  const __int128 ticks = (__int128)want * 9 / 100000;
  for (int k = -1; k <= 1; ++k) {
    const int64_t t = (int64_t)((uint64_t)(ticks + k) & ((1ull << 33) - 1));
    const int64_t d = got - (int64_t)((__int128)t * 100000 / 9);
    if (d >= -2 && d <= 2) return true;
  }
  return false;
}

void Fill(VideoFrame* v, const Frame& f) {
  v->Init(f.data.size(), f.ns, v->codec());
  memcpy(v->buffer().data.get(), f.data.data(), f.data.size());
  v->SetBufferLength(f.data.size());
}

void ReadBack(Gen& g, Ctx& c, const Bytes& stream, const std::vector<Frame>& frames) {
  apps::Cleanup clean;
  const std::string path = clean.add(pbt::ScratchPath("c18.pes"));
  apps::WriteFile(path, stream);
  VpxPesParser parser;
  if (stream.empty()) return;
  if (!parser.Open(path)) c.fail("VpxPesParser::Open");
  pbt::CheckEq(c, (size_t)parser.pes_file_size(), stream.size(), "pes_file_size");
  if (parser.pes_file_data() != stream) c.fail("pes_file_data");
  const bool reuse = g.b();
  VpxPesParser::PesHeader shared_header;
  VideoFrame shared_frame;
  size_t left = stream.size();
  for (size_t n = 0; n < frames.size(); ++n)
    for (size_t q = 0; q < frames[n].parts.size(); ++q) {
      const Bytes& want = frames[n].parts[q];
      VpxPesParser::PesHeader own_header;
      VideoFrame own_frame;
      auto& h = reuse ? shared_header : own_header;
      auto& v = reuse ? shared_frame : own_frame;
      std::ostringstream o;
      o << "parser, frame " << n << " part " << q << ": ";
      if (!parser.ParseNextPacket(&h, &v)) c.fail(o.str() + "not delivered");
      if (v.buffer().length != want.size() ||
          memcmp(v.buffer().data.get(), want.data(), want.size()))
        c.fail(o.str() + "payload " +
               pbt::Hex(v.buffer().data.get(), v.buffer().length, 60));
      if (!NsOk(v.nanosecond_pts(), frames[n].ns)) {
        o << "time " << v.nanosecond_pts() << " of " << frames[n].ns;
        c.fail(o.str());
      }
      if (!pesgen::PtsOk(h.opt_header.pts, frames[n].ns)) c.fail(o.str() + "pts");
      if (!(h.bcmv_header == VpxPesParser::BcmvHeader((uint32_t)want.size() + 10)))
        c.fail(o.str() + "BCMV header");
      if (h.stream_id != 0xE0 || h.opt_header.has_pts != 1 || h.opt_header.has_dts ||
          h.opt_header.marker != 2 || h.opt_header.remaining_size != 6)
        c.fail(o.str() + "header");
      const size_t now = (size_t)parser.BytesAvailable();
      if (now >= left) c.fail(o.str() + "no progress");
      left = now;
    }
  pbt::CheckEq(c, left, (size_t)0, "bytes left");
  VpxPesParser::PesHeader h;
  VideoFrame v;
  if (parser.ParseNextPacket(&h, &v)) c.fail("a frame after the last");
}

void FramesSuite(Gen& g, Ctx& c) {
  const bool vp9 = g.b();
  const size_t n = g.u(1, 4);
  std::vector<Frame> frames;
  Bytes stream;
  const size_t big = g.p(30) ? g.u(0, n - 1) : n;
  for (size_t k = 0; k < n; ++k) {
    Frame f = pesgen::MakeFrame(g, c, vp9, k == big);
    f.ns = Time(g);
    c.desc << pesgen::ShowFrame(f) << "\n";
    VideoFrame v(f.ns, vp9 ? VideoFrame::kVP9 : VideoFrame::kVP8);
    Fill(&v, f);
    libwebm::PacketDataBuffer out;
    if (g.p(30)) out.assign(g.u(1, 20), 0x55);
    if (!Webm2Pes::WritePesPacket(v, &out)) c.fail("WritePesPacket refuses the frame");
    std::vector<Packet> pk;
    std::string err;
    if (!pesgen::DecodePes(out, &pk, &err)) c.fail("malformed PES: " + err + " " + pbt::Hex(out, 120));
    if (pk.size() > f.parts.size()) c.label("fragmented");
    if (out.size() > f.data.size() + 25 * pk.size()) {
      c.label("escaped");
      c.nontrivial();
    }
    if (pk.size() > 1) c.nontrivial();
    err = pesgen::CheckFrames(pesgen::Join(pk), {f});
    if (!err.empty()) c.fail("PES " + err);
    frames.push_back(f);
    stream.insert(stream.end(), out.begin(), out.end());
  }
  ReadBack(g, c, stream, frames);
}

class Sink : public libwebm::PacketReceiverInterface {
 public:
  bool ReceivePacket(const libwebm::PacketDataBuffer& p) override {
    if (packets.size() == fail_at) return false;
    packets.push_back(p);
    return true;
  }
  std::vector<Bytes> packets;
  size_t fail_at = SIZE_MAX;
};

void ConvertSuite(Gen& g, Ctx& c) {
  const pesgen::File f = pesgen::MakeFile(g, c, g.p(20));
  c.desc << f.text << "\n";
  if (f.frames.size() > 1) c.nontrivial();
  apps::Cleanup clean;
  const std::string in = clean.add(pbt::ScratchPath("c18.webm"));
  const std::string out = clean.add(pbt::ScratchPath("c18.out"));
  apps::WriteFile(in, f.data);
  Bytes stream;
  {
    Webm2Pes conv(in, out);
    if (!conv.ConvertToFile()) c.fail("ConvertToFile fails");
    std::string s;
    if (!apps::ReadFile(out, &s)) c.fail("no output");
    stream.assign(s.begin(), s.end());
    pbt::CheckEq(c, conv.bytes_written(), (uint64_t)stream.size(), "bytes_written");
  }
  std::vector<Packet> pk;
  std::string err;
  if (!pesgen::DecodePes(stream, &pk, &err)) c.fail("malformed PES: " + err);
  err = pesgen::CheckFrames(pesgen::Join(pk), f.frames);
  if (!err.empty()) c.fail("file: " + err);
  Sink sink;
  {
    Webm2Pes conv(in, &sink);
    if (!conv.ConvertToPacketReceiver()) c.fail("ConvertToPacketReceiver fails");
    pbt::CheckEq(c, conv.bytes_written(), (uint64_t)stream.size(), "bytes_written");
  }
  pbt::CheckEq(c, sink.packets.size(), f.frames.size(), "packets received");
  Bytes all;
  for (auto& p : sink.packets) all.insert(all.end(), p.begin(), p.end());
  if (all != stream) c.fail("receiver and file differ");
  ReadBack(g, c, stream, f.frames);
  if (f.frames.empty()) return;
  if (g.p(30)) {
    c.label("receiver fails");
    Sink bad;
    bad.fail_at = g.u(0, f.frames.size() - 1);
    Webm2Pes conv(in, &bad);
    if (conv.ConvertToPacketReceiver()) c.fail("failure of the receiver not reported");
    pbt::CheckEq(c, bad.packets.size(), bad.fail_at, "packets after the failure");
  }
  if (g.p(20)) {
    c.label("output full");
    Webm2Pes conv(in, "/dev/full");
    if (conv.ConvertToFile()) c.fail("failure to write the output not reported");
  }
  if (g.p(20) && f.data.size() > 1) {
    // The input ends early: an error, or frames that are a prefix.
    c.label("input cut");
    Bytes cut(f.data.begin(), f.data.begin() + g.u(1, f.data.size() - 1));
    apps::WriteFile(in, cut);
    Sink s;
    Webm2Pes conv(in, &s);
    conv.ConvertToPacketReceiver();
    if (s.packets.size() > sink.packets.size()) c.fail("cut input: more packets");
    for (size_t k = 0; k < s.packets.size(); ++k)
      if (s.packets[k] != sink.packets[k]) c.fail("cut input: packet differs");
  }
}

void HostileSuite(Gen& g, Ctx& c) {
  const bool vp9 = g.b();
  Bytes stream;
  const size_t n = g.u(1, 3);
  for (size_t k = 0; k < n; ++k) {
    Frame f = pesgen::MakeFrame(g, c, vp9, g.p(15));
    f.ns = Time(g);
    VideoFrame v(f.ns, vp9 ? VideoFrame::kVP9 : VideoFrame::kVP8);
    Fill(&v, f);
    libwebm::PacketDataBuffer out;
    if (Webm2Pes::WritePesPacket(v, &out)) stream.insert(stream.end(), out.begin(), out.end());
  }
  const size_t edits = g.u(0, 4);
  for (size_t k = 0; k < edits && !stream.empty(); ++k) {
    const size_t header_area = std::min<size_t>(stream.size(), 40);
    const size_t at = g.p(60) ? g.u(0, header_area - 1) : g.u(0, stream.size() - 1);
    switch (g.u(0, 5)) {
      case 0: stream[at] = (uint8_t)g.u(0, 255); break;
      case 1: stream[at] = g.pick<uint8_t>({0, 1, 3, 0xFF, 0xE0, 0x80}); break;
      case 2: stream.resize(g.p(80) ? at : std::min<size_t>(at, g.u(0, 3))); break;
      case 3:
        stream.erase(stream.begin() + at,
                     stream.begin() + std::min(stream.size(), at + (size_t)g.small(1, 30)));
        break;
      case 4: {
        const Bytes ins = pesgen::Payload(g, g.small(1, 20));
        stream.insert(stream.begin() + at, ins.begin(), ins.end());
        break;
      }
      default: {
        // Length fields.
        const size_t field = g.b() ? 4 : 19;
        if (stream.size() > field + 4) {
          const uint32_t v = (uint32_t)(g.b() ? g.edgy(0, UINT32_MAX) : g.small(0, 40));
          if (field == 4) {
            stream[4] = (uint8_t)(v >> 8);
            stream[5] = (uint8_t)v;
          } else {
            for (int q = 0; q < 4; ++q) stream[field + q] = (uint8_t)(v >> (24 - 8 * q));
          }
        }
      }
    }
  }
  if (g.p(10)) stream = pesgen::Payload(g, g.u(1, 60));
  if (stream.empty()) stream.push_back(0);
  c.desc << stream.size() << " bytes " << pbt::Hex(stream, 300) << "\n";
  apps::Cleanup clean;
  const std::string path = clean.add(pbt::ScratchPath("c18.pes"));
  apps::WriteFile(path, stream);
  VpxPesParser parser;
  if (!parser.Open(path)) c.fail("VpxPesParser::Open");
  VpxPesParser::PesHeader h;
  VideoFrame v;
  int failures = 0;
  size_t left = stream.size(), frames = 0;
  while (failures < 4) {
    uint8_t id = 0;
    uint16_t length = 0;
    const bool at_start = left >= 3 && stream[stream.size() - left] == 0 &&
                          stream[stream.size() - left + 1] == 0 &&
                          stream[stream.size() - left + 2] == 1;
    if (!failures) {
      pbt::CheckEq(c, parser.VerifyPacketStartCode(), at_start, "VerifyPacketStartCode");
      pbt::CheckEq(c, parser.ReadStreamId(&id), left >= 4, "ReadStreamId");
      pbt::CheckEq(c, parser.ReadPacketLength(&length), left >= 6, "ReadPacketLength");
    }
    if (!parser.ParseNextPacket(&h, &v)) {
      ++failures;
      continue;
    }
    ++frames;
    const size_t now = (size_t)parser.BytesAvailable();
    if (now >= left || now > stream.size()) c.fail("no progress");
    left = now;
    if (v.buffer().length == 0 || v.buffer().length > stream.size())
      c.fail("length of the frame");
    if (v.buffer().length != (size_t)h.bcmv_header.length - 10) {
      std::ostringstream o;
      o << "frame of " << v.buffer().length << " bytes, the header says "
        << h.bcmv_header.length;
      c.fail(o.str());
    }
    if (h.opt_header.pts >> 33) c.fail("PTS of more than 33 bits");
    if (v.buffer().capacity < v.buffer().length) c.fail("capacity");
    uint8_t x = 0;
    for (size_t k = 0; k < v.buffer().length; ++k) x ^= v.buffer().data[k];
    c.count("delivered", 1 + (x & 0));
  }
  if (frames) c.nontrivial();
  c.label(frames ? "some frame" : "no frame");
}

// The index of a VP9 superframe.
void SuperframeSuite(Gen& g, Ctx& c) {
  Frame f = pesgen::MakeFrame(g, c, true, g.p(5));
  Bytes d = f.data;
  const bool hostile = g.b();
  if (hostile) {
    const size_t edits = g.u(1, 3);
    for (size_t k = 0; k < edits && !d.empty(); ++k) {
      const size_t tail = std::min<size_t>(d.size(), 12);
      const size_t at = d.size() - 1 - g.u(0, tail - 1);
      if (g.b())
        d[at] = (uint8_t)g.u(0, 255);
      else if (g.b())
        d.resize(at);
      else
        d.insert(d.begin() + at, (uint8_t)(0xC0 | g.u(0, 31)));
    }
    if (d.empty()) d.push_back(0xC0);
  }
  c.desc << pbt::Hex(d, 200) << "\n";
  libwebm::Ranges ranges;
  bool error = false;
  // An exact allocation, so that reading outside it is seen.
  std::unique_ptr<uint8_t[]> mem(new uint8_t[d.size()]);
  memcpy(mem.get(), d.data(), d.size());
  const bool has = libwebm::ParseVP9SuperFrameIndex(mem.get(), d.size(), &ranges, &error);
  if (has && error) c.fail("index found and error");
  if (has) {
    uint64_t off = 0;
    for (auto& r : ranges) {
      if (r.offset != off) c.fail("frames of the superframe not contiguous");
      if (r.offset + r.length > d.size()) c.fail("frame outside the superframe");
      off += r.length;
    }
    c.nontrivial();
  }
  if (!hostile) {
    if (error) c.fail("valid frame refused");
    const bool super = f.parts.size() > 1 || f.parts[0] != f.data;
    pbt::CheckEq(c, has, super, "superframe");
    if (super) {
      pbt::CheckEq(c, ranges.size(), f.parts.size(), "frames");
      for (size_t k = 0; k < ranges.size(); ++k)
        pbt::CheckEq(c, (size_t)ranges[k].length, f.parts[k].size(), "frame size");
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C18";
  p.level = "exploration";
  p.rule =
      "frames: 1-4 VP8 or VP9 frames (payloads rich in 0, 1, 3; sizes up to three fragments and "
      "around each fragment limit; superframes) with times over the 33-bit range, written and read "
      "back; convert: WebM files with 1-4 tracks of arbitrary numbers, lacing and scales, to file "
      "and to receiver, failing receivers, full outputs and cut inputs; hostile: edited PES "
      "streams; superframe: valid and damaged superframe indices.  Non-trivial: a byte is escaped "
      "or a frame fragmented; more than one frame converted; a hostile stream from which a frame "
      "is delivered; a superframe found";
  p.suites = {{"frames", FramesSuite, 120000, 3000000, true},
              {"convert", ConvertSuite, 60000, 1500000, true},
              {"hostile", HostileSuite, 150000, 4000000, true},
              {"superframe", SuperframeSuite, 150000, 3000000, true}};
  p.assumptions = {
      "times are compared within one 90 kHz tick, modulo 2^33 ticks",
      "each header and each packet payload is escaped on its own (lengths count unescaped bytes)",
      "a VP9 frame that is not a superframe does not end in a byte that reads as a superframe "
      "marker; frames inside superframes are not empty"};
  return pbt::Main(argc, argv, p);
}
