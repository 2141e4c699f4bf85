// C19: the MPEG-2 transport stream written by VpxPes2Ts carries the PES
// stream: 188-byte packets, unbroken continuity, legal padding, and payloads
// that concatenate to exactly the PES packets of each frame.
#include "m2ts/vpxpes2ts.h"
#include "m2ts/webm2pes.h"
#include "apps.h"
#include "pbt.h"
#include "pesgen.h"

using libwebm::VpxPes2Ts;
using libwebm::Webm2Pes;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;

namespace {

class Sink : public libwebm::PacketReceiverInterface {
 public:
  bool ReceivePacket(const libwebm::PacketDataBuffer& p) override {
    packets.push_back(p);
    return true;
  }
  std::vector<Bytes> packets;
};

void TsSuite(Gen& g, Ctx& c) {
  const pesgen::File f = pesgen::MakeFile(g, c, g.p(10));
  c.desc << f.text << "\n";
  apps::Cleanup clean;
  const std::string in = clean.add(pbt::ScratchPath("c19.webm"));
  const std::string out = clean.add(pbt::ScratchPath("c19.ts"));
  apps::WriteFile(in, f.data);
  Sink sink;
  {
    Webm2Pes conv(in, &sink);
    if (!conv.ConvertToPacketReceiver()) c.fail("ConvertToPacketReceiver fails");
  }
  {
    VpxPes2Ts conv(in, out);
    if (!conv.ConvertToFile()) c.fail("ConvertToFile fails");
  }
  std::string ts;
  if (!apps::ReadFile(out, &ts)) c.fail("no output");
  if (ts.size() % 188) c.fail("size is not a multiple of 188");
  std::vector<Bytes> units;
  int last = -1;
  size_t padded = 0;
  for (size_t p = 0; p < ts.size(); p += 188) {
    const uint8_t* b = (const uint8_t*)ts.data() + p;
    std::ostringstream at;
    at << "TS packet " << p / 188 << " (" << pbt::Hex(b, 16) << "): ";
    if (b[0] != 0x47) c.fail(at.str() + "sync byte");
    if (b[1] & 0x80) c.fail(at.str() + "error indicator");
    if (((b[1] & 0x1F) << 8 | b[2]) != 0x20) c.fail(at.str() + "PID");
    if (b[3] & 0xC0) c.fail(at.str() + "scrambling");
    if (!(b[3] & 0x10)) c.fail(at.str() + "no payload");
    const int cc = b[3] & 15;
    if (last >= 0 && cc != ((last + 1) & 15)) {
      at << "continuity counter " << cc << " after " << last;
      c.fail(at.str());
    }
    last = cc;
    size_t start = 4;
    if (b[3] & 0x20) {
      ++padded;
      const size_t len = b[4];
      if (len > 182) c.fail(at.str() + "adaptation field length");
      start = 5 + len;
      if (len && b[5]) c.fail(at.str() + "adaptation field flags");
      for (size_t k = 6; k < start; ++k)
        if (b[k] != 0xFF) c.fail(at.str() + "stuffing");
    }
    if (b[1] & 0x40) {
      units.push_back(Bytes());
      if (188 - start >= 4 &&
          (b[start] || b[start + 1] || b[start + 2] != 1 || b[start + 3] != 0xE0))
        c.fail(at.str() + "payload unit does not start with a PES packet");
    } else if (units.empty()) {
      c.fail(at.str() + "payload before the first payload unit");
    }
    units.back().insert(units.back().end(), b + start, b + 188);
  }
  pbt::CheckEq(c, units.size(), sink.packets.size(), "payload units");
  for (size_t k = 0; k < units.size(); ++k) {
    const size_t rest = sink.packets[k].size() % 184;
    if (rest == 183) c.label("183 bytes in the last packet");
    if (rest == 0) c.label("no padding");
    if (units[k] != sink.packets[k]) {
      std::ostringstream o;
      o << "payload unit " << k << " of " << units[k].size() << " bytes is not the PES of "
        << sink.packets[k].size() << " bytes";
      c.fail(o.str());
    }
  }
  // And the PES is the one that holds the frames.
  Bytes all;
  for (auto& u : units) all.insert(all.end(), u.begin(), u.end());
  std::vector<pesgen::Packet> pk;
  std::string err;
  if (!pesgen::DecodePes(all, &pk, &err)) c.fail("malformed PES: " + err);
  err = pesgen::CheckFrames(pesgen::Join(pk), f.frames);
  if (!err.empty()) c.fail("PES " + err);
  if (units.size() > 1 && padded) c.nontrivial();
  if (ts.size() / 188 > 16) c.label("continuity counter wraps");
  if (!units.empty() && g.p(10)) {
    c.label("output full");
    VpxPes2Ts conv(in, "/dev/full");
    if (conv.ConvertToFile()) c.fail("failure to write the output not reported");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C19";
  p.level = "exploration";
  p.rule =
      "WebM files with 1-4 tracks of arbitrary numbers, 0-20 VP8 or VP9 frames of 1 byte to three "
      "PES fragments (superframes, lacing), converted to a transport stream that an independent "
      "demultiplexer reads.  Non-trivial: more than one payload unit and at least one padded packet";
  p.suites = {{"ts", TsSuite, 120000, 3000000, true}};
  p.assumptions = {"a payload unit is everything written for one block frame (several PES packets "
                   "when it is fragmented or a superframe)"};
  return pbt::Main(argc, argv, p);
}
