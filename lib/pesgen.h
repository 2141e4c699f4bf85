// Frames, WebM files and an independent decoder of the PES wire format for the
// checks of m2ts.
#ifndef VERIF_PESGEN_H_
#define VERIF_PESGEN_H_

#include <algorithm>
#include <functional>

#include "docgen.h"
#include "pbt.h"

namespace pesgen {

using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;

const size_t kMaxPayload = 32768;

// A frame as stored in a block and what it means: one or several VPx frames.
struct Frame {
  Bytes data;
  std::vector<Bytes> parts;
  int64_t ns = 0;
};

// Bytes rich in runs of zeros, ones and threes.
inline Bytes Payload(Gen& g, size_t n) {
  static const uint8_t kAlphabet[] = {0, 0, 0, 0, 1, 3, 2, 0x47};
  Bytes b;
  if (n <= 48) {
    for (size_t k = 0; k < n; ++k)
      b.push_back(g.p(10) ? (uint8_t)g.u(0, 255) : kAlphabet[g.u(0, 7)]);
    return b;
  }
  b = g.blob(n);
  const int mode = (int)g.u(0, 3);
  for (size_t k = 0; k < n; ++k) {
    switch (mode) {
      case 0: b[k] = b[k] & 0x80 ? kAlphabet[b[k] & 7] : b[k]; break;
      case 1: b[k] = kAlphabet[b[k] & 7]; break;
      case 2: b[k] = b[k] % 50 ? 0 : kAlphabet[4 + (b[k] & 1)]; break;
      default: break;
    }
  }
  return b;
}

inline size_t Size(Gen& g, Ctx& c, bool big) {
  if (big && g.p(12)) {
    const size_t k = g.u(1, 3);
    c.label("fragmented or almost");
    return k * kMaxPayload - 30 + g.u(0, 60);
  }
  if (g.p(10)) return g.u(1, 1500);
  return g.small(1, 60);
}

// allow_small_superframe: content shorter than the index.
inline Frame MakeFrame(Gen& g, Ctx& c, bool vp9, bool big) {
  Frame f;
  if (vp9 && g.p(25)) {
    c.label("superframe");
    const size_t n = g.u(1, 8);
    size_t longest = 0;
    Bytes all;
    for (size_t k = 0; k < n; ++k) {
      f.parts.push_back(Payload(g, Size(g, c, big && n < 3)));
      longest = std::max(longest, f.parts.back().size());
      all.insert(all.end(), f.parts.back().begin(), f.parts.back().end());
    }
    int mag = 1;
    while (mag < 4 && (longest >> (8 * mag))) ++mag;
    mag = std::min(4, mag + (g.p(25) ? (int)g.u(0, 3) : 0));
    const uint8_t marker = (uint8_t)(0xC0 | (mag - 1) << 3 | (n - 1));
    if (all.size() < 2 + mag * n) c.label("superframe shorter than its index");
    all.push_back(marker);
    for (auto& p : f.parts)
      for (int k = 0; k < mag; ++k) all.push_back((uint8_t)(p.size() >> (8 * k)));
    all.push_back(marker);
    f.data = all;
  } else {
    f.data = Payload(g, Size(g, c, big));
    // A frame whose last byte reads as a superframe marker is not produced by
    // encoders (they append a byte).
    if (vp9 && (f.data.back() & 0xE0) == 0xC0) f.data.back() &= 0x1F;
    f.parts.push_back(f.data);
  }
  return f;
}

inline std::string ShowFrame(const Frame& f) {
  std::ostringstream o;
  o << f.ns << " ns, " << f.data.size() << " bytes, " << f.parts.size() << " part(s) "
    << pbt::Hex(f.data, 80);
  return o.str();
}

// ---- decoder of the wire format ----
struct Packet {
  bool has_pts = false;
  uint64_t pts = 0;
  uint32_t frame_length = 0;  // stated by the BCMV header
  Bytes payload;
};

// Reads n bytes at *pos, dropping the emulation prevention bytes; a start code
// within the bytes read is an error.
inline bool Unescape(const Bytes& d, size_t* pos, size_t n, Bytes* out, std::string* err) {
  int zeros = 0;
  size_t got = 0;
  while (got < n) {
    if (*pos >= d.size()) {
      *err = "stream ends within a packet";
      return false;
    }
    const uint8_t b = d[(*pos)++];
    if (zeros >= 2 && b == 3) {
      zeros = 0;
      if (*pos >= d.size() || (d[*pos] != 1 && d[*pos] != 3)) {
        *err = "emulation prevention byte before neither 1 nor 3";
        return false;
      }
      out->push_back(d[(*pos)++]);
      ++got;
      continue;
    }
    if (zeros >= 2 && b == 1) {
      *err = "start code within a packet";
      return false;
    }
    zeros = b == 0 ? zeros + 1 : 0;
    out->push_back(b);
    ++got;
  }
  return true;
}

inline bool DecodePes(const Bytes& d, std::vector<Packet>* out, std::string* err) {
  size_t pos = 0;
  uint64_t left = 0;  // of the current frame
  while (pos < d.size()) {
    Packet p;
    if (d.size() - pos < 6 || d[pos] || d[pos + 1] || d[pos + 2] != 1 || d[pos + 3] != 0xE0) {
      *err = "no video PES start code at " + std::to_string(pos);
      return false;
    }
    size_t len = (size_t)d[pos + 4] << 8 | d[pos + 5];
    pos += 6;
    Bytes h;
    if (len < 9 || !Unescape(d, &pos, 9, &h, err)) {
      if (err->empty()) *err = "packet too short for its header";
      return false;
    }
    len -= 9;
    if ((h[0] & 0xC0) != 0x80 || (h[0] & 0x30) || (h[1] & 0x7F) || h[2] != 6) {
      *err = "optional header " + pbt::Hex(h);
      return false;
    }
    p.has_pts = (h[1] & 0x80) != 0;
    if (p.has_pts) {
      if ((h[3] & 0xF1) != 0x21 || !(h[5] & 1) || !(h[7] & 1) || h[8] != 0xFF) {
        *err = "PTS " + pbt::Hex(h);
        return false;
      }
      p.pts = (uint64_t)(h[3] >> 1 & 7) << 30 | (uint64_t)h[4] << 22 |
              (uint64_t)(h[5] >> 1) << 15 | (uint64_t)h[6] << 7 | h[7] >> 1;
    } else {
      for (int k = 3; k < 9; ++k)
        if (h[k] != 0xFF) {
          *err = "stuffing " + pbt::Hex(h);
          return false;
        }
    }
    if (p.has_pts != (left == 0)) {
      *err = "fragment without a frame, or frame within a frame";
      return false;
    }
    if (p.has_pts) {
      Bytes b;
      if (len < 10 || !Unescape(d, &pos, 10, &b, err)) {
        if (err->empty()) *err = "packet too short for a BCMV header";
        return false;
      }
      len -= 10;
      if (b[0] != 'B' || b[1] != 'C' || b[2] != 'M' || b[3] != 'V' || b[8] || b[9]) {
        *err = "BCMV header " + pbt::Hex(b);
        return false;
      }
      p.frame_length = (uint32_t)b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7];
      if (p.frame_length <= 10) {
        *err = "BCMV length";
        return false;
      }
      left = p.frame_length - 10;
    }
    if (len == 0 || len > left) {
      *err = "packet length";
      return false;
    }
    if (len > kMaxPayload) {
      *err = "payload of more than the maximum";
      return false;
    }
    if (!Unescape(d, &pos, len, &p.payload, err)) return false;
    left -= len;
    out->push_back(p);
  }
  if (left) {
    *err = "stream ends within a frame";
    return false;
  }
  return true;
}

// Joins the fragments.
inline std::vector<Packet> Join(const std::vector<Packet>& v) {
  std::vector<Packet> out;
  for (auto& p : v) {
    if (p.has_pts)
      out.push_back(p);
    else
      out.back().payload.insert(out.back().payload.end(), p.payload.begin(), p.payload.end());
  }
  return out;
}

// The 33-bit presentation time is within one tick of the frame's time.
inline bool PtsOk(uint64_t pts, int64_t ns) {
  const uint64_t mask = (1ull << 33) - 1;
  const __int128 ticks = (__int128)ns * 9 / 100000;
  for (int d = -1; d <= 1; ++d)
    if (pts == ((uint64_t)(ticks + d) & mask)) return true;
  return false;
}

inline std::string CheckFrames(const std::vector<Packet>& got, const std::vector<Frame>& want) {
  size_t k = 0;
  for (size_t n = 0; n < want.size(); ++n) {
    for (size_t q = 0; q < want[n].parts.size(); ++q, ++k) {
      std::ostringstream o;
      o << "frame " << n << " part " << q << ": ";
      if (k >= got.size()) return o.str() + "missing";
      if (got[k].payload != want[n].parts[q])
        return o.str() + "payload differs: " + pbt::Hex(got[k].payload, 60);
      if (got[k].frame_length != want[n].parts[q].size() + 10) return o.str() + "BCMV length";
      if (!PtsOk(got[k].pts, want[n].ns)) {
        o << "PTS " << got[k].pts << " for " << want[n].ns << " ns";
        return o.str();
      }
    }
  }
  if (k != got.size()) return "frames that are not in the input";
  return "";
}

// ---- WebM input ----
struct File {
  Bytes data;
  std::vector<Frame> frames;  // of the track that is converted
  bool vp9 = false;
  std::string text;
};

inline File MakeFile(Gen& g, Ctx& c, bool big) {
  using docgen::El;
  using docgen::Master;
  using docgen::Uint;
  using docgen::Str;
  using namespace ebml;
  File f;
  f.vp9 = g.b();
  std::ostringstream text;
  docgen::Doc doc;
  doc.ebml = Master(kEBML);
  doc.ebml.kids.push_back(Str(kDocType, "webm"));
  doc.segment = Master(kSegment);
  uint64_t scale = 1000000;
  El info = Master(kInfo);
  if (g.p(40)) {
    scale = g.pick<uint64_t>({1000000, 100000, 1, 999, 1000000000, 333333, 40000000});
    info.kids.push_back(Uint(kTimecodeScale, scale));
  } else {
    info.kids.push_back(Str(kTitle, "t"));
  }
  doc.segment.kids.push_back(info);
  const size_t nt = g.u(1, 4);
  const size_t video = g.u(0, nt - 1);
  std::vector<uint64_t> numbers;
  El tracks = Master(kTracks);
  uint64_t video_number = 0;
  text << (f.vp9 ? "VP9" : "VP8") << " scale " << scale << " tracks";
  for (size_t t = 0; t < nt; ++t) {
    uint64_t num = g.p(70) ? g.u(1, 6) : g.u(1, 127);
    while (std::find(numbers.begin(), numbers.end(), num) != numbers.end()) num = num % 127 + 1;
    numbers.push_back(num);
    int type = 2;
    if (t == video)
      type = 1;
    else if (t > video)
      type = (int)g.pick<int>({2, 17, 1});
    else
      type = (int)g.pick<int>({2, 17});
    if (t == video) video_number = num;
    El te = Master(kTrackEntry);
    te.kids.push_back(Uint(kTrackNumber, num));
    te.kids.push_back(Uint(kTrackUID, t + 1));
    te.kids.push_back(Uint(kTrackType, type));
    te.kids.push_back(Str(kCodecID, type == 1 ? (f.vp9 ? "V_VP9" : "V_VP8")
                                    : type == 2 ? "A_OPUS"
                                                : "D_X"));
    if (type == 1) {
      El v = Master(kVideo);
      v.kids.push_back(Uint(kPixelWidth, 16));
      v.kids.push_back(Uint(kPixelHeight, 16));
      te.kids.push_back(v);
    } else if (type == 2) {
      El a = Master(kAudio);
      a.kids.push_back(Uint(kChannels, 2));
      te.kids.push_back(a);
    }
    tracks.kids.push_back(te);
    text << " " << num << ":" << type;
  }
  if (video_number != video + 1) c.label("number is not the position");
  doc.segment.kids.push_back(tracks);
  const size_t nc = g.u(1, 4);
  uint64_t tc = g.p(30) ? g.u(0, 1ull << 26) : 0;
  if (tc > INT64_MAX / 4 / scale) tc = 0;
  for (size_t q = 0; q < nc; ++q) {
    El cl = Master(kCluster);
    cl.unknown = q + 1 == nc && g.p(15);
    cl.kids.push_back(Uint(kTimecode, tc));
    const size_t nb = g.u(0, 5);
    uint64_t rel = 0;
    for (size_t k = 0; k < nb; ++k) {
      docgen::DocBlock b;
      b.track = g.p(70) ? video_number : g.pick(numbers);
      b.rel = (int16_t)rel;
      b.simple = g.p(80);
      b.key = g.b();
      b.lacing = g.p(15) ? (int)g.u(1, 3) : 0;
      size_t nf = 1;
      if (b.lacing) nf = g.u(b.lacing == 3 ? 2 : 1, 4);
      std::vector<Frame> fs;
      for (size_t m = 0; m < nf; ++m) {
        Frame fr = MakeFrame(g, c, f.vp9, big && !b.lacing);
        if (b.lacing == 2) {
          fr.data = Payload(g, 7);
          fr.data.back() &= 0x1F;
          fr.parts.assign(1, fr.data);
        }
        fr.ns = (int64_t)((tc + rel) * scale);
        fs.push_back(fr);
        b.frames.push_back(fr.data);
      }
      const Bytes body = docgen::BlockBody(g, &b, false);
      if (b.simple) {
        cl.kids.push_back(docgen::Bin(kSimpleBlock, body));
      } else {
        El gr = Master(kBlockGroup);
        gr.kids.push_back(docgen::Bin(kBlock, body));
        cl.kids.push_back(gr);
      }
      if (b.track == video_number) {
        for (auto& fr : fs) {
          f.frames.push_back(fr);
          text << "\n  " << ShowFrame(fr);
        }
      }
      rel += g.u(0, 5000);
      if (rel > 32767) rel = 32767;
    }
    tc += rel + g.u(0, 100);
    doc.segment.kids.push_back(cl);
  }
  doc.Finish();
  f.data = doc.data;
  f.text = text.str();
  return f;
}

}  // namespace pesgen

#endif  // VERIF_PESGEN_H_
