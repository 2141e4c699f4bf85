#include "docgen.h"

#include <algorithm>
#include <cstdio>

namespace docgen {

using namespace ebml;

El Master(uint32_t id) {
  El e;
  e.id = id;
  e.type = kMaster;
  return e;
}
El Uint(uint32_t id, uint64_t v, int len) {
  El e;
  e.id = id;
  e.type = kUint;
  e.u = v;
  PutUintN(&e.body, v, len ? len : MinUintLength(v));
  return e;
}
El Int(uint32_t id, int64_t v, int len) {
  El e;
  e.id = id;
  e.type = kInt;
  e.i = v;
  PutUintN(&e.body, (uint64_t)v, len ? len : MinIntLength(v));
  return e;
}
El Float(uint32_t id, double v, int len) {
  El e;
  e.id = id;
  e.type = kFloat;
  if (len == 4) {
    float f = (float)v;
    uint32_t u;
    memcpy(&u, &f, 4);
    PutUintN(&e.body, u, 4);
    e.f = f;
  } else {
    uint64_t u;
    memcpy(&u, &v, 8);
    PutUintN(&e.body, u, 8);
    e.f = v;
  }
  return e;
}
El Str(uint32_t id, const std::string& s) {
  El e;
  e.id = id;
  e.type = kString;
  e.s = s;
  e.body.assign(s.begin(), s.end());
  return e;
}
El Bin(uint32_t id, const Bytes& b) {
  El e;
  e.id = id;
  e.type = kBinary;
  e.body = b;
  return e;
}

uint64_t Layout(El* e, uint64_t pos) {
  // Sizes first (they do not depend on the position).
  uint64_t n = 0;
  if (e->master()) {
    for (auto& k : e->kids) n += Layout(&k, 0);
  } else {
    n = e->body.size() + e->hole;
  }
  e->size = n;
  int sl = e->size_len;
  if (e->unknown) {
    if (!sl) sl = 1;
  } else if (sl < MinSizeLength(e->fake ? e->fake_size : n)) {
    sl = MinSizeLength(e->fake ? e->fake_size : n);
  }
  e->size_len = sl;
  e->header = IdLength(e->id) + sl;
  // Positions.
  std::function<void(El*, uint64_t)> place = [&](El* x, uint64_t p) {
    x->pos = p;
    uint64_t q = p + x->header;
    if (x->master())
      for (auto& k : x->kids) {
        place(&k, q);
        q = k.end();
      }
  };
  place(e, pos);
  return e->header + n;
}

void Serialize(const El& e, Bytes* out) {
  PutId(out, e.id);
  PutSize(out, e.unknown ? kUnknown : e.fake ? e.fake_size : e.size, e.size_len);
  if (e.master())
    for (auto& k : e.kids) Serialize(k, out);
  else
    Append(out, e.body);
}

void InsertHole(Gen& g, El* e) {
  El* at = e;
  if (e->id == ebml::kSegment && g.p(30)) {
    std::vector<El*> clusters;
    for (auto& k : e->kids)
      if (k.id == ebml::kCluster) clusters.push_back(&k);
    if (!clusters.empty()) at = g.pick(clusters);
  }
  El v = Bin(ebml::kVoid, Bytes(g.u(0, 3), 0));
  v.hole = g.pick<uint64_t>({1ull << 31, 1ull << 32, 1ull << 33, 1ull << 40}) -
           g.u(0, 300);
  // Most of the document shall lie behind the hole.
  size_t k = g.p(50) ? g.u(0, at->kids.size()) : g.u(0, at->kids.size() / 2);
  if (at->id == ebml::kCluster && k == 0 && !at->kids.empty()) k = 1;
  // A Void behind an element of unknown size would be taken as its child.
  while (k > 0 && at->kids[k - 1].unknown) --k;
  at->kids.insert(at->kids.begin() + k, v);
}

ebml::Hole FindHole(const El& e) {
  ebml::Hole h;
  if (e.hole) {
    h.len = e.hole;
    h.at = e.end() - e.hole;
  }
  if (e.master())
    for (auto& k : e.kids) {
      const ebml::Hole x = FindHole(k);
      if (x.len) h = x;
    }
  return h;
}

std::string Describe(const El& e, int depth) {
  std::string s(depth * 1, ' ');
  s += IdName(e.id);
  if (e.unknown) s += "(unknown size)";
  char b[64];
  switch (e.master() ? kMaster : e.known_id ? e.type : kBinary) {
    case kMaster:
      s += "\n";
      for (auto& k : e.kids) {
        s += Describe(k, depth + 1);
        if (s.size() > 6000) return s + "...\n";
      }
      return s;
    case kUint:
      s += "=" + std::to_string(e.u);
      break;
    case kInt:
    case kDate:
      s += "=" + std::to_string(e.i);
      break;
    case kFloat:
      snprintf(b, sizeof b, "=%g", e.f);
      s += b;
      break;
    case kString:
    case kUtf8:
      s += "='" + e.s.substr(0, 40) + "'";
      break;
    default:
      s += "[" + std::to_string(e.body.size()) + "]=" + pbt::Hex(e.body, 12);
  }
  return s + "\n";
}

namespace {

void PutNumber(Bytes* out, uint64_t v, int len) { PutSize(out, v, len); }

// Signed EBML lacing difference.
void PutDelta(Bytes* out, int64_t d, bool odd, Gen& g) {
  int len = 1;
  for (; len <= 8; ++len) {
    const int64_t bias = (1ll << (7 * len - 1)) - 1;
    if (d >= -bias && d <= bias) break;
  }
  if (odd && g.p(20) && len < 8) ++len;
  const int64_t bias = (1ll << (7 * len - 1)) - 1;
  const uint64_t v = (uint64_t)(d + bias);
  // A length of our choice: bypass PutSize's shortest form.
  PutUintN(out, v | (1ull << (7 * len)), len);
}

}  // namespace

Bytes BlockBody(Gen& g, DocBlock* b, bool odd) {
  Bytes o;
  int tl = MinSizeLength(b->track);
  if (odd && g.p(10)) tl = std::min(8, tl + (int)g.u(0, 2));
  PutNumber(&o, b->track, tl);
  PutUintN(&o, (uint16_t)b->rel, 2);
  b->flags = (uint8_t)(b->lacing == 1 ? 2 : b->lacing == 2 ? 4 : b->lacing == 3 ? 6 : 0);
  if (b->simple) {
    if (b->key) b->flags |= 0x80;
    if (b->discardable) b->flags |= 1;
  }
  if (b->invisible) b->flags |= 8;
  o.push_back(b->flags);
  const size_t n = b->frames.size();
  if (b->lacing) {
    o.push_back((uint8_t)(n - 1));
    if (b->lacing == 1) {
      for (size_t k = 0; k + 1 < n; ++k) {
        size_t s = b->frames[k].size();
        while (s >= 255) {
          o.push_back(255);
          s -= 255;
        }
        o.push_back((uint8_t)s);
      }
    } else if (b->lacing == 3) {
      for (size_t k = 0; k + 1 < n; ++k) {
        if (k == 0)
          PutNumber(&o, b->frames[0].size(),
                    odd && g.p(20) ? MinSizeLength(b->frames[0].size()) + 1 : 0);
        else
          PutDelta(&o, (int64_t)b->frames[k].size() - (int64_t)b->frames[k - 1].size(),
                   odd, g);
      }
    }
  }
  b->frame_off.clear();
  for (auto& f : b->frames) {
    b->frame_off.push_back(o.size());
    Append(&o, f);
  }
  return o;
}

void Doc::CollectBlocks() {
  size_t ci = 0;
  for (auto& cl : segment.kids) {
    if (cl.id != kCluster) continue;
    for (auto& e : cl.kids) {
      const El* bl = nullptr;
      if (e.block >= 0) bl = &e;
      else if (e.id == kBlockGroup)
        for (auto& k : e.kids)
          if (k.block >= 0) bl = &k;
      if (!bl) continue;
      DocBlock& b = blocks[bl->block];
      b.cluster = ci;
      b.el_pos = bl->pos;
      b.body_pos = bl->body_pos();
      b.body_size = bl->size;
      b.entry_pos = e.pos;
      if (e.id == kBlockGroup) {
        b.refs.clear();
        for (auto& k : e.kids)
          if (k.id == kReferenceBlock) b.refs.push_back(k.i);
      }
    }
    ++ci;
  }
}

void Doc::Finish() {
  data.clear();
  const uint64_t n = Layout(&ebml, 0);
  Layout(&segment, n);
  Serialize(ebml, &data);
  Serialize(segment, &data);
  CollectBlocks();
}

namespace {

struct Maker {
  Gen& g;
  const Options& o;
  unsigned wide = o.wide;

  // How many of an element that may be repeated.
  unsigned Count() {
    if (wide && g.p(25)) {
      --wide;
      return (unsigned)(g.p(60) ? g.u(4, 40) : g.u(40, 400));
    }
    return (unsigned)g.u(1, 3);
  }

  bool Opt() { return g.p(o.density); }

  El Finish(El e) {
    if (o.odd_sizes && g.p(8)) e.size_len = (int)g.u(1, 8);
    return e;
  }

  uint64_t UintValue(uint32_t id) {
    switch (id) {
      case kTimecodeScale: return g.p(70) ? 1000000 : g.edgy(1, 1000000000);
      case kTrackType: return g.pick<uint64_t>({1, 2, 0x11, 0x21, 3});
      case kPixelWidth: case kPixelHeight: return g.edgy(1, 20000);
      case kDisplayWidth: case kDisplayHeight: return g.edgy(1, 20000);
      case kDisplayUnit: return g.u(0, o.mkv ? 3 : 4);
      case kStereoMode: return g.u(0, o.mkv ? 3 : 14);
      case kFlagEnabled: case kFlagDefault: case kFlagForced: case kFlagLacing:
      case kTagDefault:
        return g.u(0, 1);
      case kFlagInterlaced: return g.u(0, 2);
      case kAlphaMode: return g.u(0, 1);
      case kAspectRatioType: return g.u(0, 2);
      case kChannels: return g.edgy(1, g.p(90) ? 255 : 1ull << 40);
      case kBitDepth: return g.edgy(1, 64);
      case kContentEncodingOrder: return g.u(0, 5);
      case kContentEncodingScope: return g.u(1, o.mkv ? 1 : 7);
      case kContentEncodingType: return g.u(0, 1);
      case kContentEncAlgo: return o.mkv ? 5 : g.u(0, 5);
      case kAESSettingsCipherMode: return o.mkv ? 1 : g.u(1, 2);
      case kMatrixCoefficients: return g.u(0, 10);
      case kChromaSitingHorz: case kChromaSitingVert: return g.u(0, 2);
      case kRange: return g.u(0, 3);
      case kTransferCharacteristics: return g.u(1, 18);
      case kPrimaries: return g.p(20) ? 22 : g.u(1, 10);
      case kProjectionType: return g.u(0, 3);
      default:
        if (g.p(60)) return g.small(0, 100000);
        return g.edgy(0, o.mkv ? (uint64_t)INT64_MAX : UINT64_MAX);
    }
  }

  double FloatValue(uint32_t id) {
    switch (id) {
      case kSamplingFrequency: case kOutputSamplingFrequency:
        return (double)g.u(1, 192000) / (g.p(25) ? 8 : 1);
      case kLuminanceMax: return (double)g.u(0, 99999) / 10;
      case kLuminanceMin: return (double)g.u(0, 9999) / 10;
      case kPrimaryRChromaticityX: case kPrimaryRChromaticityY:
      case kPrimaryGChromaticityX: case kPrimaryGChromaticityY:
      case kPrimaryBChromaticityX: case kPrimaryBChromaticityY:
      case kWhitePointChromaticityX: case kWhitePointChromaticityY:
        return (double)g.u(0, 1024) / 1024;
      case kDuration: return (double)g.small(1, 100000000);
      case kFrameRate: return (double)g.u(1, 240);
      default:
        return ((double)g.u(0, 200000) - 100000) / 64;
    }
  }

  El Leaf(uint32_t id) {
    const Schema* s = Lookup(id);
    El e;
    switch (s->type) {
      case kUint: {
        const uint64_t v = UintValue(id);
        int len = MinUintLength(v);
        if (o.padding && g.p(15)) len = (int)g.u(len, 8);
        e = Uint(id, v, len);
        break;
      }
      case kInt: {
        const uint64_t m = g.p(60) ? g.small(0, 100000) : g.edgy(0, 1ull << 62);
        const int64_t v = g.b() ? (int64_t)m : -(int64_t)m;
        int len = MinIntLength(v);
        if (o.padding && g.p(15)) len = (int)g.u(len, 8);
        e = Int(id, v, len);
        break;
      }
      case kDate: {
        e = Int(id, g.i(-1000000000000ll, 1000000000000000000ll), 8);
        e.type = kDate;
        break;
      }
      case kFloat:
        e = Float(id, FloatValue(id), g.b() ? 4 : 8);
        break;
      case kString:
      case kUtf8: {
        std::string v = g.p(90) ? g.str(20, o.mkv ? 1 : 0) : g.str(300, 100);
        if (id == kCodecID)
          v = g.pick<std::string>({"V_VP8", "V_VP9", "A_OPUS", "A_VORBIS", "V_AV1"});
        e = Str(id, v);
        e.type = s->type;
        if (o.padding && g.p(10)) {  // trailing zero bytes are padding
          e.body.resize(e.body.size() + g.u(1, 3), 0);
        }
        break;
      }
      default:
        if (id == kSeekID) {
          e = Bin(id, Bytes());
          const uint32_t v = g.p(80) ? g.pick<uint32_t>({kInfo, kTracks, kCues, kTags, kCluster})
                                     : g.pick<uint32_t>({kVoid, kDocType, kTimecodeScale});
          PutId(&e.body, v);
          e.u = v;
          return Finish(e);
        }
        e = Bin(id, g.blob(g.p(90) ? g.small(o.mkv ? 1 : 0, 40) : g.edgy(1, 400)));
    }
    if (o.empty_leaves && !o.mkv && g.p(3)) {
      // A zero-size leaf has the default value (or zero); the checks that look
      // at values handle it.
      e.body.clear();
      e.u = 0;
      e.i = 0;
      e.f = 0;
      e.s.clear();
    }
    return Finish(e);
  }

  El Foreign() {
    El e;
    // IDs that are well-formed but not in the schema.
    for (;;) {
      switch (g.u(0, 3)) {
        case 0: e.id = 0x80 | (uint32_t)g.u(1, 0x7E); break;
        case 1: e.id = 0x4000 | (uint32_t)g.u(0x80, 0x3FFE); break;
        case 2: e.id = 0x200000 | (uint32_t)g.u(0x4000, 0x1FFFFE); break;
        default: e.id = 0x10000000 | (uint32_t)g.u(0x200000, 0x0FFFFFFE); break;
      }
      if (!Lookup(e.id)) break;
      // Step away from a known ID (keeps replay deterministic).
      e.id = 0xEF;
      if (!Lookup(e.id)) break;
    }
    e.type = kBinary;
    e.known_id = false;
    e.body = g.blob(g.small(0, 30));
    return Finish(e);
  }
  El VoidEl() {
    El e = Bin(kVoid, Bytes());
    e.body.resize(g.small(0, 40), 0);
    return Finish(e);
  }

  static bool Multi(uint32_t id) {
    switch (id) {
      case kSeek: case kTrackEntry: case kCuePoint: case kCueTrackPositions:
      case kEditionEntry: case kChapterAtom: case kChapterDisplay: case kTag:
      case kSimpleTag: case kContentEncoding: case kBlockMore: case kTimeSlice:
      case kTagTrackUID: case kReferenceBlock: case kChapLanguage:
      case kChapCountry:
        return true;
    }
    return false;
  }

  void Extras(El* m, bool allow_foreign) {
    if (o.voids && g.p(8)) m->kids.push_back(VoidEl());
    if (o.foreign && allow_foreign && g.p(6)) m->kids.push_back(Foreign());
  }
  void Shuffle(El* m) {
    if (!o.shuffle || m->kids.size() < 2 || !g.p(60)) return;
    for (size_t k = m->kids.size() - 1; k > 0; --k)
      std::swap(m->kids[k], m->kids[k - g.u(0, k)]);
  }

  // A master with random children according to the schema.
  El Random(uint32_t id, int depth) {
    El m = Master(id);
    for (auto& row : SchemaTable()) {
      const Schema& s = row.second;
      if (s.parent != id) continue;
      if (o.mkv && Multi(s.id) && s.type != kMaster &&
          s.id != kReferenceBlock && s.id != kTagTrackUID) {
        // mkvparser keeps one language and country
        if (Opt()) m.kids.push_back(Leaf(s.id));
        continue;
      }
      unsigned n = 0;
      if (Multi(s.id)) {
        n = Opt() ? Count() : 0;
      } else {
        n = Opt() ? 1 : 0;
      }
      for (unsigned k = 0; k < n; ++k)
        m.kids.push_back(s.type == kMaster ? Random(s.id, depth + 1) : Leaf(s.id));
    }
    // Recursive elements.
    if ((id == kChapterAtom || id == kSimpleTag) && depth < 6 && g.p(15) && !o.mkv)
      m.kids.push_back(Random(id, depth + 1));
    Extras(&m, true);
    Shuffle(&m);
    if (o.mkv) FixMkv(&m);
    return Finish(m);
  }

  // Constraints of mkvparser that relate children to each other.
  void FixMkv(El* m) {
    auto drop = [&](uint32_t id) {
      m->kids.erase(std::remove_if(m->kids.begin(), m->kids.end(),
                                   [&](const El& e) { return e.id == id; }),
                    m->kids.end());
    };
    auto need = [&](uint32_t id, std::function<El()> make) {
      if (!m->child(id)) m->kids.push_back(make());
    };
    auto leaf = [&](uint32_t id) { need(id, [&] { return Leaf(id); }); };
    auto master = [&](uint32_t id) { need(id, [&] { return Random(id, 0); }); };
    switch (m->id) {
      case kSeek:
        m->kids.clear();
        m->kids.push_back(Leaf(kSeekID));
        m->kids.push_back(Leaf(kSeekPosition));
        break;
      case kCues:
        master(kCuePoint);
        break;
      case kCuePoint:
        leaf(kCueTime);
        master(kCueTrackPositions);
        break;
      case kCueTrackPositions:
        drop(kCueTrack);
        m->kids.push_back(Uint(kCueTrack, g.p(80) ? g.u(1, 4) : g.edgy(1, 1000)));
        leaf(kCueClusterPosition);
        break;
      case kContentEncodings:
        master(kContentEncoding);
        break;
      case kContentEncoding:
        if (!m->child(kContentCompression)) master(kContentEncryption);
        break;
      case kContentCompression:
        leaf(kContentCompAlgo);
        break;
      case kVideo:
        drop(kPixelWidth);
        drop(kPixelHeight);
        m->kids.push_back(Leaf(kPixelWidth));
        m->kids.push_back(Leaf(kPixelHeight));
        break;
      case kMasteringMetadata:
      case kColour:
      case kProjection:
        // No unknown children, no voids there.
        m->kids.erase(std::remove_if(m->kids.begin(), m->kids.end(),
                                     [](const El& e) {
                                       return !e.known_id || e.id == kVoid;
                                     }),
                      m->kids.end());
        break;
      default:
        break;
    }
  }
};

}  // namespace

Doc Generate(Gen& g, Ctx& c, const Options& o) {
  Doc d;
  Maker m{g, o};
  // EBML header.
  d.ebml = Master(kEBML);
  auto opt = [&](El e) {
    if (o.mkv || g.p(80)) d.ebml.kids.push_back(m.Finish(e));
  };
  opt(Uint(kEBMLVersion, 1));
  opt(Uint(kEBMLReadVersion, 1));
  opt(Uint(kEBMLMaxIDLength, 4));
  opt(Uint(kEBMLMaxSizeLength, 8));
  opt(Str(kDocType, g.b() ? "webm" : "matroska"));
  opt(Uint(kDocTypeVersion, g.u(1, 4)));
  opt(Uint(kDocTypeReadVersion, g.u(1, 2)));
  m.Extras(&d.ebml, !o.mkv);
  if (o.mkv)  // refuses empty elements there
    for (auto& k : d.ebml.kids)
      if (k.body.empty()) k.body.resize(1, 0);
  m.Shuffle(&d.ebml);
  if (!o.mkv || g.p(20)) d.ebml = m.Finish(d.ebml);

  // Tracks.
  const int nt = (int)g.u(1, o.max_tracks);
  El tracks = Master(kTracks);
  std::vector<bool> used(128, false);
  for (int k = 0; k < nt; ++k) {
    DocTrack t;
    t.number = g.p(70) ? (uint64_t)(k + 1) : g.u(1, 126);
    while (used[t.number]) t.number = t.number % 126 + 1;
    used[t.number] = true;
    t.uid = g.edgy(1, UINT64_MAX);
    t.type = g.pick<uint64_t>({1, 2, 1, 2, 0x11, 0x21});
    El e = Master(kTrackEntry);
    for (auto& row : SchemaTable()) {
      const Schema& s = row.second;
      if (s.parent != kTrackEntry) continue;
      switch (s.id) {
        case kTrackNumber: e.kids.push_back(m.Finish(Uint(s.id, t.number))); break;
        case kTrackUID: e.kids.push_back(m.Finish(Uint(s.id, t.uid))); break;
        case kTrackType: e.kids.push_back(m.Finish(Uint(s.id, t.type))); break;
        case kVideo:
          if (t.type == 1) e.kids.push_back(m.Random(kVideo, 0));
          break;
        case kAudio:
          if (t.type == 2) e.kids.push_back(m.Random(kAudio, 0));
          break;
        case kContentEncodings:
          if ((!o.mkv || t.type == 1 || t.type == 2) && m.Opt())
            e.kids.push_back(m.Random(s.id, 0));
          break;
        default:
          if (m.Opt()) e.kids.push_back(m.Leaf(s.id));
      }
    }
    m.Extras(&e, true);
    m.Shuffle(&e);
    tracks.kids.push_back(m.Finish(e));
    d.tracks.push_back(t);
  }
  m.Extras(&tracks, !o.mkv);
  m.Shuffle(&tracks);

  El info = m.Random(kInfo, 0);
  if (auto* ts = info.child(kTimecodeScale))
    if (!ts->body.empty()) d.scale = ts->u;

  d.segment = Master(kSegment);
  auto& S = d.segment.kids;
  if (g.p(20)) S.push_back(m.Random(kSeekHead, 0));
  if (o.voids && g.p(20)) S.push_back(m.VoidEl());
  S.push_back(info);
  S.push_back(m.Finish(tracks));
  if (!o.mkv && g.p(30) && o.shuffle) std::swap(S[S.size() - 1], S[S.size() - 2]);
  if (g.p(25)) S.push_back(m.Random(kChapters, 0));
  if (g.p(25)) S.push_back(m.Random(kTags, 0));
  if (o.cues && g.p(15)) S.push_back(m.Random(kCues, 0));
  if (o.foreign && g.p(10)) S.push_back(m.Foreign());

  // Clusters.
  const size_t nc = g.u(0, o.max_clusters);
  uint64_t tc = g.p(80) ? g.small(0, 100000)
                        : g.edgy(0, std::min<uint64_t>(1ull << 40, (1ull << 62) / d.scale));
  for (size_t k = 0; k < nc; ++k) {
    El cl = Master(kCluster);
    if (k) tc += g.p(80) ? g.u(0, 1000) : g.u(0, 100000);
    El tcel = m.Finish(Uint(kTimecode, tc, o.padding && g.p(15) ? 8 : 0));
    std::vector<El> rest;
    if (m.Opt()) rest.push_back(m.Leaf(kPosition));
    if (m.Opt()) rest.push_back(m.Leaf(kPrevSize));
    m.Shuffle(&cl);
    const size_t nb = g.small(0, o.max_blocks);
    int64_t rel = 0;
    for (size_t j = 0; j < nb; ++j) {
      DocBlock b;
      b.cluster = k;
      b.cluster_tc = tc;
      b.simple = g.p(60);
      b.track = g.pick(d.tracks).number;
      if (o.monotone)
        rel += (int64_t)g.u(0, 20);
      else
        rel = o.negative_rel && g.p(10) ? -(int64_t)g.u(0, std::min<uint64_t>(tc, 300))
              : g.p(90)                ? (int64_t)g.u(0, 500)
                                       : (int64_t)g.edgy(0, 32767);
      b.rel = (int16_t)std::min<int64_t>(rel, 32767);
      b.key = g.b();
      b.invisible = g.p(10);
      b.discardable = g.p(10);
      b.lacing = o.lacing && g.p(35) ? (int)g.u(1, 3) : 0;
      const size_t nf = b.lacing ? (g.p(90) ? g.u(b.lacing == 3 ? 2 : 1, 6) : g.u(2, 40)) : 1;
      const size_t fixed = g.u(1, o.max_frame);
      for (size_t q = 0; q < nf; ++q) {
        size_t n = b.lacing == 2 ? fixed
                   : g.p(6)      ? g.pick<size_t>({127, 128, 254, 255, 256, 510, 511})
                                 : g.u(1, o.max_frame);
        b.frames.push_back(g.blob(n));
      }
      El be;
      be.id = b.simple ? kSimpleBlock : kBlock;
      be.type = kBinary;
      be.block = (int)d.blocks.size();
      if (b.simple) {
        be.body = BlockBody(g, &b, !o.mkv);
        rest.push_back(m.Finish(be));
      } else {
        El gr = Master(kBlockGroup);
        b.key = true;
        for (auto& row : SchemaTable()) {
          const Schema& s = row.second;
          if (s.parent != kBlockGroup) continue;
          switch (s.id) {
            case kBlock: break;
            case kReferenceBlock: {
              const size_t nr = g.p(50) ? (o.wide ? m.Count() : g.u(1, o.mkv ? 2 : 3)) : 0;
              for (size_t q = 0; q < nr; ++q) {
                const int64_t r = g.i(-500, 500);
                b.refs.push_back(r);
                El e = m.Finish(Int(s.id, r));
                gr.kids.push_back(e);
                b.key = false;
              }
              break;
            }
            case kBlockDuration:
              if (m.Opt()) {
                b.has_duration = true;
                b.duration = g.edgy(0, 1ull << 40);
                gr.kids.push_back(m.Finish(Uint(s.id, b.duration)));
              }
              break;
            case kDiscardPadding:
              if (m.Opt()) {
                b.has_discard = true;
                b.discard = g.i(-1000000000, 1000000000);
                gr.kids.push_back(m.Finish(Int(s.id, b.discard)));
              }
              break;
            case kBlockVirtual:
              if (!o.mkv && m.Opt()) {
                Bytes v;
                PutSize(&v, g.u(1, 200));
                PutUintN(&v, g.u(0, 65535), 2);
                Append(&v, g.blob(g.small(0, 5)));
                gr.kids.push_back(m.Finish(Bin(s.id, v)));
              }
              break;
            case kBlockAdditions:
            case kSlices:
              if (m.Opt()) gr.kids.push_back(m.Random(s.id, 1));
              break;
          }
        }
        be.body = BlockBody(g, &b, !o.mkv);
        gr.kids.push_back(m.Finish(be));
        m.Extras(&gr, true);
        m.Shuffle(&gr);
        rest.push_back(m.Finish(gr));
      }
      d.blocks.push_back(b);
      if (o.voids && g.p(5)) rest.push_back(m.VoidEl());
      if (o.foreign && g.p(4)) rest.push_back(m.Foreign());
    }
    cl.kids.push_back(tcel);
    for (auto& e : rest) cl.kids.push_back(e);
    if (!o.cluster_first_tc && !o.mkv && g.p(20) && cl.kids.size() > 1) {
      const size_t to = g.u(0, cl.kids.size() - 1);
      std::rotate(cl.kids.begin(), cl.kids.begin() + 1,
                  cl.kids.begin() + to + 1);
    }
    if (o.unknown_sizes && g.p(25)) {
      cl.unknown = true;
      cl.size_len = (int)g.pick({1, 8, 4});
    } else {
      cl = m.Finish(cl);
    }
    S.push_back(cl);
    if (o.voids && g.p(5) && !cl.unknown) S.push_back(m.VoidEl());
  }
  if (g.p(20)) S.push_back(m.Random(kTags, 0));
  if (o.cues && g.p(25)) S.push_back(m.Random(kCues, 0));
  if (o.unknown_sizes && g.p(25)) {
    d.segment.unknown = true;
    d.segment.size_len = (int)g.pick({1, 8, 4});
  } else {
    d.segment = m.Finish(d.segment);
  }
  d.Finish();
  if (d.segment.unknown) c.label("unknown-size-segment");
  bool uc = false, lace = false, group = false;
  for (auto& e : S) uc = uc || (e.id == kCluster && e.unknown);
  for (auto& b : d.blocks) {
    lace = lace || b.lacing;
    group = group || !b.simple;
  }
  if (uc) c.label("unknown-size-cluster");
  if (lace) c.label("laced-blocks");
  if (group) c.label("block-groups");
  return d;
}

void MutateTree(Gen& g, El* root) {
  static const std::vector<uint32_t>* ids = [] {
    auto* v = new std::vector<uint32_t>;
    for (auto& r : SchemaTable()) v->push_back(r.first);
    return v;
  }();
  const size_t n = g.small(1, 6);
  for (size_t k = 0; k < n; ++k) {
    std::vector<El*> all, masters;
    std::function<void(El*)> walk = [&](El* e) {
      all.push_back(e);
      if (e->master()) masters.push_back(e);
      for (auto& x : e->kids) walk(&x);
    };
    walk(root);
    El* e = g.pick(all);
    El* m = g.pick(masters);
    switch (g.weighted({8, 2, 2, 3, 3, 2, 3, 3, 3, 2})) {
      case 0: {  // another number
        El* t = nullptr;
        for (int tries = 0; tries < 6 && !t; ++tries) {
          El* x = g.pick(all);
          if (!x->master() && x->body.size() <= 8) t = x;
        }
        if (!t) break;
        t->body.clear();
        const uint64_t v = g.p(40) ? g.small(0, 300) : g.edgy(0, UINT64_MAX);
        int len = (int)g.u(1, 8);
        if (g.p(60)) {
          len = 1;
          while (len < 8 && v >> (8 * len)) ++len;
        }
        PutUintN(&t->body, len == 8 ? v : v & ((1ull << (8 * len)) - 1), len);
        break;
      }
      case 1:
        if (!e->master()) e->body.clear();
        break;
      case 2:
        if (!e->master()) e->body = g.bytes(g.small(0, 20));
        break;
      case 3:  // a size that is slightly wrong
        e->fake = true;
        e->fake_size = (uint64_t)std::max<int64_t>(
            0, (int64_t)(e->master() ? 0 : e->body.size()) + (e->master() ? (int64_t)g.small(0, 200) : g.i(-3, 12)));
        break;
      case 4:  // a size that is very wrong
        e->fake = true;
        e->fake_size = g.edgy(0, (1ull << 56) - 2);
        break;
      case 5:
        e->unknown = !e->unknown;
        break;
      case 6:  // drop a child
        if (!m->kids.empty()) m->kids.erase(m->kids.begin() + g.u(0, m->kids.size() - 1));
        break;
      case 7:  // double a child
        if (!m->kids.empty()) {
          El x = m->kids[g.u(0, m->kids.size() - 1)];
          m->kids.insert(m->kids.begin() + g.u(0, m->kids.size()), x);
        }
        break;
      case 8: {  // put a child elsewhere
        if (m->kids.empty()) break;
        El x = m->kids[g.u(0, m->kids.size() - 1)];
        El* to = g.pick(masters);
        to->kids.insert(to->kids.begin() + g.u(0, to->kids.size()), x);
        break;
      }
      default: {  // an element that does not belong there
        El x = Bin(g.pick(*ids), g.bytes(g.small(0, 12)));
        m->kids.insert(m->kids.begin() + g.u(0, m->kids.size()), x);
      }
    }
  }
}

void Mutate(Gen& g, Bytes* d) {
  const size_t n = g.small(1, 8);
  for (size_t k = 0; k < n; ++k) {
    if (d->empty()) return;
    const size_t at = g.u(0, d->size() - 1);
    switch (g.weighted({4, 3, 2, 2, 2, 2, 1, 2})) {
      case 0: (*d)[at] = (uint8_t)g.u(0, 255); break;
      case 1: (*d)[at] ^= (uint8_t)(1u << g.u(0, 7)); break;
      case 2: (*d)[at] = g.pick<uint8_t>({0, 1, 0x7F, 0x80, 0x81, 0xFF, 0xFE, 0x40, 0x10}); break;
      case 3: {  // cut out
        const size_t len = std::min<size_t>(d->size() - at, g.small(1, 40));
        d->erase(d->begin() + at, d->begin() + at + len);
        break;
      }
      case 4: {  // repeat
        const size_t len = std::min<size_t>(d->size() - at, g.small(1, 60));
        Bytes x(d->begin() + at, d->begin() + at + len);
        const size_t to = g.u(0, d->size());
        d->insert(d->begin() + to, x.begin(), x.end());
        break;
      }
      case 5: {  // insert an element header
        Bytes x;
        static const std::vector<uint32_t>* ids = [] {
          auto* v = new std::vector<uint32_t>;
          for (auto& r : SchemaTable()) v->push_back(r.first);
          return v;
        }();
        PutId(&x, g.pick(*ids));
        if (g.p(15))
          PutSize(&x, kUnknown, (int)g.u(1, 8));
        else
          PutSize(&x, g.p(70) ? g.small(0, 60) : g.edgy(0, (1ull << 56) - 2), 0);
        if (g.b())
          d->insert(d->begin() + at, x.begin(), x.end());
        else
          for (size_t q = 0; q < x.size() && at + q < d->size(); ++q)
            (*d)[at + q] = x[q];
        break;
      }
      case 6: d->resize(at); break;
      case 7: {  // a huge or tiny number of 8 bytes
        Bytes x;
        PutUintN(&x, g.edgy(0, UINT64_MAX), 8);
        for (size_t q = 0; q < 8 && at + q < d->size(); ++q) (*d)[at + q] = x[q];
        break;
      }
    }
  }
}

}  // namespace docgen
