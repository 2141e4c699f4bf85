#include "mkvdump.h"

#include <cinttypes>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstring>

namespace mkvdump {

using namespace ebml;
using docgen::Doc;
using docgen::DocBlock;
using docgen::El;
namespace mp = mkvparser;

namespace {

std::string F(const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string S(const char* s) { return s ? "'" + std::string(s) + "'" : "null"; }
std::string B(const uint8_t* p, size_t n) {
  if (!p) return "null";
  return F("[%zu]", n) + pbt::Hex(p, n, 400);
}
std::string D(double v) { return F("%.17g", v); }
bool Fits(long long a, long long b) {
  __int128 x = (__int128)a * b;
  return x >= INT64_MIN && x <= INT64_MAX;
}

}  // namespace

void DumpHeaders(mp::Segment* seg, Lines* o) {
  const mp::SegmentInfo* in = seg->GetInfo();
  if (in) {
    o->push_back(F("info at %lld+%lld payload %lld+%lld", in->m_element_start,
                   in->m_element_size, in->m_start, in->m_size));
    o->push_back(F("scale %lld duration %lld", in->GetTimeCodeScale(),
                   in->GetDuration()));
    o->push_back("muxing " + S(in->GetMuxingAppAsUTF8()) + " writing " +
                 S(in->GetWritingAppAsUTF8()) + " title " +
                 S(in->GetTitleAsUTF8()));
  } else {
    o->push_back("no info");
  }
  const mp::Tracks* ts = seg->GetTracks();
  if (ts) {
    o->push_back(F("tracks at %lld+%lld count %lu", ts->m_element_start,
                   ts->m_element_size, ts->GetTracksCount()));
    for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
      const mp::Track* t = ts->GetTrackByIndex(k);
      if (!t) {
        o->push_back("null track");
        continue;
      }
      if (ts->GetTrackByNumber(t->GetNumber()) != t)
        o->push_back("GetTrackByNumber finds another track");
      o->push_back(F("track %ld type %ld uid %llu at %lld+%lld", t->GetNumber(),
                     t->GetType(), t->GetUid(), t->m_element_start,
                     t->m_element_size));
      o->push_back(" name " + S(t->GetNameAsUTF8()) + " language " +
                   S(t->GetLanguage()) + " codec " + S(t->GetCodecId()) +
                   " codec name " + S(t->GetCodecNameAsUTF8()));
      size_t n = 0;
      const unsigned char* cp = t->GetCodecPrivate(n);
      o->push_back(" private " + B(cp, n));
      o->push_back(F(" lacing %d default duration %llu delay %llu preroll %llu",
                     t->GetLacing(), t->GetDefaultDuration(),
                     t->GetCodecDelay(), t->GetSeekPreRoll()));
      o->push_back(F(" encodings %lu", t->GetContentEncodingCount()));
      for (unsigned long q = 0; q < t->GetContentEncodingCount(); ++q) {
        const mp::ContentEncoding* ce = t->GetContentEncodingByIndex(q);
        o->push_back(F("  encoding order %llu scope %llu type %llu",
                       ce->encoding_order(), ce->encoding_scope(),
                       ce->encoding_type()));
        for (unsigned long z = 0; z < ce->GetCompressionCount(); ++z) {
          auto* x = ce->GetCompressionByIndex(z);
          o->push_back(F("  compression algo %llu settings ", x->algo) +
                       B(x->settings, x->settings_len));
        }
        for (unsigned long z = 0; z < ce->GetEncryptionCount(); ++z) {
          auto* x = ce->GetEncryptionByIndex(z);
          o->push_back(F("  encryption algo %llu mode %llu sigalgo %llu "
                         "sighash %llu",
                         x->algo, x->aes_settings.cipher_mode, x->sig_algo,
                         x->sig_hash_algo));
          o->push_back("  key " + B(x->key_id, x->key_id_len) + " signature " +
                       B(x->signature, x->signature_len) + " sigkey " +
                       B(x->sig_key_id, x->sig_key_id_len));
        }
      }
      if (t->GetType() == mp::Track::kVideo) {
        auto* v = static_cast<const mp::VideoTrack*>(t);
        o->push_back(F(" video %lldx%lld display %lldx%lld unit %lld stereo "
                       "%lld",
                       v->GetWidth(), v->GetHeight(), v->GetDisplayWidth(),
                       v->GetDisplayHeight(), v->GetDisplayUnit(),
                       v->GetStereoMode()));
        o->push_back(" rate " + D(v->GetFrameRate()) + " colour space " +
                     S(v->GetColourSpace()));
        if (auto* x = v->GetColour()) {
          o->push_back(F(" colour mc %lld bits %lld csh %lld csv %lld cbh %lld "
                         "cbv %lld sith %lld sitv %lld",
                         x->matrix_coefficients, x->bits_per_channel,
                         x->chroma_subsampling_horz, x->chroma_subsampling_vert,
                         x->cb_subsampling_horz, x->cb_subsampling_vert,
                         x->chroma_siting_horz, x->chroma_siting_vert));
          o->push_back(F(" colour range %lld tc %lld prim %lld cll %lld fall "
                         "%lld",
                         x->range, x->transfer_characteristics, x->primaries,
                         x->max_cll, x->max_fall));
          if (auto* m = x->mastering_metadata) {
            auto pc = [&](const mp::PrimaryChromaticity* p) {
              return p ? "(" + D(p->x) + "," + D(p->y) + ")"
                       : std::string("null");
            };
            o->push_back(" mm r " + pc(m->r) + " g " + pc(m->g) + " b " +
                         pc(m->b) + " wp " + pc(m->white_point) + " max " +
                         D(m->luminance_max) + " min " + D(m->luminance_min));
          }
        }
        if (auto* x = v->GetProjection())
          o->push_back(F(" projection %d ", (int)x->type) +
                       B(x->private_data, x->private_data_length) + " yaw " +
                       D(x->pose_yaw) + " pitch " + D(x->pose_pitch) +
                       " roll " + D(x->pose_roll));
      } else if (t->GetType() == mp::Track::kAudio) {
        auto* a = static_cast<const mp::AudioTrack*>(t);
        o->push_back(" audio rate " + D(a->GetSamplingRate()) +
                     F(" channels %lld bits %lld", a->GetChannels(),
                       a->GetBitDepth()));
      }
    }
  } else {
    o->push_back("no tracks");
  }
  if (auto* sh = seg->GetSeekHead()) {
    o->push_back(F("seek head at %lld+%lld", sh->m_element_start,
                   sh->m_element_size));
    for (int k = 0; k < sh->GetCount(); ++k) {
      auto* e = sh->GetEntry(k);
      o->push_back(F(" seek id %llx pos %lld at %lld+%lld", e->id, e->pos,
                     e->element_start, e->element_size));
    }
    for (int k = 0; k < sh->GetVoidElementCount(); ++k) {
      auto* e = sh->GetVoidElement(k);
      o->push_back(F(" void at %lld+%lld", e->element_start, e->element_size));
    }
  }
  if (auto* ch = seg->GetChapters()) {
    o->push_back(F("chapters at %lld+%lld", ch->m_element_start,
                   ch->m_element_size));
    for (int k = 0; k < ch->GetEditionCount(); ++k) {
      auto* ed = ch->GetEdition(k);
      o->push_back(" edition");
      for (int j = 0; j < ed->GetAtomCount(); ++j) {
        auto* a = ed->GetAtom(j);
        o->push_back(F("  atom %llu ", a->GetUID()) + S(a->GetStringUID()) +
                     F(" start %lld stop %lld", a->GetStartTimecode(),
                       a->GetStopTimecode()));
        if (in && Fits(a->GetStartTimecode(), in->GetTimeCodeScale()) &&
            Fits(a->GetStopTimecode(), in->GetTimeCodeScale()))
          o->push_back(F("  times %lld %lld", a->GetStartTime(ch),
                         a->GetStopTime(ch)));
        for (int q = 0; q < a->GetDisplayCount(); ++q) {
          auto* dp = a->GetDisplay(q);
          o->push_back("   display " + S(dp->GetString()) + " " +
                       S(dp->GetLanguage()) + " " + S(dp->GetCountry()));
        }
      }
    }
  }
  if (auto* tg = seg->GetTags()) {
    o->push_back(F("tags at %lld+%lld", tg->m_element_start,
                   tg->m_element_size));
    for (int k = 0; k < tg->GetTagCount(); ++k) {
      auto* t = tg->GetTag(k);
      o->push_back(" tag");
      for (int j = 0; j < t->GetSimpleTagCount(); ++j)
        o->push_back("  " + S(t->GetSimpleTag(j)->GetTagName()) + " = " +
                     S(t->GetSimpleTag(j)->GetTagString()));
    }
  }
}

void DumpCues(mp::Segment* seg, Lines* o) {
  const mp::Cues* cu = seg->GetCues();
  if (!cu) return;
  while (!cu->DoneParsing())
    if (!cu->LoadCuePoint()) break;
  o->push_back(F("cues at %lld+%lld count %ld", cu->m_element_start,
                 cu->m_element_size, cu->GetCount()));
  const mp::CuePoint* last = nullptr;
  for (const mp::CuePoint* p = cu->GetFirst(); p; p = cu->GetNext(p)) {
    last = p;
    o->push_back(F(" cue %lld at %lld+%lld", p->GetTimeCode(),
                   p->m_element_start, p->m_element_size));
    if (seg->GetInfo() &&
        Fits(p->GetTimeCode(), seg->GetInfo()->GetTimeCodeScale()))
      o->push_back(F("  time %lld", p->GetTime(seg)));
    const mp::Tracks* ts = seg->GetTracks();
    for (unsigned long k = 0; ts && k < ts->GetTracksCount(); ++k) {
      const mp::Track* t = ts->GetTrackByIndex(k);
      if (auto* tp = p->Find(t))
        o->push_back(F("  track %lld pos %lld block %lld", tp->m_track,
                       tp->m_pos, tp->m_block));
    }
  }
  if (cu->GetLast() != last) o->push_back("GetLast is not the last cue");
}

ebml::Hole g_hole;

std::string DumpEntry(mp::Segment* seg, const mp::Cluster* cl,
                      const mp::BlockEntry* e, const Bytes& data) {
  if (e->EOS()) return "eos";
  const mp::Block* b = e->GetBlock();
  if (!b) return "null block";
  std::string s = F("%s track %lld tc %lld%s%s lacing %d discard %lld block "
                    "%lld+%lld frames",
                    e->GetKind() == mp::BlockEntry::kBlockSimple ? "simple"
                    : e->GetKind() == mp::BlockEntry::kBlockGroup ? "group"
                                                                  : "?",
                    b->GetTrackNumber(), b->GetTimeCode(cl),
                    b->IsKey() ? " key" : "",
                    b->IsInvisible() ? " invisible" : "", (int)b->GetLacing(),
                    b->GetDiscardPadding(), b->m_start, b->m_size);
  for (int k = 0; k < b->GetFrameCount(); ++k) {
    const mp::Block::Frame& f = b->GetFrame(k);
    s += F(" %lld+%ld", f.pos, f.len);
    if (f.len < 0 || f.len > (long)g_hole.FileSize(data) || f.len > 1 << 28) {
      s += "!";
      continue;
    }
    std::vector<uint8_t> buf(f.len + 1);
    if (f.Read(seg->m_pReader, buf.data()) != 0)
      s += "(unreadable)";
    else if (f.pos < 0 ||
             (uint64_t)(f.pos + f.len) > g_hole.FileSize(data))
      s += "(differs)";
    else {
      std::vector<uint8_t> want(f.len + 1);
      g_hole.Copy(data, f.pos, f.len, want.data());
      if (memcmp(buf.data(), want.data(), f.len)) s += "(differs)";
    }
  }
  if (e->GetKind() == mp::BlockEntry::kBlockGroup) {
    auto* g = static_cast<const mp::BlockGroup*>(e);
    s += F(" prev %lld next %lld duration %lld", g->GetPrevTimeCode(),
           g->GetNextTimeCode(), g->GetDurationTimeCode());
  }
  return s;
}

void DumpCluster(mp::Segment* seg, const mp::Cluster* cl, const Bytes& data,
                 bool all, Lines* o) {
  o->push_back(F("cluster %ld pos %lld start %lld tc %lld", cl->GetIndex(),
                 cl->GetPosition(), cl->m_element_start, cl->GetTimeCode()));
  if (!all) return;
  const mp::BlockEntry* e = nullptr;
  long st = cl->GetFirst(e);
  if (st < 0) {
    o->push_back(F(" error %ld", st));
    return;
  }
  long idx = 0;
  const mp::BlockEntry* last = nullptr;
  while (e && !e->EOS()) {
    o->push_back(" " + DumpEntry(seg, cl, e, data));
    if (e->GetIndex() != idx) o->push_back(" wrong index");
    if (e->GetCluster() != cl) o->push_back(" wrong cluster");
    ++idx;
    last = e;
    const mp::BlockEntry* nx = nullptr;
    st = cl->GetNext(e, nx);
    if (st < 0) {
      o->push_back(F(" error %ld", st));
      return;
    }
    e = nx;
  }
  o->push_back(F(" element size %lld entries %ld", cl->GetElementSize(),
                 cl->GetEntryCount()));
  const mp::BlockEntry* l2 = nullptr;
  st = cl->GetLast(l2);
  if (st < 0) o->push_back(F(" GetLast error %ld", st));
  if (l2 != last) o->push_back(" GetLast differs from iteration");
  for (long k = 0; k < idx; ++k) {
    const mp::BlockEntry* x = nullptr;
    if (cl->GetEntry(k, x) != 1 || !x || x->GetIndex() != k)
      o->push_back(F(" GetEntry(%ld) failed", k));
  }
  if (seg->GetInfo()) {
    const long long sc = seg->GetInfo()->GetTimeCodeScale();
    if (Fits(cl->GetTimeCode() + 70000, sc))
      o->push_back(F(" time %lld first %lld last %lld", cl->GetTime(),
                     cl->GetFirstTime(), cl->GetLastTime()));
  }
}

void DumpClusters(mp::Segment* seg, const Bytes& data, Lines* o) {
  o->push_back(F("clusters %lu", seg->GetCount()));
  const mp::Cluster* cl = seg->GetFirst();
  const mp::Cluster* last = nullptr;
  while (cl && !cl->EOS()) {
    DumpCluster(seg, cl, data, true, o);
    last = cl;
    cl = seg->GetNext(cl);
  }
  const mp::Cluster* l = seg->GetLast();
  if (last ? l != last : !l->EOS()) o->push_back("GetLast is not the last");
}

// ---- expectation ------------------------------------------------------

namespace {

const El* C(const El* e, uint32_t id) { return e ? e->child(id) : nullptr; }
unsigned long long U(const El* e, uint32_t id, unsigned long long def) {
  const El* k = C(e, id);
  return k ? k->u : def;
}
std::string XS(const El* e, uint32_t id) {
  const El* k = C(e, id);
  // Up to the first zero byte, whatever the schema type.
  return k ? S(std::string(k->body.begin(), k->body.end()).c_str()) : "null";
}
std::string XB(const El* e, uint32_t id) {
  const El* k = C(e, id);
  return k && !k->body.empty() ? B(k->body.data(), k->body.size()) : "null";
}
double XF(const El* e, uint32_t id, double def) {
  const El* k = C(e, id);
  return k ? k->f : def;
}
const El* First(const Doc& d, uint32_t id, bool before_clusters) {
  for (auto& k : d.segment.kids) {
    if (k.id == kCluster && before_clusters) return nullptr;
    if (k.id == id) return &k;
  }
  return nullptr;
}
unsigned long long ul(uint64_t v) { return v; }
long long sl(uint64_t v) { return (long long)v; }
uint64_t ElSize(const El& e) { return e.header + e.size; }

}  // namespace

void ExpectHeaders(const Doc& d, Lines* o) {
  const El* in = First(d, kInfo, true);
  const long long scale = U(in, kTimecodeScale, 1000000);
  o->push_back(F("info at %lld+%lld payload %lld+%lld", sl(in->pos),
                 sl(ElSize(*in)), sl(in->body_pos()), sl(in->size)));
  const El* du = C(in, kDuration);
  o->push_back(F("scale %lld duration %lld", scale,
                 du ? (long long)(du->f * (double)scale) : -1ll));
  o->push_back("muxing " + XS(in, kMuxingApp) + " writing " +
               XS(in, kWritingApp) + " title " + XS(in, kTitle));
  const El* ts = First(d, kTracks, true);
  auto tv = ts->children(kTrackEntry);
  o->push_back(F("tracks at %lld+%lld count %zu", sl(ts->pos),
                 sl(ElSize(*ts)), tv.size()));
  for (const El* t : tv) {
    const uint64_t type = U(t, kTrackType, 0);
    o->push_back(F("track %llu type %llu uid %llu at %lld+%lld",
                   U(t, kTrackNumber, 0), ul(type), U(t, kTrackUID, 0),
                   sl(t->pos), sl(ElSize(*t))));
    o->push_back(" name " + XS(t, kName) + " language " + XS(t, kLanguage) +
                 " codec " + XS(t, kCodecID) + " codec name " +
                 XS(t, kCodecName));
    o->push_back(" private " + XB(t, kCodecPrivate));
    o->push_back(F(" lacing %d default duration %llu delay %llu preroll %llu",
                   (int)U(t, kFlagLacing, 1), U(t, kDefaultDuration, 0),
                   U(t, kCodecDelay, 0), U(t, kSeekPreRoll, 0)));
    const El* encs = C(t, kContentEncodings);
    auto ev = encs && (type == 1 || type == 2)
                  ? encs->children(kContentEncoding)
                  : std::vector<const El*>();
    o->push_back(F(" encodings %zu", ev.size()));
    for (const El* e : ev) {
      o->push_back(F("  encoding order %llu scope %llu type %llu",
                     U(e, kContentEncodingOrder, 0),
                     U(e, kContentEncodingScope, 1),
                     U(e, kContentEncodingType, 0)));
      for (const El* x : e->children(kContentCompression))
        o->push_back(F("  compression algo %llu settings ",
                       U(x, kContentCompAlgo, 0)) +
                     XB(x, kContentCompSettings));
      for (const El* x : e->children(kContentEncryption)) {
        o->push_back(F("  encryption algo %llu mode %llu sigalgo %llu "
                       "sighash %llu",
                       U(x, kContentEncAlgo, 0),
                       U(C(x, kContentEncAESSettings), kAESSettingsCipherMode,
                         1),
                       U(x, kContentSigAlgo, 0), U(x, kContentSigHashAlgo, 0)));
        o->push_back("  key " + XB(x, kContentEncKeyID) + " signature " +
                     XB(x, kContentSignature) + " sigkey " +
                     XB(x, kContentSigKeyID));
      }
    }
    if (type == 1) {
      const El* v = C(t, kVideo);
      const uint64_t w = U(v, kPixelWidth, 0), h = U(v, kPixelHeight, 0);
      o->push_back(F(" video %lldx%lld display %lldx%lld unit %lld stereo %lld",
                     sl(w), sl(h), sl(U(v, kDisplayWidth, w)),
                     sl(U(v, kDisplayHeight, h)), sl(U(v, kDisplayUnit, 0)),
                     sl(U(v, kStereoMode, 0))));
      o->push_back(" rate " + D(XF(v, kFrameRate, 0)) + " colour space " +
                   XS(v, kColourSpace));
      if (const El* x = C(v, kColour)) {
        const unsigned long long np = LLONG_MAX;
        o->push_back(F(" colour mc %lld bits %lld csh %lld csv %lld cbh %lld "
                       "cbv %lld sith %lld sitv %lld",
                       sl(U(x, kMatrixCoefficients, np)),
                       sl(U(x, kBitsPerChannel, np)),
                       sl(U(x, kChromaSubsamplingHorz, np)),
                       sl(U(x, kChromaSubsamplingVert, np)),
                       sl(U(x, kCbSubsamplingHorz, np)),
                       sl(U(x, kCbSubsamplingVert, np)),
                       sl(U(x, kChromaSitingHorz, np)),
                       sl(U(x, kChromaSitingVert, np))));
        o->push_back(F(" colour range %lld tc %lld prim %lld cll %lld fall "
                       "%lld",
                       sl(U(x, kRange, np)),
                       sl(U(x, kTransferCharacteristics, np)),
                       sl(U(x, kPrimaries, np)), sl(U(x, kMaxCLL, np)),
                       sl(U(x, kMaxFALL, np))));
        if (const El* m = C(x, kMasteringMetadata)) {
          auto pc = [&](uint32_t a, uint32_t b) {
            if (!C(m, a) && !C(m, b)) return std::string("null");
            return "(" + D((float)XF(m, a, 0)) + "," + D((float)XF(m, b, 0)) +
                   ")";
          };
          const float none = mp::MasteringMetadata::kValueNotPresent;
          o->push_back(
              " mm r " + pc(kPrimaryRChromaticityX, kPrimaryRChromaticityY) +
              " g " + pc(kPrimaryGChromaticityX, kPrimaryGChromaticityY) +
              " b " + pc(kPrimaryBChromaticityX, kPrimaryBChromaticityY) +
              " wp " + pc(kWhitePointChromaticityX, kWhitePointChromaticityY) +
              " max " + D((float)XF(m, kLuminanceMax, none)) + " min " +
              D((float)XF(m, kLuminanceMin, none)));
        }
      }
      if (const El* x = C(v, kProjection)) {
        const float none = mp::Projection::kValueNotPresent;
        o->push_back(F(" projection %d ", (int)U(x, kProjectionType, -1)) +
                     XB(x, kProjectionPrivate) + " yaw " +
                     D((float)XF(x, kProjectionPoseYaw, none)) + " pitch " +
                     D((float)XF(x, kProjectionPosePitch, none)) + " roll " +
                     D((float)XF(x, kProjectionPoseRoll, none)));
      }
    } else if (type == 2) {
      const El* a = C(t, kAudio);
      o->push_back(" audio rate " + D(XF(a, kSamplingFrequency, 8000)) +
                   F(" channels %lld bits %lld", sl(U(a, kChannels, 1)),
                     sl(U(a, kBitDepth, 0))));
    }
  }
  if (const El* sh = First(d, kSeekHead, true)) {
    o->push_back(F("seek head at %lld+%lld", sl(sh->pos), sl(ElSize(*sh))));
    for (const El* e : sh->children(kSeek)) {
      const El* id = C(e, kSeekID);
      uint64_t v = 0;
      for (uint8_t x : id->body) v = v << 8 | x;
      o->push_back(F(" seek id %llx pos %lld at %lld+%lld", ul(v),
                     sl(U(e, kSeekPosition, 0)), sl(e->pos), sl(ElSize(*e))));
    }
    for (const El* e : sh->children(kVoid))
      o->push_back(F(" void at %lld+%lld", sl(e->pos), sl(ElSize(*e))));
  }
  if (const El* ch = First(d, kChapters, true)) {
    o->push_back(F("chapters at %lld+%lld", sl(ch->pos), sl(ElSize(*ch))));
    for (const El* ed : ch->children(kEditionEntry)) {
      if (!ed->size) continue;
      o->push_back(" edition");
      for (const El* a : ed->children(kChapterAtom)) {
        if (!a->size) continue;
        const long long st = C(a, kChapterTimeStart)
                                 ? sl(U(a, kChapterTimeStart, 0)) : -1,
                        en = C(a, kChapterTimeEnd)
                                 ? sl(U(a, kChapterTimeEnd, 0)) : -1;
        o->push_back(F("  atom %llu ", U(a, kChapterUID, 0)) +
                     XS(a, kChapterStringUID) +
                     F(" start %lld stop %lld", st, en));
        if (Fits(st, scale) && Fits(en, scale))
          o->push_back(F("  times %lld %lld", st < 0 ? -1 : st * scale,
                         en < 0 ? -1 : en * scale));
        for (const El* dp : a->children(kChapterDisplay)) {
          if (!dp->size) continue;
          o->push_back("   display " + XS(dp, kChapString) + " " +
                       XS(dp, kChapLanguage) + " " + XS(dp, kChapCountry));
        }
      }
    }
  }
  if (const El* tg = First(d, kTags, true)) {
    o->push_back(F("tags at %lld+%lld", sl(tg->pos), sl(ElSize(*tg))));
    for (const El* t : tg->children(kTag)) {
      if (!t->size) continue;
      o->push_back(" tag");
      for (const El* x : t->children(kSimpleTag)) {
        if (!x->size) continue;
        o->push_back("  " + XS(x, kTagName) + " = " + XS(x, kTagString));
      }
    }
  }
}

void ExpectCues(const Doc& d, Lines* o) {
  const El* cu = First(d, kCues, false);
  if (!cu) return;
  auto v = cu->children(kCuePoint);
  o->push_back(F("cues at %lld+%lld count %zu", sl(cu->pos), sl(ElSize(*cu)),
                 v.size()));
  for (const El* p : v) {
    const long long tc = sl(U(p, kCueTime, 0));
    o->push_back(F(" cue %lld at %lld+%lld", tc, sl(p->pos), sl(ElSize(*p))));
    if (Fits(tc, d.scale)) o->push_back(F("  time %lld", tc * (long long)d.scale));
    for (auto* te : First(d, kTracks, true)->children(kTrackEntry)) {
      for (const El* tp : p->children(kCueTrackPositions))
        if (U(tp, kCueTrack, 0) == U(te, kTrackNumber, 0)) {
          o->push_back(F("  track %lld pos %lld block %lld",
                         sl(U(tp, kCueTrack, 0)),
                         sl(U(tp, kCueClusterPosition, 0)),
                         sl(U(tp, kCueBlockNumber, 1))));
          break;
        }
    }
  }
}

std::string ExpectEntry(const Doc& d, const DocBlock& b) {
  (void)d;
  std::string s = F("%s track %lld tc %lld%s%s lacing %d discard %lld block "
                    "%lld+%lld frames",
                    b.simple ? "simple" : "group", sl(b.track),
                    (long long)b.tc(), b.key ? " key" : "",
                    b.invisible ? " invisible" : "", b.lacing,
                    (long long)(b.has_discard ? b.discard : 0), sl(b.body_pos),
                    sl(b.body_size));
  for (size_t k = 0; k < b.frames.size(); ++k)
    s += F(" %lld+%zu", sl(b.body_pos + b.frame_off[k]), b.frames[k].size());
  if (!b.simple) {
    long long prev = 1, next = 0;
    for (int64_t r : b.refs) {
      if (r <= 0) prev = r;
      else next = r;
    }
    s += F(" prev %lld next %lld duration %lld", prev, next,
           b.has_duration ? (long long)b.duration : -1ll);
  }
  return s;
}

void ExpectClusters(const Doc& d, Lines* o) {
  // Clusters without blocks are not reported.
  std::vector<std::vector<const DocBlock*>> by(0);
  std::vector<const El*> cls;
  for (auto& k : d.segment.kids)
    if (k.id == kCluster) cls.push_back(&k);
  by.resize(cls.size());
  for (auto& b : d.blocks) by[b.cluster].push_back(&b);
  size_t n = 0;
  for (auto& v : by) n += !v.empty();
  o->push_back(F("clusters %zu", n));
  long idx = 0;
  for (size_t k = 0; k < cls.size(); ++k) {
    if (by[k].empty()) continue;
    const El* cl = cls[k];
    const long long tc = sl(by[k][0]->cluster_tc);
    o->push_back(F("cluster %ld pos %lld start %lld tc %lld", idx++,
                   sl(cl->pos - d.segment.body_pos()), sl(cl->pos), tc));
    for (auto* b : by[k]) o->push_back(" " + ExpectEntry(d, *b));
    // An unknown-size cluster extends to the next Cluster or Cues.
    uint64_t end = cl->end();
    if (cl->unknown) {
      bool after = false;
      end = d.segment.end();
      for (auto& e : d.segment.kids) {
        if (after && (e.id == kCluster || e.id == kCues)) {
          end = e.pos;
          break;
        }
        if (&e == cl) after = true;
      }
    }
    o->push_back(F(" element size %lld entries %zu", sl(end - cl->pos),
                   by[k].size()));
    if (Fits(tc + 70000, d.scale))
      o->push_back(F(" time %lld first %lld last %lld",
                     tc * (long long)d.scale,
                     by[k].front()->tc() * (long long)d.scale,
                     by[k].back()->tc() * (long long)d.scale));
  }
}

void Compare(pbt::Ctx& c, const Lines& got, const Lines& want,
             const std::string& what) {
  for (size_t k = 0; k < got.size() || k < want.size(); ++k) {
    const std::string g = k < got.size() ? got[k] : "<end>",
                      w = k < want.size() ? want[k] : "<end>";
    if (g != w)
      c.fail(what + ": line " + std::to_string(k) + "\n  reported: " + g +
             "\n  expected: " + w);
  }
}

}  // namespace mkvdump
