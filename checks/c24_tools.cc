// C24: the command-line programs handle arbitrary files: each ends with an
// exit status, without crash, undefined behaviour or endless loop, and prints
// the same when run again.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>

#include "apps.h"
#include "docgen.h"
#include "pbt.h"
#include "pesgen.h"
#include "vp9gen.h"

int webm_info_main(int argc, char* argv[]);
int mkvparser_sample_main(int argc, char* argv[]);
int mkvmuxer_sample_main(int argc, char* argv[]);
int vttdemux_main(int argc, const char* argv[]);
int dumpvtt_main(int argc, const char* argv[]);
int demo_main(int argc, char* argv[]);
int webm2pes_main_main(int argc, const char* argv[]);
int vpxpes2ts_main_main(int argc, const char* argv[]);

using namespace ebml;
using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;

namespace {

std::string Dir() {
  const std::string d = pbt::ScratchPath("tools.d");
  mkdir(d.c_str(), 0700);
  return d;
}

// Removes every file of the directory.
struct Emptied {
  std::string dir;
  explicit Emptied(const std::string& d) : dir(d) {}
  ~Emptied() {
    DIR* h = opendir(dir.c_str());
    if (!h) return;
    while (dirent* e = readdir(h))
      if (e->d_type == DT_REG) unlink((dir + "/" + e->d_name).c_str());
    closedir(h);
  }
};

typedef std::vector<std::string> Args;

Args InfoArgs(Gen& g, const std::string& in) {
  Args a = {"webm_info"};
  static const char* kOpts[] = {"video",  "audio",  "size",        "offset",        "times_seconds",
                                "ebml_header", "segment", "seekhead", "segment_info", "tracks",
                                "clusters", "blocks", "codec_info", "clusters_size",
                                "encrypted_info", "cues", "frame_stats", "vp9_level"};
  if (g.p(70)) a.push_back("-all");
  if (g.p(50)) {
    const size_t n = g.u(0, 8);
    for (size_t k = 0; k < n; ++k)
      a.push_back((g.p(60) ? "-" : "-no") + std::string(kOpts[g.u(0, 17)]));
  }
  a.push_back("-i");
  a.push_back(in);
  return a;
}

Args MuxArgs(Gen& g, const std::string& dir, const std::string& in) {
  Args a = {"mkvmuxer_sample", "-i", in, "-o", dir + "/out.webm"};
  static const char* kNumber[] = {"-video", "-audio", "-live", "-output_cues",
                                  "-cues_before_clusters", "-cues_on_video_track",
                                  "-cues_on_audio_track", "-max_cluster_duration",
                                  "-max_cluster_size", "-switch_tracks", "-audio_track_number",
                                  "-video_track_number", "-copy_tags",
                                  "-accurate_cluster_duration", "-fixed_size_cluster_timecode",
                                  "-copy_input_duration", "-display_width", "-display_height",
                                  "-pixel_width", "-pixel_height", "-stereo_mode",
                                  "-projection_type", "-projection_pose_roll", "-profile",
                                  "-level", "-output_cues_block_number"};
  const size_t n = g.u(0, 6);
  for (size_t k = 0; k < n; ++k) {
    a.push_back(kNumber[g.u(0, 25)]);
    const bool valid = a.back() == "-projection_type" || a.back() == "-stereo_mode";
    a.push_back(valid || g.p(80) ? std::to_string(g.u(0, 3))
                                 : std::to_string(g.edgy(0, 1u << 31)));
  }
  return a;
}

std::string Show(const Args& a) {
  std::string s;
  for (auto& x : a) s += x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1) + " ";
  return s;
}

template <typename Char>
void Twice(Gen& g, Ctx& c, int (*fn)(int, Char**), const Args& a) {
  c.desc << Show(a);
  const std::string dir = Dir(), log = dir + "/log", log2 = dir + "/log2";
  const bool again = g.p(25);
  const int rc = apps::Run(fn, a, again ? log : "/dev/null");
  c.desc << "-> " << rc << "\n";
  c.check(rc == 0 || rc == 1, a[0] + " exit status " + std::to_string(rc));
  c.label(a[0] + (rc ? " fails" : " succeeds"));
  if (!rc) c.nontrivial();
  if (!again) return;
  const int rc2 = apps::Run(fn, a, log2);
  std::string x, y;
  apps::ReadFile(log, &x);
  apps::ReadFile(log2, &y);
  if (rc != rc2 || x != y) c.fail(a[0] + " gives different results when run again");
}

void RunOn(Gen& g, Ctx& c, const Bytes& data, const std::string& vtt) {
  const std::string dir = Dir();
  Emptied done(dir);
  const std::string in = dir + "/in.webm";
  apps::WriteFile(in, data);
  const size_t n = g.u(1, 3);
  size_t first = g.u(0, 7);
  for (size_t k = 0; k < n; ++k) {
    switch ((first + k) % 8) {
      case 0:
      case 7: Twice(g, c, webm_info_main, InfoArgs(g, in)); break;
      case 1: Twice(g, c, mkvparser_sample_main, {"mkvparser_sample", in}); break;
      case 2: Twice(g, c, vttdemux_main, {"vttdemux", in}); break;
      case 3: {
        Args a = MuxArgs(g, dir, in);
        if (!vtt.empty()) {
          const std::string path = dir + "/in.vtt";
          apps::WriteFile(path, vtt);
          a.push_back(g.pick<const char*>({"-webvtt-subtitles", "-webvtt-captions",
                                           "-webvtt-descriptions", "-webvtt-metadata",
                                           "-webvtt-chapters"}));
          a.push_back(path);
        }
        Twice(g, c, mkvmuxer_sample_main, a);
        break;
      }
      case 4: Twice(g, c, demo_main, {"demo", in}); break;
      case 5: Twice(g, c, webm2pes_main_main, {"webm2pes", in, dir + "/out.pes"}); break;
      case 6: Twice(g, c, vpxpes2ts_main_main, {"vpxpes2ts", in, dir + "/out.ts"}); break;
    }
  }
}

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.density = (unsigned)g.pick({5, 15, 40});
  o.max_clusters = 3;
  o.max_blocks = 4;
  o.monotone = g.p(70);
  return docgen::Generate(g, c, o);
}

void Render(docgen::Doc* d) {
  d->data.clear();
  const uint64_t n = docgen::Layout(&d->ebml, 0);
  docgen::Layout(&d->segment, n);
  docgen::Serialize(d->ebml, &d->data);
  docgen::Serialize(d->segment, &d->data);
}

void Tree(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  std::vector<El*> parts;
  for (auto& k : d.segment.kids)
    if (k.master()) parts.push_back(&k);
  if (!parts.empty() && g.p(75))
    docgen::MutateTree(g, g.pick(parts));
  else
    docgen::MutateTree(g, g.p(5) ? &d.ebml : &d.segment);
  Render(&d);
  if (g.p(25)) docgen::Mutate(g, &d.data);
  c.desc << "data " << pbt::Hex(d.data, 3000) << "\n";
  RunOn(g, c, d.data, "");
}

std::string VttText(Gen& g) {
  static const char* kLines[] = {"WEBVTT", "", "", "1", "id", "00:00.000 --> 00:01.000",
                                 "00:00:01.500 --> 00:00:02.000 align:start line:1",
                                 "99999:59:59.999 --> 999999:00:00.000 a:b", "-->", "text",
                                 "00:00.000 --> 00:00.000", "NOTE x", ":", "a:", "\xEF\xBB\xBF"};
  std::string t;
  if (g.p(85)) t = "WEBVTT\n\n";
  const size_t n = g.u(0, 10);
  for (size_t k = 0; k < n; ++k) {
    t += kLines[g.u(0, 14)];
    if (g.p(10)) t.insert(g.u(0, t.size()), 1, (char)g.u(0, 255));
    t += g.pick<const char*>({"\n", "\n", "\r\n", "\r", "\n\n"});
  }
  return t;
}

// What a WebVTT block holds: identifier, settings and text lines.
Bytes VttFrame(Gen& g) {
  std::string s;
  const size_t n = g.u(0, 5);
  static const char* kParts[] = {"id", "", "align:start", "text", "line two", "a:b c:d", "\xFF"};
  for (size_t k = 0; k < n; ++k) {
    s += kParts[g.u(0, 6)];
    if (g.p(90)) s += g.pick<const char*>({"\n", "\n", "\r\n", "\r"});
  }
  if (s.empty()) s = "\n";
  return Bytes(s.begin(), s.end());
}

Bytes Payload(Gen& g, Ctx& c, vp9gen::State* state) {
  Bytes b;
  switch (g.u(0, 5)) {
    case 0: return g.bytes(g.u(1, 40));
    case 1: return VttFrame(g);
    case 2: {  // VP8
      b = {(uint8_t)g.u(0, 255), (uint8_t)g.u(0, 255), (uint8_t)g.u(0, 255), 0x9D, 1, 0x2A};
      b.resize(g.u(1, 12));
      break;
    }
    case 3: {
      b = pesgen::MakeFrame(g, c, true, false).data;
      break;
    }
    default: {
      b = vp9gen::MakeHeader(g, state).data;
      if (g.p(30)) {  // superframe of several headers
        std::vector<Bytes> parts = {b};
        const size_t n = g.u(0, 3);
        for (size_t k = 0; k < n; ++k) parts.push_back(vp9gen::MakeHeader(g, state).data);
        b.clear();
        for (auto& p : parts) b.insert(b.end(), p.begin(), p.end());
        const int mag = (int)g.u(1, 4);
        const uint8_t m = (uint8_t)(0xC0 | (mag - 1) << 3 | (parts.size() - 1));
        b.push_back(m);
        for (auto& p : parts) {
          uint32_t size = (uint32_t)p.size();
          if (g.p(15)) size = (uint32_t)g.edgy(0, 0xFFFFFFFFu);
          for (int k = 0; k < mag; ++k) b.push_back((uint8_t)(size >> (8 * k)));
        }
        b.push_back(m);
      }
      if (g.p(30)) b.resize(b.size() + g.u(0, 8));
      if (g.p(20) && b.size() > 1) b.resize(g.u(1, b.size()));
      break;
    }
  }
  if (g.p(25)) {  // encrypted: signal byte, IV, partitions
    Bytes e = {(uint8_t)g.u(0, 3)};
    if (g.p(90)) {
      const Bytes iv = g.bytes(8);
      e.insert(e.end(), iv.begin(), iv.end());
      e.push_back((uint8_t)g.small(0, 255));
    }
    e.insert(e.end(), b.begin(), b.end());
    if (g.p(20)) e.resize(g.u(1, e.size()));
    return e;
  }
  return b;
}

El Encodings(Gen& g) {
  El aes = docgen::Master(kContentEncAESSettings);
  aes.kids.push_back(docgen::Uint(kAESSettingsCipherMode, 1));
  El enc = docgen::Master(kContentEncryption);
  enc.kids.push_back(docgen::Uint(kContentEncAlgo, 5));
  enc.kids.push_back(docgen::Bin(kContentEncKeyID, g.bytes(g.u(1, 16))));
  enc.kids.push_back(aes);
  El one = docgen::Master(kContentEncoding);
  one.kids.push_back(docgen::Uint(kContentEncodingOrder, 0));
  one.kids.push_back(docgen::Uint(kContentEncodingScope, 1));
  one.kids.push_back(docgen::Uint(kContentEncodingType, 1));
  one.kids.push_back(enc);
  El all = docgen::Master(kContentEncodings);
  all.kids.push_back(one);
  return all;
}

// Sound files of the codecs the programs look into, with frames that are
// sound, broken or of another codec.
void Frames(Gen& g, Ctx& c) {
  docgen::Doc d;
  d.ebml = docgen::Master(kEBML);
  d.ebml.kids.push_back(docgen::Str(kDocType, "webm"));
  d.segment = docgen::Master(kSegment);
  El info = docgen::Master(kInfo);
  info.kids.push_back(docgen::Uint(kTimecodeScale, g.p(60) ? 1000000 : g.edgy(1, 1ull << 62)));
  if (g.p(50)) info.kids.push_back(docgen::Float(kDuration, (double)g.edgy(0, 1u << 30), 8));
  if (g.p(30)) info.kids.push_back(docgen::Str(kTitle, g.str(12, 1)));
  if (g.p(30)) info.kids.push_back(docgen::Str(kMuxingApp, g.str(12, 1)));
  d.segment.kids.push_back(info);
  El tracks = docgen::Master(kTracks);
  const size_t nt = g.u(1, 4);
  for (size_t t = 0; t < nt; ++t) {
    const int type = g.pick<int>({1, 1, 2, 17, 33});
    El te = docgen::Master(kTrackEntry);
    te.kids.push_back(docgen::Uint(kTrackNumber, t + 1));
    te.kids.push_back(docgen::Uint(kTrackUID, t + 1));
    te.kids.push_back(docgen::Uint(kTrackType, (uint64_t)type));
    const std::string codec =
        type == 1   ? g.pick<const char*>({"V_VP8", "V_VP9", "V_VP9", "V_AV1", "X"})
        : type == 2 ? g.pick<const char*>({"A_OPUS", "A_VORBIS", ""})
                    : g.pick<const char*>({"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS",
                                           "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA",
                                           "D_WEBVTT/CHAPTERS", "D_WEBVTT", "S"});
    if (!codec.empty()) te.kids.push_back(docgen::Str(kCodecID, codec));
    if (g.p(30)) {
      Bytes p = g.bytes(g.u(1, 12));
      if (g.b()) {
        p = {1, 1, (uint8_t)g.u(0, 4), 2, 1, (uint8_t)g.u(9, 63), 3, 1, (uint8_t)g.u(7, 13)};
        p.resize(g.u(1, 9));
      }
      te.kids.push_back(docgen::Bin(kCodecPrivate, p));
    }
    if (g.p(30)) te.kids.push_back(docgen::Str(kName, g.str(10, 1)));
    if (type == 1) {
      El v = docgen::Master(kVideo);
      v.kids.push_back(docgen::Uint(kPixelWidth, 16));
      v.kids.push_back(docgen::Uint(kPixelHeight, 16));
      te.kids.push_back(v);
    } else if (type == 2) {
      El a = docgen::Master(kAudio);
      a.kids.push_back(docgen::Uint(kChannels, 2));
      te.kids.push_back(a);
    }
    if (g.p(30)) te.kids.push_back(Encodings(g));
    tracks.kids.push_back(te);
  }
  d.segment.kids.push_back(tracks);
  if (g.p(30)) {
    El tags = docgen::Master(kTags);
    const size_t n = g.u(1, 3);
    for (size_t k = 0; k < n; ++k) {
      El tag = docgen::Master(kTag);
      const size_t m = g.u(0, 2);
      for (size_t q = 0; q < m; ++q) {
        El s = docgen::Master(kSimpleTag);
        if (g.p(70)) s.kids.push_back(docgen::Str(kTagName, g.str(8, 1)));
        if (g.p(70)) s.kids.push_back(docgen::Str(kTagString, g.str(8, 1)));
        tag.kids.push_back(s);
      }
      tags.kids.push_back(tag);
    }
    d.segment.kids.push_back(tags);
  }
  if (g.p(40)) {
    El chapters = docgen::Master(kChapters);
    El edition = docgen::Master(kEditionEntry);
    const size_t n = g.u(1, 3);
    for (size_t k = 0; k < n; ++k) {
      El a = docgen::Master(kChapterAtom);
      a.kids.push_back(docgen::Uint(kChapterUID, k + 1));
      if (g.p(50)) a.kids.push_back(docgen::Str(kChapterStringUID, g.str(8, 1)));
      if (g.p(90))
        a.kids.push_back(docgen::Uint(kChapterTimeStart, g.edgy(0, INT64_MAX)));
      if (g.p(80)) a.kids.push_back(docgen::Uint(kChapterTimeEnd, g.edgy(0, INT64_MAX)));
      const size_t m = g.u(0, 2);
      for (size_t q = 0; q < m; ++q) {
        El s = docgen::Master(kChapterDisplay);
        if (g.p(80)) s.kids.push_back(docgen::Str(kChapString, g.str(12, 1)));
        if (g.p(50)) s.kids.push_back(docgen::Str(kChapLanguage, g.str(4, 1)));
        a.kids.push_back(s);
      }
      edition.kids.push_back(a);
    }
    chapters.kids.push_back(edition);
    d.segment.kids.push_back(chapters);
  }
  vp9gen::State state;
  const size_t nc = g.u(1, 3);
  uint64_t tc = g.p(70) ? 0 : g.edgy(0, INT64_MAX / 2);
  for (size_t k = 0; k < nc; ++k) {
    El cl = docgen::Master(kCluster);
    cl.unknown = k + 1 == nc && g.p(15);
    cl.kids.push_back(docgen::Uint(kTimecode, tc));
    const size_t nb = g.u(0, 6);
    for (size_t q = 0; q < nb; ++q) {
      docgen::DocBlock b;
      b.track = g.p(97) ? g.u(1, nt) : g.u(1, 9);
      b.rel = (int16_t)(g.p(90) ? (int64_t)q * 33 : g.i(-32768, 32767));
      b.simple = g.p(50);
      b.key = g.b();
      b.lacing = g.p(15) ? (int)g.u(1, 3) : 0;
      size_t nf = b.lacing ? g.u(2, 3) : 1;
      for (size_t m = 0; m < nf; ++m) {
        b.frames.push_back(Payload(g, c, &state));
        if (b.lacing == 2) b.frames.back().resize(7);
      }
      const Bytes body = docgen::BlockBody(g, &b, false);
      if (b.simple) {
        cl.kids.push_back(docgen::Bin(kSimpleBlock, body));
      } else {
        El gr = docgen::Master(kBlockGroup);
        gr.kids.push_back(docgen::Bin(kBlock, body));
        if (g.p(50)) gr.kids.push_back(docgen::Uint(kBlockDuration, g.edgy(0, INT64_MAX)));
        if (g.p(30)) gr.kids.push_back(docgen::Int(kDiscardPadding, g.i(-1000000, 1000000)));
        cl.kids.push_back(gr);
      }
    }
    tc += g.p(90) ? 250 : g.edgy(0, INT64_MAX / 8);
    d.segment.kids.push_back(cl);
  }
  Render(&d);
  if (g.p(20)) docgen::Mutate(g, &d.data);
  c.desc << "data " << pbt::Hex(d.data, 3000) << "\n";
  RunOn(g, c, d.data, g.p(30) ? VttText(g) : "");
}

void Text(Gen& g, Ctx& c) {
  const std::string dir = Dir();
  Emptied done(dir);
  const std::string path = dir + "/in.vtt";
  std::string t = VttText(g);
  if (g.p(20)) t.resize(g.u(0, t.size()));
  c.desc << pbt::Hex((const uint8_t*)t.data(), t.size(), 2000) << "\n";
  apps::WriteFile(path, t);
  Twice(g, c, dumpvtt_main, {"dumpvtt", path});
}

// Not a media file at all.
void Junk(Gen& g, Ctx& c) {
  Bytes d = g.bytes(g.small(0, 80));
  if (g.p(50)) {
    const Bytes head = {0x1A, 0x45, 0xDF, 0xA3};
    d.insert(d.begin(), head.begin(), head.end());
  }
  c.desc << "data " << pbt::Hex(d, 200) << "\n";
  c.nontrivial();
  RunOn(g, c, d, "");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C24";
  p.level = "exploration";
  p.rule = "a program accepted the file (suite junk: any)";
  p.suites.push_back({"frames", Frames, 110000, 2000000, false});
  p.suites.push_back({"tree", Tree, 60000, 1500000, false});
  p.suites.push_back({"text", Text, 20000, 100000, false});
  p.suites.push_back({"junk", Junk, 3000, 50000, false});
  return pbt::Main(argc, argv, p);
}
