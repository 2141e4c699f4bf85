// C20: VP9 headers, level statistics and codec private data are read for what
// they say.  Headers are written by a reference encoder of the uncompressed
// header; statistics are recomputed from their definitions.
#include <math.h>
#include <string.h>

#include <algorithm>

#include <memory>
#include <new>

#include "common/hdr_util.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
#include "pbt.h"
#include "vp9gen.h"

using pbt::Bytes;
using pbt::CheckEq;
using pbt::Ctx;
using pbt::Gen;
using vp9gen::Header;
using vp9gen::MakeHeader;
using vp9gen::Plan;
using vp9gen::State;
using vp9gen::Show;
using vp9_parser::Vp9HeaderParser;
using vp9_parser::Vp9LevelStats;

namespace {

// A parser in memory that is not zero, so that members which are not
// initialised show.
struct Dirty {
  explicit Dirty(uint8_t fill) {
    memset(mem, fill, sizeof mem);
    p = new (mem) Vp9HeaderParser();
  }
  alignas(16) uint8_t mem[sizeof(Vp9HeaderParser)];
  Vp9HeaderParser* p;
};

std::string Fields(const Vp9HeaderParser& p) {
  std::ostringstream o;
  o << p.frame_size() << " " << p.profile() << " " << p.key() << " " << p.altref() << " "
    << p.error_resilient_mode() << " " << p.bit_depth() << " " << p.color_space() << " "
    << p.width() << "x" << p.height() << " " << p.display_width() << "x" << p.display_height()
    << " " << p.refresh_frame_flags() << " " << p.row_tiles() << " " << p.column_tiles() << " "
    << p.frame_parallel_mode();
  return o.str();
}

void HeaderSuite(Gen& g, Ctx& c) {
  State s;
  Dirty a(0x5A), z(0xFF);
  const size_t n = g.u(1, 6);
  for (size_t k = 0; k < n; ++k) {
    const Header h = MakeHeader(g, &s);
    c.desc << Show(h) << "  " << pbt::Hex(h.data) << "\n";
    std::unique_ptr<uint8_t[]> mem(new uint8_t[h.data.size()]);
    memcpy(mem.get(), h.data.data(), h.data.size());
    const bool ok = a.p->ParseUncompressedHeader(mem.get(), h.data.size());
    if (!ok) c.fail("header refused");
    z.p->ParseUncompressedHeader(mem.get(), h.data.size());
    CheckEq(c, Fields(*a.p), Fields(*z.p), "fields depend on memory");
    const Vp9HeaderParser& p = *a.p;
    CheckEq(c, p.frame_size(), h.data.size(), "frame_size");
    CheckEq(c, p.profile(), h.profile, "profile");
    if (h.show_existing) {
      c.label("show existing");
      continue;
    }
    CheckEq(c, p.key(), (int)h.key, "key");
    CheckEq(c, p.altref(), (int)!h.shown, "altref");
    CheckEq(c, p.error_resilient_mode(), (int)h.error_res, "error_resilient_mode");
    CheckEq(c, p.bit_depth(), h.bit_depth, "bit_depth");
    CheckEq(c, p.width(), h.width, "width");
    CheckEq(c, p.height(), h.height, "height");
    if (h.sized) {
      CheckEq(c, p.display_width(), h.display_width, "display_width");
      CheckEq(c, p.display_height(), h.display_height, "display_height");
    }
    if (h.key || (h.intra_only && h.profile > 0))
      CheckEq(c, p.color_space(), h.color_space, "color_space");
    if (!h.key) CheckEq(c, p.refresh_frame_flags(), h.refresh, "refresh_frame_flags");
    if (h.key) {
      CheckEq(c, p.frame_parallel_mode(), (int)h.parallel, "frame_parallel_mode");
      if (!h.segmentation) {
        CheckEq(c, p.column_tiles(), 1 << h.log2_cols, "column_tiles");
        CheckEq(c, p.row_tiles(), 1 << h.log2_rows, "row_tiles");
        if (h.log2_cols) c.label("column tiles");
      }
    } else {
      c.nontrivial();
    }
    c.label(h.key ? "key" : h.intra_only ? "intra-only" : h.sized ? "inter" : "inter by reference");
  }
}

void HostileSuite(Gen& g, Ctx& c) {
  State s;
  Dirty a(0x5A), z(0xFF);
  const size_t n = g.u(1, 3);
  for (size_t k = 0; k < n; ++k) {
    Bytes d = g.p(15) ? g.bytes(g.u(1, 20)) : MakeHeader(g, &s).data;
    const size_t edits = g.u(0, 2);
    for (size_t e = 0; e < edits && !d.empty(); ++e) {
      const size_t at = g.u(0, d.size() - 1);
      if (g.b())
        d[at] ^= (uint8_t)(1u << g.u(0, 7));
      else
        d.resize(at);
    }
    c.desc << pbt::Hex(d) << "\n";
    std::unique_ptr<uint8_t[]> mem(new uint8_t[d.size() + 1]);
    // An exact allocation.
    std::unique_ptr<uint8_t[]> exact(new uint8_t[d.empty() ? 1 : d.size()]);
    if (!d.empty()) memcpy(exact.get(), d.data(), d.size());
    const bool ok = a.p->ParseUncompressedHeader(exact.get(), d.size());
    const bool ok2 = z.p->ParseUncompressedHeader(exact.get(), d.size());
    if (ok != ok2) c.fail("result depends on memory");
    if (d.empty()) {
      if (ok) c.fail("empty frame accepted");
      continue;
    }
    if (d[0] >> 6 != 2) {
      if (ok) c.fail("frame marker not checked");
      continue;
    }
    if (!ok) continue;
    CheckEq(c, Fields(*a.p), Fields(*z.p), "fields depend on memory");
    const Vp9HeaderParser& p = *a.p;
    if (p.profile() < 0 || p.profile() > 4) c.fail("profile");
    if (p.width() < 0 || p.width() > 65536 || p.height() < 0 || p.height() > 65536 ||
        p.display_width() < 0 || p.display_width() > 65536 || p.display_height() < 0 ||
        p.display_height() > 65536)
      c.fail("size out of range");
    if (p.column_tiles() < 0 || p.column_tiles() > 256 || p.row_tiles() < 0 || p.row_tiles() > 4)
      c.fail("tiles out of range");
    // A frame that codes its format has a sync code.
    if (p.key()) {
      c.nontrivial();
      const size_t off = p.profile() > 2 ? 9 : 8;
      uint32_t v = 0;
      for (size_t q = 0; q < 24; ++q) {
        const size_t bit = off + q;
        v = v << 1 | (bit / 8 < d.size() ? d[bit / 8] >> (7 - bit % 8) & 1 : 0);
      }
      if (v != 0x498342) c.fail("key frame without sync code accepted");
    }
  }
}

struct Row {
  int level;
  int64_t rate, size, breadth;
  double bitrate, cpb, ratio;
  int tiles, altref, refs;
};
// https://www.webmproject.org/vp9/levels/
const Row kRows[] = {{10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8},
                     {11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8},
                     {20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8},
                     {21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8},
                     {30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8},
                     {31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8},
                     {40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8},
                     {41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6},
                     {50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4},
                     {51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4},
                     {52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4},
                     {60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4},
                     {61, 2353004544, 35651584, 16832, 240000, 0, 8, 16, 10, 4},
                     {62, 4706009088, 35651584, 16832, 480000, 0, 8, 16, 10, 4}};

bool Near(double a, double b) {
  return a == b || fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b));
}

struct Fr {
  int64_t t, luma, bytes;
  int breadth, depth;
  bool hidden, key;
  int refresh, cols;
};

void LevelSuite(Gen& g, Ctx& c) {
  State s;
  Vp9HeaderParser parser;
  Vp9LevelStats stats;
  static Bytes big(1 << 22);
  const size_t n = g.p(30) ? g.u(2, 60) : g.u(2, 12);
  const int dim = (int)g.pick<int>({64, 256, 512, 1024, 4096, 16384, 65536});
  const size_t max_bytes = g.pick<size_t>({50, 1000, 20000, 1000000});
  std::vector<Fr> fs;
  int64_t t = g.p(50) ? 0 : (int64_t)g.u(0, 1ull << 40);
  const int64_t step = g.pick<int64_t>({33333333, 1000000, 200000000, 16683333});
  int cols = 0;
  // Regular streams: one size near a limit, hidden frames at a distance.
  Plan plan;
  plan.dim = dim;
  const bool regular = g.p(75);
  const int distance = (int)g.u(3, 14);
  const int offset = (int)g.u(0, distance);
  if (regular) {
    const Row& r = kRows[g.u(0, 13)];
    if (g.b()) {
      plan.width = (int)r.breadth + (int)g.u(0, 2) - 1;
      plan.height = (int)(g.b() ? r.size / r.breadth : g.u(1, r.size / r.breadth + 1));
    } else {
      plan.height = (int)sqrt((double)r.size) + (int)g.u(0, 2) - 1;
      plan.width = (int)(r.size / plan.height) + (int)g.u(0, 1);
    }
    plan.key = g.p(20) ? -1 : 0;
  }
  for (size_t k = 0; k < n; ++k) {
    if (regular && !g.p(2)) plan.shown = (int)k % (distance + 1) == offset ? 0 : 1;
    const Header h = MakeHeader(g, &s, plan);
    if (h.show_existing) {
      --k;
      if (g.consumed() > 200000) break;
      continue;
    }
    size_t len = std::max<size_t>(h.data.size(), g.small(20, max_bytes));
    c.desc << t << " ns " << Show(h) << " " << len << " bytes\n";
    memcpy(big.data(), h.data.data(), h.data.size());
    if (!parser.ParseUncompressedHeader(big.data(), len)) c.fail("header refused");
    stats.AddFrame(parser, t);
    if (h.key && !h.segmentation) cols = 1 << h.log2_cols;
    fs.push_back({t, (int64_t)h.width * h.height, (int64_t)len, std::max(h.width, h.height),
                  h.bit_depth, !h.shown, h.key, h.refresh, cols});
    if (h.shown) t += g.p(80) ? step : (int64_t)g.u(0, 1500000000);
  }
  if (fs.empty()) return;
  double grace = 1.5;
  if (g.p(30)) {
    grace = (double)g.u(0, 50) / 2;
    stats.set_max_luma_sample_rate_grace_percent(grace);
  }
  bool estimate = true;
  if (g.p(30)) {
    estimate = false;
    stats.set_estimate_last_frame_duration(false);
  }
  const int64_t span = fs.back().t - fs.front().t;
  int64_t duration = -1;
  if (g.p(30)) {
    duration = g.p(30) ? span : (int64_t)g.u(1, 100000000000ull);
    stats.set_duration(duration);
  }
  // Recompute.
  int64_t rate = 0, size = 0, cpb = 0, total = 0, raw = 0;
  int breadth = 0, tiles = 0, shown = 0, refs = 0, mask = 0;
  int last_alt = -1, min_alt = -1, alts = 0;
  for (size_t k = 0; k < fs.size(); ++k) {
    int64_t sum = 0, four = 0;
    for (size_t q = 0; q <= k; ++q) {
      if (fs[k].t - fs[q].t < 1000000000) sum += fs[q].luma;
      if (k - q < 4) four += fs[q].bytes;
    }
    rate = std::max(rate, sum);
    cpb = std::max(cpb, four);
    size = std::max(size, fs[k].luma);
    breadth = std::max(breadth, fs[k].breadth);
    tiles = std::max(tiles, fs[k].cols);
    total += fs[k].bytes;
    if (fs[k].hidden) {
      ++alts;
      if (last_alt >= 0) {
        const int d = (int)k - last_alt - 1;
        if (min_alt < 0 || d < min_alt) min_alt = d;
      }
      last_alt = (int)k;
    } else {
      ++shown;
      raw += fs[k].luma * fs[k].depth * 3 / 2;
    }
    if (fs[k].key) {
      mask = 0;
    } else {
      mask |= fs[k].refresh;
      refs = std::max(refs, __builtin_popcount((unsigned)mask));
    }
  }
  CheckEq(c, stats.GetMaxLumaSampleRate(), rate, "GetMaxLumaSampleRate");
  CheckEq(c, stats.GetMaxLumaPictureSize(), size, "GetMaxLumaPictureSize");
  CheckEq(c, stats.GetMaxLumaPictureBreadth(), (int64_t)breadth, "GetMaxLumaPictureBreadth");
  if (!Near(stats.GetMaxCpbSize(), cpb * 8 / 1000.0)) c.fail("GetMaxCpbSize");
  if (!Near(stats.GetCompressionRatio(), (double)raw / (total * 8))) c.fail("GetCompressionRatio");
  CheckEq(c, stats.GetMaxColumnTiles(), tiles, "GetMaxColumnTiles");
  CheckEq(c, stats.GetMinimumAltrefDistance(), min_alt, "GetMinimumAltrefDistance");
  CheckEq(c, stats.GetMaxReferenceFrames(), refs, "GetMaxReferenceFrames");
  if (shown < 2 || span <= 0) return;
  double seconds = (duration == -1 ? span : duration) / 1e9;
  if (estimate && (duration == -1 || duration <= span)) seconds += span / 1e9 / (shown - 1);
  const double bitrate = total * 8 / 1000.0 / seconds;
  if (!Near(stats.GetAverageBitRate(), bitrate)) {
    std::ostringstream o;
    o << "GetAverageBitRate " << stats.GetAverageBitRate() << " want " << bitrate;
    c.fail(o.str());
  }
  c.nontrivial();
  if (alts < 2) return;  // no distance between alternate reference frames
  c.label("level judged");
  // The lowest level that meets every upper limit.
  const double got_bitrate = stats.GetAverageBitRate();
  const double got_ratio = stats.GetCompressionRatio();
  const Row* row = nullptr;
  const double cpb_kb = stats.GetMaxCpbSize();
  const bool cpb_defined = cpb_kb <= 46000;
  for (auto& r : kRows) {
    if (rate <= r.rate * (grace / 100.0 + 1.0) && size <= r.size && breadth <= r.breadth &&
        got_bitrate <= r.bitrate && tiles <= r.tiles &&
        (!cpb_defined || r.cpb == 0 || cpb_kb <= r.cpb)) {
      row = &r;
      break;
    }
  }
  int want = 0;
  if (row && min_alt >= row->altref && got_ratio >= row->ratio) want = row->level;
  c.label(want ? "level " + std::to_string(want) : row ? "no level" : "beyond every level");
  CheckEq(c, (int)stats.GetLevel(), want, "GetLevel");
}

void PrivateSuite(Gen& g, Ctx& c) {
  const size_t n = g.u(0, 5);
  Bytes d;
  for (size_t k = 0; k < n; ++k) {
    const int id = g.p(95) ? (int)g.u(1, 4) : (int)g.u(0, 255);
    d.push_back((uint8_t)id);
    d.push_back(g.p(97) ? 1 : (uint8_t)g.u(0, 255));
    static const int kLevels[] = {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62};
    uint8_t v = 0;
    if (id == 1 || id == 4) v = (uint8_t)g.u(0, 3);
    if (id == 2) v = (uint8_t)kLevels[g.u(0, 13)];
    if (id == 3) v = (uint8_t)(8 + 2 * g.u(0, 2));
    if (g.p(5)) v = (uint8_t)g.u(0, 255);
    d.push_back(v);
  }
  const size_t tail = g.p(20) ? g.u(1, 2) : 0;
  for (size_t k = 0; k < tail; ++k) d.push_back((uint8_t)g.u(0, 255));
  c.desc << pbt::Hex(d) << "\n";
  int f[5] = {-1, -1, -1, -1, -1};
  bool ok = d.size() >= 3;
  for (size_t p = 0; ok && p + 3 <= d.size(); p += 3) {
    const int id = d[p], v = d[p + 2];
    ok = d[p + 1] == 1 && id >= 1 && id <= 4;
    if (!ok) break;
    if (id == 1 || id == 4) ok = v <= 3;
    if (id == 2) {
      ok = false;
      for (auto& r : kRows) ok = ok || r.level == v;
    }
    if (id == 3) ok = v == 8 || v == 10 || v == 12;
    if (f[id] != -1 && f[id] != v) ok = false;
    f[id] = v;
  }
  std::unique_ptr<uint8_t[]> exact(new uint8_t[d.empty() ? 1 : d.size()]);
  if (!d.empty()) memcpy(exact.get(), d.data(), d.size());
  libwebm::Vp9CodecFeatures x;
  const int none = libwebm::Vp9CodecFeatures::kValueNotPresent;
  const bool got = libwebm::ParseVpxCodecPrivate(exact.get(), (int32_t)d.size(), &x);
  CheckEq(c, got, ok, "accepted");
  if (!ok) {
    c.label("refused");
    return;
  }
  if (n > 1) c.nontrivial();
  CheckEq(c, x.profile, f[1] < 0 ? none : f[1], "profile");
  CheckEq(c, x.level, f[2] < 0 ? none : f[2], "level");
  CheckEq(c, x.bit_depth, f[3] < 0 ? none : f[3], "bit_depth");
  CheckEq(c, x.chroma_subsampling, f[4] < 0 ? none : f[4], "chroma_subsampling");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C20";
  p.level = "exploration";
  p.rule =
      "header: histories of 1-6 frame headers (key, intra-only, inter, show-existing; all profiles, "
      "sizes, tiles, deltas) from a reference encoder; hostile: damaged headers in exact "
      "allocations; level: 2-60 frames with times, statistics recomputed by their definition; "
      "private: feature lists.  Non-trivial: a frame that is not a key frame; a damaged key frame "
      "accepted; a bitrate judged; several features";
  p.suites = {{"header", HeaderSuite, 200000, 8000000, true},
              {"hostile", HostileSuite, 150000, 6000000, true},
              {"level", LevelSuite, 200000, 4000000, true},
              {"private", PrivateSuite, 150000, 3000000, true}};
  p.assumptions = {
      "sizes taken from a reference are the size last coded; display size, tiles and parallel mode "
      "are judged where the header codes them and segmentation is off",
      "levels are judged for streams with two or more hidden frames and more than one time"};
  return pbt::Main(argc, argv, p);
}
