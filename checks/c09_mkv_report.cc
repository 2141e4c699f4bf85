// C09: mkvparser reports exactly what a well-formed document says.
#include "docgen.h"
#include "mkvdump.h"
#include "muxlib.h"
#include "pbt.h"

using namespace pbt;

namespace {

void CheckDoc(Ctx& c, const docgen::Doc& d) {
  struct Holed {
    explicit Holed(const ebml::Hole& h) { mkvdump::g_hole = h; }
    ~Holed() { mkvdump::g_hole = ebml::Hole(); }
  } holed(docgen::FindHole(d.segment));
  muxlib::MemReader r(d.data, mkvdump::g_hole);
  mkvparser::EBMLHeader h;
  long long pos = 0;
  long long st = h.Parse(&r, pos);
  CheckEq(c, st, 0ll, "EBMLHeader::Parse");
  CheckEq(c, pos, (long long)d.segment.pos, "position after the EBML header");
  auto eb = [&](uint32_t id, long long got) {
    const docgen::El* e = d.ebml.child(id);
    if (e) CheckEq(c, got, (long long)e->u, "EBML header " + ebml::IdName(id));
  };
  eb(ebml::kEBMLVersion, h.m_version);
  eb(ebml::kEBMLReadVersion, h.m_readVersion);
  eb(ebml::kEBMLMaxIDLength, h.m_maxIdLength);
  eb(ebml::kEBMLMaxSizeLength, h.m_maxSizeLength);
  eb(ebml::kDocTypeVersion, h.m_docTypeVersion);
  eb(ebml::kDocTypeReadVersion, h.m_docTypeReadVersion);
  CheckEq(c, std::string(h.m_docType ? h.m_docType : "(null)"),
          d.ebml.child(ebml::kDocType)->s, "DocType");
  mkvparser::Segment* s = nullptr;
  st = mkvparser::Segment::CreateInstance(&r, pos, s);
  std::unique_ptr<mkvparser::Segment> own(s);
  CheckEq(c, st, 0ll, "Segment::CreateInstance");
  c.check(s != nullptr, "no segment");
  CheckEq(c, s->m_start, (long long)d.segment.body_pos(), "segment payload");
  if (d.segment.unknown) {
    c.check(s->m_size == -1 || s->m_size == (long long)d.segment.size,
            "segment size");
  } else {
    CheckEq(c, s->m_size, (long long)d.segment.size, "segment size");
  }
  CheckEq(c, s->Load(), 0l, "Segment::Load");
  mkvdump::Lines got, want;
  mkvdump::DumpHeaders(s, &got);
  mkvdump::ExpectHeaders(d, &want);
  mkvdump::Compare(c, got, want, "headers");
  got.clear(), want.clear();
  mkvdump::DumpClusters(s, d.data, &got);
  mkvdump::ExpectClusters(d, &want);
  mkvdump::Compare(c, got, want, "clusters");
  got.clear(), want.clear();
  mkvdump::DumpCues(s, &got);
  mkvdump::ExpectCues(d, &want);
  mkvdump::Compare(c, got, want, "cues");
}

void Report(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.density = g.p(50) ? 35 : (unsigned)g.u(5, 80);
  docgen::Doc d = docgen::Generate(g, c, o);
  c.desc << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  if (d.blocks.size() >= 2) c.nontrivial();
  c.count("blocks", d.blocks.size());
  CheckDoc(c, d);
}

// Files of gigabytes: positions and sizes beyond 31 and 32 bits.
void Far(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  docgen::Doc d = docgen::Generate(g, c, o);
  docgen::InsertHole(g, &d.segment);
  d.Finish();
  c.desc << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  const uint64_t at = docgen::FindHole(d.segment).at;
  for (auto& b : d.blocks)
    if (b.el_pos > at) {
      c.label("blocks-beyond-the-hole");
      c.nontrivial();
      break;
    }
  CheckDoc(c, d);
}

// Many elements of a kind: repeated children, tracks, blocks.
void Wide(Gen& g, Ctx& c) {
  docgen::Options o;
  o.mkv = true;
  o.wide = (unsigned)g.u(1, 3);
  o.density = (unsigned)g.pick({15, 35});
  o.max_tracks = (int)g.pick({4, 4, 40, 126});
  o.max_clusters = (unsigned)g.pick({2, 4, 60});
  o.max_blocks = (unsigned)(o.max_clusters < 60 ? g.pick({6, 300}) : 6);
  docgen::Doc d = docgen::Generate(g, c, o);
  c.desc << docgen::Describe(d.segment);
  if (d.data.size() > 2000) c.nontrivial();
  CheckDoc(c, d);
}

// Counts beyond the initial sizes of the parser's arrays.
void Large(Gen& g, Ctx& c) {
  using namespace docgen;
  Options o;
  o.mkv = true;
  o.max_clusters = 0;
  o.cues = false;
  o.density = 10;
  o.unknown_sizes = false;
  Doc d = Generate(g, c, o);
  const uint64_t track = d.tracks[0].number;
  auto& S = d.segment.kids;
  auto drop = [&](uint32_t id) {
    for (size_t k = 0; k < S.size();)
      if (S[k].id == id) S.erase(S.begin() + k);
      else ++k;
  };
  const size_t what = g.u(0, 4);
  auto count = [&](std::initializer_list<size_t> edge) {
    return g.p(50) ? g.pick(edge) + g.u(0, 2) - 1 : g.u(1, 5000);
  };
  auto block = [&](El* cl, uint64_t tc) {
    DocBlock b;
    b.cluster_tc = tc;
    b.track = track;
    b.key = g.b();
    b.rel = (int16_t)g.u(0, 30);
    b.frames.push_back(g.blob(g.u(1, 3)));
    El e;
    e.id = ebml::kSimpleBlock;
    e.type = ebml::kBinary;
    e.block = (int)d.blocks.size();
    e.body = BlockBody(g, &b, false);
    d.blocks.push_back(b);
    cl->kids.push_back(e);
  };
  size_t n = 0;
  switch (what) {
    case 0: {  // blocks of one cluster
      n = count({1024, 2048, 4096});
      El cl = Master(ebml::kCluster);
      cl.unknown = g.p(30);
      cl.kids.push_back(Uint(ebml::kTimecode, 7));
      for (size_t k = 0; k < n; ++k) block(&cl, 7);
      S.push_back(cl);
      c.label("large-cluster");
      break;
    }
    case 1: {  // clusters
      n = count({1024, 2048, 4096});
      for (size_t k = 0; k < n; ++k) {
        El cl = Master(ebml::kCluster);
        cl.unknown = g.p(10);
        cl.kids.push_back(Uint(ebml::kTimecode, k));
        if (!g.p(3)) block(&cl, k);
        S.push_back(cl);
      }
      c.label("many-clusters");
      break;
    }
    case 2: {  // cue points
      n = count({2048, 4096});
      El cu = Master(ebml::kCues);
      for (size_t k = 0; k < n; ++k) {
        El p = Master(ebml::kCuePoint);
        p.kids.push_back(Uint(ebml::kCueTime, k));
        El t = Master(ebml::kCueTrackPositions);
        t.kids.push_back(Uint(ebml::kCueTrack, track));
        t.kids.push_back(Uint(ebml::kCueClusterPosition, g.u(0, 100000)));
        p.kids.push_back(t);
        cu.kids.push_back(p);
      }
      S.push_back(cu);
      c.label("many-cues");
      break;
    }
    case 3: {  // chapters
      n = g.u(1, 300);
      drop(ebml::kChapters);
      El ch = Master(ebml::kChapters);
      const size_t ne = g.u(1, 20);
      for (size_t k = 0; k < ne; ++k) {
        El ed = Master(ebml::kEditionEntry);
        for (size_t j = 0; j < n / ne + 1; ++j) {
          El a = Master(ebml::kChapterAtom);
          a.kids.push_back(Uint(ebml::kChapterUID, g.edgy(0, UINT64_MAX)));
          const size_t nd = g.small(0, 20);
          for (size_t q = 0; q < nd; ++q) {
            El x = Master(ebml::kChapterDisplay);
            x.kids.push_back(Str(ebml::kChapString, g.str(10, 1)));
            a.kids.push_back(x);
          }
          ed.kids.push_back(a);
        }
        ch.kids.push_back(ed);
      }
      S.push_back(ch);
      c.label("many-chapters");
      break;
    }
    default: {  // tags
      n = g.u(1, 300);
      drop(ebml::kTags);
      El ts = Master(ebml::kTags);
      const size_t nt = g.u(1, 20);
      for (size_t k = 0; k < nt; ++k) {
        El t = Master(ebml::kTag);
        for (size_t j = 0; j < n / nt + 1; ++j) {
          El x = Master(ebml::kSimpleTag);
          x.kids.push_back(Str(ebml::kTagName, g.str(10, 1)));
          x.kids.push_back(Str(ebml::kTagString, g.str(10, 1)));
          t.kids.push_back(x);
        }
        ts.kids.push_back(t);
      }
      S.push_back(ts);
      c.label("many-tags");
    }
  }
  d.Finish();
  c.desc << "kind " << what << " count " << n << "\n";
  if (n > 100) c.nontrivial();
  CheckDoc(c, d);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C09";
  p.level = "exploration";
  p.rule =
      "A case is a well-formed document built as an element tree (any subset of "
      "the schema, child order shuffled, size fields and integers longer than "
      "needed, voids, unknown elements, unknown-size clusters and segment, every "
      "lacing; suite far: positions beyond 2^31 and 2^32 bytes; suite wide: many elements of a kind); everything mkvparser reports is compared with the tree. "
      "Non-trivial: at least 2 blocks.";
  p.suites = {{"report", Report, 80000, 3000000, true},
              {"wide", Wide, 8000, 300000, true},
              {"far", Far, 20000, 700000, true},
              {"large", Large, 600, 20000, true}};
  p.assumptions = {"the document builder in lib/docgen.cc and schema in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
