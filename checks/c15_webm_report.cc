// C15: webm_parser reports every document exactly: the sequence of callbacks,
// their metadata and the values in the parsed structures equal those that the
// element tree prescribes, with any combination of skip decisions and after a
// seek to any element.
#include "pbt.h"
#include "webmdump.h"

using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;
using webmdump::Disturb;
using webmdump::Policy;

namespace {

struct Made {
  std::vector<El> top;
  Bytes data;
};

Made Make(Gen& g, Ctx& c, bool strict, bool far = false, bool wide = false) {
  Made m;
  const size_t docs = g.p(15) ? 2 : 1;
  uint64_t pos = 0;
  for (size_t k = 0; k < docs; ++k) {
    docgen::Options o;
    o.density = (unsigned)g.pick({20, 35, 60});
    if (strict) o.foreign = o.voids = false;
    if (wide) {
      o.density = (unsigned)g.pick({15, 35});
      o.wide = (unsigned)g.u(1, 3);
      o.max_tracks = (int)g.pick({4, 4, 40, 126});
      o.max_clusters = (unsigned)g.pick({2, 4, 60});
      o.max_blocks = (unsigned)(o.max_clusters < 60 ? g.pick({6, 300}) : 6);
    }
    docgen::Doc d = docgen::Generate(g, c, o);
    webmdump::Normalize(g, &d.ebml, 1, strict, false);
    webmdump::Normalize(g, &d.segment, 1, strict, g.p(40));
    if (far && k == 0) docgen::InsertHole(g, &d.segment);
    if (k == 0 && !strict && g.p(10)) m.top.push_back(docgen::Bin(ebml::kVoid, Bytes(g.u(0, 9), 0)));
    if (!strict && g.p(8)) {
      El f = docgen::Bin(0x4FF1, g.blob(g.u(0, 9)));
      f.known_id = false;
      m.top.push_back(f);
    }
    m.top.push_back(d.ebml);
    m.top.push_back(d.segment);
    if (!strict && !d.segment.unknown && g.p(10))
      m.top.push_back(docgen::Bin(ebml::kVoid, Bytes(g.u(0, 9), 0)));
  }
  if (docs > 1) c.label("two-documents");
  for (auto& e : m.top) {
    pos += docgen::Layout(&e, pos);
    docgen::Serialize(e, &m.data);
  }
  for (auto& e : m.top) c.desc << docgen::Describe(e);
  return m;
}

void Finish(Ctx& c, const Made& m, const webmdump::RunResult& r,
            const std::vector<std::string>& want) {
  if (!r.error.empty()) c.fail(r.error);
  const std::string diff = webmdump::Diff(r.log, want);
  if (!diff.empty())
    c.fail(diff + " (final status " + std::to_string(r.status) + ")");
  pbt::CheckEq(c, r.status, 0, "final status");
  pbt::CheckEq(c, r.pos, webmdump::g_hole.FileSize(m.data), "bytes consumed");
  c.count("events", want.size());
  bool block = false;
  for (auto& s : want) block = block || s.compare(0, 5, "frame") == 0;
  if (block) {
    c.label("frames");
    c.nontrivial();
  }
}

void Report(Gen& g, Ctx& c) {
  const Made m = Make(g, c, false);
  Policy p;
  Finish(c, m, webmdump::Run(m.data, p, Disturb()), webmdump::Expect(m.top, p));
}

void Skips(Gen& g, Ctx& c) {
  const Made m = Make(g, c, false);
  Policy p;
  p.seed = g.u(0, 1u << 30);
  p.pct = (unsigned)g.pick({3, 8, 25, 60});
  c.desc << "skip seed " << p.seed << " pct " << p.pct << "\n";
  Finish(c, m, webmdump::Run(m.data, p, Disturb()), webmdump::Expect(m.top, p));
}

// Many elements of a kind: repeated children, tracks, blocks.
void Wide(Gen& g, Ctx& c) {
  const Made m = Make(g, c, false, false, true);
  Policy p;
  if (g.p(30)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = (unsigned)g.pick({1, 3, 8});
  }
  Finish(c, m, webmdump::Run(m.data, p, Disturb()), webmdump::Expect(m.top, p));
}

// Files of gigabytes: positions and sizes beyond 31 and 32 bits.
void Far(Gen& g, Ctx& c) {
  const Made m = Make(g, c, false, true);
  struct Holed {
    ~Holed() { webmdump::g_hole = ebml::Hole(); }
  } holed;
  for (auto& e : m.top) {
    const ebml::Hole h = docgen::FindHole(e);
    if (h.len) webmdump::g_hole = h;
  }
  Policy p;
  if (g.p(50)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = (unsigned)g.pick({3, 8, 25});
  }
  Disturb x;
  if (g.p(30)) {
    x.state = g.u(0, 1u << 30);
    x.callback_pct = x.reader_pct = x.partial_pct = 20;
  }
  Finish(c, m, webmdump::Run(m.data, p, x), webmdump::Expect(m.top, p));
}

void Paths(const std::vector<El>& level, uint32_t parent, std::vector<size_t>* at,
           std::vector<std::vector<size_t>>* out) {
  for (size_t k = 0; k < level.size(); ++k) {
    const El& e = level[k];
    if (e.id == ebml::kColour || e.id == ebml::kProjection) continue;
    // Elements that nest: how deep one is cannot be told from its ID, and after
    // a seek into one (as if it were of unknown size) the next of its kind is
    // taken to be its child.
    const bool nests = e.id == ebml::kChapterAtom || e.id == ebml::kSimpleTag;
    if (nests && parent == e.id) continue;
    bool last = true;
    for (size_t j = k + 1; j < level.size(); ++j)
      last = last && level[j].id != e.id;
    at->push_back(k);
    out->push_back(*at);
    if (e.master() && (!nests || last))
      Paths(e.kids, e.id, at, out);
    at->pop_back();
  }
}

void Seeks(Gen& g, Ctx& c) {
  const Made m = Make(g, c, true);
  Policy p;
  if (g.p(30)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = 10;
  }
  std::vector<std::vector<size_t>> paths;
  std::vector<size_t> at;
  Paths(m.top, 1, &at, &paths);
  const auto& path = g.pick(paths);
  const El* e = nullptr;
  const std::vector<El>* level = &m.top;
  for (size_t k : path) {
    e = &(*level)[k];
    level = &e->kids;
  }
  c.desc << "seek to " << ebml::IdName(e->id) << " at " << e->pos << ", skip pct "
         << p.pct << " seed " << p.seed << "\n";
  c.label("seek-depth-" + std::to_string(path.size()));
  Finish(c, m, webmdump::Run(m.data, p, Disturb(), (int64_t)e->pos),
         webmdump::ExpectAfterSeek(m.top, path, p));
}

// Keeps what begins before the cut; false if the document may not end there.
bool Prune(std::vector<El>* level, uint64_t cut) {
  for (size_t k = 0; k < level->size(); ++k) {
    El& e = (*level)[k];
    if (e.end() <= cut && (e.pos < cut || e.end() > e.pos)) continue;
    if (e.pos >= cut || cut < e.body_pos()) {  // header not complete
      const bool at = e.pos >= cut;
      level->resize(k);
      return at;
    }
    level->resize(k + 1);
    return e.master() && Prune(&e.kids, cut) && e.unknown;
  }
  return true;
}

// A document that ends too early: everything that is complete is reported,
// nothing else is, and the end is only accepted where the document may end.
void Cuts(Gen& g, Ctx& c) {
  Made m = Make(g, c, false);
  Policy p;
  if (g.p(30)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = 10;
  }
  uint64_t cut = g.u(0, m.data.size());
  if (g.p(40)) {  // between two elements
    std::vector<uint64_t> at;
    std::vector<const std::vector<El>*> todo{&m.top};
    while (!todo.empty()) {
      const std::vector<El>& level = *todo.back();
      todo.pop_back();
      for (auto& e : level) {
        at.push_back(e.pos);
        at.push_back(e.body_pos());
        if (e.master()) todo.push_back(&e.kids);
      }
    }
    cut = g.pick(at);
  }
  c.desc << "cut at " << cut << ", skip pct " << p.pct << " seed " << p.seed << "\n";
  std::vector<El> top = m.top;
  const bool clean = Prune(&top, cut);
  m.data.resize(cut);
  const webmdump::RunResult r = webmdump::Run(m.data, p, Disturb());
  std::vector<std::string> want = webmdump::Expect(top, p);
  if (clean) {
    c.label("clean");
    Finish(c, m, r, want);
    return;
  }
  if (!r.error.empty()) c.fail(r.error);
  if (want.size() > r.log.size()) want.resize(r.log.size());
  const std::string diff = webmdump::Diff(r.log, want);
  if (!diff.empty())
    c.fail(diff + " (final status " + std::to_string(r.status) + ")");
  pbt::CheckEq(c, r.status, (int)webm::Status::kEndOfFile, "final status");
  pbt::CheckEq(c, r.pos, cut, "bytes consumed");
  c.label("truncated");
  if (r.log.size() >= 10) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C15";
  p.level = "exploration";
  p.rule =
      "A case is a generated document (every element webm_parser models, plus "
      "unknown and void elements, empty leaves, padded integers and sizes, "
      "unknown-size masters, one or two documents in a row, and (suite far) "
      "voids of gigabytes), a skip decision "
      "for every event, a seek target or a position at which the document is "
      "cut off; non-trivial: at least one frame is delivered, or 10 events "
      "before a cut";
  p.suites = {{"report", Report, 20000, 400000, false},
              {"skips", Skips, 20000, 400000, false},
              {"seeks", Seeks, 20000, 400000, false},
              {"wide", Wide, 5000, 200000, false},
              {"far", Far, 12000, 250000, false},
              {"cuts", Cuts, 15000, 300000, false}};
  p.assumptions = {
      "children unknown to webm_parser are not placed in masters of unknown "
      "size, whose end they mark",
      "seek targets are not nested in a ChapterAtom/SimpleTag within another, "
      "nor in one that another follows, nor inside Colour/Projection"};
  return pbt::Main(argc, argv, p);
}
