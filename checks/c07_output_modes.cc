// C07: the output does not depend on how it is delivered: a writer that cannot
// seek gets the same stream (and is never asked to seek), and chunk files put
// together are the file that would have been written in one piece.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include "muxlib.h"

using namespace muxlib;

namespace {

bool SameBlock(const FoundBlock& a, const FoundBlock& b) {
  return a.cluster == b.cluster && a.index == b.index &&
         a.cluster_tc == b.cluster_tc && a.simple == b.simple &&
         a.track == b.track && a.rel == b.rel && a.key == b.key &&
         a.data == b.data && a.has_duration == b.has_duration &&
         a.duration == b.duration && a.has_discard == b.has_discard &&
         a.discard == b.discard && a.has_additional == b.has_additional &&
         a.additional == b.additional && a.add_id == b.add_id;
}

Bytes Raw(const Bytes& d, const Node& n) {
  return Bytes(d.begin() + n.pos, d.begin() + n.end());
}

// Writer that cannot seek, checks the reported position, and remembers how
// much was there after each operation.
void Stream(Gen& g, Ctx& c) {
  GenOptions o;
  o.allow_non_seekable = false;
  Scenario s = GenScenario(g, c, o);
  c.desc << Describe(s);
  Scenario s2 = s;
  s2.seekable = false;
  MemWriter w(true), v(false);
  RunResult r, q;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  {
    mkvmuxer::Segment seg;
    q = RunScenario(&s2, &v, &seg);
  }
  c.check(!v.seek_on_non_seekable, "seek on a writer that cannot seek");
  c.check(!v.overwrote, "data of a non-seekable writer rewritten");
  pbt::CheckEq(c, q.rejected, r.rejected, "frames refused without seeking");
  pbt::CheckEq(c, q.finalized, r.finalized, "finalize without seeking");
  if (!r.all_ok()) {
    c.label("run-refused");
    return;
  }
  FoundFile a, b;
  DecodeFile(c, w.data, &a);
  DecodeFile(c, v.data, &b);
  pbt::CheckEq(c, b.clusters.size(), a.clusters.size(),
               "clusters in the stream vs in the file");
  pbt::CheckEq(c, b.blocks.size(), a.blocks.size(),
               "blocks in the stream vs in the file");
  for (size_t k = 0; k < a.blocks.size(); ++k)
    c.check(SameBlock(a.blocks[k], b.blocks[k]),
            "block differs between stream and file: " +
                DescribeBlock(a.blocks[k]) + " vs " +
                DescribeBlock(b.blocks[k]));
  // What is not patched afterwards is the same, element by element.
  for (uint32_t id : {ebml::kTracks, ebml::kChapters, ebml::kTags}) {
    auto x = a.segment->children(id), y = b.segment->children(id);
    pbt::CheckEq(c, y.size(), x.size(), "elements " + ebml::IdName(id));
    for (size_t k = 0; k < x.size(); ++k)
      c.check(Raw(w.data, *x[k]) == Raw(v.data, *y[k]),
              ebml::IdName(id) + " differs between stream and file");
  }
  c.check(b.segment->unknown, "known segment size in a stream");
  for (auto* n : b.clusters)
    c.check(n->unknown || s.accurate, "known cluster size in a stream");
  if (a.blocks.size() > 2) c.nontrivial();
  if (a.clusters.size() > 1) c.label("several-clusters");
}

bool ReadAll(const std::string& path, Bytes* out) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return false;
  uint8_t buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0)
    out->insert(out->end(), buf, buf + n);
  fclose(f);
  return true;
}

void Chunked(Gen& g, Ctx& c) {
  GenOptions o;
  o.allow_non_seekable = false;
  o.max_frames = 25;
  Scenario s = GenScenario(g, c, o);
  c.desc << "chunked " << Describe(s);
  Scenario s2 = s;
  MemWriter w(true);
  RunResult r, q;
  {
    mkvmuxer::Segment seg;
    r = RunScenario(&s, &w, &seg);
  }
  const std::string dir = pbt::ScratchPath("chunks");
  mkdir(dir.c_str(), 0700);
  const std::string base = dir + "/b";
  MemWriter unused(true);
  bool set = false, again = false;
  {
    mkvmuxer::Segment seg;
    q.init = seg.Init(&unused);
    set = seg.SetChunking(true, base.c_str());
    again = seg.SetChunking(true, base.c_str());  // no change
    q.configured = Configure(&seg, &s2);
    for (auto& op : s2.ops)
      if (!AddOne(&seg, s2, &op)) ++q.rejected;
    q.finalized = seg.Finalize();
    if (q.finalized) {
      MemWriter w3(true);
      MemReader rd(w.data);
      c.check(!seg.CopyAndMoveCuesBeforeClusters(&rd, &w3),
              "cues of a chunked segment moved");
    }
  }
  // Collect (and remove) the files before anything can throw.
  std::map<std::string, Bytes> files;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      ReadAll(dir + "/" + n, &files[n]);
    }
    closedir(d);
  }
  for (auto& f : files) unlink((dir + "/" + f.first).c_str());
  rmdir(dir.c_str());

  c.check(set && again, "SetChunking failed");
  pbt::CheckEq(c, q.rejected, r.rejected, "frames refused when chunking");
  pbt::CheckEq(c, q.finalized, r.finalized, "finalize when chunking");
  c.check(unused.data.empty(), "chunked output also written to the writer");
  if (!r.all_ok()) {
    c.label("run-refused");
    return;
  }
  Bytes all;
  c.check(files.count("b.hdr"), "no header chunk");
  ebml::Append(&all, files["b.hdr"]);
  FoundFile a;
  DecodeFile(c, w.data, &a);
  size_t nfiles = 1;
  for (size_t k = 0; k < a.clusters.size(); ++k) {
    char n[32];
    snprintf(n, sizeof n, "b_%06zu.chk", k);
    c.check(files.count(n), std::string("missing chunk ") + n);
    // Each chunk is one cluster.
    const Bytes& ch = files[n];
    c.check(ch.size() > 4 && ch[0] == 0x1F && ch[1] == 0x43 && ch[2] == 0xB6 &&
                ch[3] == 0x75,
            std::string("chunk does not start with a cluster: ") + n);
    pbt::CheckEq(c, ch.size(), Raw(w.data, *a.clusters[k]).size(),
                 std::string("bytes of ") + n);
    ebml::Append(&all, ch);
    ++nfiles;
  }
  for (auto& f : files)
    if (f.first.size() > 5 && f.first.substr(f.first.size() - 5) == ".cues") {
      ebml::Append(&all, f.second);
      ++nfiles;
    }
  pbt::CheckEq(c, files.size(), nfiles, "chunk files");
  pbt::CheckEq(c, all.size(), w.data.size(),
               "bytes of the chunks together vs of the file");
  for (size_t k = 0; k < all.size(); ++k)
    if (all[k] != w.data[k])
      c.fail("chunks together differ from the file at byte " +
             std::to_string(k));
  if (a.clusters.size() > 1) {
    c.nontrivial();
    c.label("several-clusters");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C07";
  p.level = "exploration";
  p.rule =
      "A case is a muxing history run twice: suite stream with a seekable and a "
      "non-seekable writer, suite chunk with a single writer and with chunk "
      "files in a scratch directory. Non-trivial: more than 2 blocks (stream), "
      "more than one cluster (chunk).";
  p.suites = {{"stream", Stream, 120000, 4000000, true},
              {"chunk", Chunked, 30000, 1000000, true}};
  p.assumptions = {"the reference EBML decoder in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
