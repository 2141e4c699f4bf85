// Generator of Matroska/WebM documents as element trees with known layout.
#ifndef VERIF_DOCGEN_H_
#define VERIF_DOCGEN_H_

#include <functional>

#include "ebml.h"
#include "pbt.h"

namespace docgen {

using ebml::Bytes;
using pbt::Ctx;
using pbt::Gen;

struct El {
  uint32_t id = 0;
  ebml::Type type = ebml::kMaster;
  bool known_id = true;
  bool unknown = false;  // unknown size
  bool fake = false;     // the header states fake_size
  uint64_t fake_size = 0;
  int size_len = 0;      // length of the size field, 0: shortest
  Bytes body;            // leaves
  uint64_t hole = 0;     // zeros at the end of a leaf's body, not serialised
  std::vector<El> kids;  // masters
  // values of leaves
  uint64_t u = 0;
  int64_t i = 0;
  double f = 0;
  std::string s;
  int block = -1;  // index into Doc::blocks
  // layout
  uint64_t pos = 0, header = 0, size = 0;

  uint64_t body_pos() const { return pos + header; }
  uint64_t end() const { return pos + header + size; }
  bool master() const { return type == ebml::kMaster && known_id; }
  const El* child(uint32_t cid) const {
    for (auto& k : kids)
      if (k.id == cid) return &k;
    return nullptr;
  }
  El* child(uint32_t cid) {
    for (auto& k : kids)
      if (k.id == cid) return &k;
    return nullptr;
  }
  std::vector<const El*> children(uint32_t cid) const {
    std::vector<const El*> v;
    for (auto& k : kids)
      if (k.id == cid) v.push_back(&k);
    return v;
  }
};

El Master(uint32_t id);
El Uint(uint32_t id, uint64_t v, int len = 0);
El Int(uint32_t id, int64_t v, int len = 0);
El Float(uint32_t id, double v, int len);
El Str(uint32_t id, const std::string& s);
El Bin(uint32_t id, const Bytes& b);

uint64_t Layout(El* e, uint64_t pos);
void Serialize(const El& e, Bytes* out);
// Inserts a Void whose content is mostly a hole of about 2^31 bytes or more
// among the children of |e| or of one of its clusters.
void InsertHole(Gen& g, El* e);
ebml::Hole FindHole(const El& e);  // the hole of a laid out element
std::string Describe(const El& e, int depth = 0);

struct DocBlock {
  size_t cluster = 0;
  uint64_t cluster_tc = 0;
  bool simple = true;
  uint64_t track = 1;
  int16_t rel = 0;
  bool key = false, invisible = false, discardable = false;
  uint8_t flags = 0;
  int lacing = 0;  // 0 none, 1 Xiph, 2 fixed, 3 EBML
  std::vector<Bytes> frames;
  std::vector<uint64_t> frame_off;  // within the body
  bool has_duration = false, has_discard = false;
  uint64_t duration = 0;
  int64_t discard = 0;
  std::vector<int64_t> refs;
  // layout (of the SimpleBlock or Block element)
  uint64_t el_pos = 0, body_pos = 0, body_size = 0;
  uint64_t entry_pos = 0;  // of the SimpleBlock or BlockGroup
  int64_t tc() const { return (int64_t)cluster_tc + rel; }
};

// The payload of a block; fills frame_off and flags.
Bytes BlockBody(Gen& g, DocBlock* b, bool odd_track_length);

struct DocTrack {
  uint64_t number = 1, uid = 1, type = 1;
};

struct Options {
  bool mkv = false;          // within what mkvparser accepts
  bool unknown_sizes = true;
  bool odd_sizes = true;     // size fields longer than needed
  bool padding = true;       // integers longer than needed
  bool empty_leaves = true;  // zero-size leaves (not with mkv)
  bool voids = true;
  bool foreign = true;       // elements the schema does not know
  bool lacing = true;
  bool cues = true;
  bool shuffle = true;       // order of children
  unsigned max_clusters = 4;
  unsigned max_blocks = 6;   // per cluster
  unsigned max_frame = 40;
  bool monotone = false;     // timecodes non-decreasing within and across clusters
  int max_tracks = 4;
  bool negative_rel = true;
  unsigned density = 35;     // percentage of optional children
  unsigned wide = 0;  // this many times there may be many (4-400) of a kind
  bool cluster_first_tc = false;  // Timecode is the first child of a cluster
};

struct Doc {
  El ebml, segment;
  uint64_t scale = 1000000;
  std::vector<DocTrack> tracks;
  std::vector<DocBlock> blocks;  // in file order
  Bytes data;
  void Finish();  // layout and serialisation
  void CollectBlocks();
};

Doc Generate(Gen& g, Ctx& c, const Options& o);

// Random changes of the element tree: values, sizes, structure (hostile input).
void MutateTree(Gen& g, El* root);

// Random mutation of document bytes (hostile input).
void Mutate(Gen& g, Bytes* d);

}  // namespace docgen

#endif  // VERIF_DOCGEN_H_
