// Reference encoder of VP9 uncompressed frame headers.
#ifndef VERIF_VP9GEN_H_
#define VERIF_VP9GEN_H_

#include <algorithm>
#include <sstream>
#include <string>

#include "pbt.h"

namespace vp9gen {

using pbt::Bytes;
using pbt::Gen;

class Bits {
 public:
  void put(uint64_t v, int n) {
    for (int k = n - 1; k >= 0; --k) {
      if (used_ == 0) bytes.push_back(0);
      bytes.back() |= (uint8_t)((v >> k & 1) << (7 - used_));
      used_ = (used_ + 1) & 7;
    }
  }
  Bytes bytes;

 private:
  int used_ = 0;
};

struct Header {
  int profile = 0;
  bool show_existing = false;
  bool key = false, shown = true, error_res = false, intra_only = false;
  int bit_depth = 8, color_space = 1;
  int width = 16, height = 16;
  bool sized = true;  // the header codes the size
  bool scaled = false;
  int display_width = 16, display_height = 16;
  int refresh = 0;
  bool segmentation = false;
  int log2_cols = 0, log2_rows = 0;
  bool parallel = false;
  Bytes data;
};

// The decoder's state: sizes and formats of what was decoded.
struct State {
  bool any = false;
  int profile = 0;
  int width = 0, height = 0;  // of the last frame that coded its size
  int bit_depth = 8;
  std::pair<int, int> slot[8];
};

inline int Dim(Gen& g) {
  switch (g.u(0, 3)) {
    case 0: return (int)g.u(1, 64);
    case 1: return (int)g.u(1, 2048);
    case 2: return (int)g.edgy(1, 65536);
    default: return (int)(256 * g.u(1, 256));
  }
}

inline void PutSize(Gen& g, Bits* b, Header* h) {
  b->put(h->width - 1, 16);
  b->put(h->height - 1, 16);
  h->scaled = g.p(30);
  b->put(h->scaled, 1);
  h->display_width = h->width;
  h->display_height = h->height;
  if (h->scaled) {
    h->display_width = (int)g.edgy(1, 65536);
    h->display_height = (int)g.edgy(1, 65536);
    b->put(h->display_width - 1, 16);
    b->put(h->display_height - 1, 16);
  }
}

inline void PutColour(Gen& g, Bits* b, Header* h) {
  if (h->profile >= 2) {
    const bool twelve = g.b();
    b->put(twelve, 1);
    h->bit_depth = twelve ? 12 : 10;
  } else {
    h->bit_depth = 8;
  }
  const bool full = h->profile == 1 || h->profile == 3;
  h->color_space = (int)g.u(0, full ? 7 : 6);
  b->put(h->color_space, 3);
  if (h->color_space != 7) {
    b->put(g.u(0, 1), 1);
    if (full) {
      b->put(g.u(0, 2), 2);
      b->put(0, 1);
    }
  } else {
    b->put(0, 1);
  }
}

inline void PutDelta(Gen& g, Bits* b, int bits) {
  const bool coded = g.p(30);
  b->put(coded, 1);
  if (coded) {
    b->put(g.u(0, (1u << bits) - 1), bits);
    b->put(g.u(0, 1), 1);  // sign
  }
}

// Everything after the size that the parser looks at.
inline void PutRest(Gen& g, Bits* b, Header* h) {
  if (!h->error_res) {
    b->put(g.u(0, 1), 1);
    h->parallel = g.b();
    b->put(h->parallel, 1);
  } else {
    h->parallel = true;
  }
  b->put(g.u(0, 3), 2);
  b->put(g.u(0, 63), 6);
  b->put(g.u(0, 7), 3);
  const bool deltas = g.b();
  b->put(deltas, 1);
  if (deltas) {
    const bool update = g.b();
    b->put(update, 1);
    if (update)
      for (int k = 0; k < 6; ++k) PutDelta(g, b, 6);
  }
  b->put(g.u(0, 255), 8);
  for (int k = 0; k < 3; ++k) PutDelta(g, b, 4);
  h->segmentation = g.p(10);
  b->put(h->segmentation, 1);
  if (h->segmentation) {
    b->put(g.u(0, 1u << 20), 24);
    return;
  }
  const int sb = (h->width + 63) / 64;
  int lo = 0, hi = 1;
  while ((64 << lo) < sb) ++lo;
  while ((sb >> hi) >= 4) ++hi;
  --hi;
  h->log2_cols = lo;
  while (h->log2_cols < hi) {
    const bool more = g.b();
    b->put(more, 1);
    if (!more) break;
    ++h->log2_cols;
  }
  h->log2_rows = (int)g.u(0, 2);
  b->put(h->log2_rows > 0, 1);
  if (h->log2_rows) b->put(h->log2_rows > 1, 1);
  b->put(g.u(0, 65535), 16);  // header size
}

struct Plan {
  int dim = 0;             // largest size
  int width = 0, height = 0;  // always this size
  int key = -1, shown = -1;   // -1: random
};

inline Header MakeHeader(Gen& g, State* s, const Plan& plan = Plan()) {
  const int force_dim = plan.dim;
  Header h;
  Bits b;
  if (!s->any) s->profile = g.p(50) ? 0 : (int)g.u(0, 3);
  h.profile = s->profile;
  b.put(2, 2);
  b.put(h.profile & 1, 1);
  b.put(h.profile >> 1, 1);
  if (h.profile == 3) b.put(0, 1);
  h.show_existing = s->any && plan.shown < 0 && g.p(8);
  b.put(h.show_existing, 1);
  if (h.show_existing) {
    b.put(g.u(0, 7), 3);
    h.sized = false;
    h.data = b.bytes;
    return h;
  }
  h.key = !s->any || (plan.key < 0 ? g.p(15) : plan.key == 1);
  h.shown = plan.shown < 0 ? !g.p(30) : plan.shown == 1;
  h.error_res = g.p(25);
  b.put(!h.key, 1);
  b.put(h.shown, 1);
  b.put(h.error_res, 1);
  const auto pick_size = [&] {
    if (plan.width) {
      h.width = plan.width;
      h.height = plan.height;
    } else if (s->any && g.p(50)) {
      h.width = s->width;
      h.height = s->height;
    } else if (force_dim) {
      h.width = (int)g.u(1, force_dim);
      h.height = (int)g.u(1, force_dim);
    } else {
      h.width = Dim(g);
      h.height = Dim(g);
    }
  };
  if (h.key) {
    b.put(0x498342, 24);
    PutColour(g, &b, &h);
    pick_size();
    PutSize(g, &b, &h);
    PutRest(g, &b, &h);
    h.refresh = 0xFF;
  } else {
    if (!h.shown) {
      h.intra_only = g.p(30);
      b.put(h.intra_only, 1);
    }
    if (!h.error_res) b.put(g.u(0, 3), 2);
    h.bit_depth = s->bit_depth;
    h.refresh = (int)(g.p(50) ? 1u << g.u(0, 7) : g.u(0, 255));
    if (h.intra_only) {
      b.put(0x498342, 24);
      if (h.profile > 0)
        PutColour(g, &b, &h);
      else
        h.bit_depth = 8;
      b.put(h.refresh, 8);
      pick_size();
      PutSize(g, &b, &h);
    } else {
      b.put(h.refresh, 8);
      int ref[3];
      for (int k = 0; k < 3; ++k) {
        ref[k] = (int)g.u(0, 7);
        b.put(ref[k], 3);
        b.put(g.u(0, 1), 1);
      }
      bool found = false;
      for (int k = 0; k < 3; ++k) {
        // The parser does not follow references of another size.
        const bool same = s->slot[ref[k]] == std::make_pair(s->width, s->height);
        found = same && g.p(60);
        b.put(found, 1);
        if (found) break;
      }
      if (found) {
        h.sized = false;
        h.width = s->width;
        h.height = s->height;
        b.put(0, 1);
      } else {
        pick_size();
        PutSize(g, &b, &h);
      }
    }
    b.put(g.u(0, 1u << 20), 24);
  }
  s->any = true;
  if (h.sized) {
    s->width = h.width;
    s->height = h.height;
  }
  s->bit_depth = h.bit_depth;
  for (int k = 0; k < 8; ++k)
    if (h.refresh >> k & 1) s->slot[k] = {h.width, h.height};
  h.data = b.bytes;
  return h;
}

inline std::string Show(const Header& h) {
  std::ostringstream o;
  o << "profile " << h.profile;
  if (h.show_existing) return o.str() + " show existing";
  o << (h.key ? " key" : h.intra_only ? " intra-only" : " inter") << (h.shown ? "" : " hidden")
    << (h.error_res ? " resilient " : " ") << h.width << "x" << h.height
    << (h.sized ? "" : " (by reference)") << " depth " << h.bit_depth << " refresh " << h.refresh;
  if (h.key && !h.segmentation) o << " tiles " << h.log2_cols << "," << h.log2_rows;
  return o.str();
}

}  // namespace vp9gen

#endif  // VERIF_VP9GEN_H_
