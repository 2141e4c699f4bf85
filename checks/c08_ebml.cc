// C08: the EBML primitives: encoding, its size functions, and decoding agree
// with each other and with an independent encoder/decoder.
#include <cmath>

#include "muxlib.h"

using namespace muxlib;
namespace mm = mkvmuxer;
namespace mp = mkvparser;

namespace {

const uint64_t kMaxSize = (1ull << 56) - 2;

uint32_t AnyId(Gen& g) {
  switch (g.u(0, 3)) {
    case 0: return 0x80 | (uint32_t)g.u(1, 0x7E);
    case 1: return 0x4000 | (uint32_t)g.edgy(0, 0x3FFE);
    case 2: return 0x200000 | (uint32_t)g.edgy(0, 0x1FFFFE);
    default: return 0x10000000 | (uint32_t)g.edgy(0, 0x0FFFFFFE);
  }
}

uint64_t AnyUint(Gen& g) {
  return g.p(70) ? g.edgy(0, UINT64_MAX) : g.small(0, 100000);
}
int64_t AnyInt(Gen& g) {
  uint64_t m = g.p(70) ? g.edgy(0, INT64_MAX) : g.small(0, 70000);
  return g.b() ? (int64_t)m : -(int64_t)m - (int64_t)g.u(0, m ? 0 : 1);
}

struct Out {
  MemWriter w{true};
  Bytes prefix;
};

// Reads the element just written with mkvparser and checks id and extent.
void Header(Ctx& c, const Bytes& d, uint64_t start, uint32_t id,
            uint64_t body_size, long long* body) {
  MemReader r(d);
  long long pos = start, pid = -1, psize = -1;
  const long st = mp::ParseElementHeader(&r, pos, (long long)d.size(), pid, psize);
  pbt::CheckEq(c, st, 0, "ParseElementHeader of a written element");
  pbt::CheckEq(c, (uint64_t)pid, (uint64_t)id, "parsed element ID");
  pbt::CheckEq(c, (uint64_t)psize, body_size, "parsed element size");
  *body = pos;
}

void Same(Ctx& c, const Bytes& d, uint64_t start, const Bytes& want,
          const std::string& what) {
  Bytes got(d.begin() + start, d.end());
  if (got != want)
    c.fail(what + ": wrote " + pbt::Hex(got) + ", want " + pbt::Hex(want));
}

void Encode(Gen& g, Ctx& c) {
  MemWriter w(true);
  const Bytes junk = g.blob(g.small(0, 20));
  w.Write(junk.data(), junk.size());
  const uint64_t start = w.data.size();
  const uint32_t id = AnyId(g);
  long long body = 0;
  const size_t what = g.u(0, 12);
  c.label("encode-" + std::to_string(what));
  switch (what) {
    case 0: {
      const uint64_t v = AnyUint(g);
      c.desc << "uint " << v << " id " << id;
      c.check(mm::WriteEbmlElement(&w, (mm::uint64)id, (mm::uint64)v),
              "uint element refused");
      Same(c, w.data, start, ebml::UintElement(id, v), "uint element");
      pbt::CheckEq(c, mm::EbmlElementSize(id, (mm::uint64)v),
                   w.data.size() - start, "size of a uint element");
      Header(c, w.data, start, id, ebml::MinUintLength(v), &body);
      MemReader r(w.data);
      const long long back = mp::UnserializeUInt(&r, body, ebml::MinUintLength(v));
      if (v <= INT64_MAX)
        pbt::CheckEq(c, (uint64_t)back, v, "uint read back");
      else
        c.check(back < 0, "uint beyond the readable range not refused");
      pbt::CheckEq(c, (int)mm::GetUIntSize(v), ebml::MinUintLength(v),
                   "GetUIntSize");
      break;
    }
    case 1: {
      const uint64_t v = AnyUint(g);
      const uint64_t fixed = g.u(1, 8);
      c.desc << "uint " << v << " in " << fixed << " bytes";
      const bool fits = ebml::MinUintLength(v) <= (int)fixed;
      const bool ok = mm::WriteEbmlElement(&w, (mm::uint64)id, (mm::uint64)v, fixed);
      c.check(ok == fits, "fixed-size uint element: wrong result");
      if (fits) {
        Bytes b;
        ebml::PutUintN(&b, v, fixed);
        Same(c, w.data, start, ebml::Element(id, b), "fixed-size uint element");
        pbt::CheckEq(c, mm::EbmlElementSize(id, (mm::uint64)v, fixed),
                     w.data.size() - start, "size of a fixed-size uint element");
      }
      break;
    }
    case 2: {
      const int64_t v = AnyInt(g);
      c.desc << "int " << v;
      c.check(mm::WriteEbmlElement(&w, (mm::uint64)id, (mm::int64)v),
              "int element refused");
      Same(c, w.data, start, ebml::IntElement(id, v), "int element");
      pbt::CheckEq(c, mm::EbmlElementSize(id, (mm::int64)v),
                   w.data.size() - start, "size of an int element");
      pbt::CheckEq(c, (int)mm::GetIntSize(v), ebml::MinIntLength(v), "GetIntSize");
      Header(c, w.data, start, id, ebml::MinIntLength(v), &body);
      MemReader r(w.data);
      long long back = 0;
      pbt::CheckEq(c, mp::UnserializeInt(&r, body, ebml::MinIntLength(v), back),
                   0, "UnserializeInt");
      pbt::CheckEq(c, (int64_t)back, v, "int read back");
      break;
    }
    case 3: {
      uint32_t bits = (uint32_t)g.edgy(0, UINT32_MAX);
      float f;
      memcpy(&f, &bits, 4);
      c.desc << "float bits " << bits;
      c.check(mm::WriteEbmlElement(&w, (mm::uint64)id, f), "float refused");
      pbt::CheckEq(c, mm::EbmlElementSize(id, f), w.data.size() - start,
                   "size of a float element");
      Bytes b;
      ebml::PutUintN(&b, bits, 4);
      Same(c, w.data, start, ebml::Element(id, b), "float element");
      Header(c, w.data, start, id, 4, &body);
      MemReader r(w.data);
      double back = 0;
      const long st = mp::UnserializeFloat(&r, body, 4, back);
      if (std::isfinite(f))
        c.check(st == 0 && back == (double)f, "float read back");
      else
        c.check(st < 0, "non-finite float not refused");
      break;
    }
    case 4: {
      const size_t n = g.p(80) ? g.edgy(0, 300) : g.edgy(0, 20000);
      std::string s(n, 'x');
      for (size_t k = 0; k < std::min<size_t>(n, 8); ++k)
        s[k] = (char)g.u('!', '~');
      c.desc << "string of " << n;
      c.check(mm::WriteEbmlElement(&w, (mm::uint64)id, s.c_str()),
              "string refused");
      pbt::CheckEq(c, mm::EbmlElementSize(id, s.c_str()), w.data.size() - start,
                   "size of a string element");
      Same(c, w.data, start, ebml::StrElement(id, s), "string element");
      Header(c, w.data, start, id, n, &body);
      MemReader r(w.data);
      char* back = nullptr;
      const long st = mp::UnserializeString(&r, body, n, back);
      const std::string got = back ? back : "";
      delete[] back;
      c.check(st == 0 && got == s, "string read back");
      break;
    }
    case 5: {
      const size_t n = g.p(80) ? g.edgy(1, 300) : g.edgy(1, 20000);
      const Bytes b = g.blob(n);
      c.desc << "binary of " << n;
      c.check(mm::WriteEbmlElement(&w, (mm::uint64)id, b.data(), n),
              "binary refused");
      pbt::CheckEq(c, mm::EbmlElementSize(id, b.data(), n),
                   w.data.size() - start, "size of a binary element");
      Same(c, w.data, start, ebml::Element(id, b), "binary element");
      Header(c, w.data, start, id, n, &body);
      break;
    }
    case 6: {
      const int64_t v = AnyInt(g);
      c.desc << "date " << v;
      c.check(mm::WriteEbmlDateElement(&w, id, v), "date refused");
      pbt::CheckEq(c, mm::EbmlDateElementSize(id), w.data.size() - start,
                   "size of a date element");
      Bytes b;
      ebml::PutUintN(&b, (uint64_t)v, 8);
      Same(c, w.data, start, ebml::Element(id, b), "date element");
      break;
    }
    case 7: {
      const uint64_t v = g.edgy(0, kMaxSize);
      c.desc << "master of " << v;
      c.check(mm::WriteEbmlMasterElement(&w, id, v), "master refused");
      pbt::CheckEq(c, mm::EbmlMasterElementSize(id, v), w.data.size() - start,
                   "size of a master element's header");
      Bytes b;
      ebml::PutId(&b, id);
      ebml::PutSize(&b, v);
      Same(c, w.data, start, b, "master element header");
      Header(c, w.data, start, id, v, &body);
      break;
    }
    case 8: {
      // Coded numbers, shortest.
      const uint64_t v = g.p(90) ? g.edgy(0, kMaxSize) : g.edgy(0, UINT64_MAX);
      c.desc << "coded " << v;
      const bool fits = v <= kMaxSize;
      const bool auto0 = g.p(30);
      const int st = auto0 ? mm::WriteUIntSize(&w, v, 0) : mm::WriteUInt(&w, v);
      c.check((st == 0) == fits, "coded number: wrong result");
      if (fits) {
        Bytes b;
        ebml::PutSize(&b, v);
        Same(c, w.data, start, b, "coded number");
        pbt::CheckEq(c, (size_t)mm::GetCodedUIntSize(v), b.size(),
                     "GetCodedUIntSize");
        MemReader r(w.data);
        long len = 0;
        pbt::CheckEq(c, (uint64_t)mp::ReadUInt(&r, start, len), v,
                     "coded number read back");
        pbt::CheckEq(c, (size_t)len, b.size(), "length of a coded number");
        long len2 = 0;
        pbt::CheckEq(c, mp::GetUIntLength(&r, start, len2), 0, "GetUIntLength");
        pbt::CheckEq(c, len2, len, "GetUIntLength vs ReadUInt");
      } else {
        pbt::CheckEq(c, w.data.size(), start, "bytes of a refused number");
      }
      break;
    }
    case 9: {
      // Coded numbers, given length.
      const int len = (int)g.u(1, 8);
      const uint64_t max = (1ull << (7 * len)) - 2;
      const uint64_t v = g.p(85) ? g.edgy(0, max) : g.edgy(0, UINT64_MAX);
      c.desc << "coded " << v << " in " << len;
      const int st = mm::WriteUIntSize(&w, v, len);
      c.check((st == 0) == (v <= max), "sized coded number: wrong result");
      if (v <= max) {
        Bytes b;
        ebml::PutSize(&b, v, len);
        Same(c, w.data, start, b, "sized coded number");
        MemReader r(w.data);
        long l = 0;
        pbt::CheckEq(c, (uint64_t)mp::ReadUInt(&r, start, l), v,
                     "sized coded number read back");
        pbt::CheckEq(c, (int)l, len, "length of a sized coded number");
      }
      break;
    }
    case 10: {
      const uint64_t n = g.p(60) ? g.edgy(2, 20000) : g.u(2, 300);
      c.desc << "void of " << n;
      pbt::CheckEq(c, mm::WriteVoidElement(&w, n), n, "WriteVoidElement");
      pbt::CheckEq(c, w.data.size() - start, n, "bytes of a void element");
      uint64_t pos = start, size = 0;
      uint32_t vid = 0;
      bool unknown = false;
      int l = 0;
      c.check(ebml::GetId(w.data, &pos, w.data.size(), &vid) &&
                  vid == ebml::kVoid &&
                  ebml::GetSize(w.data, &pos, w.data.size(), &size, &unknown, &l) &&
                  !unknown && pos + size == w.data.size(),
              "not one void element of the requested size");
      break;
    }
    case 11: {
      c.desc << "id " << id;
      pbt::CheckEq(c, mm::WriteID(&w, id), 0, "WriteID");
      Bytes b;
      ebml::PutId(&b, id);
      Same(c, w.data, start, b, "ID");
      c.check(!w.notes.empty() && w.notes.back().first == id &&
                  w.notes.back().second == (int64_t)start,
              "WriteID did not notify the writer");
      MemReader r(w.data);
      long len = 0;
      pbt::CheckEq(c, (uint64_t)mp::ReadID(&r, start, len), (uint64_t)id, "ReadID");
      pbt::CheckEq(c, (size_t)len, b.size(), "length of an ID");
      break;
    }
    default: {
      const int n = (int)g.u(1, 8);
      const int64_t v = AnyInt(g);
      c.desc << "SerializeInt " << v << " in " << n;
      pbt::CheckEq(c, mm::SerializeInt(&w, v, n), 0, "SerializeInt");
      Bytes b;
      ebml::PutUintN(&b, (uint64_t)v, n);
      Same(c, w.data, start, b, "SerializeInt");
      c.check(mm::SerializeInt(&w, v, (int)g.pick({0, 9, -1})) != 0,
              "SerializeInt with a bad size");
      break;
    }
  }
  c.nontrivial();
}

// Arbitrary bytes: the readers accept exactly what the reference accepts and
// then agree with it.
void Decode(Gen& g, Ctx& c) {
  Bytes d = g.bytes(g.u(0, 14));
  if (!d.empty() && g.p(60)) {
    const int z = (int)g.u(0, 8);  // a leading length marker of our choice
    d[0] = z == 8 ? 0 : (uint8_t)((0x80 >> z) | (d[0] & ((0x80 >> z) - 1)));
  }
  for (auto& b : d)
    if (g.p(10)) b = g.pick<uint8_t>({0, 0xFF, 0x80, 0x7F});
  c.desc << pbt::Hex(d);
  MemReader r(d);
  // A number.
  {
    uint64_t pos = 0, size = 0;
    bool unknown = false;
    int len = 0;
    const bool ok = ebml::GetSize(d, &pos, d.size(), &size, &unknown, &len);
    long l = 0;
    const long long v = mp::ReadUInt(&r, 0, l);
    if (ok) {
      const uint64_t want = unknown ? (1ull << (7 * len)) - 1 : size;
      pbt::CheckEq(c, (uint64_t)v, want, "ReadUInt");
      pbt::CheckEq(c, (int)l, len, "ReadUInt length");
      c.nontrivial();
    } else {
      c.check(v < 0, "ReadUInt accepted a malformed number");
    }
    long l2 = 0;
    const long long st = mp::GetUIntLength(&r, 0, l2);
    if (d.empty())
      pbt::CheckEq(c, l2, 1, "GetUIntLength without data");
    else if (d[0] == 0)
      c.check(st < 0, "GetUIntLength of a zero byte");
    else {
      int z = 1;
      while (!(d[0] & (0x80 >> (z - 1)))) ++z;
      c.check(st == 0 && l2 == z, "GetUIntLength");
    }
  }
  // An element.
  {
    uint64_t pos = 0, size = 0;
    uint32_t id = 0;
    bool unknown = false;
    int len = 0;
    uint64_t idpos = 0;
    const bool idok = !d.empty() && d[0] >= 0x10 &&
                      ebml::IdLength(0) >= 0 &&
                      (int)d.size() >= (d[0] & 0x80 ? 1 : d[0] & 0x40 ? 2 : d[0] & 0x20 ? 3 : 4);
    long l = 0;
    const long long pid = mp::ReadID(&r, 0, l);
    if (idok) {
      const int n = d[0] & 0x80 ? 1 : d[0] & 0x40 ? 2 : d[0] & 0x20 ? 3 : 4;
      uint64_t want = 0;
      for (int k = 0; k < n; ++k) want = want << 8 | d[k];
      pbt::CheckEq(c, (uint64_t)pid, want, "ReadID");
      pbt::CheckEq(c, (int)l, n, "ReadID length");
      pos = n;
      const bool ok = ebml::GetSize(d, &pos, d.size(), &size, &unknown, &len);
      long long p = 0, id2 = 0, s2 = 0;
      const long st = mp::ParseElementHeader(&r, p, (long long)d.size(), id2, s2);
      if (ok) {
        pbt::CheckEq(c, st, 0, "ParseElementHeader");
        pbt::CheckEq(c, (uint64_t)p, pos, "payload position");
        pbt::CheckEq(c, (uint64_t)s2, unknown ? (1ull << (7 * len)) - 1 : size,
                     "payload size");
      } else {
        c.check(st < 0, "ParseElementHeader accepted a malformed header");
      }
    } else {
      c.check(pid < 0, "ReadID accepted a malformed ID");
    }
    (void)id; (void)idpos;
  }
  // Values.
  const size_t n = g.u(0, 9);
  Bytes b = g.bytes(n);
  for (auto& x : b)
    if (g.p(15)) x = g.pick<uint8_t>({0, 0xFF, 0x80, 0x7F});
  c.desc << " value " << pbt::Hex(b);
  MemReader q(b);
  uint64_t u = 0;
  for (auto x : b) u = u << 8 | x;
  const long long gu = mp::UnserializeUInt(&q, 0, n);
  long long gi = 12345;
  const long si = mp::UnserializeInt(&q, 0, n, gi);
  if (n < 1 || n > 8) {
    c.check(gu < 0 && si < 0, "integer of a bad size accepted");
  } else {
    if (u <= INT64_MAX)
      pbt::CheckEq(c, (uint64_t)gu, u, "UnserializeUInt");
    else
      c.check(gu < 0, "UnserializeUInt beyond its range");
    int64_t want = (int64_t)(u << (64 - 8 * n)) >> (64 - 8 * n);
    c.check(si == 0 && gi == want, "UnserializeInt");
  }
  double gd = 0;
  const long sd = mp::UnserializeFloat(&q, 0, n, gd);
  if (n == 4 || n == 8) {
    double want;
    if (n == 4) {
      float f;
      uint32_t u32 = (uint32_t)u;
      memcpy(&f, &u32, 4);
      want = f;
    } else {
      memcpy(&want, &u, 8);
    }
    if (std::isfinite(want))
      c.check(sd == 0 && gd == want, "UnserializeFloat");
    else
      c.check(sd < 0, "UnserializeFloat of a non-finite value");
  } else {
    c.check(sd < 0, "float of a bad size accepted");
  }
  // Truncated values are refused.
  if (n >= 1 && n < 8) {
    long long x = 0;
    c.check(mp::UnserializeUInt(&q, 0, n + 1) < 0 &&
                mp::UnserializeInt(&q, 0, n + 1, x) < 0,
            "truncated integer accepted");
  }
  char* s = nullptr;
  const long ss = mp::UnserializeString(&q, 0, n, s);
  const std::string got = s ? s : "";
  delete[] s;
  c.check(ss == 0 && got == std::string((const char*)b.data(), n).c_str(),
          "UnserializeString");
  s = nullptr;
  const long st = mp::UnserializeString(&q, 0, n + 1, s);
  c.check(st < 0 && s == nullptr, "truncated string accepted");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C08";
  p.level = "exploration";
  p.rule =
      "Suite encode: one call of a writing primitive with an edge-biased value "
      "over its whole range, compared with the reference encoding, the size "
      "function and mkvparser's reading. Suite decode: arbitrary bytes given to "
      "the reading primitives and to the reference decoder. Non-trivial: every "
      "encoding; decodings whose bytes start with a well-formed number.";
  p.suites = {{"encode", Encode, 1500000, 60000000, true},
              {"decode", Decode, 800000, 30000000, true}};
  p.assumptions = {"the reference encoder and decoder in lib/ebml.cc"};
  return pbt::Main(argc, argv, p);
}
