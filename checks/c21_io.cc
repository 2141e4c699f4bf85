// C21: the supplied data sources and sinks deliver exactly the bytes of the
// underlying file, and say truthfully how much they delivered.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>

#include "apps.h"
#include "common/file_util.h"
#include "common/webm_endian.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
#include "pbt.h"
#include "webm/buffer_reader.h"
#include "webm/file_reader.h"
#include "webm/istream_reader.h"
#include "webmdump.h"

using pbt::Bytes;
using pbt::CheckEq;
using pbt::Ctx;
using pbt::Gen;
using webm::Status;

namespace {

void WriteAll(Ctx& c, const std::string& path, const Bytes& d) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) c.fail("harness: cannot write " + path);
  if (d.size() && fwrite(d.data(), 1, d.size(), f) != d.size())
    c.fail("harness: short write");
  fclose(f);
}

Bytes ReadAll(Ctx& c, const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) c.fail("harness: cannot read " + path);
  Bytes d;
  uint8_t b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) d.insert(d.end(), b, b + n);
  fclose(f);
  return d;
}

// A stream without random access, delivering at most `step` bytes at a time.
class StreamOnly : public std::streambuf {
 public:
  StreamOnly(const Bytes& d, size_t step) : d_(d.begin(), d.end()), step_(step) {}

 protected:
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (at_ >= d_.size()) return traits_type::eof();
    const size_t n = std::min(step_, d_.size() - at_);
    setg(d_.data() + at_, d_.data() + at_, d_.data() + at_ + n);
    at_ += n;
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::vector<char> d_;
  size_t step_, at_ = 0;
};
class OnlyStream : public std::istream {
 public:
  OnlyStream(const Bytes& d, size_t step) : std::istream(nullptr), b_(d, step) {
    rdbuf(&b_);
  }

 private:
  StreamOnly b_;
};

enum Kind { kBuffer, kFile, kPipe, kStringStream, kFileStream, kOnlyStream, kKinds };
const char* const kNames[] = {"buffer", "file", "pipe", "stringstream",
                              "ifstream", "stream without seeking"};

// The reader under test; Skip/Read/Position through webm::Reader.
struct Source {
  Kind kind = kBuffer;
  webm::BufferReader buffer;
  webm::FileReader file;
  webm::IstreamReader stream;
  webm::Reader* r = nullptr;
  uint64_t base = 0;  // where the underlying file stands initially

  void Open(Gen& g, Ctx& c, Kind k, const Bytes& d) {
    kind = k;
    switch (k) {
      case kBuffer:
        if (g.b())
          buffer = webm::BufferReader(d);
        else
          buffer = webm::BufferReader(std::vector<uint8_t>(d));
        r = &buffer;
        break;
      case kFile: {
        const std::string path = pbt::ScratchPath("in.bin");
        WriteAll(c, path, d);
        FILE* f = fopen(path.c_str(), "rb");
        // A file may be handed over at any position.
        base = g.p(25) ? g.u(0, d.size()) : 0;
        if (base) fseek(f, (long)base, SEEK_SET);
        file = webm::FileReader(f);
        r = &file;
        break;
      }
      case kPipe: {
        int fd[2];
        if (pipe(fd)) c.fail("harness: pipe");
        size_t at = 0;
        while (at < d.size()) {
          const ssize_t n = write(fd[1], d.data() + at, d.size() - at);
          if (n <= 0) c.fail("harness: pipe write");
          at += (size_t)n;
        }
        close(fd[1]);
        FILE* f = fdopen(fd[0], "rb");
        if (g.p(30)) setvbuf(f, nullptr, _IONBF, 0);
        file = webm::FileReader(f);
        r = &file;
        break;
      }
      case kStringStream:
        stream = webm::IstreamReader::Emplace<std::stringstream>(
            std::string(d.begin(), d.end()));
        r = &stream;
        break;
      case kFileStream: {
        const std::string path = pbt::ScratchPath("in.bin");
        WriteAll(c, path, d);
        if (g.b())
          stream = webm::IstreamReader(
              std::ifstream(path, std::ios::in | std::ios::binary));
        else
          stream = webm::IstreamReader::Emplace<std::ifstream>(
              path, std::ios::in | std::ios::binary);
        r = &stream;
        break;
      }
      default:
        stream = webm::IstreamReader::Emplace<OnlyStream>(d, g.u(1, 700));
        r = &stream;
        break;
    }
  }
};

template <typename T>
void CheckEmpty(Ctx& c, T* r) {
  uint8_t b[4];
  uint64_t n = 77;
  CheckEq(c, r->Position(), 0u, "position of an empty reader");
  Status st = r->Read(4, b, &n);
  CheckEq(c, (int)st.code, (int)Status::kEndOfFile, "read on an empty reader");
  CheckEq(c, n, 0u, "bytes read from an empty reader");
  n = 77;
  st = r->Skip(4, &n);
  CheckEq(c, (int)st.code, (int)Status::kEndOfFile, "skip on an empty reader");
  CheckEq(c, n, 0u, "bytes skipped in an empty reader");
  CheckEq(c, r->Position(), 0u, "position of an empty reader");
}

// A reader that has been used.
template <typename T>
T Used(Ctx& c);
template <typename T>
void UseIt(Ctx& c, T* r) {
  uint8_t b[2];
  uint64_t n = 0;
  if (!r->Read(2, b, &n).completed_ok()) c.fail("reading 2 bytes of 5");
}
template <>
webm::BufferReader Used(Ctx& c) {
  webm::BufferReader r({1, 2, 3, 4, 5});
  UseIt(c, &r);
  return r;
}
template <>
webm::FileReader Used(Ctx& c) {
  const std::string path = pbt::ScratchPath("used.bin");
  WriteAll(c, path, Bytes{1, 2, 3, 4, 5});
  webm::FileReader r(fopen(path.c_str(), "rb"));
  UseIt(c, &r);
  return r;
}
template <>
webm::IstreamReader Used(Ctx& c) {
  webm::IstreamReader r =
      webm::IstreamReader::Emplace<std::stringstream>(std::string("12345"));
  UseIt(c, &r);
  return r;
}

// Moves the reader to another object and back (and the moved-from is empty).
template <typename T>
void MoveAround(Gen& g, Ctx& c, T* r) {
  switch (g.u(0, 2)) {
    case 0: {
      T other(std::move(*r));
      CheckEmpty(c, r);
      *r = std::move(other);
      CheckEmpty(c, &other);
      break;
    }
    case 1: {
      T other;
      if (g.b()) other = Used<T>(c);
      other = std::move(*r);
      CheckEmpty(c, r);
      T third(std::move(other));
      *r = std::move(third);
      break;
    }
    default: {
      T& same = *r;
      *r = std::move(same);
      break;
    }
  }
}

void Readers(Gen& g, Ctx& c) {
  const size_t size = g.p(60) ? g.small(0, 300) : g.u(0, 9000);
  const Bytes d = g.blob(size);
  const Kind kind = (Kind)g.u(0, kKinds - 1);
  c.label(kNames[kind]);
  c.desc << kNames[kind] << " of " << size << " bytes:";
  Source s;
  s.Open(g, c, kind, d);
  uint64_t pos = 0, at = s.base;  // reported position, file position
  if (at) c.desc << " from " << at;
  const size_t ops = g.u(1, 14);
  unsigned at_end = 0, moved = 0, through = 0;
  for (size_t k = 0; k < ops; ++k) {
    const size_t op = g.weighted({40, 40, 8, 8, 4});
    const uint64_t rem = at < size ? size - at : 0;
    if (op <= 1) {
      const bool skip = op == 1;
      uint64_t n;
      switch (g.u(0, 4)) {
        case 0: n = g.u(1, 20); break;
        case 1: n = rem ? g.u(1, rem) : 1; break;
        case 2: n = rem + g.u(0, 2); break;
        case 3: n = rem + g.u(0, 3000); break;
        default:
          n = skip ? g.edgy(1, ~0ull) : g.u(1, 5000);
          break;
      }
      if (n == 0) n = 1;
      c.desc << (skip ? " skip " : " read ") << n;
      uint64_t got = 0xABCDEF;
      Status st(Status::kOkCompleted);
      Bytes buf;
      if (skip) {
        st = s.r->Skip(n, &got);
      } else {
        buf.assign(n, 0xEE);
        st = s.r->Read(n, buf.data(), &got);
      }
      const std::string what = std::string(skip ? "skip " : "read ") +
                               std::to_string(n) + " at " + std::to_string(at) +
                               " of " + std::to_string(size);
      if (got > n) c.fail(what + ": more than requested: " + std::to_string(got));
      if (got > rem)
        c.fail(what + ": past the end: claims " + std::to_string(got));
      if (got == 0 && rem > 0) c.fail(what + ": end reported before the end");
      if (got == n) {
        if (st.code != Status::kOkCompleted)
          c.fail(what + ": complete but status " + std::to_string(st.code));
      } else if (got > 0) {
        if (st.code != Status::kOkPartial)
          c.fail(what + ": short (" + std::to_string(got) + ") but status " +
                 std::to_string(st.code));
        if (skip) ++through;
      } else {
        if (st.completed_ok() || st.code == Status::kOkPartial)
          c.fail(what + ": nothing delivered but status " +
                 std::to_string(st.code));
        CheckEq(c, (int)st.code, (int)Status::kEndOfFile, what + ": status");
        ++at_end;
      }
      if (!skip) {
        if (got && memcmp(buf.data(), d.data() + at, got))
          c.fail(what + ": wrong bytes");
      }
      pos += got;
      at += got;
    } else if (op == 2) {
      c.desc << " move";
      ++moved;
      if (kind == kBuffer)
        MoveAround(g, c, &s.buffer);
      else if (kind == kFile || kind == kPipe)
        MoveAround(g, c, &s.file);
      else
        MoveAround(g, c, &s.stream);
    } else if (op == 3 && (kind == kFile || kind == kPipe)) {
      const uint64_t to = g.p(85) ? g.u(0, size) : g.edgy(0, ~0ull);
      c.desc << " seek " << to;
      const Status st = s.file.Seek(to);
      if (kind == kPipe) {
        CheckEq(c, (int)st.code, (int)Status::kSeekFailed, "seek in a pipe");
      } else if (to <= size) {
        CheckEq(c, (int)st.code, (int)Status::kOkCompleted,
                "seek to " + std::to_string(to));
        pos = at = to;
      } else if (st.completed_ok()) {
        pos = at = to;
      } else {
        CheckEq(c, (int)st.code, (int)Status::kSeekFailed, "failed seek");
      }
      c.label("seek");
    } else if (op == 4 && kind == kBuffer) {
      c.desc << " copy";
      webm::BufferReader copy(s.buffer);
      uint8_t b[8];
      uint64_t n;
      copy.Read(8, b, &n);  // does not disturb the original
      CheckEq(c, s.buffer.size(), size, "size of the buffer");
      webm::BufferReader other;
      other = s.buffer;
      s.buffer = other;
    } else if (op == 4) {
      c.desc << " seek-empty";
      webm::FileReader none;
      CheckEq(c, (int)none.Seek(g.u(0, 5)).code, (int)Status::kSeekFailed,
              "seek of an empty reader");
      CheckEmpty(c, &none);
    }
    CheckEq(c, s.r->Position(), pos, "position");
  }
  c.desc << "\n";
  if (at_end) c.label("end reached");
  if (through) c.label("skip cut short by the end");
  if (moved) c.label("moved");
  if (size > 10 && ops > 3) c.nontrivial();
}

struct Outcome {
  std::vector<std::string> log;
  int status;
  uint64_t pos;
};

Outcome Parse(Ctx& c, webm::Reader* r, const webmdump::Policy& p) {
  webmdump::Disturb none;
  webmdump::Recorder rec(p, &none);
  webm::WebmParser parser;
  Outcome o;
  uint64_t idle = 0, last = 0;
  for (;;) {
    const Status st = parser.Feed(&rec, r);
    if (!rec.error.empty()) c.fail(rec.error);
    o.status = st.code;
    if (st.completed_ok() || st.is_parsing_error() ||
        st.code == Status::kEndOfFile)
      break;
    if (r->Position() == last && ++idle > 1000) c.fail("no progress");
    last = r->Position();
  }
  o.log = rec.log;
  o.pos = r->Position();
  return o;
}

void Differential(Gen& g, Ctx& c) {
  docgen::Options opt;
  opt.density = (unsigned)g.pick({15, 35});
  opt.max_clusters = 3;
  docgen::Doc doc = docgen::Generate(g, c, opt);
  webmdump::Normalize(g, &doc.segment, 1, false, g.p(30));
  doc.Finish();
  webmdump::Policy p;
  if (g.p(70)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = (unsigned)g.pick({5, 20, 60});
  }
  const bool cut = g.p(50);
  if (cut) doc.data.resize(g.u(0, doc.data.size()));
  c.desc << docgen::Describe(doc.segment) << "size " << doc.data.size()
         << (cut ? " cut" : "") << " skip seed " << p.seed << " pct " << p.pct
         << "\n";
  webm::BufferReader br(doc.data);
  const Outcome want = Parse(c, &br, p);
  for (int k = kFile; k < kKinds; ++k) {
    Source s;
    s.Open(g, c, (Kind)k, doc.data);
    if (s.base) continue;
    const Outcome got = Parse(c, s.r, p);
    const std::string name = std::string(kNames[k]) + " vs buffer: ";
    const std::string diff = webmdump::Diff(got.log, want.log);
    if (!diff.empty()) c.fail(name + diff);
    CheckEq(c, got.status, want.status, name + "final status");
    if (got.status == 0 || got.status == Status::kEndOfFile)
      CheckEq(c, got.pos, want.pos, name + "final position");
  }
  c.label(want.status == 0                    ? "completed"
          : want.status == Status::kEndOfFile ? "truncated"
                                              : "parse-error");
  if (want.log.size() > 8) c.nontrivial();
}

// A file of gigabytes, mostly hole, made with MkvWriter and read back through
// every reader.
void Far(Gen& g, Ctx& c) {
  const std::string path = pbt::ScratchPath("far.bin");
  struct Remove {
    std::string p;
    ~Remove() { unlink(p.c_str()); }
  } remove_it{path};
  std::map<uint64_t, Bytes> islands;  // disjoint
  uint64_t size = 0;
  {
    mkvmuxer::MkvWriter w;
    if (!w.Open(path.c_str())) c.fail("MkvWriter cannot open");
    const size_t n = g.u(1, 6);
    for (size_t k = 0; k < n; ++k) {
      uint64_t at = g.pick<uint64_t>({0, 1ull << 31, 1ull << 32, 3ull << 31,
                                      1ull << 33});
      at += g.u(0, 5000);
      if (at > 2500 && g.b()) at -= 2500;
      const Bytes b = g.blob(g.u(1, 3000));
      bool clash = false;
      for (auto& i : islands)
        clash = clash ||
                (at < i.first + i.second.size() && i.first < at + b.size());
      if (clash) continue;
      c.desc << "island of " << b.size() << " at " << at << "\n";
      CheckEq(c, w.Position((long long)at), 0, "MkvWriter: seek");
      CheckEq(c, (uint64_t)w.Position(), at, "MkvWriter: position");
      const size_t half = g.u(0, b.size());
      CheckEq(c, w.Write(b.data(), (uint32_t)half), 0, "MkvWriter: write");
      CheckEq(c, w.Write(b.data() + half, (uint32_t)(b.size() - half)), 0,
              "MkvWriter: write");
      CheckEq(c, (uint64_t)w.Position(), at + b.size(), "MkvWriter: position");
      size = std::max(size, at + b.size());
      islands[at] = b;
    }
    w.Close();
  }
  auto expect = [&](uint64_t at, size_t n) {
    Bytes b(n, 0);
    for (auto& i : islands) {
      const uint64_t lo = std::max(at, i.first),
                     hi = std::min<uint64_t>(at + n, i.first + i.second.size());
      for (uint64_t p = lo; p < hi; ++p) b[p - at] = i.second[p - i.first];
    }
    return b;
  };
  mkvparser::MkvReader mr;
  CheckEq(c, mr.Open(path.c_str()), 0, "MkvReader: open");
  long long total = 0, avail = 0;
  CheckEq(c, mr.Length(&total, &avail), 0, "MkvReader: length");
  CheckEq(c, (uint64_t)total, size, "MkvReader: total length");
  CheckEq(c, (uint64_t)avail, size, "MkvReader: available length");
  auto somewhere = [&]() {
    const auto it = std::next(islands.begin(), (long)g.u(0, islands.size() - 1));
    uint64_t at = it->first + g.u(0, it->second.size());
    const uint64_t back = g.u(0, 40);
    return std::min(at > back ? at - back : 0, size - 1);
  };
  for (int k = 0; k < 8; ++k) {
    const uint64_t at = somewhere();
    const size_t n = g.u(1, std::min<uint64_t>(2000, size - at));
    Bytes b(n, 0xEE);
    CheckEq(c, mr.Read((long long)at, (long)n, b.data()), 0, "MkvReader: read");
    if (b != expect(at, n))
      c.fail("MkvReader: wrong bytes at " + std::to_string(at));
  }
  mr.Close();
  for (int kind = 0; kind < 2; ++kind) {
    webm::FileReader fr;
    webm::IstreamReader ir;
    if (kind)
      ir = webm::IstreamReader::Emplace<std::ifstream>(
          path, std::ios::in | std::ios::binary);
    else
      fr = webm::FileReader(fopen(path.c_str(), "rb"));
    webm::Reader* r = kind ? (webm::Reader*)&ir : &fr;
    const std::string name = kind ? "IstreamReader: " : "FileReader: ";
    uint64_t at = 0;
    for (int k = 0; k < 10 && at < size; ++k) {
      const uint64_t to = somewhere();
      if (!kind && g.p(30)) {
        CheckEq(c, (int)fr.Seek(to).code, (int)Status::kOkCompleted,
                name + "seek to " + std::to_string(to));
        at = to;
      } else if (to > at) {
        uint64_t got = 0;
        const Status st = r->Skip(to - at, &got);
        // A reader may deliver less, if it says so.
        const std::string what = name + "skip " + std::to_string(to - at) +
                                 " at " + std::to_string(at);
        if (got == 0 || got > to - at ||
            (got == to - at) != st.completed_ok() || !st.ok())
          c.fail(what + ": skipped " + std::to_string(got) + " status " +
                 std::to_string(st.code));
        at += got;
      }
      CheckEq(c, r->Position(), at, name + "position");
      const size_t n = g.u(1, 500);
      Bytes b(n, 0xEE);
      uint64_t got = 0;
      const Status st = r->Read(n, b.data(), &got);
      const size_t want = (size_t)std::min<uint64_t>(n, size - at);
      if (got == 0 || got > want || (got == n) != st.completed_ok())
        c.fail(name + "read " + std::to_string(n) + " at " +
               std::to_string(at) + ": got " + std::to_string(got) +
               " status " + std::to_string(st.code));
      b.resize(got);
      if (b != expect(at, got))
        c.fail(name + "wrong bytes at " + std::to_string(at));
      at += got;
      CheckEq(c, r->Position(), at, name + "position");
    }
  }
  if (size > 1ull << 31) {
    c.label("more than 2 GB");
    c.nontrivial();
  }
}

void MkvReaderSuite(Gen& g, Ctx& c) {
  const size_t size = g.p(60) ? g.small(0, 300) : g.u(0, 9000);
  const Bytes d = g.blob(size);
  const std::string path = pbt::ScratchPath("r.bin");
  WriteAll(c, path, d);
  c.desc << "file of " << size << " bytes:";
  const bool borrowed = g.p(40);
  FILE* fp = nullptr;
  std::unique_ptr<mkvparser::MkvReader> r;
  bool open = false;
  if (borrowed) {
    fp = fopen(path.c_str(), "rb");
    if (size) fseek(fp, (long)g.u(0, size), SEEK_SET);
    r.reset(new mkvparser::MkvReader(fp));
    open = true;
    c.label("borrowed FILE*");
  } else {
    r.reset(new mkvparser::MkvReader);
  }
  const size_t ops = g.u(1, 14);
  for (size_t k = 0; k < ops; ++k) {
    switch (g.weighted({60, 15, 15, borrowed ? 0u : 10u})) {
      case 0: {
        const long long off =
            g.p(80) ? (long long)g.u(0, size + 3)
                    : (g.b() ? -(long long)g.u(1, 10)
                             : (long long)g.edgy(0, 0x7FFFFFFFFFFFFFFFull));
        const long left = off >= 0 && off < (long long)size
                              ? (long)(size - (uint64_t)off)
                              : 0;
        long len;
        switch (g.u(0, 3)) {
          case 0: len = (long)g.u(0, 20); break;
          case 1: len = left; break;
          case 2: len = left + (long)g.u(1, 5); break;
          default: len = g.p(30) ? -(long)g.u(1, 5) : (long)g.u(0, 9100);
        }
        c.desc << " read " << off << "+" << len;
        Bytes buf(len > 0 ? (size_t)len : 1, 0xEE);
        const int st = r->Read(off, len, buf.data());
        const std::string what = "Read(" + std::to_string(off) + ", " +
                                 std::to_string(len) + ") of " +
                                 std::to_string(size);
        if (!open || off < 0 || len < 0) {
          CheckEq(c, st < 0, true, what + " refused");
        } else if (len == 0) {
          CheckEq(c, st, 0, what);
        } else if (len <= left) {
          CheckEq(c, st, 0, what);
          if (memcmp(buf.data(), d.data() + off, (size_t)len))
            c.fail(what + ": wrong bytes");
        } else {
          CheckEq(c, st != 0, true, what + " fails past the end");
          c.label("past the end");
        }
        break;
      }
      case 1: {
        long long total = -7, avail = -7;
        const bool t = g.b(), a = g.b();
        c.desc << " length";
        const int st = r->Length(t ? &total : nullptr, a ? &avail : nullptr);
        CheckEq(c, st == 0, open, "Length succeeds iff open");
        if (open && t) CheckEq(c, total, (long long)size, "total length");
        if (open && a) CheckEq(c, avail, (long long)size, "available length");
        break;
      }
      case 2: {
        const size_t w = g.u(0, 2);
        const char* name = w == 0 ? path.c_str()
                           : w == 1 ? "/nonexistent/verif" : nullptr;
        c.desc << " open " << (name ? name[1] == 'n' ? "missing" : "file" : "null");
        const int st = r->Open(name);
        const bool want = !open && w == 0;
        CheckEq(c, st == 0, want, "Open succeeds");
        if (want) open = true;
        break;
      }
      default:
        c.desc << " close";
        r->Close();
        open = false;
        c.label("closed");
        break;
    }
  }
  c.desc << "\n";
  r.reset();
  if (fp) {
    // A borrowed file stays open and usable.
    if (fseek(fp, 0, SEEK_SET)) c.fail("borrowed file unusable");
    Bytes buf(size + 1);
    CheckEq(c, fread(buf.data(), 1, size + 1, fp), size, "borrowed file content");
    fclose(fp);
  }
  if (size > 10 && ops > 3) c.nontrivial();
}

void MkvWriterSuite(Gen& g, Ctx& c) {
  const std::string path = pbt::ScratchPath("w.bin");
  Bytes model;
  const bool borrowed = g.p(40);
  FILE* fp = nullptr;
  std::unique_ptr<mkvmuxer::MkvWriter> w;
  bool open = false;
  WriteAll(c, path, Bytes(g.u(0, 30), 0x55));  // old content
  bool created = false;
  if (borrowed) {
    fp = fopen(path.c_str(), "wb");
    w.reset(new mkvmuxer::MkvWriter(fp));
    open = created = true;
    c.label("borrowed FILE*");
  } else {
    w.reset(new mkvmuxer::MkvWriter);
  }
  uint64_t pos = 0;
  const size_t ops = g.u(1, 20);
  unsigned writes = 0, overwrites = 0;
  for (size_t k = 0; k < ops; ++k) {
    switch (g.weighted({45, 20, 15, borrowed ? 0u : 6u, 10})) {
      case 0: {
        const size_t n = g.p(80) ? g.small(0, 40) : g.u(0, 6000);
        const Bytes d = g.blob(n);
        c.desc << " write " << n;
        const int st = w->Write(d.data(), (uint32_t)n);
        CheckEq(c, st == 0, open, "Write succeeds iff open");
        if (open && n) {
          if (pos < model.size()) ++overwrites;
          if (model.size() < pos + n) model.resize(pos + n, 0);
          memcpy(model.data() + pos, d.data(), n);
          pos += n;
          ++writes;
        }
        if (open && g.p(10))
          CheckEq(c, w->Write(nullptr, 3) == 0, false, "Write of null");
        break;
      }
      case 1: {
        const int64_t to = g.p(85) ? (int64_t)g.u(0, model.size() + 20)
                                   : -(int64_t)g.u(1, 20);
        c.desc << " seek " << to;
        const int st = w->Position(to);
        CheckEq(c, st == 0, open && to >= 0, "Position(x) succeeds");
        if (st == 0) pos = (uint64_t)to;
        break;
      }
      case 2: {
        const bool missing = g.p(20), null = g.p(10);
        c.desc << " open";
        const bool ok =
            w->Open(null ? nullptr
                         : missing ? "/nonexistent/verif/x" : path.c_str());
        const bool want = !open && !missing && !null;
        CheckEq(c, ok, want, "Open succeeds");
        if (want) {
          open = created = true;
          model.clear();
          pos = 0;
        }
        break;
      }
      case 3:
        c.desc << " close";
        w->Close();
        if (open) {
          if (ReadAll(c, path) != model) c.fail("file differs after Close");
        }
        open = false;
        pos = 0;
        break;
      default:
        CheckEq(c, w->Seekable(), true, "Seekable");
        break;
    }
    CheckEq(c, (uint64_t)w->Position(), open ? pos : 0, "Position()");
  }
  c.desc << "\n";
  w.reset();
  if (fp) {
    if (fseek(fp, 0, SEEK_END)) c.fail("borrowed file unusable");
    if (fputc(0x7E, fp) != 0x7E || fclose(fp)) c.fail("borrowed file unusable");
    model.push_back(0x7E);
  }
  if (created && ReadAll(c, path) != model) c.fail("file differs at the end");
  if (overwrites) c.label("overwrites");
  if (writes > 2) c.nontrivial();
}

void Util(Gen& g, Ctx& c) {
  const uint32_t a = (uint32_t)g.edgy(0, 0xFFFFFFFFu);
  const uint64_t b = g.b() ? g.edgy(0, ~0ull) : g.u(0, ~0ull);
  const uint32_t a2 = g.b() ? a : (uint32_t)g.u(0, 0xFFFFFFFFu);
  c.desc << "values " << a2 << " " << b << "\n";
  uint8_t m[8];
  const uint32_t be = libwebm::host_to_bigendian(a2);
  memcpy(m, &be, 4);
  for (int i = 0; i < 4; ++i)
    CheckEq(c, (int)m[i], (int)(uint8_t)(a2 >> (24 - 8 * i)),
            "byte " + std::to_string(i) + " of 32-bit big endian");
  CheckEq(c, libwebm::bigendian_to_host(be), a2, "32 bits back");
  const uint64_t be64 = libwebm::host_to_bigendian(b);
  memcpy(m, &be64, 8);
  for (int i = 0; i < 8; ++i)
    CheckEq(c, (int)m[i], (int)(uint8_t)(b >> (56 - 8 * i)),
            "byte " + std::to_string(i) + " of 64-bit big endian");
  CheckEq(c, libwebm::bigendian_to_host(be64), b, "64 bits back");
  c.nontrivial();

  if (g.p(15)) {
    const size_t size = g.p(70) ? g.small(0, 300) : g.u(0, 70000);
    const Bytes d = g.blob(size);
    const std::string path = pbt::ScratchPath("u.bin");
    WriteAll(c, path, d);
    std::string s = "old";
    CheckEq(c, libwebm::GetFileContents(path, &s), true, "GetFileContents");
    if (s != std::string(d.begin(), d.end())) c.fail("GetFileContents differs");
    CheckEq(c, libwebm::GetFileSize(path), size, "GetFileSize");
    unlink(path.c_str());
    CheckEq(c, libwebm::GetFileContents(path, &s), false,
            "GetFileContents of a missing file");
    CheckEq(c, libwebm::GetFileSize(path), 0u, "GetFileSize of a missing file");
    setenv("TEST_TMPDIR", pbt::ScratchDir().c_str(), 1);
    std::string name;
    {
      libwebm::TempFileDeleter t, u;
      name = t.name();
      CheckEq(c, name.empty(), false, "temporary name");
      CheckEq(c, name.compare(0, pbt::ScratchDir().size() + 1,
                              pbt::ScratchDir() + "/"), 0,
              "temporary file in TEST_TMPDIR");
      CheckEq(c, t.name() == u.name(), false, "two temporary names equal");
      CheckEq(c, access(name.c_str(), F_OK), 0, "temporary file exists");
      WriteAll(c, name, d);
      CheckEq(c, libwebm::GetFileSize(name), size, "size of temporary file");
    }
    CheckEq(c, access(name.c_str(), F_OK), -1, "temporary file removed");
    c.label("files");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C21";
  p.level = "exploration";
  p.rule =
      "A case is a file content and a history of reads, skips, seeks, moves, "
      "writes, opens and closes on one of the supplied readers or writers, "
      "compared step by step with a byte-vector model; or a document parsed "
      "through every reader; or values to convert. Non-trivial: content over "
      "10 bytes and more than 3 operations (more than 8 events; more than 2 "
      "writes; every conversion)";
  p.suites = {{"readers", Readers, 120000, 1500000, false},
              {"parse", Differential, 20000, 250000, false},
              {"mkvreader", MkvReaderSuite, 60000, 800000, true},
              {"mkvwriter", MkvWriterSuite, 60000, 800000, true},
              {"util", Util, 60000, 800000, false},
              {"far", Far, 3000, 50000, false}};
  p.assumptions = {
      "files are regular files that do not change while read, or pipes whose "
      "writer has finished; the disk is not full",
      "Seek past the end may succeed or fail; reading there yields nothing"};
  return pbt::Main(argc, argv, p);
}
