// C17: WebVTT text is parsed for what it says, and cues survive the trip
// WebVTT -> WebM (SampleMuxerMetadata, mkvmuxer) -> WebVTT (vttdemux).
#include <limits.h>
#include <string.h>

#include <algorithm>
#include <list>
#include <memory>

#include "apps.h"
#include "docgen.h"
#include "mkvmuxer/mkvmuxer.h"
#include "muxlib.h"
#include "pbt.h"
#include "sample_muxer_metadata.h"
#include "webvtt/vttreader.h"
#include "webvtt/webvttparser.h"

using pbt::Bytes;
using pbt::CheckEq;
using pbt::Ctx;
using pbt::Gen;

int vttdemux_main(int, const char**);

namespace {

struct RefCue {
  std::string id;
  long long start = 0, stop = 0;  // milliseconds
  std::vector<std::pair<std::string, std::string>> settings;
  std::vector<std::string> payload;
};

std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s.substr(0, 400)) {
    if (ch < 32 || ch > 126 || ch == '"') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else {
      o += (char)ch;
    }
  }
  if (s.size() > 400) o += "...(" + std::to_string(s.size()) + ")";
  return o + "\"";
}
std::string Show(const RefCue& q) {
  std::string o = Quote(q.id) + " " + std::to_string(q.start) + ".." +
                  std::to_string(q.stop);
  for (auto& s : q.settings) o += " " + Quote(s.first) + "=" + Quote(s.second);
  o += " :";
  for (auto& s : q.payload) o += " " + Quote(s);
  return o;
}
bool Same(const RefCue& a, const RefCue& b) {
  return a.id == b.id && a.start == b.start && a.stop == b.stop &&
         a.settings == b.settings && a.payload == b.payload;
}
RefCue FromLib(const libwebvtt::Cue& q) {
  RefCue r;
  r.id = q.identifier;
  auto ms = [](const libwebvtt::Time& t) {
    return ((t.hours * 60ll + t.minutes) * 60 + t.seconds) * 1000 + t.milliseconds;
  };
  r.start = ms(q.start_time);
  r.stop = ms(q.stop_time);
  for (auto& s : q.settings) r.settings.push_back({s.name, s.value});
  for (auto& s : q.payload) r.payload.push_back(s);
  return r;
}

// ---- reference parser: lines first, then the cues ----------------------

struct Line {
  std::string text;
  bool bad = false;
};

// Splits at LF, CR and CRLF.  A line with a byte that cannot occur in UTF-8
// (FE, FF) or of more than 10000 bytes is bad.
std::vector<Line> Split(const std::string& s) {
  std::vector<Line> out;
  size_t k = 0;
  while (k < s.size()) {
    size_t e = s.find_first_of("\r\n", k);
    Line l;
    l.text = s.substr(k, e == std::string::npos ? std::string::npos : e - k);
    for (char ch : l.text)
      if ((uint8_t)ch >= 0xFE) l.bad = true;
    if (l.text.size() > 10000) l.bad = true;
    out.push_back(l);
    if (e == std::string::npos) break;
    k = e + 1;
    if (s[e] == '\r' && k < s.size() && s[k] == '\n') ++k;
  }
  return out;
}

bool IsBlank(char ch) { return ch == ' ' || ch == '\t'; }

// [SS | MM:SS | HH:MM:SS][.f{1,3}], surrounded by blanks; false if malformed.
bool RefTime(const std::string& s, size_t* k, long long* ms) {
  while (*k < s.size() && IsBlank(s[*k])) ++*k;
  std::vector<long long> part;
  for (;;) {
    long long v = 0;
    size_t digits = 0;
    while (*k < s.size() && s[*k] >= '0' && s[*k] <= '9') {
      v = v * 10 + (s[*k] - '0');
      if (v > INT_MAX) return false;
      ++digits;
      ++*k;
    }
    if (!digits) return false;
    part.push_back(v);
    if (part.size() < 3 && *k < s.size() && s[*k] == ':') {
      ++*k;
      continue;
    }
    break;
  }
  for (size_t q = 0; q < part.size(); ++q)
    if (part.size() > 1 && !(q == 0 && part.size() == 3) && part[q] >= 60) return false;
  long long sec = 0;
  for (long long v : part) sec = sec * 60 + v;
  long long frac = 0;
  if (*k < s.size() && s[*k] == '.') {
    ++*k;
    size_t digits = 0;
    long long unit = 100;
    while (*k < s.size() && s[*k] >= '0' && s[*k] <= '9') {
      if (++digits > 3) return false;
      frac += unit * (s[*k] - '0');
      unit /= 10;
      ++*k;
    }
    if (!digits) return false;
  }
  if (*k < s.size() && !IsBlank(s[*k])) return false;
  *ms = sec * 1000 + frac;
  return true;
}

bool RefTimings(const std::string& line, RefCue* q) {
  const size_t arrow = line.find("-->");
  // (a NUL ends the scan of either part)
  std::string a = line.substr(0, arrow), b = line.substr(arrow + 3);
  a = a.substr(0, a.find('\0'));
  b = b.substr(0, b.find('\0'));
  size_t k = 0;
  if (!RefTime(a, &k, &q->start)) return false;
  for (; k < a.size(); ++k)
    if (!IsBlank(a[k])) return false;
  k = 0;
  if (!RefTime(b, &k, &q->stop)) return false;
  while (k < b.size()) {
    if (IsBlank(b[k])) {
      ++k;
      continue;
    }
    size_t e = k;
    while (e < b.size() && !IsBlank(b[e])) ++e;
    const std::string word = b.substr(k, e - k);
    const size_t colon = word.find(':');
    if (colon == std::string::npos || colon == 0 || colon + 1 == word.size() ||
        word.find(':', colon + 1) != std::string::npos)
      return false;
    q->settings.push_back({word.substr(0, colon), word.substr(colon + 1)});
    k = e;
  }
  return true;
}

// Returns the result of Init: true if accepted.  Then |cues| are what Parse
// delivers, and |error| says whether it ends with an error or end of stream.
bool RefParse(const std::string& text, std::vector<RefCue>* cues, bool* error) {
  std::string s = text;
  if (s.empty()) return false;
  if (s[0] == '\xEF') {
    if (s.compare(0, 3, "\xEF\xBB\xBF") != 0) return false;
    s = s.substr(3);
  }
  if (s.compare(0, 6, "WEBVTT") != 0) return false;
  std::vector<Line> lines = Split(s.substr(6));
  size_t n = 0;
  if (n < lines.size()) {
    if (lines[n].bad) return false;
    if (!lines[n].text.empty() && !IsBlank(lines[n].text[0])) return false;
    ++n;
  }
  if (n < lines.size()) {
    if (lines[n].bad || !lines[n].text.empty()) return false;
    ++n;
  }
  *error = true;
  for (;;) {
    while (n < lines.size() && !lines[n].bad && lines[n].text.empty()) ++n;
    if (n >= lines.size()) {
      *error = false;
      return true;
    }
    RefCue q;
    if (lines[n].bad) return true;
    if (lines[n].text.find("-->") == std::string::npos) {
      q.id = lines[n++].text;
      if (n >= lines.size() || lines[n].bad) return true;
    }
    if (lines[n].text.find("-->") == std::string::npos) return true;
    if (!RefTimings(lines[n++].text, &q)) return true;
    while (n < lines.size() && (lines[n].bad || !lines[n].text.empty())) {
      if (lines[n].bad) return true;
      q.payload.push_back(lines[n++].text);
    }
    if (n < lines.size()) ++n;  // the empty line
    if (q.payload.empty()) return true;
    cues->push_back(q);
  }
}

// ---- generators ---------------------------------------------------------

std::string Word(Gen& g, size_t max, bool colon) {
  static const char kSafe[] =
      "abcxyzABC0129%,;.-_#&<>/()[]'\"+*=!?@~^|\\\x7f\x01";
  std::string s;
  const size_t n = g.small(1, max);
  for (size_t k = 0; k < n; ++k) {
    const uint64_t r = g.u(0, 19);
    if (r == 19)
      s += "\xC3\xA9";
    else if (r == 18 && colon)
      s += ':';
    else
      s += kSafe[g.u(0, sizeof kSafe - 2)];
  }
  return s;
}
void NoArrow(std::string* s) {
  size_t k;
  while ((k = s->find("-->")) != std::string::npos) (*s)[k + 1] = '_';
}
std::string Text(Gen& g, size_t max, bool arrows) {
  std::string s = Word(g, max, true);
  while (g.p(40)) s += std::string(g.u(1, 3), g.b() ? ' ' : '\t') + Word(g, max, true);
  if (g.p(5)) s = " " + s;
  if (g.p(5)) s += " ";
  if (arrows && g.p(10)) s += " --> ";
  if (!arrows) NoArrow(&s);
  if (g.p(1)) s.resize(g.pick({9999, 10000}), 'x');
  return s;
}
long long Ms(Gen& g, long long max) {
  switch (g.u(0, 5)) {
    case 0: return (long long)g.u(0, std::min(max, 70000ll));
    case 1: return std::min<long long>(max, (long long)g.u(0, 100) * 1000);
    case 2: return (long long)g.edgy(0, (uint64_t)max);
    case 3: return std::min<long long>(max, (long long)g.u(0, 99) * 3600000 + g.pick({0, 59, 60, 61, 3599}) * 1000 + g.pick({0, 1, 9, 10, 50, 99, 100, 500, 999}));
    default: return (long long)g.small(0, (uint64_t)max);
  }
}
RefCue MakeCue(Gen& g, long long max_ms) {
  RefCue q;
  if (g.b()) q.id = Text(g, 12, false);
  q.start = Ms(g, max_ms);
  q.stop = g.p(90) ? std::min(max_ms, q.start + Ms(g, 100000)) : Ms(g, max_ms);
  const size_t n = g.small(0, 4);
  for (size_t k = 0; k < n; ++k) {
    std::string a = Word(g, 8, false), b = Word(g, 8, false);
    NoArrow(&a), NoArrow(&b);
    q.settings.push_back({a, b});
  }
  const size_t m = g.small(1, 4);
  for (size_t k = 0; k < m; ++k) q.payload.push_back(Text(g, 16, true));
  return q;
}
std::string Blank(Gen& g, bool some) {
  std::string s;
  const uint64_t n = some ? g.small(1, 4) : g.small(0, 3);
  for (uint64_t k = 0; k < n; ++k) s += g.b() ? '\t' : ' ';
  return s;
}
std::string RenderTime(Gen& g, long long ms, bool loose) {
  char b[80];
  const long long sec = ms / 1000, f = ms % 1000;
  std::string o;
  const int form = (int)g.u(0, 2);
  const bool pad = !loose || g.b();
  if (form == 2 && loose && sec <= INT_MAX) {
    snprintf(b, sizeof b, pad ? "%02lld" : "%lld", sec);
  } else if (form == 1 && sec < 3600) {
    snprintf(b, sizeof b, pad ? "%02lld:%02lld" : "%lld:%lld", sec / 60, sec % 60);
  } else {
    snprintf(b, sizeof b, pad ? "%02lld:%02lld:%02lld" : "%lld:%lld:%lld",
             sec / 3600, sec / 60 % 60, sec % 60);
  }
  o = b;
  if (f == 0 && loose && g.b()) return o;
  snprintf(b, sizeof b, ".%03lld", f);
  std::string fs = b;
  if (loose && g.b())
    while (fs.size() > 2 && fs.back() == '0') fs.pop_back();
  return o + fs;
}
std::string Eol(Gen& g, int style) {
  switch (style) {
    case 0: return "\n";
    case 1: return "\r\n";
    case 2: return "\r";
    default: return g.pick({"\n", "\r\n", "\r"});
  }
}

// Writes the cues as a WebVTT file.  With CR line ends an empty line after a
// CR must not start with LF, so mixed styles repeat what they need to.
std::string Render(Gen& g, const std::vector<RefCue>& cues, bool loose) {
  const int style = (int)g.u(0, 3);
  std::string s;
  auto eol = [&] {
    std::string e = Eol(g, style);
    // An LF right after a CR would be read as one line end.
    if (!s.empty() && s.back() == '\r' && e == "\n") e = "\r\n";
    s += e;
  };
  if (loose && g.p(25)) s += "\xEF\xBB\xBF";
  s += "WEBVTT";
  if (loose && g.p(25)) s += ((g.b() ? " " : "\t") + Text(g, 20, true)).substr(0, 10000);
  if (cues.empty() && loose && g.b()) return s;
  eol();
  if (cues.empty() && loose && g.b()) return s;
  eol();
  for (size_t k = 0; k < cues.size(); ++k) {
    const RefCue& q = cues[k];
    if (k) eol();
    while (loose && g.p(15)) eol();
    if (!q.id.empty()) {
      s += q.id;
      eol();
    }
    if (loose) s += Blank(g, false);
    s += RenderTime(g, q.start, loose);
    s += (loose ? Blank(g, false) : " ") + "-->" + (loose ? Blank(g, false) : " ");
    s += RenderTime(g, q.stop, loose);
    for (auto& p : q.settings) s += (loose ? Blank(g, true) : " ") + p.first + ":" + p.second;
    if (loose) s += Blank(g, false);
    eol();
    for (size_t j = 0; j < q.payload.size(); ++j) {
      s += q.payload[j];
      if (k + 1 == cues.size() && j + 1 == q.payload.size() && g.p(20)) return s;
      eol();
    }
  }
  while (loose && g.p(30)) eol();
  return s;
}

class StringReader : public libwebvtt::Reader {
 public:
  explicit StringReader(const std::string& s) : s_(s) {}
  ~StringReader() {}
  int GetChar(char* ch) override {
    if (k_ == fail_at) return -1;
    if (k_ >= s_.size()) {
      ++eofs;
      return 1;
    }
    *ch = s_[k_++];
    return 0;
  }
  size_t fail_at = SIZE_MAX;
  uint64_t eofs = 0;
  size_t k_ = 0;

 private:
  const std::string& s_;
};

// Compares the parser with the reference on |text|.
void Compare(Ctx& c, const std::string& text, libwebvtt::Reader* r,
             const std::vector<RefCue>& want, bool init_ok, bool error) {
  libwebvtt::Parser p(r);
  const int e = p.Init();
  if (!init_ok) {
    c.check(e < 0, "Init accepted what is not WebVTT");
    return;
  }
  CheckEq(c, e, 0, "Init");
  libwebvtt::Cue cue;
  for (size_t k = 0;; ++k) {
    const int rc = p.Parse(&cue);
    if (k == want.size()) {
      if (error)
        c.check(rc < 0, "Parse of a malformed cue: got " + std::to_string(rc));
      else
        c.check(rc > 0, "Parse at the end: got " + std::to_string(rc));
      break;
    }
    if (rc != 0) c.fail("Parse of cue " + std::to_string(k) + ": " + std::to_string(rc) + ", expected " + Show(want[k]));
    const RefCue got = FromLib(cue);
    if (!Same(got, want[k]))
      c.fail("cue " + std::to_string(k) + "\n  got  " + Show(got) + "\n  want " + Show(want[k]));
    for (const libwebvtt::Time* t : {&cue.start_time, &cue.stop_time})
      c.check(t->hours >= 0 && t->minutes >= 0 && t->minutes < 60 && t->seconds >= 0 &&
                  t->seconds < 60 && t->milliseconds >= 0 && t->milliseconds < 1000,
              "time fields out of range");
  }
  for (int k = 0; k < 3; ++k) {
    const int rc = p.Parse(&cue);
    if (!error) c.check(rc > 0, "Parse after the end");
  }
  c.check(p.Parse(nullptr) < 0, "Parse without a cue");
}

constexpr long long kMaxMs = 3600000ll * INT_MAX;

void Valid(Gen& g, Ctx& c) {
  std::vector<RefCue> cues;
  const size_t n = g.small(0, 6);
  for (size_t k = 0; k < n; ++k) cues.push_back(MakeCue(g, kMaxMs));
  const std::string text = Render(g, cues, true);
  c.desc << Quote(text.substr(0, 2000)) << "\n";
  for (auto& q : cues) c.desc << Show(q) << "\n";
  if (n) c.nontrivial();
  c.count("cues", n);
  std::vector<RefCue> ref;
  bool error = false;
  c.check(RefParse(text, &ref, &error) && !error && ref.size() == n, "harness: reference parser");
  for (size_t k = 0; k < n; ++k)
    if (!Same(ref[k], cues[k])) c.fail("harness: cue " + Show(ref[k]) + " / " + Show(cues[k]));
  if (g.p(20)) {
    apps::Cleanup cl;
    const std::string path = cl.add(pbt::ScratchPath("v.vtt"));
    apps::WriteFile(path, text);
    libwebvtt::VttReader r;
    CheckEq(c, r.Open(path.c_str()), 0, "VttReader::Open");
    c.check(r.Open(path.c_str()) < 0, "second Open");
    Compare(c, text, &r, cues, true, false);
    c.label("from a file");
  } else {
    StringReader r(text);
    Compare(c, text, &r, cues, true, false);
  }
}

void Mutated(Gen& g, Ctx& c) {
  std::string text;
  if (g.p(85)) {
    std::vector<RefCue> cues;
    const size_t n = g.small(1, 4);
    for (size_t k = 0; k < n; ++k) cues.push_back(MakeCue(g, kMaxMs));
    text = Render(g, cues, true);
    const size_t m = g.small(1, 4);
    static const char* kFrag[] = {"\n", "\r", "\r\n", "\n\n", " ", "\t", ":", ".", "-->",
                                  "0", "59", "60", "99999999999", "2147483647",
                                  "2147483648", "0001", ".1234", "WEBVTT",
                                  "\xFE", "\xFF", "\xEF\xBB\xBF", "a:b", ":b", "a:", "x"};
    for (size_t k = 0; k < m; ++k) {
      size_t at = g.u(0, text.size());
      // Half of the edits go where a timings line is.
      const size_t arrow = text.find("-->");
      if (g.b() && arrow != std::string::npos)
        at = std::min(text.size(), (arrow > 16 ? arrow - 16 : 0) + g.u(0, 40));
      switch (g.u(0, 4)) {
        case 0: text.insert(at, kFrag[g.u(0, sizeof kFrag / sizeof *kFrag - 1)]); break;
        case 1:
          if (at < text.size()) text.erase(at, g.small(1, 12));
          break;
        case 2:
          if (at < text.size()) text[at] = (char)g.u(0, 255);
          break;
        case 3: text.resize(at); break;
        case 4:
          if (g.p(20))
            text.insert(at, g.pick({9990, 9999, 10000, 10001}), 'y');
          else
            text.insert(at, std::string(1, '\0'));
          break;
      }
    }
  } else {
    static const char kAlpha[] = "WEBVT0123:.-> \t\n\r\nab\xFE\xEF";
    if (g.b()) text = "WEBVTT\n\n";
    const size_t n = g.u(0, 120);
    for (size_t k = 0; k < n; ++k) text += kAlpha[g.u(0, sizeof kAlpha - 2)];
  }
  c.desc << Quote(text.substr(0, 3000)) << "\n";
  std::vector<RefCue> ref;
  bool error = false;
  const bool init = RefParse(text, &ref, &error);
  c.label(!init ? "refused by Init" : error ? "error in a cue" : "accepted");
  c.count("cues", ref.size());
  if (init) c.nontrivial();
  StringReader r(text);
  Compare(c, text, &r, ref, init, error);
}

// The reader fails after |fail_at| characters.
void Faults(Gen& g, Ctx& c) {
  std::vector<RefCue> cues;
  const size_t n = g.small(0, 4);
  for (size_t k = 0; k < n; ++k) cues.push_back(MakeCue(g, 100000000));
  const std::string text = Render(g, cues, true);
  StringReader r(text);
  r.fail_at = g.u(0, text.size());
  c.desc << Quote(text.substr(0, 2000)) << "\nfails after " << r.fail_at << "\n";
  c.nontrivial();
  libwebvtt::Parser p(&r);
  if (p.Init() < 0) return;
  libwebvtt::Cue cue;
  size_t k = 0;
  int rc;
  while ((rc = p.Parse(&cue)) == 0) {
    c.check(k < n, "more cues than there are");
    c.check(Same(FromLib(cue), cues[k]), "cue " + std::to_string(k) + " before the failure");
    ++k;
  }
  c.check(rc < 0, "a failure of the reader was reported as end of stream");
}

void Times(Gen& g, Ctx& c) {
  libwebvtt::Time a, b;
  const long long x = g.b() ? (long long)g.edgy(0, kMaxMs) : Ms(g, kMaxMs);
  const long long y = g.p(30) ? std::min<long long>(kMaxMs, std::max<long long>(0, x + g.i(-2, 2))) : Ms(g, kMaxMs);
  a.presentation(x);
  b.presentation(y);
  c.desc << x << " " << y << "\n";
  c.nontrivial();
  CheckEq(c, a.presentation(), x, "presentation");
  CheckEq(c, (long long)a.hours, x / 3600000, "hours");
  CheckEq(c, (long long)a.minutes, x / 60000 % 60, "minutes");
  CheckEq(c, (long long)a.seconds, x / 1000 % 60, "seconds");
  CheckEq(c, (long long)a.milliseconds, x % 1000, "milliseconds");
  CheckEq(c, a < b, x < y, "<");
  CheckEq(c, a > b, x > y, ">");
  CheckEq(c, a <= b, x <= y, "<=");
  CheckEq(c, a >= b, x >= y, ">=");
  CheckEq(c, a == b, x == y, "==");
  CheckEq(c, a - b, x - y, "difference");
  libwebvtt::Time t = b + (a - b);
  c.check(t == a, "b + (a - b)");
  t = a;
  t += y - x;
  c.check(t == b, "a += b - a");
  t = a;
  t -= x - y;
  c.check(t == b, "a -= a - b");
  t = a;
  t.presentation(-1 - (long long)g.edgy(0, kMaxMs));
  CheckEq(c, t.presentation(), 0ll, "negative presentation");
}

// ---- WebVTT -> WebM -> WebVTT ------------------------------------------

const char* const kSuffix[] = {"_SUBTITLES", "_CAPTIONS", "_DESCRIPTIONS", "_METADATA",
                               "_CHAPTERS"};

void Demux(Gen& g, Ctx& c) {
  apps::Cleanup cl;
  const std::string base = pbt::ScratchPath("d");
  const std::string webm = cl.add(base + ".webm");
  mkvmuxer::MkvWriter w;
  c.check(w.Open(webm.c_str()), "MkvWriter::Open");
  mkvmuxer::Segment seg;
  c.check(seg.Init(&w), "Segment::Init");
  if (g.p(20)) seg.OutputCues(false);
  if (g.p(20)) seg.set_mode(mkvmuxer::Segment::kLive);
  const bool live = seg.mode() == mkvmuxer::Segment::kLive;
  if (live) c.desc << "live\n";
  const int av = (int)g.u(0, 2);  // none, video, audio
  uint64_t av_track = 0;
  if (av == 1) av_track = seg.AddVideoTrack(16, 16, 0);
  if (av == 2) av_track = seg.AddAudioTrack(8000, 1, 0);
  SampleMuxerMetadata meta;
  c.check(meta.Init(&seg), "SampleMuxerMetadata::Init");
  c.check(!meta.Init(&seg), "second Init");

  struct T {
    int kind;
    uint64_t number;
    std::vector<RefCue> cues;
  };
  std::vector<T> tracks;
  const size_t n = g.small(1, 4);
  bool chapters = false, refused = false;
  const long long span = g.pick({2000ll, 30000ll, 200000ll, 5000000000ll});
  long long last = 0;
  for (size_t k = 0; k < n; ++k) {
    T t;
    t.kind = (int)g.u(0, chapters ? 3 : 4);
    const size_t m = t.kind == 4 ? g.small(1, 5) : g.small(0, 6);
    long long at = 0;
    for (size_t j = 0; j < m; ++j) {
      RefCue q = MakeCue(g, 1000);
      at += g.p(20) ? 0 : Ms(g, span / 4);
      q.start = at;
      // WebVTT wants the end after the start; the muxer writes a frame of
      // duration 0 as a SimpleBlock, which has no duration.
      q.stop = at + (t.kind == 4 ? 0 : 1) + Ms(g, span);
      if (t.kind == 4) q.settings.clear();
      last = std::max(last, at);
      t.cues.push_back(q);
    }
    std::vector<RefCue> file = t.cues;
    if (g.p(4) && m >= 1) {  // refused: out of order, or ends before it starts
      if (m >= 2 && file[m - 1].start > file[0].start && g.b()) {
        std::swap(file[0], file[m - 1]);
        refused = true;
      } else if (file[0].start > 0) {
        file[0].stop = file[0].start - 1;
        refused = true;
      }
    }
    if (t.kind == 4) chapters = true;
    const std::string path = cl.add(base + "-in" + std::to_string(k) + ".vtt");
    apps::WriteFile(path, Render(g, file, true));
    c.desc << "kind " << t.kind << "\n";
    for (auto& q : file) c.desc << "  " << Show(q) << "\n";
    const bool ok = meta.Load(path.c_str(), (SampleMuxerMetadata::Kind)t.kind);
    if (refused) {
      c.check(!ok, "a file with cues in disorder was loaded");
      c.label("refused");
      return;
    }
    c.check(ok, "SampleMuxerMetadata::Load");
    t.number = t.kind == 4 ? 0 : seg.GetTrackByNumber(0) ? 0 : 0;
    tracks.push_back(t);
  }
  c.check(meta.AddChapters(), "AddChapters");
  // Media frames, and the cues that are due before each.
  size_t total = 0;
  for (auto& t : tracks)
    if (t.kind != 4) total += t.cues.size();
  if (av) {
    const size_t frames = g.small(1, 12);
    long long at = 0;
    const uint8_t data[4] = {1, 2, 3, 4};
    for (size_t k = 0; k < frames; ++k) {
      c.check(meta.Write(at * 1000000), "Write");
      mkvmuxer::Frame f;
      f.Init(data, 4);
      f.set_track_number(av_track);
      f.set_timestamp(at * 1000000);
      f.set_is_key(av == 2 || k == 0 || g.b());
      c.desc << (av == 1 ? "video " : "audio ") << at << (f.is_key() ? " key" : "") << "\n";
      c.check(seg.AddGenericFrame(&f), "AddGenericFrame");
      at += Ms(g, std::min<long long>(span, 30000));
    }
    c.desc << "frames " << frames << " until " << at << "\n";
  }
  c.check(meta.Write(-1), "Write of the rest");
  const bool any = total || av;
  const bool fin = seg.Finalize();
  if (!any) {
    c.label("no blocks");
    return;
  }
  c.check(fin, "Finalize");
  w.Close();
  // What vttdemux is to write: one file per track, by kind and, if there are
  // several of a kind, by track number.
  uint64_t number = av ? 1 : 0;
  int count[5] = {};
  for (auto& t : tracks) {
    ++count[t.kind];
    t.number = t.kind == 4 ? 0 : ++number;
  }
  std::vector<std::string> outs;
  for (auto& t : tracks)
    outs.push_back(cl.add(base + kSuffix[t.kind] +
                          (count[t.kind] > 1 ? std::to_string(t.number) : "") + ".vtt"));
  for (auto& o : outs) unlink(o.c_str());
  const std::string log = cl.add(base + ".log");
  const int rc = apps::Run(vttdemux_main, {"vttdemux", webm}, log);
  if (rc != 0) {
    std::string said;
    apps::ReadFile(log, &said);
    c.fail("vttdemux failed: " + said);
  }
  for (size_t k = 0; k < tracks.size(); ++k) {
    std::string text;
    c.check(apps::ReadFile(outs[k], &text), "no output file " + outs[k].substr(base.size()));
    std::vector<RefCue> got;
    bool error = false;
    const std::string what = "output " + outs[k].substr(base.size());
    c.check(RefParse(text, &got, &error) && !error, what + " is not WebVTT");
    CheckEq(c, got.size(), tracks[k].cues.size(), what + " cues");
    for (size_t j = 0; j < got.size(); ++j)
      if (!Same(got[j], tracks[k].cues[j]))
        c.fail(what + " cue " + std::to_string(j) + "\n  got  " + Show(got[j]) + "\n  want " +
               Show(tracks[k].cues[j]));
  }
  if (total) c.nontrivial();
  c.count("cues demuxed", total);
  if (chapters) c.label("chapters");
  if (live) c.label("live");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C17";
  p.level = "exploration";
  p.rule = "at least one cue was to be parsed or carried, or a time was converted";
  p.suites.push_back({"valid", Valid, 100000, 2000000});
  p.suites.push_back({"mutated", Mutated, 200000, 3000000});
  p.suites.push_back({"faults", Faults, 20000, 500000});
  p.suites.push_back({"times", Times, 100000, 2000000});
  p.suites.push_back({"demux", Demux, 30000, 200000});
  return pbt::Main(argc, argv, p);
}
