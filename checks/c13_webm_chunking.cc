// C13: what webm_parser reports does not depend on how the data arrives nor on
// how often parsing is suspended: short reads, reads without data, callbacks
// and readers that return other statuses or throw, in any combination.
#include "pbt.h"
#include "webmdump.h"

using docgen::El;
using pbt::Bytes;
using pbt::Ctx;
using pbt::Gen;
using webmdump::Disturb;
using webmdump::Policy;

namespace {

Disturb MakeDisturb(Gen& g, Ctx& c) {
  Disturb x;
  x.state = g.u(0, 1u << 30);
  if (g.p(70)) x.partial_pct = (unsigned)g.pick({20, 60, 100});
  if (g.p(60)) x.reader_pct = (unsigned)g.pick({5, 30, 60});
  if (g.p(60)) x.callback_pct = (unsigned)g.pick({3, 20, 50});
  x.exceptions = g.p(30);
  c.desc << "disturb seed " << x.state << " short reads " << x.partial_pct
         << "% blocked reads " << x.reader_pct << "% interrupted callbacks "
         << x.callback_pct << "% exceptions " << x.exceptions << "\n";
  return x;
}

void Compare(Gen& g, Ctx& c, const Bytes& data, const Policy& p, int64_t seek) {
  const webmdump::RunResult base = webmdump::Run(data, p, Disturb(), seek);
  if (!base.error.empty()) c.fail("undisturbed: " + base.error);
  const size_t n = g.u(1, 3);
  for (size_t k = 0; k < n; ++k) {
    const Disturb x = MakeDisturb(g, c);
    const webmdump::RunResult r = webmdump::Run(data, p, x, seek);
    if (!r.error.empty()) c.fail(r.error);
    const std::string diff = webmdump::Diff(r.log, base.log);
    if (!diff.empty()) c.fail(diff);
    pbt::CheckEq(c, r.status, base.status, "final status");
    if (r.status == 0 || r.status == webm::Status::kEndOfFile)
      pbt::CheckEq(c, r.pos, base.pos, "bytes consumed");
    c.count("feeds", r.feeds);
    c.count("callback-interruptions", r.interrupts);
    if (r.feeds > 3 && base.log.size() > 10) c.nontrivial();
    if (r.interrupts && x.exceptions) c.label("exceptions");
  }
  c.label(base.status == 0                       ? "completed"
          : base.status == webm::Status::kEndOfFile ? "truncated"
                                                    : "parse-error");
}

Policy MakePolicy(Gen& g, Ctx& c) {
  Policy p;
  if (g.p(40)) {
    p.seed = g.u(0, 1u << 30);
    p.pct = (unsigned)g.pick({5, 20});
    c.desc << "skip seed " << p.seed << " pct " << p.pct << "\n";
  }
  return p;
}

docgen::Doc MakeDoc(Gen& g, Ctx& c) {
  docgen::Options o;
  o.density = (unsigned)g.pick({15, 35});
  o.max_clusters = 3;
  docgen::Doc d = docgen::Generate(g, c, o);
  webmdump::Normalize(g, &d.segment, 1, false, g.p(30));
  d.Finish();
  c.desc << docgen::Describe(d.ebml) << docgen::Describe(d.segment);
  return d;
}

void Valid(Gen& g, Ctx& c) {
  const docgen::Doc d = MakeDoc(g, c);
  Compare(g, c, d.data, MakePolicy(g, c), -1);
}

void AfterSeek(Gen& g, Ctx& c) {
  const docgen::Doc d = MakeDoc(g, c);
  const Policy p = MakePolicy(g, c);
  const El& e = d.segment.kids[g.u(0, d.segment.kids.size() - 1)];
  c.desc << "seek to " << e.pos << "\n";
  Compare(g, c, d.data, p, (int64_t)e.pos);
}

void Damaged(Gen& g, Ctx& c) {
  docgen::Doc d = MakeDoc(g, c);
  if (g.b())
    docgen::Mutate(g, &d.data);
  else
    d.data.resize(g.u(0, d.data.size()));
  c.desc << "damaged: " << pbt::Hex(d.data, 600) << "\n";
  Compare(g, c, d.data, MakePolicy(g, c), -1);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C13";
  p.level = "exploration";
  p.rule =
      "A case is a document (valid, entered by a seek, truncated or damaged), "
      "skip decisions, and one to three schedules of short reads, blocked "
      "reads, interrupted callbacks and exceptions, each compared with an "
      "undisturbed run; non-trivial: more than 3 Feed calls and more than 10 "
      "events";
  p.suites = {{"valid", Valid, 20000, 200000, false},
              {"seek", AfterSeek, 10000, 100000, false},
              {"damaged", Damaged, 20000, 200000, false}};
  p.assumptions = {"callbacks that throw do not consume data in "
                   "the call that throws (documented requirement)"};
  return pbt::Main(argc, argv, p);
}
