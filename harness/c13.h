// C13: snapshots and visibility.  Random histories of several handles on one
// dynamic index (writers and readers interleaved, clones, drops, misuse,
// reopening, merging) against a model of which transactions each must see.
// Built with -DERASING=1 it is C14: the same histories with erasures.
#include "crash.h"
#include "crash_impl.h"
#include "hist.h"
using namespace cottontail;

#ifndef ERASING
#define ERASING 0
#endif

namespace {
hist::Rules rules(vp::Src &s) {
  hist::Rules r;
  r.txn.max_tokens = s.coin() ? 6 : 20;
  r.txn.big = s.chance(1, 6);
  r.txn.features = 3;
  r.txn.erasures = ERASING;
  r.txn.cross_nest = !ERASING;
  r.txn.far = s.chance(1, 6) ? 50 : 0;
  r.handles = 1 + s.below(5);
  return r;
}
std::string options(vp::Src &s) {
  std::string o = "tokenizer:name:utf8";
  if (s.coin()) o += " idx:posting_compressor:post";
  if (s.coin()) o += " txt:compressor:zlib";
  if (s.chance(1, 3)) o += " idx:fvalue_compressor:zlib";
  return o;
}
void judge(vp::Ctx &c, const hist::Plan &p) {
  c.note_f([&] { return p.describe(); });
  if (p.stale) c.label("looks at a snapshot older than the latest commit", p.stale);
  c.label("looks", p.looks);
  c.label("transactions committed", p.committed);
  if (p.erasures) c.label("ranges erased", p.erasures);
}
void nontrivial(vp::Ctx &c, const hist::Plan &p, bool looser = false) {
  if (ERASING) c.nontrivial(p.erasures > 0 && p.committed > 1);
  else c.nontrivial((p.stale > 0 || looser) && p.committed > 1);
}
void memory(vp::Src &s, vp::Ctx &c, bool merging) {
  hist::Rules r = rules(s);
  r.merges = merging;
  r.steps = 60;
  auto p = hist::plan(s, r);
  judge(c, p);
  auto pc = s.coin() ? "post" : "null", fc = s.coin() ? "zlib" : "null", tc = s.coin() ? "zlib" : "null";
  hist::Runner run{c, [&] {
    std::string err;
    auto b = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("utf8", ""), nullptr, &err,
                          Compressor::make(pc, ""), Compressor::make(fc, ""), Compressor::make(tc, ""));
    c.check(b != nullptr, "bigwig: " + err);
    if (!merging) b->merge(false);
    return b;
  }};
  run.run(p.steps);
  nontrivial(c, p);
}
void still(vp::Src &s, vp::Ctx &c) { memory(s, c, false); }
void moving(vp::Src &s, vp::Ctx &c) { memory(s, c, true); }
void stored(vp::Src &s, vp::Ctx &c) {
  hist::Rules r = rules(s);
  r.reopen = true;
  auto p = hist::plan(s, r);
  judge(c, p);
  std::string dir = c.dir() + "/b", o = options(s);
  wd::quiet(c, dir, o)->merge(false);
  hist::Runner run{c, [&] {
    std::string err;
    auto b = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
    c.check(b != nullptr, "not a bigwig");
    b->merge(false);
    return b;
  }};
  run.run(p.steps);
  nontrivial(c, p);
}
// With merging on, each opening of the index is a process of its own.
void stored_moving(vp::Src &s, vp::Ctx &c) {
  hist::Rules r = rules(s);
  r.reopen = true;
  r.merges = true;
  r.steps = 80;
  r.transactions = 30;
  auto p = hist::plan(s, r);
  judge(c, p);
  std::string dir = c.dir() + "/b", o = options(s);
  wd::quiet(c, dir, o)->merge(false);
  size_t at = 0, part = 0;
  while (at < p.steps.size()) {
    size_t end = at + 1;
    while (end < p.steps.size() && p.steps[end].what != hist::REOPEN) end++;
    std::vector<hist::Step> steps(p.steps.begin() + at, p.steps.begin() + end);
    bool on = s.chance(4, 5);
    auto out = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
      hist::Runner run{c, [&] {
        auto b = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
        c.check(b != nullptr, "not a bigwig");
        b->merge(on);
        return b;
      }};
      if (steps[0].what == hist::REOPEN) run.step(steps[0], "reopening");
      run.run(steps[0].what == hist::REOPEN ? std::vector<hist::Step>(steps.begin() + 1, steps.end()) : steps);
    });
    c.check_f(out.ok, [&] { return vp::cat("opening ", part, ": ", out.message); });
    at = end;
    part++;
  }
  nontrivial(c, p, true);
}
#if ERASING
// Known finding: an annotation hidden by erasure after a merge dropped the
// one it was nested in.
bool nested(vp::Ctx &c) {
  auto build = [&](bool merged) {
    std::string err;
    auto featurizer = Featurizer::make("hashing", "");
    auto tokenizer = Tokenizer::make("utf8", "");
    std::vector<std::shared_ptr<Fiver>> f;
    addr address = 0, seq = 0;
    auto txn = [&](std::function<void(std::shared_ptr<Fiver>)> ops) {
      auto x = Fiver::make(nullptr, featurizer, tokenizer, &err);
      x->transaction(&err);
      ops(x);
      address = x->relocate(address);
      x->set_sequence(seq++);
      x->ready(&err);
      x->commit();
      x->start();
      f.push_back(x);
    };
    addr t = featurizer->featurize("t:");
    txn([&](auto x) { addr p, q; x->appender()->append("a b c d", &p, &q); x->annotator()->annotate(t, p, p + 3, 1.0); });
    txn([&](auto x) { x->annotator()->annotate(t, 1, 2, 2.0); });
    txn([&](auto x) { x->annotator()->erase(1, 2); });
    if (merged) { auto m = Fiver::merge({f[1], f[2]}, &err); m->start(); f = {f[0], m}; }
    auto m = Fiver::merge(f, &err);
    m->start();
    return wd::annotations(m, "t:");
  };
  return !ref::equal(build(false), build(true));
}
#endif
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = ERASING ? "C14" : "C13";
  sp.level = "exploration";
  if (ERASING) {
    sp.rule = "Random histories of up to 100 steps with up to 5 handles on one dynamic index, in memory and stored, merging off and on, whose transactions erase ranges (nested, overlapping, repeated, far, absolute and relative, reversed, of text not yet committed or of older transactions) beside text and annotations; every look of every reader is compared with the model: all features by enumeration, probes, text. Non-trivial: something erased and at least two transactions committed.";
    sp.assumptions = {"annotations of one feature do not nest across transactions (known finding)"};
    sp.findings["nested-inner-erased"] = [](vp::Ctx &c) {
#if ERASING
      return nested(c);
#else
      return false;
#endif
    };
  } else {
    sp.rule = "Random histories of up to 100 steps with up to 5 handles on one dynamic index, in memory and stored, merging off and on: begin, change, ready, commit, joint commit, abort, start, end, clone, drop (with or without an open transaction), looks and cursors held across other steps, misuse of the protocol, reopening; every look is compared with the model of the snapshot the handle took: all features by enumeration and probes, text, range, tokens. Non-trivial: at least two commits and a look at a snapshot older than the latest commit.";
    sp.assumptions = {"each handle is used by one thread at a time"};
  }
  sp.subs = {{"still", 60000, 1500000, still, 60, false, false},
             {"moving", 40000, 800000, moving, 60, true, false},
             {"stored", 2500, 60000, stored, 60, false, true},
             {"stored-moving", 700, 20000, stored_moving, 120, true, true}};
  return vp::run(argc, argv, sp);
}
