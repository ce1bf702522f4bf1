// C05: posting lists are canonical and merge independently of grouping.
#include "ref.h"
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/simple.h"
#include "src/simple_posting.h"
#include "src/annotator.h"
using namespace cottontail;
using ref::Iv;
using ref::List;
using PostPtr = std::shared_ptr<SimplePosting>;

namespace {
std::shared_ptr<SimplePostingFactory> factory() {
  return SimplePostingFactory::make(Compressor::make("post", ""), Compressor::make("zlib", ""));
}
List contents(vp::Ctx &c, PostPtr p) {
  List out;
  if (!p) return out;
  Iv i;
  for (size_t k = 0; k < p->size(); k++) {
    c.check(p->get(k, &i.p, &i.q, &i.v), "get fails below size()");
    out.push_back(i);
  }
  c.check(!p->get(p->size(), &i.p, &i.q, &i.v), "get succeeds at size()");
  return out;
}
PostPtr posting(std::shared_ptr<SimplePostingFactory> f, addr feature, const List &l) {
  auto p = f->posting_from_feature(feature);
  for (auto &i : l) p->push(i.p, i.q, i.v);
  return p;
}
void must_equal(vp::Ctx &c, const List &got, const List &want, const std::string &what) {
  c.check_f(ref::equal(got, want), [&] { return what + ": " + ref::diff(got, want); });
}
void scan(vp::Ctx &c, PostPtr p, const List &want, const std::string &what) {
  if (!p || p->size() == 0) return; // an empty list has no cursor of this kind
  std::string err;
  c.check_f(p->invariants(&err), [&] { return what + ": reported invalid: " + err; });
  auto h = ArrayHopper::make(p);
  must_equal(c, ref::enumerate(h.get()), want, what + " through a cursor");
}
std::vector<addr> features(vp::Src &s) {
  std::vector<addr> f;
  size_t n = 1 + s.below(4);
  for (size_t i = 0; i < n; i++) {
    addr x = s.chance(1, 4) ? (addr)s.raw() : s.range(1, 6);
    if (x == 0) x = 1;
    f.push_back(x);
  }
  std::sort(f.begin(), f.end());
  f.erase(std::unique(f.begin(), f.end()), f.end());
  return f;
}

void tokens(vp::Src &s, vp::Ctx &c) {
  std::vector<TokRecord> t;
  std::map<addr, List> want;
  for (addr f : features(s)) {
    addr at = s.chance(1, 3) ? s.range(0, 1ll << 50) : s.range(0, 20);
    size_t n = 1 + s.len(60);
    for (size_t i = 0; i < n; i++) {
      t.emplace_back(f, at);
      auto &w = want[f];
      if (w.empty() || w.back().p != at) w.push_back({at, at, 0.0});
      at += s.chance(1, 20) ? (addr)s.mag(1ll << 40) : (addr)s.below(3);
    }
  }
  auto f = factory();
  auto it = t.begin();
  size_t seen = 0;
  while (it < t.end()) {
    auto p = f->posting_from_tokens(&it, t.end());
    c.check(p != nullptr, "no posting from tokens");
    c.check(want.count(p->feature()), "posting for a feature that was not given");
    must_equal(c, contents(c, p), want[p->feature()], vp::cat("tokens of ", p->feature()));
    scan(c, p, want[p->feature()], "tokens");
    seen++;
  }
  c.check(seen == want.size(), "wrong number of postings from tokens");
  c.check(f->posting_from_tokens(&it, t.end()) == nullptr, "posting from no tokens");
  if (t.size() > 3) c.nontrivial();
}

void annotations(vp::Src &s, vp::Ctx &c) {
  std::vector<Annotation> a;
  std::map<addr, List> given;
  for (addr f : features(s)) {
    addr lo = s.chance(1, 3) ? s.range(0, 1ll << 50) : 0, hi = lo + s.range(1, 30);
    size_t n = 1 + s.len(25);
    int style = (int)s.below(3);
    for (size_t i = 0; i < n; i++) {
      Annotation x;
      x.feature = f;
      x.p = s.range(lo, hi);
      x.q = style == 0 ? x.p : s.chance(1, 15) ? x.p - 1 - (addr)s.below(3) : s.range(x.p, hi + (style == 2 ? 20 : 0));
      x.v = s.chance(1, 2) ? 0.0 : ref::gen_v(s);
      a.push_back(x);
      if (x.p <= x.q) given[f].push_back({x.p, x.q, x.v});
      else given[f];
      if (s.chance(1, 12)) { a.push_back(x); if (x.p <= x.q) given[f].push_back({x.p, x.q, x.v}); }
    }
  }
  c.note_f([&] { std::string o; for (auto &g : given) o += vp::cat(g.first, " ", ref::str(g.second), "\n"); return o; });
  std::sort(a.begin(), a.end(), [](const Annotation &x, const Annotation &y) {
    return x.feature < y.feature || (x.feature == y.feature && (x.q < y.q || (x.q == y.q && x.p > y.p)));
  });
  auto f = factory();
  auto it = a.begin();
  size_t seen = 0;
  while (it < a.end()) {
    auto p = f->posting_from_annotations(&it, a.end());
    c.check(p != nullptr, "no posting from annotations");
    c.check(given.count(p->feature()), "posting for a feature that was not given");
    const List &g = given[p->feature()];
    List want = ref::reduce(g), got = contents(c, p);
    // of several values given at once for one interval, any may be kept
    for (size_t i = 0; i < want.size() && i < got.size(); i++)
      for (auto &x : g)
        if (x.p == want[i].p && x.q == want[i].q && got[i] == x) want[i].v = x.v;
    must_equal(c, got, want, vp::cat("annotations of ", p->feature()));
    if (want.size() != g.size()) c.label("batch reduced");
    scan(c, p, want, "annotations");
    seen++;
  }
  c.check(seen == given.size(), "wrong number of postings from annotations");
  if (a.size() > 2) c.nontrivial();
}

void append(vp::Src &s, vp::Ctx &c) {
  auto f = factory();
  PostPtr p = f->posting_from_feature(7);
  List want;
  size_t parts = 1 + s.below(5);
  addr at = s.range(0, 100);
  for (size_t k = 0; k < parts; k++) {
    ref::Shape sh;
    sh.lo = at;
    sh.hi = at + s.range(1, 60);
    sh.max = 12;
    sh.values = s.coin();
    sh.width = s.coin() ? 0 : -1;
    List l = ref::gen_list(s, sh);
    at = sh.hi + 1;
    p->append(posting(f, 7, l));
    want.insert(want.end(), l.begin(), l.end());
    c.check(p->size() == want.size(), "size after append");
    must_equal(c, contents(c, p), want, "append");
  }
  scan(c, p, want, "append");
  c.check(*p == *posting(f, 7, want) || !want.empty(), "equality");
  if (parts > 1 && want.size() > 2) c.nontrivial();
}

void merge(vp::Src &s, vp::Ctx &c) {
  auto f = factory();
  size_t n = 1 + s.below(6);
  ref::Shape sh = ref::gen_shape(s, false);
  sh.max = s.chance(1, 10) ? 200 : 15;
  std::vector<List> ls;
  std::vector<PostPtr> ps;
  List all;
  addr at = sh.lo;
  bool disjoint = s.chance(1, 3); // increasing blocks, which may be appended
  for (size_t i = 0; i < n; i++) {
    List l;
    if (!s.chance(1, 5)) {
      ref::Shape one = sh;
      if (disjoint) { one.lo = at; one.hi = std::min(sh.hi, at + (sh.hi - sh.lo) / 8 + 1); }
      l = ref::gen_list(s, one);
      if (s.chance(1, 4) && all.size()) { // repeat an earlier interval
        Iv x = s.pick(all);
        x.v = ref::gen_v(s);
        l.push_back(x);
        l = ref::reduce(l);
      }
      if (l.size()) at = std::min(sh.hi, std::max(at, l.back().q + (s.chance(1, 4) ? 0 : 1)));
    }
    c.note_f([&] { return "list " + ref::str(l); });
    all.insert(all.end(), l.begin(), l.end());
    ls.push_back(l);
    ps.push_back(posting(f, 42, l));
  }
  List want = ref::reduce(all);
  PostPtr m = f->posting_from_merge(ps);
  must_equal(c, contents(c, m), want, "merge");
  scan(c, m, want, "merge");
  if (m) c.check(m->feature() == 42, "feature of a merge");
  // the sources are untouched
  for (size_t i = 0; i < n; i++) must_equal(c, contents(c, ps[i]), ls[i], "source after merge");
  // any grouping of consecutive lists
  std::vector<PostPtr> g = ps;
  while (g.size() > 1) {
    size_t from = s.below(g.size()), len = 1 + s.below(g.size() - from);
    if (len == 1 && s.chance(3, 4)) continue;
    PostPtr x = f->posting_from_merge(std::vector<PostPtr>(g.begin() + from, g.begin() + from + len));
    c.check(x != nullptr, "merge of lists gives nothing");
    g[from] = x;
    g.erase(g.begin() + from + 1, g.begin() + from + len);
  }
  must_equal(c, contents(c, g[0]), want, "grouped merge");
  // with an exclusion list, in the last step
  ref::Shape ex = sh;
  ex.max = 10;
  ex.values = false;
  List x = ref::gen_list(s, ex);
  if (s.chance(1, 8)) x.clear();
  c.note_f([&] { return "exclude " + ref::str(x); });
  List kept;
  for (auto &i : want) {
    bool in = false;
    for (auto &e : x) in = in || (e.p <= i.p && i.q <= e.q);
    if (!in) kept.push_back(i);
  }
  PostPtr xp = posting(f, 0, x);
  must_equal(c, contents(c, f->posting_from_merge(ps, xp)), kept, "merge with exclusions");
  must_equal(c, contents(c, f->posting_from_merge({g[0]}, xp)), kept, "grouped merge with exclusions");
  PostPtr once = f->posting_from_merge(ps, xp);
  if (once) {
    scan(c, once, kept, "merge with exclusions");
    must_equal(c, contents(c, f->posting_from_merge({once}, xp)), kept, "exclusions applied twice");
  }
  must_equal(c, contents(c, f->posting_from_merge(ps, nullptr)), want, "merge without exclusions");
  if (n > 1 && want.size() > 1) c.nontrivial();
  if (kept.size() != want.size()) c.label("something excluded");
}

void invariants(vp::Src &s, vp::Ctx &c) {
  auto f = factory();
  ref::Shape sh = ref::gen_shape(s, true);
  sh.max = 20;
  List l = ref::gen_list(s, sh);
  std::string err;
  c.check_f(posting(f, 3, l)->invariants(&err), [&] { return "valid list reported invalid: " + ref::str(l) + " " + err; });
  c.check(posting(f, 3, l)->invariants(), "valid list reported invalid");
  if (l.size() < 2) return;
  // break it: swap two starts, or two ends (when the list has any width)
  List b = l;
  size_t i = s.below(l.size()), j = s.below(l.size());
  if (i == j) j = (i + 1) % l.size();
  bool wide = false;
  for (auto &x : l) wide = wide || x.p < x.q;
  if (!wide) {
    std::swap(b[i], b[j]);
  } else
    switch (s.below(2)) {
    case 0: std::swap(b[i].p, b[j].p); break;
    default: std::swap(b[i].q, b[j].q);
    }
  // push() reads the width from p < q; keep the break visible
  for (auto &x : b)
    if (wide && x.p > x.q) return;
  err = "";
  bool ok = posting(f, 3, b)->invariants(&err);
  c.check_f(!ok, [&] { return "invalid list reported valid: " + ref::str(b); });
  c.check(err.size() > 0, "invalid list reported without a message");
  c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C05";
  sp.level = "exploration";
  sp.rule = "Random batches of token records and of annotations (nested, duplicate, overlapping, inverted), appended lists, and merges of 1 to 6 random lists in one step, in random groupings of consecutive lists, and with exclusion lists; compared with the quadratic definition of minimal-interval reduction. Non-trivial: more than one list or more than two entries, and for invariants a list that was really broken.";
  sp.assumptions = {"exclusions are applied in the last step of a grouped merge", "which of several values given in one batch for the same interval is kept is not specified"};
  sp.subs = {{"tokens", 900000, 4000000, tokens}, {"annotations", 2000000, 10000000, annotations}, {"append", 700000, 3000000, append},
             {"merge", 1600000, 8000000, merge}, {"invariants", 700000, 3000000, invariants}};
  return vp::run(argc, argv, sp);
}
