// C27: statistics computed in an index against counting.
#include "coll.h"
using namespace cottontail;
namespace {
void check_stats(vp::Src &s, vp::Ctx &c, const coll::Coll &k, std::shared_ptr<Stats> st, const std::string &what) {
  c.check_f(coll::close(st->avgl(), k.stat.avgl), [&] { return vp::cat(what, ": average length ", st->avgl(), ", counted ", k.stat.avgl); });
  c.check(st->have("avgl") && st->have("tf"), what + ": lengths or frequencies missing");
  c.check(st->have("rsj") == k.stat.rsj && st->have("idf") == k.stat.idf, what + ": reports weights it does not have, or lacks those it has");
  if (k.kind == "idf") c.check(st->have("unstemmed") == k.unstemmed, what + ": unstemmed terms");
  else c.check(st->have("content") == k.content, what + ": content");
  c.check(!st->have("no such thing"), what + ": has anything");
  std::vector<std::string> terms;
  for (auto &w : k.vocab) { terms.push_back(w); terms.push_back(k.stem->stem(w)); }
  terms.push_back(k.docs[s.below(k.docs.size())].id);
  { auto &d = k.docs[s.below(k.docs.size())]; terms.push_back(d.shown[s.below(d.shown.size())]); terms.push_back(k.stem->stem(terms.back())); }
  terms.push_back("nowhere");
  for (auto &t : terms) {
    c.check_f(coll::close(st->idf(t), coll::idf(k, t)), [&] { return vp::cat(what, ": idf of ", t, " is ", st->idf(t), ", counted ", coll::idf(k, t)); });
    c.check_f(coll::close(st->rsj(t), coll::rsj(k, t)), [&] { return vp::cat(what, ": rsj of ", t, " is ", st->rsj(t), ", counted ", coll::rsj(k, t)); });
    ref::List want;
    for (size_t i = 0; i < k.docs.size(); i++) { auto it = k.stat.tf[i].find(t); if (it != k.stat.tf[i].end()) want.push_back({k.docs[i].p, k.docs[i].q, it->second}); }
    auto h = st->tf_hopper(t);
    c.check(h != nullptr, what + ": no frequencies");
    auto same = [&](const ref::Iv &a, const ref::Iv &b) { return a.p == b.p && a.q == b.q && (a.p == maxfinity || a.p == minfinity || coll::close(a.v, b.v)); };
    ref::List got = ref::enumerate(h.get());
    c.check_f(got.size() == want.size(), [&] { return vp::cat(what, ": ", t, " has frequencies ", ref::str(got), ", counted ", ref::str(want)); });
    for (size_t i = 0; i < got.size(); i++) c.check_f(same(got[i], want[i]), [&] { return vp::cat(what, ": ", t, " has frequencies ", ref::str(got), ", counted ", ref::str(want)); });
    for (int i = 0; i < 6; i++) {
      auto &d = k.docs[s.below(k.docs.size())];
      addr at = s.pick(std::vector<addr>{d.p, d.q, d.p - 1, d.q + 1, (d.p + d.q) / 2, 0, k.docs.back().q + 5});
      int a = (int)s.below(4);
      ref::Iv r = ref::probe(h.get(), a, at), e = ref::access(want, a, at);
      c.check_f(same(r, e), [&] { return vp::cat(what, ": ", ref::access_name(a), "(", at, ") of frequencies of ", t, " is ", ref::str(r), ", counted ", ref::str(e), " of ", ref::str(want)); });
    }
  }
  auto hop = [&](std::unique_ptr<Hopper> h, bool id) {
    c.check(h != nullptr, what + ": no items");
    ref::List got = ref::enumerate(h.get());
    c.check(got.size() == k.docs.size(), what + ": items");
    for (size_t i = 0; i < got.size(); i++) c.check(got[i].p == k.docs[i].p && got[i].q == (id ? k.docs[i].p : k.docs[i].q), what + ": item");
  };
  hop(st->container_hopper(), false);
  hop(st->id_hopper(), true);
}
// Items that overlap, and fields that cross their ends.
void passages(vp::Src &s, vp::Ctx &c) {
  coll::Rules r;
  std::string kind = s.pick(std::vector<std::string>{"idf", "df", "tf", "field", "field", "tf-idf"});
  if (kind == "idf") r.engines = {"disk", "simple"};
  if (kind == "tf-idf") r.engines = {"meadow"};
  auto k = coll::passages(s, c, r);
  std::string err;
  if (kind != "tf-idf") coll::configure(s, c, &k);
  coll::statistics(s, c, &k, kind);
  auto st = Stats::make(k.kind, k.recipe, k.w, &err);
  c.check_f(st != nullptr, [&] { return "no statistics: " + err; });
  check_stats(s, c, k, st, k.kind);
  k.w->end();
  bool overlap = false;
  for (size_t i = 1; i < k.docs.size(); i++) overlap = overlap || k.docs[i].p <= k.docs[i - 1].q;
  if (overlap) c.nontrivial();
  c.label(kind);
}
void one(vp::Src &s, vp::Ctx &c, const std::string &kind) {
  coll::Rules r;
  if (kind == "idf") r.engines = {"disk", "simple"};
  if (kind == "tf-idf") r.engines = {"meadow"};
  auto k = coll::make(s, c, r);
  std::string err;
  if (kind != "tf-idf") coll::configure(s, c, &k);
  auto none = kind == "tf-idf" ? Stats::make("tf-idf", "none", k.w, &err) : nullptr;
  c.check(none == nullptr, "statistics before there are any");
  coll::statistics(s, c, &k, kind);
  auto st = s.coin() && k.recipe.empty() ? Stats::make(k.w, &err) : Stats::make(k.kind, k.recipe, k.w, &err);
  c.check_f(st != nullptr, [&] { return "no statistics: " + err; });
  c.check(st->name() == k.kind || (k.kind == "tf" && st->name() == "tf"), "named " + st->name());
  check_stats(s, c, k, st, k.kind);
  if (kind == "tf-idf") {
    c.check(Stats::make("tf-idf", "other", k.w, &err) == nullptr && err.size(), "statistics of a tag never foraged");
    // What a second forager counts is its own.
    if (s.coin()) {
      coll::Coll k2 = k;
      k2.stemmer = k.stemmer.empty() ? "porter" : "";
      k2.stem = Stemmer::make(k2.stemmer, "");
      k.w->end();
      std::map<std::string, std::string> ps = {{"stemmer", k2.stemmer}, {"container", "doc:"}, {"id", "id:"}};
      c.check(meadowlark::forage(k.w, "doc:", "tf-idf", "second", ps, &err), "forage: " + err);
      k.w->start();
      k2.stat = coll::Stat();
      k2.recipe = "second";
      for (auto &d : k2.docs) { std::map<std::string, fval> tf; for (auto &w : d.shown) tf[k2.stem->stem(w)]++; k2.stat.tf.push_back(tf); }
      coll::total(&k2);
      k2.stat.avgl = k.stat.avgl;
      st = Stats::make("tf-idf", "second", k.w, &err);
      c.check(st != nullptr, "second: " + err);
      check_stats(s, c, k2, st, "second forager");
      st = Stats::make("tf-idf", k.recipe, k.w, &err);
      c.check(st != nullptr, "first: " + err);
      check_stats(s, c, k, st, "first forager again");
    }
  }
  // A clone, and a reopened index, see the same.
  auto w2 = k.w->clone(&err);
  c.check(w2 != nullptr, "clone " + err);
  auto st2 = Stats::make(k.kind, k.recipe, w2, &err);
  c.check(st2 != nullptr, "no statistics in a clone: " + err);
  check_stats(s, c, k, st2, "clone");
  w2->end();
  if (k.engine != "memory" && s.coin()) {
    auto w3 = Warren::make(k.dir, &err);
    c.check(w3 != nullptr, "reopening " + err);
    w3->start();
    auto st3 = Stats::make(k.kind, k.recipe, w3, &err);
    c.check(st3 != nullptr, "no statistics when reopened: " + err);
    check_stats(s, c, k, st3, "reopened");
    w3->end();
  }
  k.w->end();
  if (k.docs.size() > 3) c.nontrivial();
  c.label(k.engine);
}
// More items than one thread takes.
void many(vp::Src &s, vp::Ctx &c) {
  std::string err;
  auto k = fl::meadow(c, c.dir() + "/m");
  size_t n = 65537 + s.below(3000);
  std::vector<std::string> words = {"cats", "cat", "runs", "dog"};
  std::string text;
  std::map<std::string, size_t> df;
  uint64_t r = s.raw();
  std::vector<size_t> pick;
  auto stem = Stemmer::make("porter", "");
  for (size_t i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; size_t j = (r >> 33) % 7 % 4; text += words[j] + " "; df[stem->stem(words[j])]++; }
  addr p, q;
  c.check(k->transaction(&err) && k->appender()->append(text, &p, &q, &err) && k->ready(&err), "text " + err);
  k->commit();
  addr step = 1;
  std::vector<std::pair<addr, addr>> items;
  for (addr i = 0; i < (addr)n; i += step) items.push_back({i, i});
  size_t threads = s.below(9);
  c.note(vp::cat(n, " items, ", threads, " threads"));
  c.check(meadowlark::forage(k, items, "tf-idf", "", {{"gcl", "(+ cats cat runs dog)"}, {"container", "(+ cats cat runs dog)"}}, &err, threads), "forage " + err);
  k->start();
  auto st = Stats::make("tf-idf", "", k, &err);
  c.check(st != nullptr, "stats " + err);
  c.check_f(st->avgl() == 1.0, [&] { return vp::cat("average length ", st->avgl()); });
  for (auto &x : df) {
    fval e = std::max(0.0, std::log((fval)n / (fval)x.second));
    c.check_f(coll::close(st->idf(x.first), e), [&] { return vp::cat("idf of ", x.first, " is ", st->idf(x.first), ", counted ", e); });
    auto h = st->tf_hopper(x.first);
    size_t got = 0;
    addr a, b;
    fval v;
    for (h->tau(0, &a, &b, &v); a < maxfinity; h->tau(a + 1, &a, &b, &v)) { c.check(a == b && v == 1.0, "frequency"); got++; }
    c.check_f(got == x.second, [&] { return vp::cat(x.first, " in ", got, " items, counted ", x.second); });
  }
  k->end();
  c.nontrivial();
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C27";
  sp.rule = "Random collections of up to 25 documents (with fields, text between them, address gaps, mixed case, stemmable words) in every engine; statistics computed by each tool, whole or range by range, and read back through Stats, a clone and a reopened index, against counting; every term of the vocabulary, its stem and absent terms; probes in all four directions; and items that are any intervals of a text, overlapping, with fields crossing their ends. Non-trivial: more than 3 documents, items that overlap, or a multi-threaded forage of more than 65536 items.";
  sp.assumptions = {"items were not erased", "an item is counted once per tag", "of several fields of one name in a document, the first counts", "lengths are extents in addresses"};
  auto k = [](const char *n) { return [n](vp::Src &s, vp::Ctx &c) { one(s, c, n); }; };
  sp.subs = {{"idf", 900, 20000, k("idf"), 60, false, true}, {"df", 1200, 25000, k("df"), 60, false, true}, {"tf", 900, 20000, k("tf"), 60, false, true}, {"field", 1200, 25000, k("field"), 60, false, true}, {"forage", 900, 20000, k("tf-idf"), 60, false, true}, {"passages", 1500, 30000, passages, 60, false, true}, {"many", 4, 60, many, 120, true, true, 3}};
  return vp::run(argc, argv, sp);
}
