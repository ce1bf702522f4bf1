// C30: one content in every storage engine, the same queries asked of each.
#include "gclgen.h"
#include "world.h"
#include "src/simple_builder.h"
#include "src/fiver.h"
#include "src/hazel.h"
using namespace cottontail;
using gg::Gen;
using gg::Node;
using ref::List;
namespace {
struct Item { bool text; std::string t; size_t tokens; std::string name; addr p, q; fval v; };
struct Content {
  std::vector<Item> items;
  std::vector<std::string> token; // with what follows it
  gg::Env env;
  size_t texts = 0, anns = 0;
  std::string text(addr p, addr q) const { std::string o; for (addr i = std::max<addr>(p, 0); i <= q && i < (addr)token.size(); i++) o += token[i]; return o; }
};
constexpr size_t WORDS = 4, NAMES = 7;
Content gen_content(vp::Src &s, vp::Ctx &c) {
  Content k;
  static const std::vector<std::string> seps = {" ", "\n", ", ", "\t", " - ", ". "};
  std::map<std::string, List> l;
  bool nest = s.coin();
  size_t n = 4 + s.len(14);
  for (size_t i = 0; i < n; i++) {
    if (k.token.empty() || s.below(5) < 2) {
      Item it{true, "", 0, "", 0, 0, 0};
      size_t m = s.chance(1, 40) ? 400 + s.below(900) : 1 + s.below(10);
      bool fixed = m > 100;
      uint64_t z = fixed ? s.raw() : 0;
      for (size_t j = 0; j < m; j++) {
        std::string w = fixed ? "w" + std::to_string(vp::mix(z, j) % 40) : s.chance(1, 8) ? "other" : gg::name(s.below(WORDS));
        if (fixed && j % 97 == 5) w = gg::name(0);
        std::string u = w + (j + 1 == m ? "\n" : fixed ? " " : s.pick(seps));
        l[w].push_back({(addr)k.token.size(), (addr)k.token.size(), 0.0});
        it.t += u;
        k.token.push_back(u);
      }
      it.tokens = m;
      k.texts++;
      k.items.push_back(it);
      c.note_f([&] { return "text " + vp::show(it.t, 200); });
    } else {
      Item it{false, "", 0, gg::name(WORDS + s.below(NAMES - WORDS)), 0, 0, 0};
      addr top = (addr)k.token.size();
      it.p = (addr)s.below(top);
      it.q = std::min(top - 1, it.p + (addr)s.below(s.coin() ? 3 : 12));
      it.v = s.chance(1, 3) ? addr2fval((addr)s.below(top)) : s.coin() ? 0.0 : ref::gen_v(s);
      if (it.v != it.v) it.v = 0.5;
      bool clash = false;
      for (auto &x : l[it.name]) clash = clash || (x.p == it.p && x.q == it.q) || (!nest && ((x.p <= it.p && it.q <= x.q) || (it.p <= x.p && x.q <= it.q)));
      if (clash) continue;
      l[it.name].push_back({it.p, it.q, it.v});
      k.items.push_back(it);
      k.anns++;
      c.note_f([&] { return vp::cat("annotate ", it.name, " (", it.p, ",", it.q, ")=", it.v); });
    }
  }
  for (auto &x : l) k.env.lists[x.first] = ref::reduce(x.second);
  k.env.hi = (addr)k.token.size();
  return k;
}
struct Engine {
  std::string what;
  std::shared_ptr<Warren> w;
  std::vector<addr> at; // of each token
  bool gaps = false;
};
void keep(vp::Ctx &c, Engine *e, addr p, addr q, size_t n) {
  c.check_f(q - p + 1 == (addr)n, [&] { return vp::cat(e->what, ": append of ", n, " tokens reported (", p, ",", q, ")"); });
  for (addr a = p; a <= q; a++) e->at.push_back(a);
}
template <class A> void annotate(vp::Ctx &c, Engine *e, const Item &i, A add) {
  std::string err;
  c.check_f(add(e->at[i.p], e->at[i.q], &err), [&] { return e->what + ": annotate: " + err; });
}
// items [from,to) in one transaction
void transaction(vp::Ctx &c, Engine *e, std::shared_ptr<Warren> w, const Content &k, size_t from, size_t to, addr *next) {
  std::string err;
  c.check_f(w->transaction(&err), [&] { return e->what + ": transaction: " + err; });
  struct Late { addr base; size_t first; };
  bool any = false;
  addr shift = 0;
  size_t first = e->at.size();
  for (size_t i = from; i < to; i++) {
    auto &it = k.items[i];
    if (it.text) {
      addr p = -7, q = -7;
      c.check_f(w->appender()->append(it.t, &p, &q, &err), [&] { return e->what + ": append: " + err; });
      if (!any) shift = p;
      any = true;
      keep(c, e, p, q, it.tokens);
    } else
      annotate(c, e, it, [&](addr p, addr q, std::string *er) { return w->annotator()->annotate(w->featurizer()->featurize(it.name), p, q, it.v, er); });
  }
  // provisional addresses become final
  c.check_f(w->ready(&err), [&] { return e->what + ": ready: " + err; });
  if (any)
    for (size_t x = first; x < e->at.size(); x++) e->at[x] = *next + (e->at[x] - shift);
  if (any) *next = e->at.back() + 1;
}
void split(vp::Src &s, vp::Ctx &c, Engine *e, std::shared_ptr<Warren> w, const Content &k, size_t from, bool dynamic) {
  addr next = e->at.empty() ? 0 : e->at.back() + 1;
  std::string err;
  while (from < k.items.size()) {
    size_t to = from + 1 + s.below(s.coin() ? 3 : k.items.size() - from);
    to = std::min(to, k.items.size());
    // an annotation across texts of this and earlier transactions has no single form before ready
    if (dynamic) {
      size_t base = e->at.size(), have = base;
      for (size_t i = from; i < to; i++) {
        if (k.items[i].text) have += k.items[i].tokens;
        else if (k.items[i].q >= (addr)base && k.items[i].p < (addr)base) { to = i; break; }
      }
      if (to == from) to = from + 1; // on its own, after its texts
    }
    if (dynamic && s.chance(1, 8)) { // abandoned work leaves a gap
      addr p, q;
      c.check(w->transaction(&err), "transaction: " + err);
      c.check(w->appender()->append("ax bx cx\n", &p, &q, &err), "append: " + err);
      bool r = s.coin();
      if (r) { c.check(w->ready(&err), "ready: " + err); next += 3; e->gaps = true; }
      w->abort();
    }
    transaction(c, e, w, k, from, to, &next);
    w->commit();
    from = to;
  }
}
void ask(vp::Src &s, vp::Ctx &c, const Engine &e, const Content &k, const Node &n, const List &want0, std::shared_ptr<Warren> w) {
  if (e.gaps && (gg::has_op(n, gg::FIXED) || gg::has_op(n, gg::PHRASE) || gg::has_op(n, gg::LINK))) return;
  List want = want0;
  for (auto &i : want) {
    if (e.gaps) { i.p = e.at[i.p]; i.q = e.at[i.q]; }
  }
  std::string q = gg::print(n), err;
  auto h = w->hopper_from_gcl(q, &err);
  c.check_f(h != nullptr, [&] { return e.what + ": " + q + ": " + err; });
  ref::Shape sh;
  sh.lo = 0;
  sh.hi = e.at.empty() ? 1 : e.at.back();
  gg::check_cursor(s, c, h.get(), want, sh, e.what + ": " + q);
}
void texts(vp::Src &s, vp::Ctx &c, const Engine &e, const Content &k, std::shared_ptr<Warren> w) {
  c.check_f(w->txt()->tokens() == (addr)k.token.size(), [&] { return vp::cat(e.what, ": ", w->txt()->tokens(), " tokens of ", k.token.size()); });
  for (size_t i = 0; i < 4 && k.token.size(); i++) {
    addr p = (addr)s.below(k.token.size()), q = std::min<addr>((addr)k.token.size() - 1, p + (addr)s.mag(k.token.size()));
    if (i == 0) { p = 0; q = (addr)k.token.size() - 1; }
    std::string got = w->txt()->translate(e.at[p], e.at[q]), want = k.text(p, q);
    c.check_f(got == want, [&] { return vp::cat(e.what, ": text of (", e.at[p], ",", e.at[q], ") is ", vp::show(got, 200), " expected ", vp::show(want, 200)); });
  }
}
void engines(vp::Src &s, vp::Ctx &c) {
  std::string err;
  Content k = gen_content(s, c);
  std::string tok = s.coin() ? "utf8" : "ascii", rec = tok == "ascii" ? "noxml" : "";
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make(tok, rec);
  std::vector<Engine> es;
  auto pc = Compressor::make(s.coin() ? "post" : "null", ""), fc = Compressor::make(s.coin() ? "zlib" : "null", ""), tc = Compressor::make(s.coin() ? "zlib" : "null", "");
  if (s.below(4) < 3) { // static
    Engine e;
    e.what = "static";
    std::string dir = c.dir() + "/static";
    auto working = Working::mkdir(dir, &err);
    c.check(working != nullptr, err);
    auto b = SimpleBuilder::make(working, featurizer, tokenizer, &err, s.coin() ? 1 + s.below(30) : 1 << 20, s.coin() ? 1 + s.below(10) : 1 << 20, pc->name(), "", fc->name(), "", tc->name(), "");
    c.check(b != nullptr, err);
    size_t upto = s.coin() ? k.items.size() : s.below(k.items.size() + 1), i = 0;
    for (; i < upto; i++) {
      auto &it = k.items[i];
      addr p, q;
      if (it.text) { c.check(b->add_text(it.t, &p, &q, &err), err); keep(c, &e, p, q, it.tokens); }
      else annotate(c, &e, it, [&](addr p, addr q, std::string *er) { return b->add_annotation(it.name, p, q, it.v, er); });
    }
    c.check(b->finalize(&err), err);
    b = nullptr;
    e.w = wd::open(c, dir);
    if (i < k.items.size()) { e.what = "static, extended"; e.w->start(); split(s, c, &e, e.w, k, i, false); e.w->end(); e.w = wd::open(c, dir); }
    es.push_back(e);
  }
  if (s.below(4) < 3) { // dynamic, stored
    Engine e;
    e.what = "dynamic";
    std::string dir = c.dir() + "/dynamic", o = "tokenizer:name:" + tok + (rec.size() ? " tokenizer:" + rec : "");
    o += " idx:posting_compressor:" + pc->name() + " idx:fvalue_compressor:" + fc->name() + " txt:compressor:" + tc->name();
    auto b = wd::quiet(c, dir, o);
    b->merge(false);
    if (s.coin()) b->start(), split(s, c, &e, b, k, 0, true), b->end(); else split(s, c, &e, b, k, 0, true);
    if (s.coin()) { b = nullptr; e.what = "dynamic, reopened"; e.w = wd::open(c, dir); } else e.w = b;
    es.push_back(e);
  }
  if (s.below(4) < 3) { // in memory; merged in the background
    Engine e;
    e.what = "memory";
    auto b = Bigwig::make(nullptr, featurizer, tokenizer, nullptr, &err);
    c.check(b != nullptr, err);
    if (s.coin()) b->merge(false);
    split(s, c, &e, b, k, 0, true);
    e.w = b;
    es.push_back(e);
  }
  if (s.below(4) < 3) { // one or more shards by hand
    Engine e;
    e.what = "shard";
    bool stored = s.below(4) > 0;
    std::shared_ptr<Working> working;
    if (stored) { working = Working::mkdir(c.dir() + "/shards", &err); c.check(working != nullptr, err); }
    std::vector<std::shared_ptr<Fiver>> fs;
    size_t from = 0, seq = 0;
    addr next = 0;
    while (from < k.items.size()) {
      auto f = Fiver::make(working, featurizer, tokenizer, &err, pc, fc, tc);
      c.check(f != nullptr, err);
      size_t to = s.coin() ? k.items.size() : std::min(k.items.size(), from + 1 + s.below(5));
      size_t base = e.at.size();
      for (size_t i = from; i < to; i++) if (!k.items[i].text && k.items[i].q >= (addr)base && k.items[i].p < (addr)base) { to = i; break; }
      if (to == from) to = from + 1;
      c.check(f->transaction(&err), err);
      addr shift = 0;
      bool any = false;
      for (size_t i = from; i < to; i++) {
        auto &it = k.items[i];
        addr p, q;
        if (it.text) { c.check(f->appender()->append(it.t, &p, &q, &err), err); if (!any) shift = p; any = true; keep(c, &e, p, q, it.tokens); }
        else annotate(c, &e, it, [&](addr p, addr q, std::string *er) { return f->annotator()->annotate(featurizer->featurize(it.name), p, q, it.v, er); });
      }
      addr start = next;
      next = f->relocate(next);
      if (any) for (size_t x = base; x < e.at.size(); x++) e.at[x] += start - shift;
      f->set_sequence((addr)seq++);
      c.check(f->ready(&err), err);
      f->commit();
      f->start();
      fs.push_back(f);
      from = to;
    }
    auto f = fs.size() > 1 ? Fiver::merge(fs, &err) : fs[0];
    c.check(f != nullptr, "merge: " + err);
    if (!f->started()) f->start();
    e.w = f;
    es.push_back(e);
    if (stored) {
      std::string name = working->make_name("saved");
      c.check(f->pickle(name, &err), err);
      e.what = "saved shard";
      e.w = Fiver::unpickle(name, working, featurizer, tokenizer, &err, pc, fc, tc);
      c.check(e.w != nullptr, err);
      es.push_back(e);
      auto h = f->hazel(&err, 1 + (addr)s.mag(3000), "");
      c.check(h != nullptr, err);
      e.what = "immutable file";
      e.w = h;
      if (s.coin()) { e.what = "immutable file, reopened"; e.w = Warren::make(working->make_name(hazel_default_name(0, (addr)seq - 1)), &err); c.check_f(e.w != nullptr, [&] { return "immutable file: " + err; }); }
      es.push_back(e);
    }
  }
  Gen g;
  g.terms = NAMES;
  g.phrases = true;
  for (size_t i = 0; i < WORDS; i++) g.words.push_back(gg::name(i));
  std::vector<std::shared_ptr<Warren>> clones;
  for (auto &e : es) {
    c.check_f(e.at.size() == k.token.size(), [&] { return e.what + ": tokens"; });
    for (size_t i = 0; !e.gaps && i < e.at.size(); i++) c.check_f(e.at[i] == (addr)i, [&] { return vp::cat(e.what, ": token ", i, " has address ", e.at[i]); });
    if (!e.w->started()) e.w->start();
    texts(s, c, e, k, e.w);
    std::shared_ptr<Warren> x;
    if (s.coin()) { x = e.w->clone(&err); if (x && !x->started()) x->start(); if (e.what != "shard" && e.what != "saved shard") c.check_f(x != nullptr, [&] { return e.what + ": clone: " + err; }); }
    clones.push_back(x);
    c.label(e.what);
  }
  size_t found = 0;
  for (size_t i = 0; i < 6; i++) {
    Node n = gg::gen_node(s, g, (int)s.below(4));
    List want = gg::eval(n, k.env);
    if (want.size()) found++;
    c.note_f([&] { return "query " + gg::print(n); });
    for (size_t x = 0; x < es.size(); x++) ask(s, c, es[x], k, n, want, clones[x] && s.coin() ? clones[x] : es[x].w);
  }
  for (size_t x = 0; x < es.size(); x++) if (clones[x]) texts(s, c, es[x], k, clones[x]);
  c.nontrivial(es.size() > 1 && found > 1 && k.texts > 1 && k.anns > 0);
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C30";
  sp.rule = "Random content (texts and annotations, nested or not, values that are addresses) stored in a random choice of a static index (built, or built and then extended by transactions, reopened), a stored dynamic index in random transactions with abandoned ones in between (reopened or not), one in memory (background merging or not), shards merged by hand, saved and reloaded, and an immutable file (reopened or not); random query trees and phrases, one by one probing and scans, are compared with a naive evaluation over the content, up to the addresses each engine gave the texts, on the engines and on clones; so are random ranges of text. Non-trivial: two engines or more, texts and annotations, and more than one query with solutions.";
  sp.assumptions = {"texts hold tokens and end in a newline, start with a token", "where abandoned transactions left address gaps, fixed widths, phrases and links are not asked"};
  sp.subs = {{"engines", 6000, 120000, engines, 60, false, true}};
  return vp::run(argc, argv, sp);
}
