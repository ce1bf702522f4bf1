// C11: a static index built from texts and annotations, against a model.
#include <thread>
#include "sm.h"
#include "src/fastid_txt.h"
#include "src/warren.h"
using namespace cottontail;
namespace {
void build(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err, tname, trecipe;
  auto working = Working::mkdir(dir, &err);
  c.check(working != nullptr, "working: " + err);
  sm::Model m;
  sm::gen_tokenizer(s, &m, &tname, &trecipe);
  c.check(m.tokenizer != nullptr, "tokenizer");
  std::shared_ptr<SimpleBuilder> b;
  static const std::vector<std::string> pcs = {"post", "null", "zlib"}, fcs = {"zlib", "null"}, tcs = {"zlib", "null"};
  std::string pc = s.pick(pcs), fc = s.pick(fcs), tc = s.pick(tcs);
  if (s.coin()) {
    m.featurizer = Featurizer::make("hashing", "");
    size_t tokf = s.coin() ? 1 + s.below(40) : 1000000, annf = s.coin() ? 1 + s.below(10) : 1000000;
    c.note(vp::cat("builder: ", tname, ":", trecipe, " flushing after ", tokf, " tokens, ", annf, " annotations; ", pc, " ", fc, " ", tc));
    b = SimpleBuilder::make(working, m.featurizer, m.tokenizer, &err, tokf, annf, pc, "", fc, "", tc, "");
  } else {
    if (trecipe.empty() && tname == "ascii") { trecipe = "noxml"; m.tokenizer = Tokenizer::make(tname, trecipe); }
    std::string o = "tokenizer:name:" + tname + (trecipe.empty() ? "" : " tokenizer:" + trecipe) + " idx:posting_compressor:" + pc + " idx:fvalue_compressor:" + fc + " txt:compressor:" + tc;
    c.note("builder: " + o);
    b = SimpleBuilder::make(working, o, &err);
    if (b) m.featurizer = b->featurizer();
  }
  c.check_f(b != nullptr, [&] { return "builder: " + err; });
  size_t steps = s.len(20), gave = 0, texts = 0;
  bool huge = s.chance(1, 150);
  for (size_t i = 0; i < steps; i++) {
    if (s.below(3)) {
      std::string t = s.chance(1, 25) ? sm::fill(s, m) : sm::gen_text(s, m, s.chance(1, 25));
      if (huge && i == 0) { std::string u = sm::gen_text(s, m, true) + "\n"; t = ""; while (t.size() < 1500000) t += u; }
      if (m.xml && sm::leaves_markup_open(t)) t += "\n";
      addr p0, q0, p = -7, q = -7;
      m.append(t, &p0, &q0);
      c.note_f([&] { return "text " + vp::show(t, 300); });
      c.check_f(b->add_text(t, &p, &q, &err), [&] { return "add_text: " + err; });
      c.check_f(p == p0 && q == q0, [&] { return vp::cat("add_text reported (", p, ",", q, "), expected (", p0, ",", q0, ")"); });
      if (q >= p) texts++;
    } else {
      for (auto &a : sm::gen_annotations(s, m, 12)) {
        c.note_f([&] { return vp::cat("annotate ", a.by_name ? a.tag : std::to_string(a.feature), " (", a.p, ",", a.q, ")=", a.v); });
        c.check_f(a.by_name ? b->add_annotation(a.tag, a.p, a.q, a.v, &err) : b->add_annotation(a.feature, a.p, a.q, a.v, &err), [&] { return "add_annotation: " + err; });
        m.annotate(a.feature, a.p, a.q, a.v);
        gave++;
      }
    }
  }
  c.check_f(b->finalize(&err), [&] { return "finalize: " + err; });
  c.check(b->finalize(&err), "finalizing again failed");
  addr p, q;
  c.check(!b->add_text("more", &p, &q, &err) && err.size(), "text added after finalizing");
  c.check(!b->add_annotation("t:", 0, 0, 0.0, &err) && err.size(), "annotation added after finalizing");
  b = nullptr;
  bool fast = s.chance(1, 4);
  for (size_t round = 0; round < 2; round++) {
    auto w = Warren::make(dir, &err);
    c.check_f(w != nullptr, [&] { return "opening: " + err; });
    w->start();
    sm::compare(s, c, w, m, 4, round ? "reopened" : "opened");
    auto k = w->clone(&err);
    c.check_f(k != nullptr, [&] { return "clone: " + err; });
    sm::compare(s, c, k, m, 3, "clone");
    if (s.chance(1, 5)) { // several clones at once
      std::vector<std::shared_ptr<Warren>> ks;
      for (int i = 0; i < 3; i++) { ks.push_back(k->clone(&err)); c.check(ks.back() != nullptr, "clone: " + err); }
      std::vector<std::string> bad(ks.size());
      std::vector<std::thread> ts;
      for (size_t i = 0; i < ks.size(); i++) {
        uint64_t seed = s.raw();
        ts.emplace_back([&, i, seed] {
          try { vp::Src z(seed, 50, nullptr); vp::Ctx d(c.dir(), false, false); sm::compare(z, d, ks[i], m, 3, "clone in a thread"); }
          catch (const vp::Failure &e) { bad[i] = e.what(); }
        });
      }
      for (auto &t : ts) t.join();
      for (auto &x : bad) c.check(x.empty(), x);
      c.label("threads");
    }
    sm::compare(s, c, w, m, 2, "again");
    k->end();
    if (round == 0 && s.chance(1, 4)) { c.check(w->set_parameter("preload", "yes", &err), "set parameter: " + err); c.label("preload"); }
    if (round == 0 && fast) { // texts of one feature stored apart
      bool any = m.lists.count(m.featurizer->featurize("t1:"));
      c.check(w->set_parameter("id", "t1:", &err), "set parameter: " + err);
      auto v = Warren::make(dir, &err);
      v->start();
      c.check_f(fastid(v, &err), [&] { return "fastid: " + err; });
      v->end();
      if (any) c.label("fastid");
    }
    w->end();
  }
  c.nontrivial(texts > 1 && gave > 0);
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C11";
  sp.rule = "Random sequences of texts (words of several scripts, markup, entities, NUL and malformed bytes, texts without tokens, now and then thousands of tokens or over a megabyte) and annotations (any feature, values, reversed or negative ones to be ignored) given to a builder with random tokenizer, compressors and flush sizes; the index, reopened, cloned, read from threads, preloaded or with ids stored apart, is compared with a flat text and naive lists: every list, count, vocabulary, random probes and random ranges of text. Non-trivial: more than one text with tokens and some annotation.";
  sp.assumptions = {"no two annotations of one feature are given for the same range", "with the markup tokenizer no text ends inside an unclosed tag or entity"};
  sp.subs = {{"build", 1500, 60000, build, 60, false, true}};
  return vp::run(argc, argv, sp);
}
