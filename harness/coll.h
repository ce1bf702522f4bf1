// Collections of documents for the checks of ranking and statistics, with
// the term statistics that counting gives.
#ifndef VERIF_HARNESS_COLL_H_
#define VERIF_HARNESS_COLL_H_
#include <cmath>
#include <map>
#include <set>
#include "meadowlark/meadowlark.h"
#include "meadowlark/forager.h"
#include "src/ranking.h"
#include "src/stats.h"
#include "src/stemmer.h"
#include "files.h"
#include "world.h"
namespace coll {
using namespace cottontail;
struct Doc {
  std::string id, text;
  std::vector<std::string> words; // tokens, the id first
  std::vector<std::string> shown; // as the ASCII tokenizer splits them, which keeps words like THE
  addr p, q;
  std::vector<std::pair<size_t, size_t>> title, body; // token offsets
};
struct Stat { // what a statistics object has to report
  fval items = 0, avgl = 0;
  std::vector<std::map<std::string, fval>> tf; // per document
  std::map<std::string, fval> df;
  bool idf = true, rsj = true;
};
struct Coll {
  std::string engine, dir, kind, recipe, stemmer;
  bool content = false, unstemmed = true;
  std::vector<fval> weights;
  std::shared_ptr<Warren> w;
  std::vector<Doc> docs;
  std::vector<std::string> vocab;
  std::shared_ptr<Stemmer> stem;
  Stat stat;
  size_t tokens = 0;                    // in all text
  std::map<std::string, size_t> counts; // of each word in all text
  void refresh(vp::Ctx &c) { // see what was committed
    std::string err;
    w->end();
    if (engine == "simple") { w = nullptr; w = Warren::make(dir, &err); c.check(w != nullptr, "reopening: " + err); }
    w->start();
  }
};
inline const std::vector<std::string> &words() {
  static const std::vector<std::string> v = {"the", "cat", "cats", "running", "runs", "w1", "w2", "quick", "relational", "generalizations", "ponies", "w3", "zzz"};
  return v;
}
inline std::string word(vp::Src &s, const std::vector<std::string> &vocab) { // skewed
  size_t a = s.below(vocab.size()), b = s.below(vocab.size());
  return vocab[std::min(a, b)];
}
inline void append(vp::Src &s, Coll *k, std::string *text, std::vector<std::string> *to, const std::string &w, std::vector<std::string> *ascii = nullptr) {
  std::string shown = w;
  if (s.chance(1, 6)) for (auto &ch : shown) if (ch >= 'a' && ch <= 'z') ch -= 32;
  static const std::vector<std::string> seps = {" ", " ", ", ", "\n", " - "};
  *text += shown + s.pick(seps);
  if (ascii) { bool upper = false; for (size_t i = 1; i < shown.size(); i++) if (shown[i] >= 'A' && shown[i] <= 'Z') upper = true; ascii->push_back(upper ? shown : w); }
  to->push_back(w);
  k->counts[w]++;
  k->tokens++;
}
struct Rules {
  std::vector<std::string> engines = {"memory", "disk", "simple"};
  size_t docs = 25, length = 20;
};
inline Coll make(vp::Src &s, vp::Ctx &c, const Rules &r) {
  Coll k;
  std::string err;
  k.engine = s.pick(r.engines);
  k.dir = c.dir() + "/coll";
  k.vocab.assign(words().begin(), words().begin() + 2 + s.below(words().size() - 1));
  std::shared_ptr<SimpleBuilder> b;
  if (k.engine == "memory") k.w = wd::memory(c);
  else if (k.engine == "disk") { auto g = wd::quiet(c, k.dir, "tokenizer:name:utf8"); g->merge(false); k.w = g; }
  else if (k.engine == "meadow") { k.w = fl::meadow(c, k.dir); }
  else {
    auto working = Working::mkdir(k.dir, &err);
    c.check(working != nullptr, "working " + err);
    b = SimpleBuilder::make(working, "tokenizer:name:utf8", &err);
    c.check(b != nullptr, "builder " + err);
  }
  c.note("engine " + k.engine);
  bool open = false;
  size_t n = 1 + s.len(r.docs);
  auto close = [&] {
    if (!open) return;
    c.check(k.w->ready(&err), "ready " + err);
    k.w->commit();
    open = false;
  };
  for (size_t i = 0; i < n; i++) {
    if (!b) {
      if (open && s.chance(1, 4)) {
        close();
        if (s.chance(1, 4)) { // leaves a gap in the addresses
          addr p, q;
          c.check(k.w->transaction(&err) && k.w->appender()->append("gap gap gap", &p, &q, &err) && k.w->ready(&err), "gap " + err);
          k.w->abort();
        }
      }
      if (!open) { c.check(k.w->transaction(&err), "transaction " + err); open = true; }
    }
    auto add = [&](const std::string &t, addr *p, addr *q) { c.check(b ? b->add_text(t, p, q, &err) : k.w->appender()->append(t, p, q, &err), "text " + err); };
    auto mark = [&](const std::string &f, addr p, addr q) { c.check(b ? b->add_annotation(f, p, q, 0.0, &err) : k.w->annotator()->annotate(k.w->featurizer()->featurize(f), p, q, &err), "annotate " + err); };
    addr p, q;
    if (s.chance(1, 5)) { // text outside documents
      std::string t;
      std::vector<std::string> none;
      size_t m = 1 + s.below(4);
      for (size_t j = 0; j < m; j++) append(s, &k, &t, &none, word(s, k.vocab));
      add(t, &p, &q);
    }
    Doc d;
    d.id = vp::cat("d", i);
    append(s, &k, &d.text, &d.words, d.id, &d.shown);
    auto field = [&](size_t max, std::vector<std::pair<size_t, size_t>> *f) {
      size_t m = s.below(max + 1), at = d.words.size();
      for (size_t j = 0; j < m; j++) append(s, &k, &d.text, &d.words, word(s, k.vocab), &d.shown);
      if (m) f->push_back({at, d.words.size() - 1});
    };
    if (s.below(4)) field(4, &d.title);
    field(s.chance(1, 8) ? r.length * 4 : r.length, &d.body);
    if (s.chance(1, 4)) field(3, &d.title); // only the first is the field
    if (s.chance(1, 4)) field(3, &d.body);
    add(d.text, &p, &q);
    c.check_f(q - p + 1 == (addr)d.words.size(), [&] { return vp::cat("a text of ", d.words.size(), " words got ", q - p + 1, " addresses"); });
    mark("doc:", p, q);
    mark("id:", p, p);
    for (auto &f : d.title) mark("title:", p + f.first, p + f.second);
    for (auto &f : d.body) mark("body:", p + f.first, p + f.second);
    k.docs.push_back(d);
    c.note_f([&] { return d.id + ": " + vp::show(d.text, 200); });
  }
  if (b) {
    c.check(b->finalize(&err), "finalize " + err);
    k.w = Warren::make(k.dir, &err);
    c.check(k.w != nullptr, "opening " + err);
  } else
    close();
  k.w->start();
  auto l = wd::annotations(k.w, "doc:");
  c.check(l.size() == k.docs.size(), "documents lost");
  for (size_t i = 0; i < l.size(); i++) {
    c.check(l[i].q - l[i].p + 1 == (addr)k.docs[i].words.size(), "document extent");
    k.docs[i].p = l[i].p;
    k.docs[i].q = l[i].q;
  }
  k.stemmer = s.coin() ? "porter" : "";
  k.stem = Stemmer::make(k.stemmer, "", &err);
  c.check(k.stem != nullptr, "stemmer " + err);
  return k;
}
// A collection whose items and fields are any intervals of a text: items may
// overlap, and fields may cross their ends.
inline Coll passages(vp::Src &s, vp::Ctx &c, const Rules &r) {
  Coll k;
  std::string err;
  k.engine = s.pick(r.engines);
  k.dir = c.dir() + "/coll";
  k.vocab.assign(words().begin(), words().begin() + 2 + s.below(words().size() - 1));
  std::shared_ptr<SimpleBuilder> b;
  if (k.engine == "memory") k.w = wd::memory(c);
  else if (k.engine == "disk") { auto g = wd::quiet(c, k.dir, "tokenizer:name:utf8"); g->merge(false); k.w = g; }
  else if (k.engine == "meadow") k.w = fl::meadow(c, k.dir);
  else {
    auto working = Working::mkdir(k.dir, &err);
    c.check(working != nullptr, "working " + err);
    b = SimpleBuilder::make(working, "tokenizer:name:utf8", &err);
    c.check(b != nullptr, "builder " + err);
  }
  std::vector<std::string> text, ascii;
  size_t pieces = 1 + s.below(4);
  for (size_t i = 0; i < pieces; i++) {
    std::string t;
    size_t n = 1 + s.len(20);
    for (size_t j = 0; j < n; j++) append(s, &k, &t, &text, word(s, k.vocab), &ascii);
    addr p, q;
    if (b) c.check(b->add_text(t, &p, &q, &err), "text " + err);
    else c.check(k.w->transaction(&err) && k.w->appender()->append(t, &p, &q, &err) && k.w->ready(&err), "text " + err);
    if (!b) k.w->commit();
  }
  addr base = 0;
  if (!b) { // where the text really is: a meadow keeps other things too
    k.w->start();
    auto l = wd::annotations(k.w, text[0]);
    c.check(!l.empty(), "text lost");
    base = l[0].p;
    k.w->end();
  }
  auto intervals = [&](size_t n, size_t longest) {
    std::vector<std::pair<addr, addr>> all, kept;
    for (size_t i = 0; i < n; i++) { addr p = s.below(text.size()); all.push_back({p, std::min<addr>(text.size() - 1, p + s.below(longest))}); }
    std::sort(all.begin(), all.end());
    for (auto &x : all) if (kept.empty() || (x.first > kept.back().first && x.second > kept.back().second)) kept.push_back(x);
    return kept;
  };
  auto items = intervals(1 + s.len(r.docs), 12), titles = intervals(s.len(8), 6), bodies = intervals(s.len(12), 10);
  if (!b) c.check(k.w->transaction(&err), "transaction " + err);
  auto mark = [&](const std::string &f, addr p, addr q) { c.check(b ? b->add_annotation(f, base + p, base + q, 0.0, &err) : k.w->annotator()->annotate(k.w->featurizer()->featurize(f), base + p, base + q, &err), "annotate " + err); };
  for (auto &x : items) {
    mark("doc:", x.first, x.second);
    mark("id:", x.first, x.first);
    Doc d;
    d.p = base + x.first;
    d.q = base + x.second;
    for (addr a = x.first; a <= x.second; a++) { d.words.push_back(text[a]); d.shown.push_back(ascii[a]); }
    d.id = d.words[0];
    auto first = [&](const std::vector<std::pair<addr, addr>> &l, std::vector<std::pair<size_t, size_t>> *f) {
      for (auto &y : l) if (y.first >= x.first) { if (y.second <= x.second) f->push_back({(size_t)(y.first - x.first), (size_t)(y.second - x.first)}); return; }
    };
    first(titles, &d.title);
    first(bodies, &d.body);
    k.docs.push_back(d);
  }
  for (auto &x : titles) mark("title:", x.first, x.second);
  for (auto &x : bodies) mark("body:", x.first, x.second);
  c.note_f([&] {
    std::string o = "engine " + k.engine + ", text";
    for (auto &w : text) o += " " + w;
    auto list = [&](const char *n, const std::vector<std::pair<addr, addr>> &l) { o += vp::cat("; ", n); for (auto &x : l) o += vp::cat(" ", x.first, "..", x.second); };
    list("items", items);
    list("titles", titles);
    list("bodies", bodies);
    return o;
  });
  if (b) {
    c.check(b->finalize(&err), "finalize " + err);
    k.w = Warren::make(k.dir, &err);
    c.check(k.w != nullptr, "opening " + err);
  } else {
    c.check(k.w->ready(&err), "ready " + err);
    k.w->commit();
  }
  k.w->start();
  k.stemmer = s.coin() ? "porter" : "";
  k.stem = Stemmer::make(k.stemmer, "", &err);
  c.check(k.stem != nullptr, "stemmer " + err);
  return k;
}
inline void configure(vp::Src &s, vp::Ctx &c, Coll *k) {
  std::string err;
  c.check(k->w->set_default_container("doc:", &err), "container " + err);
  c.check(k->w->set_parameter("id", "id:", &err), "id " + err);
  c.check(k->w->set_stemmer(k->stem, &err), "stemmer " + err);
  k->content = s.coin();
  if (k->content) c.check(k->w->set_parameter("content", "doc:", &err), "content " + err);
}
inline void total(Coll *k) {
  k->stat.items = k->docs.size();
  for (auto &m : k->stat.tf) for (auto &t : m) k->stat.df[t.first]++;
}
// Computes statistics of the given kind in the index, and here by counting.
inline void statistics(vp::Src &s, vp::Ctx &c, Coll *k, const std::string &kind) {
  std::string err;
  k->kind = kind;
  k->stat = Stat();
  addr length = 0;
  for (auto &d : k->docs) length += d.q - d.p + 1;
  if (kind == "idf") {
    bool idf = s.below(5), rsj = s.below(5) || !idf;
    k->unstemmed = s.coin();
    c.note(vp::cat("tf_idf_annotations unstemmed=", k->unstemmed, " idf=", idf, " rsj=", rsj, " stemmer=", k->stemmer));
    c.check(tf_idf_annotations(k->w, &err, k->unstemmed, idf, rsj), "tf_idf_annotations: " + err);
    for (auto &d : k->docs) {
      std::map<std::string, fval> tf;
      for (auto &w : d.words) {
        bool st;
        std::string t = k->stem->stem(w, &st);
        if (k->unstemmed) { tf[w]++; if (st) tf[t]++; } else tf[t]++;
      }
      k->stat.tf.push_back(tf);
    }
    total(k);
    k->stat.avgl = (fval)length / k->stat.items;
    k->stat.idf = idf;
    k->stat.rsj = rsj;
  } else if (kind == "df" || kind == "tf") {
    if (kind == "df") {
      c.note("tf_df_annotations stemmer=" + k->stemmer);
      c.check(tf_df_annotations(k->w, &err), "tf_df_annotations: " + err);
    } else if (s.chance(1, 3)) {
      c.note("tf_annotations of everything, stemmer=" + k->stemmer);
      c.check(tf_annotations(k->w, &err), "tf_annotations: " + err);
    } else
      for (size_t i = 0; i < k->docs.size();) {
        size_t j = i + s.below(k->docs.size() - i);
        addr hi = j + 1 < k->docs.size() ? std::max(k->docs[j].q, k->docs[j + 1].p - 1) : maxfinity - 1;
        addr end = s.coin() ? k->docs[j].q : s.coin() ? hi : s.range(k->docs[j].q, j + 1 < k->docs.size() ? k->docs[j + 1].q - 1 : k->docs[j].q + 1000);
        addr lo = i ? k->docs[i - 1].p + 1 : 0, start = s.coin() ? k->docs[i].p : s.range(lo, k->docs[i].p);
        c.note(vp::cat("tf_annotations of ", start, " to ", end, ", stemmer=", k->stemmer));
        c.check(tf_annotations(k->w, &err, start, end), "tf_annotations: " + err);
        k->refresh(c);
        i = j + 1;
      }
    for (auto &d : k->docs) {
      std::map<std::string, fval> tf;
      for (auto &w : d.words) tf[k->stem->stem(w)]++;
      k->stat.tf.push_back(tf);
    }
    total(k);
    k->stat.avgl = (fval)length / k->stat.items;
  } else if (kind == "field") {
    static const std::vector<std::string> ws = {"1", "2.5", "0", "0.25"};
    std::string a = s.pick(ws), b = a == "0" ? "1" : s.pick(ws);
    c.check(k->w->set_parameter("fields", "title:\tbody:", &err) && k->w->set_parameter("weights", a + "\t" + b, &err), "fields " + err);
    c.note("tf_field_annotations weights " + a + " " + b + " stemmer=" + k->stemmer);
    c.check(tf_field_annotations(k->w, &err), "tf_field_annotations: " + err);
    k->weights = {std::stof(a), std::stof(b)};
    addr flen = 0;
    for (auto &d : k->docs) {
      std::map<std::string, fval> tf;
      std::set<std::string> in;
      const std::vector<std::pair<size_t, size_t>> *fs[2] = {&d.title, &d.body};
      for (int f = 0; f < 2; f++) {
        if (fs[f]->empty()) continue;
        flen += fs[f]->front().second - fs[f]->front().first + 1;
        for (size_t i = fs[f]->front().first; i <= fs[f]->front().second; i++) { std::string t = k->stem->stem(d.words[i]); in.insert(t); if (k->weights[f] > 0) tf[t] += k->weights[f]; }
      }
      k->stat.tf.push_back(tf);
      for (auto &t : in) k->stat.df[t]++;
    }
    k->stat.items = k->docs.size();
    k->stat.avgl = (fval)flen / k->stat.items;
    if (flen == 0) throw vp::Discard();
  } else { // foraged
    static const std::vector<std::string> tags = {"", "t", "my tag"};
    k->recipe = s.pick(tags);
    k->kind = "tf-idf";
    std::map<std::string, std::string> ps;
    if (k->stemmer.empty()) ps["stemmer"] = "";
    else if (s.coin()) ps["stemmer"] = "porter";
    if (s.coin()) ps["tokenizer"] = s.coin() ? "utf8" : "ascii";
    bool utf8 = ps["tokenizer"] == "utf8";
    if (ps["tokenizer"].empty()) ps.erase("tokenizer");
    ps["container"] = "doc:";
    ps["id"] = "id:";
    k->w->end();
    if (s.chance(1, 2)) {
      c.note("forage everything as " + vp::show(k->recipe));
      c.check(meadowlark::forage(k->w, "doc:", "tf-idf", k->recipe, ps, &err, s.below(3)), "forage: " + err);
    } else
      for (size_t i = 0; i < k->docs.size();) {
        size_t j = i + s.below(k->docs.size() - i);
        addr start = i == 0 && s.coin() ? minfinity : k->docs[i].p, end = j + 1 == k->docs.size() && s.coin() ? maxfinity : j + 1 < k->docs.size() && s.coin() ? k->docs[j + 1].q - 1 : k->docs[j].q;
        c.note(vp::cat("forage ", start, " to ", end, " as ", vp::show(k->recipe)));
        c.check(meadowlark::forage(k->w, "doc:", start, end, "tf-idf", k->recipe, ps, &err), "forage: " + err);
        i = j + 1;
      }
    k->w->start();
    for (auto &d : k->docs) {
      std::map<std::string, fval> tf;
      for (auto &w : utf8 ? d.words : d.shown) tf[k->stem->stem(w)]++;
      k->stat.tf.push_back(tf);
    }
    total(k);
    k->stat.avgl = (fval)length / k->stat.items;
    k->content = true;
  }
  k->refresh(c);
}
inline fval idf(const Coll &k, const std::string &t) {
  auto it = k.stat.df.find(t);
  if (it == k.stat.df.end() || !k.stat.idf) return 0;
  return std::max(0.0, std::log(k.stat.items / it->second));
}
inline fval rsj(const Coll &k, const std::string &t) {
  auto it = k.stat.df.find(t);
  if (it == k.stat.df.end() || !k.stat.rsj) return 0;
  return std::max(0.0, std::log((k.stat.items - it->second + 0.5) / (it->second + 0.5)));
}
inline bool close(fval a, fval b) { return std::isfinite(a) && std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
// Words, stems, and words that are nowhere.
inline std::string term(vp::Src &s, const Coll &k) {
  if (s.chance(1, 10)) return "nowhere";
  std::string w = s.chance(1, 8) ? s.pick(k.docs).id : word(s, k.vocab);
  return s.coin() ? k.stem->stem(w) : w;
}
// The same, without stems, which are not written in text.
inline std::string written(vp::Src &s, const Coll &k) { return s.chance(1, 10) ? "nowhere" : s.chance(1, 8) ? s.pick(k.docs).id : word(s, k.vocab); }
} // namespace coll
#endif
