// C23: effectiveness measures against their definitions.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>
#include "src/eval.h"
#include "world.h"
using namespace cottontail;
namespace {
using Qrels = std::map<addr, fval>;
using Metrics = std::map<std::string, fval>;
using Ld = long double;
bool close(fval a, Ld b) {
  if (!std::isfinite(a)) return false;
  Ld d = fabsl((Ld)a - b);
  return d <= 1e-10L * std::max<Ld>(1.0L, fabsl(b));
}
void need(vp::Ctx &c, const Metrics &m, const std::string &key, Ld want) {
  auto it = m.find(key);
  c.check_f(it != m.end(), [&] { return "no measure " + key; });
  c.check_f(close(it->second, want), [&] { return vp::cat(key, " is ", it->second, ", by definition ", (double)want); });
}
Ld grade(const Qrels &q, const RankingResult &r) { auto it = q.find(r.p()); return it == q.end() ? 0.0L : (Ld)it->second; }
// Definitions, each stated by itself.
Ld relevant_in(const Qrels &q, const std::vector<RankingResult> &r, size_t k) { size_t n = 0; for (size_t i = 0; i < r.size() && i < k; i++) n += grade(q, r[i]) > 0; return n; }
Ld dcg(const std::vector<Ld> &g, size_t k) { Ld s = 0; for (size_t i = 0; i < g.size() && i < k; i++) s += g[i] / log2l((Ld)i + 2); return s; }
Ld rbp(const std::vector<Ld> &g, Ld p) { Ld s = 0; for (size_t i = 0; i < g.size(); i++) s += g[i] * powl(p, (Ld)i); return (1 - p) * s; }
const size_t ALL = (size_t)-1;
void judge(vp::Ctx &c, const Qrels &q, const std::vector<RankingResult> &r, const Metrics &m) {
  Ld rel = 0;
  std::vector<Ld> ideal, gains;
  for (auto &x : q) { rel += x.second > 0; ideal.push_back(x.second); }
  std::sort(ideal.rbegin(), ideal.rend());
  for (auto &x : r) gains.push_back(grade(q, x));
  Ld ap = 0, rr = 0;
  for (size_t i = 0; i < r.size(); i++) if (gains[i] > 0) { ap += relevant_in(q, r, i + 1) / (Ld)(i + 1); if (rr == 0) rr = 1.0L / (Ld)(i + 1); }
  need(c, m, "ap", rel > 0 ? ap / rel : 0);
  need(c, m, "rr", rr);
  need(c, m, "p05", relevant_in(q, r, 5) / 5);
  need(c, m, "p10", relevant_in(q, r, 10) / 10);
  need(c, m, "p20", relevant_in(q, r, 20) / 20);
  Ld got = relevant_in(q, r, ALL);
  need(c, m, "ret", r.size());
  need(c, m, "rel", rel);
  need(c, m, "rel-ret", got);
  need(c, m, "precision", r.empty() ? 0 : got / (Ld)r.size());
  need(c, m, "recall", rel > 0 ? got / rel : 0);
  for (auto &k : std::vector<std::pair<std::string, size_t>>{{"", ALL}, {"05", 5}, {"10", 10}, {"20", 20}}) {
    need(c, m, "dcg" + k.first, dcg(gains, k.second));
    need(c, m, "ndcg" + k.first, rel > 0 ? dcg(gains, k.second) / dcg(ideal, k.second) : 0);
  }
  need(c, m, "rbp50", rbp(gains, 0.5L));
  need(c, m, "rbp95", rbp(gains, 0.95L));
  Ld tbg = 0;
  for (size_t k = 0; k < r.size(); k++) {
    if (gains[k] <= 0) continue;
    Ld t = 0; // the time at which the user reaches rank k
    for (size_t j = 0; j < k; j++) t += 4.4L + (0.018L * (Ld)(r[j].q() - r[j].p() + 1) + 7.8L) * (gains[j] > 0 ? 0.64L : 0.39L);
    tbg += 0.64L * 0.77L * expl(-t * logl(2.0L) / 224.0L);
  }
  need(c, m, "tbg", tbg);
}
std::vector<RankingResult> ranking(vp::Src &s, const std::vector<RankingResult> &docs, size_t n) {
  std::vector<RankingResult> d = docs;
  for (size_t i = 0; i < n && i < d.size(); i++) std::swap(d[i], d[i + s.below(d.size() - i)]);
  d.resize(std::min(n, d.size()));
  return d;
}
std::vector<RankingResult> documents(vp::Src &s, size_t n) {
  std::vector<RankingResult> d;
  addr at = s.chance(1, 8) ? -(addr)s.below(5000) : (addr)s.below(10);
  for (size_t i = 0; i < n; i++) { addr l = 1 + (addr)s.mag(20000); d.emplace_back(at, at + l - 1, 1.0 / (1.0 + i)); at += l + s.below(3); }
  return d;
}
std::string show(const Qrels &q, const std::vector<RankingResult> &r) {
  std::string o = "qrels";
  for (auto &x : q) o += vp::cat(" ", x.first, ":", x.second);
  o += "; ranking";
  for (auto &x : r) o += vp::cat(" (", x.p(), ",", x.q(), ")");
  return o;
}
void evaluate(vp::Src &s, vp::Ctx &c) {
  auto docs = documents(s, 1 + s.len(60));
  Metrics m; // used again for each topic
  size_t topics = 1 + s.below(3);
  bool some = false;
  for (size_t t = 0; t < topics; t++) {
    Qrels q;
    size_t kind = s.below(4);
    for (auto &d : docs) {
      if (s.below(3) == 0) continue;
      fval g = kind == 0 ? (fval)s.below(2) : kind == 1 ? (fval)s.below(4) / 4.0 : kind == 2 ? (s.coin() ? 0.0 : 1.0 / (1 + s.below(1000))) : (std::pow(2.0, (fval)s.below(5)) - 1) / 16.0;
      if (s.chance(1, 3)) g = 0.0;
      q[d.p()] = g;
    }
    if (s.chance(1, 12)) q.clear();
    if (s.chance(1, 12)) for (auto &x : q) x.second = 0.0;
    static const std::vector<size_t> sizes = {0, 1, 4, 5, 6, 9, 10, 11, 19, 20, 21};
    size_t n = s.coin() ? s.pick(sizes) : s.below(docs.size() + 1);
    auto r = ranking(s, docs, n);
    c.note_f([&] { return show(q, r); });
    eval(q, r, &m);
    judge(c, q, r, m);
    Ld hit = relevant_in(q, r, ALL);
    if (hit > 1 && hit < r.size()) some = true;
    // Judging an unjudged document not relevant changes nothing.
    Qrels q0 = q;
    for (auto &d : docs) if (s.coin()) q0.insert({d.p(), 0.0});
    Metrics m0;
    eval(q0, r, &m0);
    c.check(m0 == m, "an unjudged document counts otherwise than one judged not relevant");
    // Scores and containers are not evaluated, only ranks.
    std::vector<RankingResult> r1;
    for (auto &x : r) r1.emplace_back(x.p(), x.q(), x.p() - 3, x.q() + 4, -(fval)s.below(9));
    Metrics m1;
    eval(q, r1, &m1);
    c.check(m1 == m, "measures depend on scores");
  }
  if (some) c.nontrivial();
}
void difference(vp::Src &s, vp::Ctx &c) {
  auto docs = documents(s, 1 + s.below(s.chance(1, 6) ? 10 : 8));
  auto one = ranking(s, docs, s.below(docs.size() + 1)), two = ranking(s, docs, s.below(docs.size() + 1));
  if (s.chance(1, 6)) { two = one; if (two.size() > 1 && s.coin()) std::swap(two[0], two[two.size() - 1]); }
  c.note_f([&] { return "one: " + show({}, one) + "\ntwo: " + show({}, two); });
  Metrics m;
  if (s.coin()) med(docs, {}, &m);
  med(one, two, &m);
  Ld best_dcg = 0, best50 = 0, best95 = 0;
  for (uint64_t set = 0; set < (1ull << docs.size()); set++) {
    std::vector<Ld> a, b;
    auto gain = [&](const RankingResult &r) -> Ld { for (size_t i = 0; i < docs.size(); i++) if (docs[i].p() == r.p()) return (set >> i) & 1; return 0; };
    for (auto &x : one) a.push_back(gain(x));
    for (auto &x : two) b.push_back(gain(x));
    best_dcg = std::max(best_dcg, fabsl(dcg(a, ALL) - dcg(b, ALL)));
    best50 = std::max(best50, fabsl(rbp(a, 0.5L) - rbp(b, 0.5L)));
    best95 = std::max(best95, fabsl(rbp(a, 0.95L) - rbp(b, 0.95L)));
  }
  need(c, m, "med-dcg", best_dcg);
  need(c, m, "med-rbp50", best50);
  need(c, m, "med-rbp95", best95);
  std::vector<Ld> ones(std::max(one.size(), two.size()), 1.0L);
  need(c, m, "med-ndcg", ones.empty() ? 0 : best_dcg / dcg(ones, ALL));
  Metrics back;
  med(two, one, &back);
  for (auto &k : {"med-dcg", "med-ndcg", "med-rbp50", "med-rbp95"}) c.check_f(close(back[k], m[k]), [&] { return vp::cat(k, " depends on which ranking comes first"); });
  if (best_dcg > 0 && one.size() && two.size()) c.nontrivial();
}
void average(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> keys = {"ap", "rr", "p05", "ndcg", "recall", "m", "o", "zz", "a"};
  std::vector<Metrics> all;
  size_t n = 1 + s.len(12);
  for (size_t i = 0; i < n; i++) {
    Metrics m;
    for (auto &k : keys) if (s.below(12)) m[k] = (fval)s.range(-1000, 1000) / (1 + s.below(7));
    all.push_back(m);
  }
  bool given = s.coin() && !all[0].empty(); // the first topic's measures used as the mean so far
  Metrics sofar;
  if (given) sofar = all[0];
  size_t first = given ? 1 : 0, dropped = 0;
  for (size_t i = first; i < n; i++) {
    mean(all[i], &sofar);
    std::map<std::string, Ld> want;
    for (auto &x : all[0]) {
      Ld sum = 0;
      bool in = true;
      for (size_t j = 0; j <= i; j++) { auto it = all[j].find(x.first); if (it == all[j].end()) in = false; else sum += it->second; }
      if (in) want[x.first] = sum / (Ld)(i + 1); else dropped++;
    }
    c.note_f([&] { return vp::cat("after ", i + 1, " topics: ", sofar.size(), " entries"); });
    need(c, sofar, "n", (Ld)(i + 1));
    c.check_f(sofar.size() == want.size() + 1, [&] { return vp::cat("the mean of ", i + 1, " topics has ", sofar.size() - 1, " measures, not ", want.size()); });
    for (auto &x : want) need(c, sofar, x.first, x.second);
  }
  if (n > 3 && dropped) c.nontrivial();
}
void judgements(vp::Src &s, vp::Ctx &c) {
  std::string err;
  std::shared_ptr<Warren> w;
  size_t n = 1 + s.len(20);
  struct Doc { std::string id; addr p, q; };
  std::vector<Doc> docs;
  auto body = [&] { std::string t; size_t k = s.below(12); for (size_t i = 0; i < k; i++) t += vp::cat("w", s.below(5), " "); return t; };
  static const std::vector<std::string> forms = {"d#", "FT#", "WSJ#x", "clueweb#", "Q#"};
  bool stat = s.coin();
  std::shared_ptr<SimpleBuilder> b;
  if (stat) {
    auto working = Working::mkdir(c.dir() + "/q", &err);
    c.check(working != nullptr, "working " + err);
    b = SimpleBuilder::make(working, "tokenizer:noxml", &err);
    c.check(b != nullptr, "builder " + err);
  } else {
    w = wd::memory(c);
    w->start();
    c.check(w->transaction(&err), "transaction " + err);
  }
  for (size_t i = 0; i < n; i++) {
    std::string id = s.pick(forms);
    id.replace(id.find('#'), 1, std::to_string(100 + i));
    if (s.chance(1, 3)) id += vp::cat("-", 500 + s.below(3));
    std::string pre = s.chance(1, 4) ? "between " : "", rest = body();
    addr p, q, p0, ip, iq, e;
    auto add = [&](const std::string &t, addr *p, addr *q) { c.check(stat ? b->add_text(t, p, q, &err) : w->appender()->append(t, p, q, &err), "text " + err); };
    auto mark = [&](const std::string &f, addr p, addr q) { c.check(stat ? b->add_annotation(f, p, q, 0.0, &err) : w->annotator()->annotate(w->featurizer()->featurize(f), p, q, &err), "annotate " + err); };
    if (!pre.empty()) add(pre, &p, &q);
    // a mention of another document's id outside its id field is no id
    add(id + " ", &ip, &iq);
    p0 = ip; e = iq;
    if (!rest.empty()) { add(rest, &p, &q); e = q; }
    if (docs.size() && s.chance(1, 3)) { add(docs[s.below(docs.size())].id + " ", &p, &q); e = q; }
    mark("id:", ip, iq);
    mark("doc:", p0, e);
    docs.push_back({id, p0, e});
  }
  if (stat) {
    c.check(b->finalize(&err), "finalize " + err);
    w = Warren::make(c.dir() + "/q", &err);
    c.check(w != nullptr, "open " + err);
    w->start();
  } else {
    c.check(w->ready(), "ready");
    w->commit();
    w->end();
    w->start();
  }
  { // where the documents ended up
    auto l = wd::annotations(w, "doc:");
    c.check(l.size() == docs.size(), "documents");
    for (size_t i = 0; i < l.size(); i++) {
      c.check(l[i].q - l[i].p == docs[i].q - docs[i].p, "extent of a document");
      docs[i].p = l[i].p;
      docs[i].q = l[i].q;
    }
  }
  c.check(w->set_default_container("doc:", &err), "container " + err);
  c.check(w->set_parameter("id", "id:", &err), "id " + err);
  // Judgement lines.
  struct Line { std::string topic; size_t doc; int g; };
  std::vector<Line> lines;
  std::vector<std::string> topics = {"1", "401", "t-x"};
  int top = s.chance(1, 10) ? 0 : 1 + s.below(4);
  for (auto &t : topics) for (size_t i = 0; i < n; i++) if (s.coin()) lines.push_back({t, i, (int)s.range(-1, top)});
  auto shuffle = [&] { for (size_t i = 1; i < lines.size(); i++) std::swap(lines[i], lines[s.below(i + 1)]); };
  int most = 0;
  for (auto &l : lines) most = std::max(most, l.g);
  static const std::vector<std::string> gaps = {" ", "\t", "  ", " \t "};
  auto write = [&](bool damage, const std::string &bad, size_t where) {
    std::ofstream f(c.dir() + "/qrels");
    std::string all;
    for (size_t i = 0; i < lines.size(); i++) {
      if (damage && i == where) all += bad + "\n";
      all += lines[i].topic + s.pick(gaps) + (s.coin() ? "0" : "Q0") + s.pick(gaps) + docs[lines[i].doc].id + s.pick(gaps) + std::to_string(lines[i].g) + (s.chance(1, 9) ? " " : "") + (i + 1 == lines.size() && s.coin() ? "" : "\n");
    }
    if (damage && where >= lines.size()) all = bad + "\n" + all;
    f << all;
    c.note_f([&] { return all; });
  };
  using Grades = std::map<std::string, std::map<addr, fval>>;
  for (int round = 0; round < 2; round++) {
    shuffle();
    write(false, "", 0);
    bool ms = s.coin();
    Grades qrels;
    std::map<std::string, std::map<addr, addr>> lengths;
    std::map<std::string, std::map<addr, std::string>> docnos;
    bool full = s.coin();
    c.check_f(full ? load_trec_qrels(w, c.dir() + "/qrels", &qrels, &lengths, &docnos, &err, ms) : load_trec_qrels(w, c.dir() + "/qrels", &qrels, &err, ms), [&] { return "judgements refused: " + err; });
    size_t count = 0;
    for (auto &t : qrels) count += t.second.size();
    c.check_f(count == lines.size(), [&] { return vp::cat(lines.size(), " judgements, ", count, " loaded"); });
    for (auto &l : lines) {
      addr p = docs[l.doc].p;
      c.check_f(qrels.count(l.topic) && qrels[l.topic].count(p), [&] { return "no judgement of " + docs[l.doc].id + " for " + l.topic; });
      Ld g = std::max(l.g, 0), want = ms ? (powl(2, g) - 1) / powl(2, most) : most ? g / most : 0;
      c.check_f(close(qrels[l.topic][p], want), [&] { return vp::cat("grade ", l.g, " of ", docs[l.doc].id, " became ", qrels[l.topic][p], ", not ", (double)want); });
      if (full) {
        c.check_f(lengths[l.topic].count(p) && lengths[l.topic][p] == docs[l.doc].q - p + 1, [&] { return "length of " + docs[l.doc].id; });
        c.check_f(docnos[l.topic].count(p) && docnos[l.topic][p] == docs[l.doc].id, [&] { return "name of " + docs[l.doc].id; });
      }
    }
    if (lines.empty()) continue;
    // from judgements to measures
    const std::string &t = lines[0].topic;
    std::vector<RankingResult> r;
    for (auto &d : docs) if (s.coin()) r.emplace_back(d.p, d.q, 1.0);
    Metrics m;
    eval(qrels[t], r, &m);
    judge(c, qrels[t], r, m);
  }
  // Lines that are not judgements are refused.
  static const std::vector<std::string> bad = {"1 0 3", "", "1 0 d100 1 extra", "1", "1 0 nosuchdocument77 1"};
  write(true, s.pick(bad), s.below(lines.size() + 1));
  Grades q;
  err = "";
  c.check(!load_trec_qrels(w, c.dir() + "/qrels", &q, &err) && err.size(), "a damaged judgement line was accepted");
  err = "";
  c.check(!load_trec_qrels(w, c.dir() + "/nosuchfile", &q, &err) && err.size(), "a missing judgement file was accepted");
  if (lines.size() > 3 && most > 0) c.nontrivial();
}
void docno(vp::Src &s, vp::Ctx &c) {
  static const std::string letters = "AFTWSJ019-_.xz<>/&";
  std::string id;
  size_t n = 1 + s.below(14);
  for (size_t i = 0; i < n; i++) id += letters[s.below(letters.size())];
  if (id.find("<DOCNO>") != std::string::npos) throw vp::Discard();
  auto ws = [&] { static const std::string w = " \t\n\r"; std::string o; while (s.below(3) == 2) o += w[s.below(4)]; return o; };
  static const std::vector<std::string> form = {"tagged", "plain", "quoted", "json"};
  std::string f = s.pick(form), t;
  if (f == "tagged") t = ws() + "<DOCNO>" + ws() + id + ws() + "</DOCNO>" + ws();
  else if (f == "plain") t = ws() + id + ws();
  else if (f == "quoted") t = ws() + "\"" + id + "\"" + ws();
  else t = "\"" + id + "\"";
  c.note(vp::show(t) + " is " + vp::show(id));
  c.check_f(trec_docno(t) == id, [&] { return vp::show(t) + " gave " + vp::show(trec_docno(t)) + ", not " + vp::show(id); });
  if (n > 3 && f != "plain") c.nontrivial();
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C23";
  sp.rule = "Random rankings without duplicates of up to 60 documents of random lengths, and random judgements (binary, graded, tiny, tied, none, all zero), against each measure's definition in extended precision; effectiveness difference against all 2^n judgements of up to 10 documents; means against the plain average of the measures all topics have; judgement files in random order and layout over static and dynamic indexes; document names. Non-trivial: a ranking with some but not all documents relevant; two different non-empty rankings; more than 3 topics with a measure missing from one; more than 3 judgement lines with a positive grade; a tagged or quoted name of more than 3 letters.";
  sp.assumptions = {"rankings have no duplicates", "grades given to eval are not negative", "document ids are distinct, and none is a phrase inside another", "a document is judged once for a topic"};
  sp.subs = {{"eval", 40000, 900000, evaluate}, {"med", 12000, 250000, difference}, {"mean", 20000, 400000, average}, {"qrels", 1500, 30000, judgements, 60, false, true}, {"docno", 20000, 300000, docno}};
  return vp::run(argc, argv, sp);
}
