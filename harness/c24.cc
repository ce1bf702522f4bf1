// C24: ranking functions against their formulas, evaluated over every document.
#include <algorithm>
#include <string>
#include <vector>
#include "coll.h"
#include "src/ranker.h"
#include "src/tagging_featurizer.h"
using namespace cottontail;
namespace {
typedef std::vector<RankingResult> Ranking;
typedef std::map<std::string, fval> Weights;
bool near(fval a, fval b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
struct Item { addr p, q, cp, cq; fval score; };
std::string str(const Ranking &r) {
  std::string s;
  for (auto &x : r) s += vp::cat(" (", x.p(), ",", x.q(), " in ", x.container_p(), ",", x.container_q(), ")=", x.score());
  return s;
}
std::string str(const std::vector<Item> &r) {
  std::string s;
  for (auto &x : r) s += vp::cat(" (", x.p, ",", x.q, " in ", x.cp, ",", x.cq, ")=", x.score);
  return s;
}
std::string str(const Weights &w) {
  std::string s;
  for (auto &x : w) s += " " + x.first + vp::cat("=", x.second);
  return s;
}
// want: every item with its score. Items of equal score may come in any order, and either side of the cut.
void compare(vp::Ctx &c, const Ranking &got, std::vector<Item> want, size_t depth, const std::string &what) {
  auto say = [&](const std::string &m) { return what + ": " + m + "; got" + str(got) + "; formula gives" + str(want); };
  std::stable_sort(want.begin(), want.end(), [](const Item &a, const Item &b) { return a.score > b.score; });
  std::map<addr, const Item *> by;
  for (auto &w : want) by[w.cp] = &w;
  c.check_f(got.size() == std::min(depth, want.size()), [&] { return say(vp::cat(got.size(), " results of ", want.size(), " at depth ", depth)); });
  std::set<addr> seen;
  for (size_t i = 0; i < got.size(); i++) {
    auto it = by.find(got[i].container_p());
    c.check_f(it != by.end(), [&] { return say("an item that does not match"); });
    const Item &w = *it->second;
    c.check_f(got[i].p() == w.p && got[i].q() == w.q && got[i].container_q() == w.cq, [&] { return say("an item with the wrong extent"); });
    c.check_f(near(got[i].score(), w.score), [&] { return say("an item with the wrong score"); });
    c.check_f(near(got[i].score(), want[i].score), [&] { return say("the wrong items, or order"); });
    c.check_f(i == 0 || got[i - 1].score() >= got[i].score(), [&] { return say("scores increase"); });
    c.check_f(seen.insert(w.cp).second, [&] { return say("an item twice"); });
  }
}
void same(vp::Ctx &c, const Ranking &a, const Ranking &b, const std::string &what) {
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < a.size(); i++) ok = a[i].p() == b[i].p() && a[i].q() == b[i].q() && a[i].container_p() == b[i].container_p() && a[i].container_q() == b[i].container_q() && near(a[i].score(), b[i].score());
  c.check_f(ok, [&] { return what + ": " + str(a) + " and " + str(b); });
}
size_t depth_of(vp::Src &s) { return s.chance(1, 3) ? 1000 : s.chance(1, 30) ? 0 : 1 + s.below(8); }
fval K_of(vp::Src &s, Weights *params) {
  fval K = 42;
  if (s.coin()) { K = s.pick(std::vector<fval>{1, 16, 500, 0.5}); (*params)[s.coin() ? "K" : "ssr:K"] = K; }
  return K;
}
// Shortest-substring ranking, over all passages and containers.
std::vector<Item> ssr(const ref::List &passages, const ref::List &containers, fval K) {
  std::vector<Item> r;
  for (auto &x : containers) {
    Item it = {0, 0, x.p, x.q, 0};
    for (auto &y : passages)
      if (y.p >= x.p && y.q <= x.q) {
        if (it.score == 0 || y.q - y.p < it.q - it.p) { it.p = y.p; it.q = y.q; }
        it.score += 1.0 / (K + (fval)(y.q - y.p));
      }
    if (it.score > 0) r.push_back(it);
  }
  return r;
}
ref::List query(std::shared_ptr<Warren> w, const std::string &gcl, vp::Ctx &c) {
  std::string err;
  auto h = w->hopper_from_gcl(gcl, &err);
  c.check_f(h != nullptr, [&] { return gcl + ": " + err; });
  return ref::enumerate(h.get());
}
std::string gcl_of(vp::Src &s, const std::vector<std::string> &vocab, int depth = 2) {
  auto t = [&] { return coll::word(s, vocab); };
  switch (depth ? s.below(5) : 0) {
  case 1: { std::string r = s.coin() ? "(^" : "(+"; size_t n = 2 + s.below(2); for (size_t i = 0; i < n; i++) r += " " + gcl_of(s, vocab, depth - 1); return r + ")"; }
  case 2: return "(... " + gcl_of(s, vocab, depth - 1) + " " + gcl_of(s, vocab, depth - 1) + ")";
  case 3: return "(<< " + gcl_of(s, vocab, depth - 1) + " title:)";
  case 4: return "(>> title: " + gcl_of(s, vocab, depth - 1) + ")";
  default: return t();
  }
}
coll::Coll collection(vp::Src &s, vp::Ctx &c) {
  coll::Rules r;
  auto k = coll::make(s, c, r);
  coll::configure(s, c, &k);
  k.refresh(c);
  return k;
}
// Containers far apart, and terms among them, in an index without text.
struct Sparse { std::shared_ptr<Warren> w; std::vector<std::string> vocab = {"the", "cat", "w1", "w2"}; ref::List docs; };
Sparse sparse(vp::Src &s, vp::Ctx &c) {
  Sparse z;
  std::string err;
  bool mem = s.coin();
  if (mem) z.w = wd::memory(c);
  else { auto b = wd::quiet(c, c.dir() + "/sparse", "tokenizer:name:utf8"); b->merge(false); z.w = b; }
  size_t n = 2 + s.len(60), txns = 1 + s.below(3);
  addr at = s.below(2) ? 0 : s.range(0, 3000000), step = s.pick(std::vector<addr>{20, 100000, 500000});
  for (size_t t = 0; t < txns; t++) {
    c.check(z.w->transaction(&err), "transaction " + err);
    auto mark = [&](const std::string &f, addr p, addr q) { c.check(z.w->annotator()->annotate(z.w->featurizer()->featurize(f), p, q, &err), "annotate " + err); };
    for (size_t i = 0; i < n; i++) {
      addr len = 1 + s.below(s.chance(1, 10) ? step : 12), p = at + (s.chance(1, 4) ? 0 : s.below(step));
      z.docs.push_back({p, p + len - 1, 0});
      mark("doc:", p, p + len - 1);
      size_t m = 1 + s.below(8);
      std::set<addr> used;
      for (size_t j = 0; j < m; j++) {
        addr x = p + s.below(std::min<addr>(len, 12) + 2);
        if (used.insert(x).second && x < at + 2 * step) mark(coll::word(s, z.vocab), x, x);
      }
      at = std::max(p + len, used.empty() ? 0 : *used.rbegin() + 1);
    }
    c.check(z.w->ready(&err), "ready " + err);
    z.w->commit();
  }
  z.w->start();
  c.note(vp::cat(mem ? "memory " : "disk ", z.docs.size(), " containers to address ", at));
  return z;
}
void ssr_sub(vp::Src &s, vp::Ctx &c) {
  std::shared_ptr<Warren> w;
  std::vector<std::string> vocab;
  bool far = s.chance(1, 3);
  if (far) { auto z = sparse(s, c); w = z.w; vocab = z.vocab; }
  else { auto k = collection(s, c); w = k.w; vocab = k.vocab; }
  bool hit = false;
  for (int i = 0; i < 8; i++) {
    std::string g = gcl_of(s, vocab), box = far ? "doc:" : s.pick(std::vector<std::string>{"doc:", "doc:", "title:", "body:", "(<< body: (>> doc: the))"});
    size_t depth = depth_of(s);
    Weights params;
    fval K = K_of(s, &params);
    c.note(vp::cat("ssr ", g, " in ", box, " depth ", depth, " K ", K));
    auto passages = query(w, g, c), boxes = query(w, box, c);
    auto want = ssr(passages, boxes, K);
    hit = hit || want.size() > 2;
    compare(c, ssr_ranking(w, g, box, params, depth), want, depth, g);
    if (s.coin() && boxes.size()) { // from start up to end
      addr a = boxes[s.below(boxes.size())].p + s.range(-1, 1), b = boxes[s.below(boxes.size())].p + s.range(-1, 1);
      if (s.chance(1, 4)) a = minfinity;
      if (s.chance(1, 4)) b = maxfinity;
      std::vector<Item> part;
      for (auto &x : want) if (x.cp >= a && x.cp < b) part.push_back(x);
      compare(c, ssr_ranking(w, g, box, params, depth, a, b), part, depth, vp::cat(g, " from ", a, " to ", b));
    }
    size_t threads = s.below(10);
    compare(c, parallel_ssr(w, g, box, params, depth, threads), want, depth, vp::cat(g, " with ", threads, " threads"));
  }
  w->end();
  if (hit) c.nontrivial();
}
void parallel(vp::Src &s, vp::Ctx &c) {
  auto z = sparse(s, c);
  addr span = z.docs.back().q - z.docs.front().p;
  for (int i = 0; i < 6; i++) {
    std::string g = gcl_of(s, z.vocab, 1);
    size_t depth = depth_of(s), threads = s.below(12);
    Weights params;
    fval K = K_of(s, &params);
    c.note(vp::cat("ssr ", g, " depth ", depth, " K ", K, " threads ", threads));
    auto want = ssr(query(z.w, g, c), query(z.w, "doc:", c), K);
    compare(c, parallel_ssr(z.w, g, "doc:", params, depth, threads), want, depth, g);
  }
  z.w->end();
  if (span > 2000000) c.nontrivial();
}
void tiers(vp::Src &s, vp::Ctx &c) {
  auto k = collection(s, c);
  bool hit = false;
  for (int i = 0; i < 6; i++) {
    size_t depth = depth_of(s);
    Weights params;
    fval K = K_of(s, &params), delta = 1.0;
    if (s.coin()) { delta = s.pick(std::vector<fval>{0, 0.1, 3, 10}); params[s.coin() ? "delta" : "tiered:delta"] = delta; }
    std::string box = s.chance(1, 4) ? "body:" : "doc:";
    std::vector<std::string> ts;
    Ranking got;
    if (s.coin()) {
      size_t n = s.below(5);
      for (size_t j = 0; j < n; j++) ts.push_back(gcl_of(s, k.vocab));
      got = tiered_ranking(k.w, ts, box, params, depth);
    } else {
      std::vector<std::string> terms;
      std::string q;
      size_t n = s.chance(1, 1500) ? 18 : s.below(6);
      std::set<std::string> distinct;
      for (size_t j = 0; j < n; j++) {
        std::string t = n == 18 ? vp::cat("t", j) : coll::written(s, k);
        distinct.insert(t);
        q += t + s.pick(std::vector<std::string>{" ", ", ", " - "});
      }
      ts = build_tiers(k.w, q, params);
      c.note("tiers of " + q);
      // Every set of terms in one tier, heavier sets before lighter ones.
      fval N = (fval)k.w->txt()->tokens() + (fval)k.w->idx()->vocab();
      std::map<std::string, fval> weight;
      for (auto &t : distinct) weight[t] = std::log(N / ((fval)k.w->idx()->count(k.w->featurizer()->featurize(t)) + 1.0));
      std::set<std::set<std::string>> all;
      fval last = INFINITY, top = INFINITY;
      bool first = true;
      for (auto &t : ts) {
        // The subqueries of the tier: (^ a b ) or (... a a), in (+ ...) when several.
        std::vector<std::set<std::string>> sets;
        std::string body = t;
        if (body.substr(0, 2) == "(+") body = body.substr(2, body.size() - 3);
        fval lo = INFINITY, hi = -INFINITY;
        for (size_t a = body.find('('); a != std::string::npos; a = body.find('(', a + 1)) {
          std::string in = body.substr(a + 1, body.find(')', a) - a - 1);
          std::set<std::string> st;
          std::string w;
          std::stringstream ss(in);
          ss >> w;
          c.check(w == "^" || w == "...", "tier " + t);
          while (ss >> w) { c.check_f(distinct.count(w), [&] { return "a term that was not asked for, in tier " + t; }); st.insert(w); }
          c.check_f(all.insert(st).second, [&] { return "terms twice: " + in; });
          fval x = 0;
          for (auto &y : st) x += weight[y];
          lo = std::min(lo, x);
          hi = std::max(hi, x);
        }
        c.check_f(hi <= last + 1e-9, [&] { return "tier " + t + " outweighs the one before it"; });
        c.check_f(hi - lo < delta + 1e-9 || (lo == hi), [&] { return "tier " + t + " spans too much"; });
        c.check_f(first || top - hi >= delta - 1e-9, [&] { return "tier " + t + " belongs to the one before it"; });
        last = lo;
        top = hi;
        first = false;
      }
      size_t m = std::min<size_t>(distinct.size(), 16);
      c.check_f(all.size() == (size_t(1) << m) - 1, [&] { return vp::cat(all.size(), " sets of ", m, " terms"); });
      if (m > 8) continue;
      got = tiered_ranking(k.w, q, box, params, depth);
      same(c, got, tiered_ranking(k.w, ts, box, params, depth), "ranking of the query, and with its tiers");
    }
    auto boxes = query(k.w, box, c);
    std::map<addr, std::pair<size_t, Item>> best; // container to first tier that matches it
    for (size_t t = 0; t < ts.size(); t++)
      for (auto &x : ssr(query(k.w, ts[t], c), boxes, K)) best.insert({x.cp, {t, x}});
    auto say = [&](const std::string &m) {
      std::string r = m + vp::cat("; depth ", depth, " K ", K, " tiers");
      for (auto &t : ts) r += " " + t;
      return r + "; got" + str(got);
    };
    c.check_f(got.size() == std::min(depth, best.size()), [&] { return say(vp::cat(got.size(), " results of ", best.size())); });
    std::vector<std::pair<size_t, fval>> order;
    for (auto &b : best) order.push_back({b.second.first, -b.second.second.score});
    std::sort(order.begin(), order.end());
    std::set<addr> seen;
    for (size_t j = 0; j < got.size(); j++) {
      auto it = best.find(got[j].container_p());
      c.check_f(it != best.end() && seen.insert(got[j].container_p()).second, [&] { return say("an item that does not match, or twice"); });
      auto &b = it->second;
      c.check_f(b.second.cq == got[j].container_q() && b.second.p == got[j].p() && b.second.q == got[j].q(), [&] { return say(vp::cat("result ", j, " has the wrong extent")); });
      c.check_f(b.first == order[j].first && near(-b.second.score, order[j].second), [&] { return say(vp::cat("result ", j, " is out of order")); });
      c.check_f(got[j].score() == (fval)(depth - j), [&] { return say("scores"); });
    }
    hit = hit || (best.size() > 2 && ts.size() > 1);
  }
  k.w->end();
  if (hit) c.nontrivial();
}
void fusion(vp::Src &s, vp::Ctx &c) {
  std::vector<Ranking> rs(s.below(6));
  std::map<addr, Item> want;
  size_t universe = 1 + s.below(40);
  for (auto &r : rs) {
    std::set<addr> in;
    size_t n = s.below(30);
    for (size_t i = 0; i < n; i++) {
      addr p = 10 * s.below(universe), q = p + s.below(3);
      if (!in.insert(p).second) continue;
      r.emplace_back(p, q, p - 1, q + 1, 100.0 - i);
      auto it = want.find(p);
      fval x = 1.0 / (60.0 + r.size());
      if (it == want.end()) want[p] = {p, q, p - 1, q + 1, x};
      else it->second.score += x;
    }
    c.note("ranking" + str(r));
  }
  std::vector<Item> w;
  for (auto &x : want) w.push_back(x.second);
  compare(c, rrf_fusion(rs), w, 1000000, "fusion");
  if (rs.size() > 1 && w.size() > 3) c.nontrivial();
}
// Minimal intervals holding n of the terms, in documents.
void icover(vp::Src &s, vp::Ctx &c) {
  auto k = collection(s, c);
  fval N = (fval)k.w->txt()->tokens() + (fval)k.w->idx()->vocab();
  bool hit = false;
  for (int i = 0; i < 6; i++) {
    std::set<std::string> ts;
    size_t n = s.below(6);
    for (size_t j = 0; j < n; j++) ts.insert(coll::written(s, k));
    std::string q;
    std::map<std::string, std::pair<ref::List, fval>> terms;
    for (auto &t : ts) {
      q += t + " ";
      addr f = k.w->featurizer()->featurize(t);
      terms[t] = {wd::annotations(k.w, f), std::log(N / ((fval)k.w->idx()->count(f) + 1.0))};
    }
    std::string box = s.chance(1, 4) ? "body:" : "doc:";
    auto boxes = query(k.w, box, c);
    size_t depth = s.coin() ? 1000 : 1 + s.below(5);
    c.note(vp::cat("icover ", q, "in ", box, " depth ", depth));
    Ranking got = icover_ranking(k.w, q, box, depth);
    // Scores of every cover in every container.
    std::vector<Item> best;
    std::map<addr, std::map<std::pair<addr, addr>, fval>> covers;
    for (auto &b : boxes) {
      std::vector<std::pair<addr, std::string>> at;
      for (auto &t : terms) for (auto &x : t.second.first) if (x.p >= b.p && x.q <= b.q) at.push_back({x.p, t.first});
      std::sort(at.begin(), at.end());
      Item it = {0, 0, b.p, b.q, -INFINITY};
      for (size_t lo = 0; lo < at.size(); lo++) {
        std::map<std::string, int> in;
        fval w = 0;
        for (size_t hi = lo; hi < at.size(); hi++) {
          bool added = ++in[at[hi].second] == 1;
          if (added) w += terms[at[hi].second].second;
          // minimal: losing either end loses a term
          if (!added || in[at[lo].second] != 1) { if (in[at[lo].second] > 1) break; continue; }
          fval m = in.size(), sc = in.size() == 1 ? w : w - m * std::log(at[hi].first - at[lo].first + 1.0);
          covers[b.p][{at[lo].first, at[hi].first}] = sc;
          if (sc > it.score && (sc > 0 || in.size() == 1)) { it.score = sc; it.p = at[lo].first; it.q = at[hi].first; }
        }
      }
      if (it.score > -INFINITY) best.push_back(it);
    }
    std::map<addr, Item> by;
    for (auto &b : best) by[b.cp] = b;
    auto say = [&](const std::string &m) { return m + "; got" + str(got) + "; best are" + str(best); };
    std::set<addr> seen;
    for (size_t j = 0; j < got.size(); j++) {
      auto &r = got[j];
      auto it = by.find(r.container_p());
      c.check_f(it != by.end() && it->second.cq == r.container_q(), [&] { return say("a container without terms"); });
      c.check_f(seen.insert(r.container_p()).second, [&] { return say("a container twice"); });
      auto cv = covers[r.container_p()].find({r.p(), r.q()});
      c.check_f(cv != covers[r.container_p()].end() && near(r.score(), cv->second), [&] { return say(vp::cat("(", r.p(), ",", r.q(), ") is not a cover, or has another score")); });
      c.check_f(j == 0 || got[j - 1].score() >= r.score(), [&] { return say("scores increase"); });
      if (depth == 1000) c.check_f(near(r.score(), it->second.score), [&] { return say(vp::cat("(", r.p(), ",", r.q(), ") is not the best")); });
    }
    c.check_f(got.size() <= depth && (depth < 1000 || got.size() == best.size()), [&] { return say(vp::cat(got.size(), " results of ", best.size())); });
    hit = hit || (got.size() > 2 && ts.size() > 1);
  }
  k.w->end();
  if (hit) c.nontrivial();
}
fval value(const std::map<std::string, fval> &m, const std::string &t) { auto it = m.find(t); return it == m.end() ? 0 : it->second; }
std::vector<Item> bm25(const coll::Coll &k, const Weights &q, fval b, fval k1) {
  std::vector<Item> r;
  for (size_t i = 0; i < k.docs.size(); i++) {
    fval sc = 0, l = k.docs[i].q - k.docs[i].p + 1;
    for (auto &t : q) {
      fval tf = value(k.stat.tf[i], t.first);
      if (tf > 0) sc += t.second * coll::rsj(k, t.first) * tf / (k1 * ((1.0 - b) + b * l / k.stat.avgl) + tf);
    }
    if (sc > 0) r.push_back({k.docs[i].p, k.docs[i].q, k.docs[i].p, k.docs[i].q, sc});
  }
  return r;
}
Weights terms_of(vp::Src &s, const coll::Coll &k, size_t max) {
  Weights q;
  size_t n = s.below(max + 1);
  for (size_t i = 0; i < n; i++) q[coll::term(s, k)] = s.pick(std::vector<fval>{1, 1, 2, 0.5, 0.01, 30});
  return q;
}
coll::Coll counted(vp::Src &s, vp::Ctx &c, std::string kind, const std::string &stemmer = "?") {
  if (kind.empty()) kind = s.pick(std::vector<std::string>{"idf", "df", "field", "tf-idf"});
  coll::Rules r;
  if (kind == "idf") r.engines = {"disk", "simple"};
  if (kind == "tf-idf") r.engines = {"meadow"};
  r.docs = 50;
  r.length = 10;
  auto k = coll::make(s, c, r);
  if (stemmer != "?") { k.stemmer = stemmer; k.stem = Stemmer::make(stemmer, ""); }
  if (kind != "tf-idf") coll::configure(s, c, &k);
  coll::statistics(s, c, &k, kind);
  return k;
}
void bm25_sub(vp::Src &s, vp::Ctx &c) {
  auto k = counted(s, c, "");
  std::string err;
  auto st = Stats::make(k.kind, k.recipe, k.w, &err);
  c.check(st != nullptr, "stats " + err);
  bool hit = false;
  for (int i = 0; i < 8; i++) {
    Weights params;
    fval b = 0.25, k1 = 0.5;
    size_t depth = 1000;
    if (s.coin()) { b = s.pick(std::vector<fval>{0, 1, 0.5, 0.9}); params[s.coin() ? "b" : "bm25:b"] = b; }
    if (s.coin()) { k1 = s.pick(std::vector<fval>{0.01, 1.2, 100}); params[s.coin() ? "k1" : "bm25:k1"] = k1; }
    if (s.coin()) { depth = depth_of(s); params[s.coin() ? "depth" : "bm25:depth"] = depth; }
    Weights q = terms_of(s, k, 6);
    auto want = bm25(k, q, b, k1);
    if (!k.stat.rsj) want.clear();
    c.note(vp::cat("bm25", str(q), " b ", b, " k1 ", k1, " depth ", depth));
    compare(c, bm25_ranking(st, q, params), want, depth, "bm25" + str(q));
    if (k.recipe.empty()) compare(c, bm25_ranking(k.w, q, params), want, depth, "bm25 on the index" + str(q));
    hit = hit || want.size() > 2;
    // A query as text: each term as often as it is written.
    std::string text;
    Weights tw;
    for (size_t j = s.below(6); j > 0; j--) { std::string t = coll::written(s, k); tw[t]++; text += t + s.pick(std::vector<std::string>{" ", ", ", " - "}); }
    want = bm25(k, tw, b, k1);
    if (!k.stat.rsj) want.clear();
    c.note("text " + text);
    compare(c, bm25_ranking(st, text, params), want, depth, "bm25 " + text);
    if (k.recipe.empty()) compare(c, bm25_ranking(k.w, text, params), want, depth, "bm25 on the index " + text);
  }
  k.w->end();
  if (hit) c.nontrivial();
}
void lmd(vp::Src &s, vp::Ctx &c) {
  auto k = counted(s, c, "idf", "");
  fval tokens = k.w->txt()->tokens();
  c.check_f(tokens == (fval)k.tokens, [&] { return vp::cat("text of ", k.tokens, " tokens has ", tokens); });
  bool hit = false;
  for (int i = 0; i < 8; i++) {
    Weights params;
    fval mu = 2000;
    size_t depth = 1000;
    if (s.coin()) { mu = s.pick(std::vector<fval>{1, 10, 100, 10000}); params[s.coin() ? "mu" : "lmd:mu"] = mu; }
    if (s.coin()) { depth = depth_of(s); params[s.coin() ? "depth" : "lmd:depth"] = depth; }
    Weights q = terms_of(s, k, 6);
    std::vector<Item> want;
    bool tie = false;
    for (size_t d = 0; d < k.docs.size(); d++) {
      fval sc = 0, l = k.docs[d].q - k.docs[d].p + 1;
      for (auto &t : q) {
        fval tf = value(k.stat.tf[d], t.first);
        if (tf > 0) sc += t.second * (std::log(mu + tf * tokens / (fval)k.counts[t.first]) - std::log(mu + l));
      }
      if (std::fabs(sc) < 1e-10 && sc != 0) tie = true; // too close to the limit of zero to tell
      if (sc > 0) want.push_back({k.docs[d].p, k.docs[d].q, k.docs[d].p, k.docs[d].q, sc});
    }
    if (tie) continue;
    c.note(vp::cat("lmd", str(q), " mu ", mu, " depth ", depth));
    compare(c, lmd_ranking(k.w, q, params), want, depth, "lmd" + str(q));
    hit = hit || want.size() > 2;
  }
  k.w->end();
  if (hit) c.nontrivial();
}
void product(vp::Src &s, vp::Ctx &c) {
  auto k = collection(s, c);
  std::string err, tag = s.pick(std::vector<std::string>{"mine", "bm25", "ssr", "x y"});
  bool convert = s.coin();
  auto f = TaggingFeaturizer::make(k.w->featurizer(), tag, &err);
  c.check(f != nullptr, "featurizer " + err);
  std::vector<std::map<std::string, fval>> at(k.docs.size());
  c.check(k.w->transaction(&err), "transaction " + err);
  for (size_t i = 0; i < k.docs.size(); i++)
    for (auto &t : k.vocab)
      if (s.coin()) {
        addr p = k.docs[i].p, q = k.docs[i].q;
        fval v = s.range(-2, 6);
        if (convert) c.check(k.w->annotator()->annotate(f->featurize(t), p, q, (addr)v, &err), "annotate " + err);
        else { v *= 0.37; c.check(k.w->annotator()->annotate(f->featurize(t), p, q, v, &err), "annotate " + err); }
        at[i][t] = v;
      }
  c.check(k.w->ready(&err), "ready " + err);
  k.w->commit();
  k.refresh(c);
  bool hit = false;
  for (int i = 0; i < 8; i++) {
    Weights params;
    size_t depth = 1000;
    if (s.coin()) { depth = depth_of(s); params[s.coin() ? "depth" : tag + ":depth"] = depth; }
    Weights q;
    std::string text;
    bool written = s.coin();
    if (written) for (size_t j = s.below(6); j > 0; j--) { std::string t = coll::word(s, k.vocab); q[t]++; text += t + " "; }
    else q = terms_of(s, k, 6);
    std::vector<Item> want;
    for (size_t d = 0; d < k.docs.size(); d++) {
      fval sc = 0;
      for (auto &t : q) sc += t.second * value(at[d], t.first);
      if (std::fabs(sc) < 1e-9) sc = 0;
      if (sc > 0) want.push_back({k.docs[d].p, k.docs[d].q, k.docs[d].p, k.docs[d].q, sc});
    }
    c.note(vp::cat("product", str(q), " tag ", tag, " convert ", convert, " depth ", depth));
    Ranking got = written ? params.empty() && s.coin() ? product_ranking(k.w, text, tag, convert) : product_ranking(k.w, text, params, tag, convert) : product_ranking(k.w, q, params, tag, convert);
    if (got.size() && want.size() < got.size() && got.size() <= depth && got.back().score() < 1e-9) continue; // rounding about zero
    compare(c, got, want, depth, "product" + str(q));
    hit = hit || want.size() > 2;
  }
  k.w->end();
  if (hit) c.nontrivial();
}
void feedback(vp::Src &s, vp::Ctx &c) { // terms of the best documents, by weight
  auto k = counted(s, c, s.pick(std::vector<std::string>{"idf", "df", "field"}));
  bool hit = false;
  for (int i = 0; i < 5; i++) {
    Weights params, q = terms_of(s, k, 4), wq = q;
    size_t depth = 10, n = 25;
    fval gamma = 0.2;
    if (s.coin()) { depth = s.below(6); params["rsj:depth"] = depth; }
    if (s.coin()) { n = s.below(8); params[s.coin() ? "expansions" : "rsj:expansions"] = n; }
    if (s.coin()) { gamma = s.pick(std::vector<fval>{0, 1, 0.5}); params["gamma"] = gamma; }
    Ranking r;
    size_t m = s.below(k.docs.size() + 1);
    std::set<size_t> in;
    while (in.size() < m) in.insert(s.chance(1, 3) ? s.below(k.docs.size()) : [&] { size_t j = 0; while (in.count(j)) j++; return j; }());
    for (auto j : in) r.emplace_back(k.docs[j].p, k.docs[j].q, 1.0);
    c.note(vp::cat("feedback of ", m, " documents, depth ", depth, ", ", n, " terms, gamma ", gamma, ", query", str(q)));
    std::map<std::string, fval> freq;
    size_t d = 0;
    for (auto j : in) {
      if (d++ == depth) break;
      std::set<std::string> seen;
      for (auto &w : k.docs[j].words) seen.insert(k.kind == "idf" && k.unstemmed ? w : k.stem->stem(w));
      for (auto &t : seen) freq[t]++;
    }
    std::map<std::string, fval> score;
    std::vector<fval> order;
    for (auto &t : freq) { fval x = coll::rsj(k, t.first); if (x > 0 && k.stat.rsj) { score[t.first] = x * t.second; order.push_back(-score[t.first]); } }
    std::sort(order.begin(), order.end());
    auto got = rsj_prf(k.w, r, params, s.chance(1, 5) ? nullptr : &wq);
    std::string all;
    for (auto &t : got) all += " " + t;
    auto say = [&](const std::string &m) { return m + "; got" + all + "; weights are" + str(score); };
    c.check_f(got.size() == std::min(n, order.size()), [&] { return say(vp::cat(got.size(), " terms of ", order.size())); });
    Weights want = q;
    for (size_t j = 0; j < got.size(); j++) {
      c.check_f(score.count(got[j]) && near(-score[got[j]], order[j]), [&] { return say("the wrong term: " + got[j]); });
      want[got[j]] += gamma;
    }
    if (wq != q || got.empty()) c.check_f(wq == want || got.empty(), [&] { return "expanded query" + str(wq) + "; has to be" + str(want); });
    c.check(std::set<std::string>(got.begin(), got.end()).size() == got.size(), say("a term twice"));
    hit = hit || got.size() > 2;
  }
  k.w->end();
  if (hit) c.nontrivial();
}
struct Stage { std::string text, kind, key; fval value = 0; };
std::vector<Stage> pipeline(vp::Src &s, bool plain, std::string *text) {
  std::vector<Stage> st;
  size_t n = 1 + s.below(7);
  for (size_t i = 0; i < n; i++) {
    Stage g;
    switch (s.below(plain ? 5 : 8)) {
    case 0: case 1: g.kind = "bm25"; break;
    case 2: g.kind = "stem"; break;
    case 3: g.kind = "stop"; break;
    case 4: {
      g.kind = "=";
      g.key = s.pick(std::vector<std::string>{"bm25:b", "bm25:k1", "b", "depth", "bm25:depth", "kld:depth", "expansions", "gamma", "rsj:gamma", "mu"});
      bool whole = g.key.find("depth") != std::string::npos || g.key == "expansions";
      std::string v = s.pick(whole ? std::vector<std::string>{"1", "3", "7", "1000"} : std::vector<std::string>{"0.3", "1", "0.75", "1e-1"});
      g.value = std::stof(v);
      g.text = g.key + "=" + v;
      break;
    }
    case 5: g.kind = "kld"; break;
    case 6: g.kind = "rsj"; break;
    default: g.kind = "lmd";
    }
    if (g.text.empty()) g.text = g.kind;
    st.push_back(g);
    *text += (i ? s.chance(1, 5) ? " \t" : " " : "") + g.text;
  }
  return st;
}
// The ranking of a pipeline, stage by stage with the public functions.
Ranking by_hand(std::shared_ptr<Stats> stats, const std::vector<Stage> &stages, const std::string &query, Weights params = {}) {
  Weights wq;
  Ranking r;
  auto cook = [&] { if (wq.empty()) for (auto &t : stats->tokenizer()->split(query)) wq[t] += 1.0; };
  std::set<std::string> stop = {"the"}; // of the words the collections are made of
  for (auto &g : stages) {
    if (g.kind == "=") params[g.key] = g.value;
    else if (g.kind == "bm25") r = wq.empty() ? bm25_ranking(stats, query, params) : bm25_ranking(stats, wq, params);
    else if (g.kind == "lmd") r = wq.empty() ? lmd_ranking(stats->warren(), query, params) : lmd_ranking(stats->warren(), wq, params);
    else if (g.kind == "stem") { cook(); Weights m; for (auto &t : wq) m[stats->stemmer()->stem(t.first)] += t.second; wq = m; }
    else if (g.kind == "stop") { cook(); Weights m; for (auto &t : wq) if (!stop.count(t.first)) m[t.first] = t.second; if (m.size()) wq = m; }
    else if (r.size()) { cook(); if (g.kind == "kld") kld_prf(stats->warren(), r, params, &wq); else rsj_prf(stats->warren(), r, params, &wq); }
  }
  return r;
}
void pipelines(vp::Src &s, vp::Ctx &c) {
  auto k = counted(s, c, "");
  std::string err;
  auto st = Stats::make(k.kind, k.recipe, k.w, &err);
  c.check(st != nullptr, "stats " + err);
  bool plain = k.kind == "tf-idf", hit = false;
  for (int i = 0; i < 4; i++) {
    std::string text;
    auto stages = pipeline(s, plain, &text);
    bool rnd = s.chance(1, 3);
    if (rnd) text = "random:bm25 " + text;
    c.note("pipeline " + text);
    auto rank = k.recipe.empty() && s.coin() ? Ranker::from_pipeline(text, k.w, &err) : Ranker::from_pipeline(text, st, &err);
    c.check(rank != nullptr, text + ": " + err);
    for (int j = 0; j < 2; j++) {
      std::string q;
      for (size_t m = s.below(6); m > 0; m--) q += coll::written(s, k) + " ";
      c.note("query " + q);
      Weights params, given;
      Ranking got = (*rank)(q, s.coin() || rnd ? &params : nullptr);
      if (rnd) {
        Weights p2;
        (*rank)(q, &p2);
        c.check(p2 == params, "random parameters change between queries");
        c.check(params.count("bm25:b") && params.count("bm25:k1"), "random parameters missing");
        for (auto &p : {"bm25:b", "bm25:k1"}) given[p] = params[p];
        given["depth"] = 1000; // comes with them
        bool set_b = false, set_k = false;
        for (auto &g : stages) { set_b = set_b || g.key == "bm25:b"; set_k = set_k || g.key == "bm25:k1"; }
        if (set_b || set_k) continue; // what was drawn is not reported
        c.check(given["bm25:b"] >= 0 && given["bm25:b"] <= 1 && given["bm25:k1"] >= 0.01 - 1e-9 && given["bm25:k1"] <= 1000 + 1e-6, "random parameters out of range");
      }
      same(c, got, by_hand(st, stages, q, given), text + " of " + q + ", and stage by stage");
      hit = hit || got.size() > 2;
    }
  }
  for (auto &bad : {"bm25 nothing", "ssr", "b=", "=1", "random:no", "b=x", "other:bm25", " bm25"}) {
    err = "";
    c.check(Ranker::from_pipeline(bad, st, &err) == nullptr && err.size(), std::string("accepted pipeline ") + bad);
  }
  k.w->end();
  if (hit) c.nontrivial();
}
void batch(vp::Src &s, vp::Ctx &c) { // many queries on several threads
  auto k = counted(s, c, "");
  std::string err, text;
  auto stages = pipeline(s, true, &text);
  if (s.coin()) { text += " bm25"; Stage g; g.kind = "bm25"; stages.push_back(g); }
  c.note("pipeline " + text);
  std::map<std::string, std::string> queries;
  size_t n = s.below(25);
  for (size_t i = 0; i < n; i++) {
    std::string q;
    for (size_t m = s.below(5); m > 0; m--) q += coll::written(s, k) + " ";
    queries[vp::cat("t", s.below(1000))] = q;
  }
  auto st = Stats::make(k.kind, k.recipe, k.w, &err);
  c.check(st != nullptr, "stats " + err);
  std::map<std::string, std::vector<std::string>> want;
  bool hit = false;
  for (auto &q : queries) {
    auto &w = want[q.first];
    for (auto &r : by_hand(st, stages, q.second)) for (auto &d : k.docs) if (d.p == r.container_p()) w.push_back(d.id);
    hit = hit || w.size() > 2;
  }
  bool started = s.coin();
  if (!started) k.w->end();
  for (int i = 0; i < 2; i++) {
    size_t threads = s.below(9);
    std::map<std::string, std::vector<std::string>> got = {{"stale", {}}};
    addr time = -1;
    c.check(trec(k.w, k.kind, k.recipe, text, queries, &got, &err, threads, s.coin() ? &time : nullptr), "trec: " + err);
    if (queries.empty()) continue;
    for (auto &t : got) for (auto &id : t.second) { // the token of the id as written
      std::string x;
      for (char ch : id) if (isalnum((unsigned char)ch)) x += (char)tolower(ch);
      id = x;
    }
    c.check_f(got == want, [&] {
      std::string r = vp::cat("batch on ", threads, " threads:");
      for (auto &q : queries) if (got[q.first] != want[q.first]) { r += " " + q.first + " " + q.second + " got"; for (auto &x : got[q.first]) r += " " + x; r += ", one by one"; for (auto &x : want[q.first]) r += " " + x; }
      return r;
    });
  }
  if (queries.size()) {
    err = "";
    std::map<std::string, std::vector<std::string>> got;
    c.check(!trec(k.w, k.kind, k.recipe, "no such stage", queries, &got, &err, 1 + s.below(4)) && err.size(), "batch with a bad pipeline");
    err = "";
    c.check(!trec(k.w, "no such statistics", k.recipe, text, queries, &got, &err, 1 + s.below(4)) && err.size(), "batch with unknown statistics");
  }
  c.check(k.w->started() == started, "batch left the index started, or ended it");
  if (started) k.w->end();
  if (hit && queries.size() > 4) c.nontrivial();
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C24";
  sp.rule = "Random collections of up to 25 documents with fields in every engine (and, for passage ranking, up to some hundred containers spread over millions of addresses); random structural and weighted term queries, parameters (given by plain and by full name), depths and thread counts; every result compared with the formula evaluated over every document from independent counts. Non-trivial: a query matches more than two items (parallel: more than two million addresses, so that threads are used; tiers and fusion: more than one list; batch: more than four queries).";
  sp.assumptions = {"containers and documents do not overlap", "query weights are positive", "items of one score come in any order, on either side of the cut", "feedback and pipelines read the default statistics", "terms of cover ranking are distinct, and below the number of containers its result is only checked to be sound"};
  sp.subs = {{"ssr", 700, 20000, ssr_sub, 60, false, true}, {"parallel", 250, 8000, parallel, 60, true, true}, {"tiers", 400, 12000, tiers, 300, false, true}, {"fusion", 800, 30000, fusion}, {"icover", 500, 15000, icover, 60, false, true}, {"bm25", 1400, 20000, bm25_sub, 60, false, true}, {"lmd", 300, 10000, lmd, 60, false, true}, {"product", 500, 15000, product, 60, false, true}, {"feedback", 400, 12000, feedback, 60, false, true}, {"pipelines", 800, 16000, pipelines, 60, false, true}, {"batch", 500, 8000, batch, 60, true, true}};
  return vp::run(argc, argv, sp);
}
