// Reference model of a dynamic index: transactions of text, annotations and
// erasures, each at the addresses the next free address gives them, and what
// a reader of a set of committed transactions has to see.
#ifndef VERIF_HARNESS_DYN_H_
#define VERIF_HARNESS_DYN_H_
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "ref.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "vp.h"
#include "world.h"
namespace dyn {
using namespace cottontail;
using ref::Iv;
using ref::List;

struct Ann {
  std::string feature;
  addr p, q;
  fval v;
  bool rel; // relative to the transaction's first address
};
struct Txn {
  std::vector<std::string> pieces; // as appended
  std::string text;                // as stored
  std::vector<size_t> start;       // of each token in text
  std::vector<std::string> word;   // of each token
  std::vector<size_t> piece_tokens;
  std::vector<Ann> anns, erase;
  addr base = -1; // once ready
  bool committed = false;
  addr tokens() const { return (addr)start.size(); }
  std::string token(size_t i) const { // with whatever follows it
    size_t b = i == 0 ? 0 : start[i], e = i + 1 < start.size() ? start[i + 1] : text.size();
    return text.substr(b, e - b);
  }
  addr at(const Ann &a, addr x) const { return a.rel ? base + x : x; }
};

struct Rules {
  bool erasures = false;    // some transactions erase
  bool cross_nest = true;   // annotations of one feature may nest across transactions
  size_t max_tokens = 30;
  bool big = true;          // now and then a transaction of more than one text chunk
  size_t features = 4;
  bool empty = true;        // transactions without text, without anything
  bool junk = true;         // text that holds no tokens
  bool marks = false;       // each transaction has an annotation of its own, far away
  addr far = 0;             // annotations may lie up to this far beyond the text
};

inline const std::vector<std::string> &vocabulary() {
  static const std::vector<std::string> v = {"a", "b", "c", "dog", "cat", "fish", "over", "under", "zebra", "qu", "x", "thereafter"};
  return v;
}
inline std::string tag(size_t i) { return "t" + std::to_string(i) + ":"; }

inline void add_piece(Txn *t, const std::vector<std::string> &words, const std::vector<std::string> &seps, const std::string &lead) {
  std::string piece = lead;
  size_t base = t->text.size();
  for (size_t i = 0; i < words.size(); i++) {
    t->start.push_back(base + piece.size());
    t->word.push_back(words[i]);
    piece += words[i] + seps[i];
  }
  t->pieces.push_back(piece);
  t->piece_tokens.push_back(words.size());
  t->text += piece;
  if (piece.size() && piece.back() != ' ' && piece.back() != '\n' && piece.back() != '\t') t->text += "\n";
}

struct Model {
  Rules rules;
  std::vector<std::shared_ptr<Txn>> all; // every transaction in order of ready (or creation until then)
  addr address = 0;
  size_t made = 0;

  bool nests(const Txn &me, const Ann &a) const { // strictly, with another transaction's
    if (rules.cross_nest) return false;
    for (auto &t : all)
      if (t.get() != &me)
        for (auto &b : t->anns)
          if (b.feature == a.feature && !(b.rel && t->base < 0)) {
            addr p = t->at(b, b.p), q = t->at(b, b.q);
            if (p == a.p && q == a.q) continue;
            if ((p <= a.p && a.q <= q) || (a.p <= p && q <= a.q)) return true;
          }
    return false;
  }

  // A random transaction; addresses below `address` are there to annotate.
  std::shared_ptr<Txn> gen(vp::Src &s) {
    auto t = std::make_shared<Txn>();
    static const std::vector<std::string> seps = {" ", "\n", "  ", ", ", "! ", "\t", ".\n", "-"};
    static const std::vector<std::string> junks = {" ", "!!! ", "\n", " ... ", "\t\t", "?"};
    bool textless = rules.empty && s.chance(1, 7);
    if (!textless) {
      size_t n = rules.big && s.chance(1, 14) ? 500 + s.below(1200) : 1 + s.below(1 + rules.max_tokens);
      bool fixed = n > 100;
      while (n > 0) {
        if (rules.junk && s.chance(1, 12)) { add_piece(t.get(), {}, {}, s.coin() ? "" : s.pick(junks)); continue; }
        size_t k = fixed ? n : 1 + s.below(std::min<size_t>(n, 12));
        std::vector<std::string> w, sp;
        uint64_t seed = fixed ? s.below(1 << 20) : 0; // a long text from one choice
        for (size_t i = 0; i < k; i++) {
          w.push_back(fixed ? vocabulary()[vp::mix(seed, i) % vocabulary().size()] : s.pick(vocabulary()));
          sp.push_back(i + 1 == k && s.coin() ? "" : fixed ? seps[vp::mix(seed, i + 77777) % seps.size()] : s.pick(seps));
        }
        add_piece(t.get(), w, sp, rules.junk && s.chance(1, 10) ? s.pick(junks) : "");
        n -= k;
      }
      if (rules.junk && s.chance(1, 10)) add_piece(t.get(), {}, {}, s.pick(junks));
    } else if (rules.junk && s.chance(1, 3)) {
      add_piece(t.get(), {}, {}, s.pick(junks));
    }
    if (t->text.size() && t->text.back() != '\n') t->text += "\n"; // as ready() leaves it
    if (rules.marks) {
      Ann a;
      a.feature = "mark" + std::to_string(made++) + ":";
      a.p = a.q = ((addr)1 << 40) + (addr)made;
      a.v = 0.0;
      a.rel = false;
      t->anns.push_back(a);
    }
    size_t na = s.len(8);
    for (size_t i = 0; i < na; i++) {
      Ann a;
      a.feature = s.chance(1, 8) ? s.pick(vocabulary()) : tag(s.below(rules.features));
      a.rel = t->tokens() > 0 && (address == 0 || s.chance(2, 3));
      addr hi = (a.rel ? t->tokens() : address) + (a.rel ? 0 : rules.far);
      if (hi <= 0) continue;
      addr w = s.weighted({3, 3, 1}) == 0 ? 0 : (addr)s.below(s.coin() ? 4 : 15);
      a.p = (addr)s.below(hi);
      a.q = std::min(a.p + w, hi - 1);
      a.v = s.chance(1, 3) ? ref::gen_v(s) : 0.0;
      if (std::isnan(a.v)) a.v = 1.0;
      if (!a.rel && a.q >= address) a.feature = tag(100); // may be this transaction's own text
      if (s.chance(1, 30)) std::swap(a.p, a.q);
      bool dup = false;
      for (auto &b : t->anns)
        if (b.feature == a.feature) {
          // Two ways of writing one address within a transaction are never mixed.
          if (b.rel == a.rel && b.p == a.p && b.q == a.q) dup = true;
          // a token is an annotation of its word
        }
      if (a.rel && a.p == a.q && a.p < t->tokens() && t->word[a.p] == a.feature) dup = true;
      if (!a.rel && nests(*t, a)) dup = true;
      if (!a.rel && !rules.cross_nest && a.feature.back() != ':') dup = true; // words nest with tokens
      if (dup) continue;
      t->anns.push_back(a);
    }
    if (rules.erasures && s.chance(1, 2)) {
      size_t ne = 1 + s.below(3);
      for (size_t i = 0; i < ne; i++) {
        Ann a;
        a.rel = t->tokens() > 0 && (address == 0 || s.chance(1, 5));
        addr hi = a.rel ? t->tokens() : address + (s.chance(1, 5) ? 5 : 0);
        if (hi <= 0) continue;
        a.p = (addr)s.below(hi);
        a.q = std::min(a.p + (addr)(s.chance(1, 6) ? 100 : s.below(8)), hi - 1);
        a.v = 0.0;
        if (s.chance(1, 40)) std::swap(a.p, a.q);
        t->erase.push_back(a);
      }
    }
    return t;
  }
  std::string describe(const Txn &t) const {
    std::string o;
    for (auto &p : t.pieces) o += "append " + vp::show(p, 120) + "; ";
    for (auto &a : t.anns) o += vp::cat("annotate ", a.feature, a.rel ? " +" : " ", a.p, a.rel ? ",+" : ",", a.q, "=", a.v, "; ");
    for (auto &a : t.erase) o += vp::cat("erase ", a.rel ? "+" : "", a.p, a.rel ? ",+" : ",", a.q, "; ");
    return o.size() ? o : "nothing; ";
  }
};

// Carry out a transaction's operations on an open transaction.
inline void apply(vp::Ctx &c, const Txn &t, std::shared_ptr<Warren> w) {
  std::string err;
  addr first = -1, next = -1;
  for (size_t i = 0; i < t.pieces.size(); i++) {
    addr p = -7, q = -7;
    c.check_f(w->appender()->append(t.pieces[i], &p, &q, &err), [&] { return "append: " + err; });
    c.check_f(q - p + 1 == (addr)t.piece_tokens[i], [&] { return vp::cat("append of ", t.piece_tokens[i], " tokens reported (", p, ",", q, ")"); });
    if (q < p) continue;
    if (first < 0) first = p;
    else c.check_f(p == next, [&] { return vp::cat("append reported ", p, " after ", next - 1); });
    next = q + 1;
  }
  for (auto &a : t.anns) {
    addr o = a.rel ? first : 0;
    c.check_f(w->annotator()->annotate(w->featurizer()->featurize(a.feature), o + a.p, o + a.q, a.v, &err), [&] { return "annotate: " + err; });
  }
  for (auto &a : t.erase) {
    addr o = a.rel ? first : 0;
    c.check_f(w->annotator()->erase(o + a.p, o + a.q, &err), [&] { return "erase: " + err; });
  }
}

// What a reader sees of some transactions, in their order.
struct View {
  std::vector<std::shared_ptr<Txn>> txns;
  std::vector<std::string> names() const {
    std::map<std::string, int> m;
    for (auto &t : txns) {
      for (auto &a : t->anns) m[a.feature];
      for (auto &w : t->word) m[w];
    }
    m["zebra"]; m["never"]; m[tag(0)]; m[transaction_tag];
    std::vector<std::string> o;
    for (auto &e : m) o.push_back(e.first);
    return o;
  }
  List erased() const {
    List l;
    for (auto &t : txns)
      for (auto &e : t->erase)
        if (e.p <= e.q) l.push_back({t->at(e, e.p), t->at(e, e.q), 0.0});
    return l;
  }
  // before erasure
  List raw(const std::string &name) const {
    List l;
    for (auto &t : txns) {
      List one;
      for (size_t i = 0; i < t->word.size(); i++)
        if (t->word[i] == name) one.push_back({t->base + (addr)i, t->base + (addr)i, 0.0});
      if (name == transaction_tag && t->tokens()) one.push_back({t->base, t->base + t->tokens() - 1, 0.0});
      for (auto &a : t->anns)
        if (a.feature == name && a.p <= a.q) one.push_back({t->at(a, a.p), t->at(a, a.q), a.v});
      for (auto &i : one) l.push_back(i);
    }
    return ref::reduce(l);
  }
  List list(const std::string &name) const {
    List l = raw(name), e = erased(), o;
    for (auto &i : l) {
      bool hidden = false;
      for (auto &x : e) hidden = hidden || (x.p <= i.p && i.q <= x.q);
      if (!hidden) o.push_back(i);
    }
    return o;
  }
  std::string text(addr p, addr q) const {
    std::string o;
    for (auto &t : txns)
      for (addr i = p <= t->base ? 0 : p - t->base; i < t->tokens() && t->base + i <= q; i++) o += t->token(i);
    return o;
  }
  addr tokens() const {
    addr n = 0;
    for (auto &t : txns) n += t->tokens();
    return n;
  }
  bool range(addr *p, addr *q) const {
    bool any = false;
    for (auto &t : txns)
      if (t->tokens()) {
        if (!any) *p = t->base;
        *q = t->base + t->tokens() - 1;
        any = true;
      }
    return any;
  }
};
inline View committed(const Model &m) {
  View v;
  for (auto &t : m.all)
    if (t->committed) v.txns.push_back(t);
  return v;
}

// Compare a started reader with the model; `effort` random probes.
inline size_t compare(vp::Src &s, vp::Ctx &c, std::shared_ptr<Warren> w, const View &v, size_t effort, const std::string &where, bool counts = false) {
  size_t seen = 0;
  for (auto &name : v.names()) {
    List want = v.list(name);
    addr feature = w->featurizer()->featurize(name);
    auto h = w->idx()->hopper(feature);
    c.check(h != nullptr, where + ": no cursor");
    List got = ref::enumerate(h.get());
    c.check_f(ref::equal(got, want), [&] { return where + ": '" + vp::show(name) + "': " + ref::diff(got, want); });
    seen += want.size();
    if (counts) {
      addr n = w->idx()->count(feature);
      c.check_f(n == (addr)want.size(), [&] { return vp::cat(where, ": '", vp::show(name), "' counted ", n, " times, has ", want.size()); });
    }
    if (effort) {
      h = w->idx()->hopper(feature);
      size_t k = s.below(effort);
      for (size_t i = 0; i < k; i++) ref::check_probe(c, h.get(), want, s.below(6), ref::gen_k(s, want, -2, 60), true, where);
    }
  }
  addr n = w->txt()->tokens();
  c.check_f(n == v.tokens(), [&] { return vp::cat(where, ": ", n, " tokens, expected ", v.tokens()); });
  addr p0 = maxfinity, q0 = maxfinity, p = -9, q = -9;
  bool any = v.range(&p0, &q0), some = w->txt()->range(&p, &q);
  c.check_f(any == some && (!any || (p == p0 && q == q0)), [&] { return vp::cat(where, ": text range (", p, ",", q, ") ", some, ", expected (", p0, ",", q0, ") ", any); });
  auto text = [&](addr a, addr b) {
    std::string t = w->txt()->translate(a, b), u = v.text(a, b);
    c.check_f(t == u, [&] { return vp::cat(where, ": text of (", a, ",", b, ") is ", vp::show(t, 200), ", expected ", vp::show(u, 200)); });
  };
  addr top = any ? q0 : 0;
  if (effort) {
    text(0, top + 3);
    for (size_t i = 0; i < 2 + effort; i++) {
      addr a = (addr)s.below(top + 3) - 1;
      addr b = s.chance(1, 8) ? a - 1 : a + (addr)s.mag(top + 2);
      if (s.chance(1, 20)) a = s.coin() ? minfinity : -5;
      if (s.chance(1, 20)) b = s.coin() ? maxfinity : maxfinity - 1;
      text(a, b);
    }
    for (auto &t : v.txns) // each transaction's own text, and across its edges
      if (t->tokens() && s.chance(1, 3)) {
        text(t->base, t->base + t->tokens() - 1);
        text(t->base + t->tokens() - 1, t->base + t->tokens());
        text(t->base - 1, t->base);
      }
  }
  return seen;
}
} // namespace dyn
#endif
