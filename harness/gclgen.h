// Query trees: generator, printer and naive set-semantics evaluator.
#ifndef VERIF_HARNESS_GCLGEN_H_
#define VERIF_HARNESS_GCLGEN_H_

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "gcl/gcl.h"
#include "gcl/optimizer.h"
#include "gcl/parse.h"
#include "gcl/vector_hopper.h"
#include "ref.h"
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/hashing_featurizer.h"
#include "src/idx.h"
#include "src/simple_posting.h"
#include "src/tokenizer.h"
#include "src/warren.h"

namespace gg {
using cottontail::addr;
using cottontail::fval;
using ref::Iv;
using ref::List;

// An index over given lists, held whole or split over shards.
class FakeIdx : public cottontail::Idx {
public:
  struct Entry {
    List all;
    std::vector<std::shared_ptr<cottontail::SimplePosting>> parts;
  };
  std::map<addr, Entry> lists;
  void set(vp::Src &s, addr feature, const List &l) {
    Entry e;
    e.all = l;
    size_t n = s.chance(1, 3) ? 2 + s.below(3) : 1;
    std::vector<List> parts(n);
    for (auto &i : l) parts[n == 1 ? 0 : s.below(n)].push_back(i);
    auto f = cottontail::SimplePostingFactory::make(
        cottontail::Compressor::make("post", ""), cottontail::Compressor::make("zlib", ""));
    for (auto &p : parts) {
      if (p.empty()) continue;
      auto sp = f->posting_from_feature(feature);
      for (auto &i : p) sp->push(i.p, i.q, i.v);
      e.parts.push_back(sp);
    }
    lists[feature] = e;
  }

private:
  std::string recipe_() final { return ""; }
  std::unique_ptr<cottontail::Hopper> hopper_(addr feature) final {
    auto it = lists.find(feature);
    if (it == lists.end()) return std::make_unique<cottontail::EmptyHopper>();
    std::vector<std::unique_ptr<cottontail::Hopper>> hs;
    for (auto &p : it->second.parts) hs.push_back(cottontail::ArrayHopper::make(p));
    return cottontail::gcl::VectorHopper::make(&hs, false);
  }
  addr count_(addr feature) final {
    auto it = lists.find(feature);
    return it == lists.end() ? 0 : (addr)it->second.all.size();
  }
  addr vocab_() final { return lists.size(); }
};

class FakeTxt : public cottontail::Txt {
  std::string name_() final { return "fake"; }
  std::string recipe_() final { return ""; }
  std::string translate_(addr, addr) final { return ""; }
  addr tokens_() final { return 0; }
};

class FakeWarren : public cottontail::Warren {
public:
  static std::shared_ptr<FakeWarren> make() {
    auto f = cottontail::Featurizer::make("hashing", "");
    auto t = cottontail::Tokenizer::make("ascii", "");
    auto i = std::make_shared<FakeIdx>();
    auto w = std::shared_ptr<FakeWarren>(new FakeWarren(f, t, i));
    w->fake = i;
    w->start();
    return w;
  }
  std::shared_ptr<FakeIdx> fake;

private:
  FakeWarren(std::shared_ptr<cottontail::Featurizer> f, std::shared_ptr<cottontail::Tokenizer> t,
             std::shared_ptr<cottontail::Idx> i)
      : Warren(nullptr, f, t, i, std::make_shared<FakeTxt>()) {}
  bool set_parameter_(const std::string &, const std::string &, std::string *) final { return true; }
  bool get_parameter_(const std::string &, std::string *, std::string *) final { return false; }
};

enum Op { TERM, FIXED, OR, AND, SEQ, IN, CON, NIN, NCON, LINK, MAT, PHRASE };
struct Node {
  Op op = TERM;
  std::string term;   // TERM: text as written; PHRASE: text without quotes
  addr width = 0;
  std::vector<Node> kids;
};

inline std::string name(size_t i) { return std::string(1, (char)('a' + i)) + "x"; }

// ---- naive semantics -------------------------------------------------------
struct Env {
  std::map<std::string, List> lists; // by term
  addr lo = 0, hi = 100;             // hull of every address and link value
};

inline List zero_values(List l) {
  for (auto &i : l) i.v = 0.0;
  return l;
}
inline bool inside(const Iv &a, const Iv &b) { return b.p <= a.p && a.q <= b.q; }

inline List combine(Op op, const List &a, const List &b) {
  List out;
  switch (op) {
  case OR:
    out = a;
    out.insert(out.end(), b.begin(), b.end());
    return zero_values(ref::reduce(out));
  case AND:
    for (auto &x : a)
      for (auto &y : b) out.push_back({std::min(x.p, y.p), std::max(x.q, y.q), 0.0});
    return ref::reduce(out);
  case SEQ:
    for (auto &x : a)
      for (auto &y : b)
        if (x.q < y.p) out.push_back({x.p, y.q, 0.0});
    return ref::reduce(out);
  case IN:
  case NIN:
  case CON:
  case NCON:
    for (auto &x : a) {
      bool any = false;
      for (auto &y : b)
        if ((op == IN || op == NIN) ? inside(x, y) : inside(y, x)) { any = true; break; }
      if (any == (op == IN || op == CON)) out.push_back(x);
    }
    return out;
  default: throw std::runtime_error("combine");
  }
}

// A fixed-width operand is infinite; it only ever appears beside a finite
// operand, and then only the windows near that operand's ends can matter,
// except that (fixed << B) has every window inside B.
inline List fixed_window(addr w, const List &other, bool inner) {
  std::set<addr> starts;
  for (auto &i : other) {
    for (addr p = i.p - w - 1; p <= i.p + 1; p++) starts.insert(p);
    for (addr p = i.q - w - 1; p <= i.q + 1; p++) starts.insert(p);
    if (inner) {
      if (i.q - i.p > 2000) throw vp::Discard();
      for (addr p = i.p; p + w - 1 <= i.q; p++) starts.insert(p);
    }
  }
  List out;
  for (addr p : starts) out.push_back({p, p + w - 1, 0.0});
  return out;
}

inline List eval(const Node &n, const Env &env) {
  switch (n.op) {
  case TERM: {
    auto it = env.lists.find(n.term);
    return it == env.lists.end() ? List() : it->second;
  }
  case PHRASE: {
    std::vector<std::string> words;
    std::string w;
    for (char c : n.term + " ")
      if (c == ' ') { if (w.size()) words.push_back(w); w.clear(); } else w += c;
    if (words.empty()) return {};
    Node t;
    if (words.size() == 1) { t.term = words[0]; return eval(t, env); }
    // consecutive single addresses, by definition of a phrase
    List seq;
    for (size_t i = 0; i < words.size(); i++) {
      t.term = words[i];
      List l = eval(t, env);
      if (i == 0) { seq = zero_values(l); continue; }
      seq = combine(SEQ, seq, l);
    }
    // a window of as many addresses as the phrase has words, containing them in order
    List out, win = fixed_window((addr)words.size(), seq, false);
    for (auto &x : win)
      for (auto &y : seq)
        if (inside(y, x)) { out.push_back(x); break; }
    return out;
  }
  case LINK: {
    std::set<addr> s;
    for (auto &i : eval(n.kids[0], env)) {
      addr a = cottontail::fval2addr(i.v);
      if (a > cottontail::minfinity && a < cottontail::maxfinity) s.insert(a);
    }
    List out;
    for (addr a : s) out.push_back({a, a, 0.0});
    return out;
  }
  case MAT: return eval(n.kids[0], env);
  case FIXED: throw std::runtime_error("bare fixed");
  default: {
    if (n.kids.size() == 1) return eval(n.kids[0], env);
    // left fold; a fixed operand is expanded beside the other one
    List acc;
    bool have = false;
    const Node *pending = nullptr;
    for (auto &k : n.kids) {
      if (!have && !pending && k.op == FIXED) { pending = &k; continue; }
      if (k.op == FIXED) {
        acc = combine(n.op, acc, fixed_window(k.width, acc, false));
        continue;
      }
      List l = eval(k, env);
      if (pending) {
        List w = fixed_window(pending->width, l, n.op == IN);
        acc = combine(n.op, w, l);
        pending = nullptr;
        have = true;
      } else if (!have) {
        acc = l;
        have = true;
      } else
        acc = combine(n.op, acc, l);
    }
    return acc;
  }
  }
}

// ---- printing ---------------------------------------------------------------
inline const char *canonical(Op op) {
  switch (op) {
  case OR: return "+";
  case AND: return "^";
  case SEQ: return "...";
  case IN: return "<<";
  case CON: return ">>";
  case NIN: return "!<";
  case NCON: return "!>";
  case LINK: return "@";
  case MAT: return "materialize";
  default: return "#";
  }
}
inline std::vector<std::string> aliases(Op op) {
  switch (op) {
  case FIXED: return {"#", "fixed_width"};
  case OR: return {"+", "one_of"};
  case AND: return {"^", "all_of"};
  case SEQ: return {"...", "<>", "followed_by"};
  case IN: return {"<<", "contained_in"};
  case CON: return {">>", "containing"};
  case NIN: return {"!<", "not_contained_in"};
  case NCON: return {"!>", "not_containing"};
  case LINK: return {"@", "link"};
  case MAT: return {"materialize"};
  default: return {""};
  }
}
inline std::string print(const Node &n) {
  if (n.op == TERM) return n.term;
  if (n.op == PHRASE) return "\"" + n.term + "\"";
  if (n.op == FIXED) return vp::cat("(# ", n.width, ")");
  std::string s = std::string("(") + canonical(n.op);
  for (auto &k : n.kids) s += " " + print(k);
  return s + ")";
}
inline std::string space(vp::Src &s, bool need) {
  std::string o;
  if (need) o = s.chance(1, 6) ? "\t" : " ";
  while (s.chance(1, 5)) o += s.coin() ? ' ' : '\t';
  return o;
}
// the same query with other spellings and spacing
inline std::string print_loose(vp::Src &s, const Node &n) {
  if (n.op == TERM) return n.term;
  if (n.op == PHRASE) return "\"" + n.term + "\"";
  if (n.op == FIXED) return "(" + space(s, false) + s.pick(aliases(FIXED)) + space(s, true) + vp::cat(n.width) + space(s, false) + ")";
  std::string o = "(" + space(s, false) + s.pick(aliases(n.op));
  bool need = true; // operator must be followed by space or '('
  for (auto &k : n.kids) {
    std::string t = print_loose(s, k);
    bool gap = need && t[0] != '(';
    o += space(s, gap) + t;
    need = t[0] != '(' && t[0] != '"';
    if (t[0] == '"' || t[0] == '(') need = false;
  }
  return o + space(s, false) + ")";
}

// ---- generation -------------------------------------------------------------
struct Gen {
  size_t terms = 4;
  bool phrases = false;
  bool links = true;
  bool mats = false;
  std::vector<std::string> words; // for phrases
};
inline Node gen_term(vp::Src &s, const Gen &g) {
  Node n;
  if (g.phrases && g.words.size() && s.chance(1, 3)) {
    n.op = PHRASE;
    size_t k = 1 + s.below(4);
    for (size_t i = 0; i < k; i++) n.term += (i ? " " : "") + s.pick(g.words);
    return n;
  }
  n.term = s.chance(1, 30) ? "missing" : name(s.below(g.terms));
  return n;
}
inline Node gen_node(vp::Src &s, const Gen &g, int depth);
inline Node fixed_node(vp::Src &s) {
  Node n;
  n.op = FIXED;
  n.width = 1 + (addr)s.below(12);
  return n;
}
inline Node gen_node(vp::Src &s, const Gen &g, int depth) {
  if (depth <= 0 || s.chance(1, 6)) return gen_term(s, g);
  Node n;
  size_t kind = s.weighted({10, 10, 8, 8, 8, 8, 8, g.links ? 2u : 0u, g.mats ? 5u : 0u});
  static const Op ops[] = {AND, OR, SEQ, IN, CON, NIN, NCON, LINK, MAT};
  n.op = ops[kind];
  if (n.op == LINK || n.op == MAT) {
    n.kids.push_back(gen_node(s, g, depth - 1));
    return n;
  }
  bool contain = n.op == IN || n.op == CON || n.op == NIN || n.op == NCON;
  size_t k = s.weighted({8, contain ? 0u : 1u, 3, 1});
  k = k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 3 : 4;
  for (size_t i = 0; i < k; i++) n.kids.push_back(gen_node(s, g, depth - 1));
  // one fixed-width operand beside finite ones, where the result stays finite
  if (k >= 2 && n.op != OR && s.chance(1, 6)) {
    if (n.op == NIN || n.op == NCON)
      n.kids[1 + s.below(k - 1)] = fixed_node(s);
    else if (n.op == IN || n.op == CON) {
      if (s.coin() || n.op == CON) {
        size_t at = s.below(2); // leftmost or second
        n.kids[at] = fixed_node(s);
      } else
        n.kids[1 + s.below(k - 1)] = fixed_node(s);
    } else
      n.kids[s.below(k)] = fixed_node(s);
  }
  return n;
}
// CON with a fixed left operand is finite only if the right one is; with k=2
// or more the fold (fixed >> B) >> C is finite too.  IN likewise.

inline bool has_op(const Node &n, Op op) {
  if (n.op == op) return true;
  for (auto &k : n.kids)
    if (has_op(k, op)) return true;
  return false;
}
inline size_t count_nodes(const Node &n) {
  size_t c = 1;
  for (auto &k : n.kids) c += count_nodes(k);
  return c;
}

// A warren with random lists for the terms, and the matching environment.
struct World {
  std::shared_ptr<FakeWarren> warren;
  Env env;
  ref::Shape sh;
};
inline World gen_world(vp::Src &s, vp::Ctx &c, const Gen &g, size_t maxlen) {
  World w;
  w.warren = FakeWarren::make();
  w.sh.lo = 0;
  w.sh.hi = s.range(3, 60);
  if (s.chance(1, 5)) { w.sh.lo = s.range(0, 1ll << 40); w.sh.hi = w.sh.lo + s.range(3, 60); }
  w.sh.max = maxlen;
  for (size_t i = 0; i < g.terms; i++) {
    ref::Shape one = w.sh;
    if (g.phrases) one.width = s.chance(3, 4) ? 0 : -1;
    List l = ref::gen_list(s, one);
    // values that are addresses, so that links lead somewhere
    if (s.chance(1, 3))
      for (auto &x : l) x.v = cottontail::addr2fval(s.range(w.sh.lo, w.sh.hi));
    w.warren->fake->set(s, w.warren->featurizer()->featurize(name(i)), l);
    w.env.lists[name(i)] = l;
    c.note_f([&] { return vp::cat(name(i), " ", ref::str(l)); });
  }
  return w;
}

// Check a cursor against the expected solutions: full scans in the four
// directions and random probes on the same cursor.
inline void check_cursor(vp::Src &s, vp::Ctx &c, cottontail::Hopper *h, const List &want,
                         const ref::Shape &sh, const std::string &what) {
  int mode = (int)s.below(6);
  if (mode == 0) {
    List got = ref::enumerate(h, 5000);
    c.check_f(ref::equal(got, want), [&] { return vp::cat(what, " by tau: ", ref::diff(got, want)); });
  } else if (mode == 1) {
    List got;
    Iv r;
    for (h->rho(ref::minfinity + 1, &r.p, &r.q, &r.v); r.q < ref::maxfinity; h->rho(r.q + 1, &r.p, &r.q, &r.v)) {
      got.push_back(r);
      c.check(got.size() < 5000, what + " by rho does not terminate");
    }
    c.check_f(ref::equal(got, want), [&] { return vp::cat(what, " by rho: ", ref::diff(got, want)); });
  } else if (mode <= 3) {
    List got;
    Iv r;
    if (mode == 2)
      for (h->uat(ref::maxfinity - 1, &r.p, &r.q, &r.v); r.q > ref::minfinity; h->uat(r.q - 1, &r.p, &r.q, &r.v)) {
        got.push_back(r);
        c.check(got.size() < 5000, what + " by uat does not terminate");
      }
    else
      for (h->ohr(ref::maxfinity - 1, &r.p, &r.q, &r.v); r.p > ref::minfinity; h->ohr(r.p - 1, &r.p, &r.q, &r.v)) {
        got.push_back(r);
        c.check(got.size() < 5000, what + " by ohr does not terminate");
      }
    std::reverse(got.begin(), got.end());
    c.check_f(ref::equal(got, want), [&] { return vp::cat(what, mode == 2 ? " by uat: " : " by ohr: ", ref::diff(got, want)); });
  }
  size_t n = s.len(30) + 2;
  for (size_t i = 0; i < n; i++)
    ref::check_probe(c, h, want, (int)s.below(6), ref::gen_k(s, want, sh.lo - 5, sh.hi + 5), true, what);
}

} // namespace gg
#endif
