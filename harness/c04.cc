// C04: optimisation and materialisation change nothing but cost.
#include "gclgen.h"
using namespace gg;
using cottontail::Hopper;

namespace {
Node atom(vp::Src &s, const Gen &g, bool allow_fixed) {
  if (allow_fixed && s.chance(1, 7)) return fixed_node(s);
  Node n;
  n.term = s.chance(1, 25) ? "missing" : name(s.below(g.terms));
  return n;
}
// nests of all-of over atoms (and sometimes something else) in a container
Node nest(vp::Src &s, const Gen &g, int depth, bool fixed, size_t *terms) {
  Node n;
  n.op = AND;
  size_t k = 1 + s.below(4);
  for (size_t i = 0; i < k; i++) {
    if (depth > 0 && s.chance(1, 3))
      n.kids.push_back(nest(s, g, depth - 1, fixed, terms));
    else {
      n.kids.push_back(atom(s, g, fixed));
      if (n.kids.back().op == TERM) ++*terms;
    }
  }
  return n;
}
Node target(vp::Src &s, const Gen &g) {
  Node n;
  n.op = s.chance(1, 10) ? CON : IN;
  size_t terms = 0;
  Node left = nest(s, g, 2, true, &terms);
  if (s.chance(1, 10)) { left.kids.push_back(gen_node(s, g, 1)); }
  if (terms == 0) {
    Node t;
    t.term = name(s.below(g.terms));
    left.kids.push_back(t);
  }
  n.kids.push_back(left);
  switch (s.weighted({8, 2, 1})) {
  case 0: n.kids.push_back(atom(s, g, false)); break;
  case 1:
    n.kids.push_back(fixed_node(s));
    n.kids.back().width += (addr)s.below(30);
    break;
  default: n.kids.push_back(gen_node(s, g, 1));
  }
  if (s.chance(1, 10)) n.kids.push_back(atom(s, g, false));
  return n;
}
Node around(vp::Src &s, const Gen &g, Node inner, int depth) {
  if (depth == 0 || s.chance(1, 2)) return inner;
  Node n;
  static const Op ops[] = {AND, OR, SEQ, IN, CON, NIN, NCON, LINK};
  n.op = ops[s.below(8)];
  if (n.op == LINK) n.kids.push_back(inner);
  else {
    n.kids.push_back(inner);
    n.kids.push_back(s.chance(1, 3) ? target(s, g) : gen_node(s, g, 1));
    if (s.coin()) std::swap(n.kids[0], n.kids[1]);
  }
  return around(s, g, n, depth - 1);
}

// the same probe history on both cursors, then full scans
void same(vp::Src &s, vp::Ctx &c, Hopper *a, Hopper *b, const ref::Shape &sh, const List &hint,
          const std::string &what) {
  size_t n = s.len(24);
  for (size_t i = 0; i < n; i++) {
    int m = (int)s.below(4);
    addr k = ref::gen_k(s, hint, sh.lo - 5, sh.hi + 5);
    Iv x = ref::probe(a, m, k), y = ref::probe(b, m, k);
    bool ok = x.p == y.p && x.q == y.q && (ref::is_end(x) || ref::same_v(x.v, y.v));
    c.check_f(ok, [&] { return vp::cat(what, ": ", ref::access_name(m), "(", k, ") gives ", ref::str(x), " without and ", ref::str(y), " with"); });
  }
  List x = ref::enumerate(a, 4000), y = ref::enumerate(b, 4000);
  c.check_f(ref::equal(x, y), [&] { return what + ": without/with: " + ref::diff(x, y); });
  if (x.size()) c.nontrivial();
}
std::unique_ptr<Hopper> make(vp::Ctx &c, World &w, const std::string &q, bool opt) {
  if (opt) cottontail::gcl::Optimizer::enable();
  std::string err;
  auto h = w.warren->hopper_from_gcl(q, &err);
  cottontail::gcl::Optimizer::disable();
  c.check(h != nullptr, "query rejected: " + q + ": " + err);
  return h;
}
bool rewritten(World &w, const std::string &q) {
  std::string err;
  auto e = cottontail::gcl::SExpression::from_string(q, &err);
  if (!e) return false;
  cottontail::gcl::Optimizer::enable();
  auto o = cottontail::gcl::Optimizer::optimize(e, w.warren.get());
  cottontail::gcl::Optimizer::disable();
  return o->to_string() != e->to_string();
}

void optimizer(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2 + s.below(5);
  World w = gen_world(s, c, g, s.chance(1, 6) ? 60 : 14);
  Node n = around(s, g, target(s, g), 2);
  std::string q = print(n);
  c.note("query " + q);
  auto a = make(c, w, q, false), b = make(c, w, q, true);
  if (rewritten(w, q)) c.label("rewritten"); else c.label("left alone");
  List hint;
  for (auto &l : w.env.lists) hint.insert(hint.end(), l.second.begin(), l.second.end());
  same(s, c, a.get(), b.get(), w.sh, hint, q);
}

// (<< (^ fixed fixed fixed) fixed): infinitely many solutions, probes answered lazily
void infinite(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2;
  World w = gen_world(s, c, g, 8);
  Node n;
  n.op = IN;
  Node l;
  l.op = AND;
  size_t k = 2 + s.below(3);
  for (size_t i = 0; i < k; i++) l.kids.push_back(fixed_node(s));
  n.kids.push_back(l);
  n.kids.push_back(fixed_node(s));
  n.kids.back().width += (addr)s.below(12);
  std::string q = print(n);
  if (s.coin()) q = "(<< " + name(0) + " " + q + ")";
  c.note("query " + q);
  auto a = make(c, w, q, false), b = make(c, w, q, true);
  for (size_t i = 0; i < 6; i++) {
    int m = (int)s.below(4);
    addr at = s.range(w.sh.lo - 5, w.sh.hi + 5);
    // an expression with no solution at all cannot be probed in finite time
    addr need = 0;
    for (auto &f : l.kids) need = std::max(need, f.width);
    if (need > n.kids[1].width) throw vp::Discard();
    Iv x = ref::probe(a.get(), m, at), y = ref::probe(b.get(), m, at);
    c.check_f(x.p == y.p && x.q == y.q, [&] { return vp::cat(q, ": ", ref::access_name(m), "(", at, ") gives ", ref::str(x), " without and ", ref::str(y), " with optimisation"); });
  }
  c.nontrivial();
}

void strip(Node *n) {
  for (auto &k : n->kids) strip(&k);
  while (n->op == MAT) { Node k = n->kids[0]; *n = k; }
}
void explicit_mat(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2 + s.below(4);
  g.mats = true;
  World w = gen_world(s, c, g, 14);
  Node n = s.chance(1, 3) ? around(s, g, target(s, g), 1) : gen_node(s, g, 1 + (int)s.below(4));
  if (!has_op(n, MAT)) {
    Node m;
    m.op = MAT;
    m.kids.push_back(n);
    n = m;
  }
  Node plain = n;
  strip(&plain);
  std::string q = print(n), q0 = print(plain);
  c.note("query " + q);
  auto a = make(c, w, q0, false), b = make(c, w, q, s.coin());
  List hint;
  for (auto &l : w.env.lists) hint.insert(hint.end(), l.second.begin(), l.second.end());
  same(s, c, a.get(), b.get(), w.sh, hint, q);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C04";
  sp.level = "exploration";
  sp.rule = "Queries biased to the shapes the optimizer looks for (all-of nests inside a container, alone and inside other operators, with fixed-width atoms and containers) and random trees with explicit materialize nodes, over random annotation lists held whole or in shards; the same probe history and a full scan on the optimised and the plain cursor must agree. Non-trivial: the query has at least one solution.";
  sp.assumptions = {"explicit materialize is requested only for expressions with finitely many solutions"};
  sp.subs = {{"optimizer", 900000, 12000000, optimizer}, {"explicit", 500000, 8000000, explicit_mat}, {"infinite", 20000, 400000, infinite, 20}};
  return vp::run(argc, argv, sp);
}
