// C02: query operators against naive set semantics.
#include "gclgen.h"
using namespace gg;

namespace {
void algebra(vp::Src &s, vp::Ctx &c, const Gen &g, int depth, size_t maxlen) {
  World w = gen_world(s, c, g, maxlen);
  Node n = gen_node(s, g, depth);
  std::string q = print(n);
  c.note("query " + q);
  List want = eval(n, w.env);
  std::string err;
  auto h = w.warren->hopper_from_gcl(q, &err);
  c.check(h != nullptr, "query rejected: " + q + ": " + err);
  c.label(std::string("top ") + (n.op == TERM || n.op == PHRASE ? "term" : canonical(n.op)));
  check_cursor(s, c, h.get(), want, w.sh, q);
  if (count_nodes(n) >= 3 && want.size() >= 1) c.nontrivial();
}
void trees(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2 + s.below(4);
  algebra(s, c, g, 1 + (int)s.below(4), 14);
}
void binary(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 3;
  algebra(s, c, g, 1, s.chance(1, 4) ? 60 : 25);
}
void phrases(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2 + s.below(2);
  g.phrases = true;
  for (size_t i = 0; i < g.terms; i++) g.words.push_back(name(i));
  algebra(s, c, g, (int)s.below(3), 30);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C02";
  sp.level = "exploration";
  sp.rule = "Random operator trees (depth up to 4, n-ary, fixed-width operands beside finite ones, links, phrases) over 2 to 5 random annotation lists, each held whole or over several shards; evaluated through the query interface and compared with a naive quadratic evaluation of the set definitions, by full scans in the four directions and by random probe histories on the same cursor. Non-trivial: at least 3 nodes and a non-empty result.";
  sp.assumptions = {"fixed-width operands occur only beside a finite operand, where the result is finite", "values are compared except at end-of-list sentinels"};
  sp.subs = {{"binary", 1500000, 30000000, binary}, {"trees", 1500000, 20000000, trees}, {"phrases", 700000, 10000000, phrases}};
  return vp::run(argc, argv, sp);
}
