// C17: joint commits.  The crash histories of C16 with transactions of several
// clones committed together, and joint commits over different indexes.
#include "c16.h"

namespace {
void stopped(vp::Src &s, vp::Ctx &c) { history(s, c, {false, false, true}); }
void stopped_merging(vp::Src &s, vp::Ctx &c) { history(s, c, {true, false, true}); }
void failing(vp::Src &s, vp::Ctx &c) { history(s, c, {false, true, true}); }

// Several indexes, in memory and stored, some with several clones: after a
// joint commit all of it is there, in a new reader and after reopening.
void several(vp::Src &s, vp::Ctx &c) {
  struct Index {
    std::string dir;
    Model m;
    std::vector<std::shared_ptr<Warren>> w;
  };
  std::string err;
  size_t n = 1 + s.below(4);
  std::vector<Index> x(n);
  for (size_t i = 0; i < n; i++) {
    bool memory = s.chance(1, 3);
    if (!memory) x[i].dir = c.dir() + "/i" + std::to_string(i);
    auto b = memory ? wd::memory(c) : wd::quiet(c, x[i].dir, "tokenizer:name:utf8");
    b->merge(false);
    x[i].m.rules.max_tokens = 6;
    x[i].m.rules.big = false;
    x[i].m.rules.marks = true;
    x[i].w.push_back(b);
    size_t clones = s.below(3);
    for (size_t j = 0; j < clones; j++) x[i].w.push_back(b->clone(&err));
  }
  size_t rounds = 1 + s.below(4), joint = 0;
  for (size_t r = 0; r < rounds; r++) {
    std::vector<std::pair<size_t, size_t>> set;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < x[i].w.size(); j++)
        if (s.chance(2, 3)) set.push_back({i, j});
    for (size_t k = set.size(); k > 1; k--) std::swap(set[k - 1], set[s.below(k)]);
    std::vector<std::shared_ptr<Warren>> ws;
    std::vector<std::shared_ptr<Txn>> ts;
    for (auto &e : set) {
      auto &w = x[e.first].w[e.second];
      auto &m = x[e.first].m;
      auto t = m.gen(s);
      c.check_f(w->transaction(&err), [&] { return "transaction: " + err; });
      dyn::apply(c, *t, w);
      c.check_f(w->ready(&err), [&] { return "ready: " + err; });
      t->base = m.address;
      m.address += t->tokens();
      m.all.push_back(t);
      c.note_f([&] { return vp::cat("round ", r, " index ", e.first, " clone ", e.second, ": ", m.describe(*t)); });
      if (s.chance(1, 10)) { w->abort(); m.all.pop_back(); continue; }
      ws.push_back(w);
      ts.push_back(t);
    }
    Warren::commit_all(ws);
    for (auto &w : ws) c.check(!w->transacting(), "still in a transaction after the joint commit");
    for (auto &t : ts) t->committed = true;
    if (ts.size() > 1) joint++;
    for (auto &i : x) {
      auto y = s.pick(i.w);
      y->start();
      dyn::compare(s, c, y, dyn::committed(i.m), 3, vp::cat("after round ", r));
      y->end();
    }
  }
  for (auto &i : x)
    if (i.dir.size()) {
      i.w.clear();
      auto w = wd::open(c, i.dir);
      w->start();
      dyn::compare(s, c, w, dyn::committed(i.m), 3, "reopened");
      w->end();
    }
  c.nontrivial(joint > 0 && n > 1);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C17";
  sp.level = "fault_enumeration";
  sp.rule = "Random histories in which transactions of up to 4 clones are committed together, run in a child process stopped at a chosen file-system operation (the commands of a replayed commit script count one by one) or with it failing, reopened (itself possibly stopped, twice) and compared with the model: every joint commit that returned is there, one in progress is there whole or not at all, each transaction told by a mark of its own; then the index is used again. Also joint commits over up to 4 different indexes, in memory and stored, compared after return and after reopening. Non-trivial: stopped with something committed; or a joint commit over different indexes.";
  sp.assumptions = {"a stop ends the process; the operating system keeps what was written", "one process uses the index at a time"};
  sp.subs = {{"stopped", 900, 50000, stopped, 120, false, true},
             {"merging", 200, 8000, stopped_merging, 120, true, true},
             {"failing", 300, 15000, failing, 120, false, true},
             {"several", 800, 40000, several, 60, false, true}};
  return vp::run(argc, argv, sp);
}
