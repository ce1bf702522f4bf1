// Random histories of a dynamic index: several handles, each reading a
// snapshot and writing transactions, planned against the reference model and
// then carried out.
#ifndef VERIF_HARNESS_HIST_H_
#define VERIF_HARNESS_HIST_H_
#include <unistd.h>
#include "dyn.h"
namespace hist {
using namespace dyn;

enum What { BEGIN, APPLY, READY, COMMIT, ABORT, JOINT, START, END, CLONE, DROP, LOOK, HOLD, PROBE, MISUSE, MERGE_ON, MERGE_OFF, PAUSE, REOPEN };
struct Step {
  What what;
  size_t h = 0, other = 0;
  std::shared_ptr<Txn> txn;
  std::vector<size_t> set;
  View view;        // what a look has to show
  std::string name; // feature of a held cursor
  List list;        // and what it shows
  uint64_t seed = 0;
};
struct Rules {
  dyn::Rules txn;
  bool reopen = false;  // the index is stored
  bool merges = false;  // merging may be switched on
  size_t handles = 4;
  size_t steps = 40;
  size_t transactions = 12;
  size_t effort = 4;
};
struct Plan {
  std::vector<Step> steps;
  Model model;
  size_t committed = 0, looks = 0, stale = 0, erasures = 0;
  std::string describe() const {
    static const char *names[] = {"begin", "apply", "ready", "commit", "abort", "commit together", "start", "end", "clone", "drop", "look", "hold", "probe", "misuse", "merging on", "merging off", "pause", "reopen"};
    std::string o;
    for (auto &st : steps) {
      o += vp::cat(st.h, " ", names[st.what]);
      if (st.what == APPLY) o += ": " + model.describe(*st.txn);
      if (st.what == CLONE) o += vp::cat(" as ", st.other);
      if (st.what == MISUSE) o += vp::cat(" ", st.other);
      if (st.what == JOINT) for (auto j : st.set) o += vp::cat(" ", j);
      if (st.what == HOLD || st.what == PROBE) o += vp::cat(" ", vp::show(st.name), " #", st.other);
      if (st.what == LOOK) { o += " at ["; for (auto &t : st.view.txns) o += vp::cat(t->base, "+", t->tokens(), " "); o += "]"; }
      o += "\n";
    }
    return o;
  }
};
inline addr next_address(const Model &m) {
  addr a = 0;
  for (auto &t : m.all)
    if (t->committed && t->tokens()) a = t->base + t->tokens();
  return a;
}

inline Plan plan(vp::Src &s, const Rules &r) {
  Plan pl;
  Model &m = pl.model;
  m.rules = r.txn;
  struct H {
    bool alive = false, started = false;
    View snap;
    size_t at = 0;     // commits seen by the snapshot
    int state = 0;     // 0 idle 1 begun 2 applied 3 ready
    std::shared_ptr<Txn> t;
    std::vector<std::pair<size_t, std::pair<std::string, List>>> held;
  };
  std::vector<H> h(1);
  h[0].alive = true;
  size_t alive = 1, held = 0, left = r.transactions;
  auto forget = [&](H &x) {
    auto it = std::find(m.all.begin(), m.all.end(), x.t);
    if (x.state && x.state < 3 && it != m.all.end()) m.all.erase(it);
    x.state = 0;
    x.t = nullptr;
  };
  auto push = [&](What w, size_t i) -> Step & {
    pl.steps.emplace_back();
    pl.steps.back().what = w;
    pl.steps.back().h = i;
    return pl.steps.back();
  };
  auto look = [&](size_t i) {
    Step &st = push(LOOK, i);
    st.view = h[i].snap;
    st.seed = s.raw();
    pl.looks++;
    if (h[i].at < pl.committed) pl.stale++;
  };
  auto start = [&](size_t i) {
    push(START, i);
    h[i].started = true;
    h[i].snap = dyn::committed(m);
    h[i].at = pl.committed;
  };
  auto commit = [&](H &x) {
    x.t->committed = true;
    x.state = 0;
    pl.committed++;
    pl.erasures += x.t->erase.size();
    x.t = nullptr;
  };
  size_t n = 5 + s.below(r.steps);
  for (size_t k = 0; k < n; k++) {
    std::vector<size_t> who;
    for (size_t i = 0; i < h.size(); i++) if (h[i].alive) who.push_back(i);
    size_t i = s.pick(who);
    H &x = h[i];
    size_t what = s.weighted({10, 4, 3, 2, 1, 1, 1, r.merges ? 1u : 0u, r.reopen ? 1u : 0u});
    if (what == 1) { // reading
      if (!x.started) start(i);
      else if (s.chance(1, 4)) { push(END, i); x.started = false; x.held.clear(); }
      else look(i);
    } else if (what == 2) {
      if (x.started) look(i); else { start(i); look(i); }
    } else if (what == 3 && x.started) { // cursors held across other steps
      if (x.held.empty() || (x.held.size() < 3 && s.coin())) {
        Step &st = push(HOLD, i);
        auto names = x.snap.names();
        st.name = s.pick(names);
        st.list = x.snap.list(st.name);
        st.other = held++;
        x.held.push_back({st.other, {st.name, st.list}});
      } else {
        Step &st = push(PROBE, i);
        auto &e = s.pick(x.held);
        st.other = e.first;
        st.name = e.second.first;
        st.list = e.second.second;
        st.seed = s.raw();
      }
    } else if (what == 4 && alive < r.handles) {
      Step &st = push(CLONE, i);
      H y;
      y.alive = true;
      y.started = x.started;
      y.snap = x.snap;
      y.at = x.at;
      st.other = h.size();
      h.push_back(y);
      alive++;
    } else if (what == 5 && alive > 1) {
      push(DROP, i);
      forget(x);
      x = H();
      alive--;
    } else if (what == 6) {
      Step &st = push(MISUSE, i);
      // 0: ready outside, 1: abort outside, 2: begin again, 3: ready again, 4: change after ready, 5: late change
      st.other = x.state == 0 ? s.below(2) : x.state < 3 ? 2 : 2 + s.below(3);
      if (s.chance(1, 6)) { push(PAUSE, i).seed = s.below(2000); }
    } else if (what == 7) {
      push(s.coin() ? MERGE_ON : MERGE_OFF, i);
    } else if (what == 8) {
      for (auto &y : h) forget(y);
      push(REOPEN, 0);
      h.assign(h.size() + 1, H());
      pl.steps.back().other = h.size() - 1;
      h.back().alive = true;
      alive = 1;
      std::vector<std::shared_ptr<Txn>> keep;
      for (auto &t : m.all) if (t->committed) keep.push_back(t);
      m.all = keep;
      m.address = next_address(m);
      start(h.size() - 1);
      look(h.size() - 1);
    } else { // writing
      switch (x.state) {
      case 0:
        if (left == 0) break;
        left--;
        push(BEGIN, i);
        x.state = 1;
        break;
      case 1:
        x.t = m.gen(s);
        m.all.push_back(x.t);
        push(APPLY, i).txn = x.t;
        x.state = 2;
        break;
      case 2:
        if (s.chance(1, 10)) {
          push(ABORT, i);
          forget(x);
          break;
        }
        push(READY, i).txn = x.t;
        x.t->base = m.address;
        m.address += x.t->tokens();
        m.all.erase(std::find(m.all.begin(), m.all.end(), x.t));
        m.all.push_back(x.t);
        x.state = 3;
        break;
      default: {
        std::vector<size_t> ready;
        for (size_t j = 0; j < h.size(); j++) if (h[j].alive && h[j].state == 3) ready.push_back(j);
        if (s.chance(1, 7)) { push(ABORT, i); x.state = 0; x.t = nullptr; }
        else if (ready.size() > 1 && s.chance(1, 4)) {
          push(JOINT, i).set = ready;
          for (auto j : ready) commit(h[j]);
        } else { push(COMMIT, i); commit(x); }
        if (x.started && s.coin()) look(i); // its own view is unchanged
      }
      }
    }
  }
  // at the end every reader still sees its snapshot, and a new one everything
  for (size_t i = 0; i < h.size(); i++)
    if (h[i].alive && h[i].started) look(i);
  for (size_t i = 0; i < h.size(); i++)
    if (h[i].alive) {
      if (h[i].started) push(END, i);
      start(i);
      look(i);
      break;
    }
  return pl;
}

// Carries out a plan (or part of one) on an index.
struct Runner {
  vp::Ctx &c;
  std::function<std::shared_ptr<Bigwig>()> make; // first handle
  size_t effort = 4;
  bool counts = false;
  std::vector<std::shared_ptr<Warren>> h;
  std::map<size_t, std::unique_ptr<Hopper>> held;
  std::map<size_t, size_t> owner;

  void drop_cursors(size_t i) {
    for (auto it = owner.begin(); it != owner.end();)
      if (it->second == i) { held.erase(it->first); it = owner.erase(it); } else ++it;
  }
  std::shared_ptr<Warren> &at(size_t i) {
    if (i >= h.size()) h.resize(i + 1);
    return h[i];
  }
  void run(const std::vector<Step> &steps) {
    if (h.empty()) at(0) = make();
    size_t k = 0;
    for (auto &st : steps) step(st, vp::cat("step ", k++, ", handle ", st.h));
  }
  void step(const Step &st, const std::string &where) {
    std::string err;
    if (st.what == REOPEN) {
      held.clear();
      owner.clear();
      h.clear();
      at(st.other) = make();
      return;
    }
    auto &w = at(st.h);
    switch (st.what) {
    case BEGIN: c.check_f(w->transaction(&err), [&] { return where + ": transaction: " + err; }); break;
    case APPLY: dyn::apply(c, *st.txn, w); break;
    case READY: c.check_f(w->ready(&err), [&] { return where + ": ready: " + err; }); break;
    case COMMIT: w->commit(); break;
    case ABORT: w->abort(); break;
    case JOINT: {
      std::vector<std::shared_ptr<Warren>> set;
      for (auto j : st.set) set.push_back(at(j));
      Warren::commit_all(set);
      break;
    }
    case START: w->start(); break;
    case END: drop_cursors(st.h); w->end(); break;
    case CLONE: {
      bool started = w->started();
      auto y = w->clone(&err);
      c.check_f(y != nullptr, [&] { return where + ": clone: " + err; });
      c.check(y->started() == started, where + ": the clone differs in being started");
      at(st.other) = y;
      break;
    }
    case DROP: drop_cursors(st.h); w = nullptr; break;
    case LOOK: {
      vp::Src q(st.seed, 50, nullptr);
      dyn::compare(q, c, w, st.view, effort, where, counts);
      break;
    }
    case HOLD: {
      auto x = w->idx()->hopper(w->featurizer()->featurize(st.name));
      c.check(x != nullptr, where + ": no cursor");
      held[st.other] = std::move(x);
      owner[st.other] = st.h;
      break;
    }
    case PROBE: {
      vp::Src q(st.seed, 50, nullptr);
      for (size_t i = 0; i < 5; i++) ref::check_probe(c, held[st.other].get(), st.list, q.below(6), ref::gen_k(q, st.list, -2, 60), true, where + ", held cursor");
      break;
    }
    case MISUSE:
      switch (st.other) {
      case 0: c.check(!w->ready(&err) && err.size(), where + ": ready accepted outside a transaction"); break;
      case 1: w->abort(); break;
      case 2: c.check(!w->transaction(&err) && err.size(), where + ": a second transaction accepted"); break;
      case 3: c.check_f(w->ready(&err), [&] { return where + ": ready refused when asked again: " + err; }); break;
      default: {
        addr p, q;
        addr f = w->featurizer()->featurize(tag(0));
        c.check(!w->appender()->append("late text added", &p, &q, &err) && err.size(), where + ": text accepted after ready");
        err = "";
        c.check(!w->annotator()->annotate(f, 0, 0, 0.0, &err) && err.size(), where + ": annotation accepted after ready");
        err = "";
        c.check(!w->annotator()->erase(0, 1000, &err) && err.size(), where + ": erasure accepted after ready");
      }
      }
      break;
    case MERGE_ON: std::dynamic_pointer_cast<Bigwig>(w)->merge(true); break;
    case MERGE_OFF: std::dynamic_pointer_cast<Bigwig>(w)->merge(false); break;
    case PAUSE: usleep((useconds_t)st.seed); break;
    default: break;
    }
  }
};
} // namespace hist
#endif
