#ifndef VERIF_HARNESS_C16_H_
#define VERIF_HARNESS_C16_H_
// C16: crash safety of a dynamic index.  A session of random transactions runs
// in a child process that is stopped at a chosen file-system operation (or has
// it fail); the index is then reopened, itself possibly stopped, and compared
// with the model; then it is used further and reopened once more.
#include <unistd.h>
#include "crash.h"
#include "crash_impl.h"
#include "dyn.h"
#include "vp.h"
using namespace cottontail;
using dyn::Model;
using dyn::Txn;
using dyn::View;

namespace {
enum What { BEGIN, APPLY, READY, COMMIT, ABORT, JOINT, MERGE, PAUSE };
struct Step {
  What what;
  size_t writer = 0;
  std::shared_ptr<Txn> txn;
  std::vector<size_t> writers; // of a joint commit
  uint64_t r = 0;
};
struct Session {
  std::vector<Step> steps;
  std::vector<std::shared_ptr<Txn>> txns; // in order of ready
  size_t writers = 1;
  bool merge = false;
  bool manual = false; // shards merged by hand, sources left or removed
};
// shared progress: per transaction 0 none, 1 ready ok, 2 commit begun, 3 done, 4 abort begun, 5 ready refused
void progress(const Session &ss, const Txn *t, long v) {
  for (size_t i = 0; i < ss.txns.size(); i++)
    if (ss.txns[i].get() == t) crash::shared()->v[i] = v;
}
addr next_address(const Model &m) {
  addr a = 0;
  for (auto &t : m.all)
    if (t->committed && t->tokens()) a = t->base + t->tokens();
  return a;
}
// Steps of interleaved transactions over a few writers; sets addresses.
Session plan(vp::Src &s, Model &m, size_t n, bool joint_only) {
  Session ss;
  ss.writers = 1 + s.below(joint_only ? 4 : 3);
  struct W { std::shared_ptr<Txn> t; int state = 0; }; // 0 idle 1 begun 2 applied 3 ready
  std::vector<W> w(ss.writers);
  size_t left = n;
  while (true) {
    std::vector<size_t> can;
    bool open = false;
    for (size_t i = 0; i < w.size(); i++) {
      if (w[i].state) open = true;
      if (w[i].state || left > 0) can.push_back(i);
    }
    if (can.empty()) break;
    if (!open && left > 0 && joint_only && s.chance(1, 3) && ss.steps.size()) { left--; continue; }
    size_t i = s.pick(can);
    W &x = w[i];
    Step st;
    st.writer = i;
    switch (x.state) {
    case 0:
      left--;
      st.what = BEGIN;
      x.state = 1;
      break;
    case 1:
      x.t = m.gen(s);
      m.all.push_back(x.t);
      st.what = APPLY;
      st.txn = x.t;
      x.state = 2;
      break;
    case 2:
      if (s.chance(1, 10)) { // abandoned before ready
        m.all.erase(std::find(m.all.begin(), m.all.end(), x.t));
        st.what = ABORT;
        st.txn = x.t;
        x.state = 0;
        break;
      }
      st.what = READY;
      st.txn = x.t;
      x.t->base = m.address;
      m.address += x.t->tokens();
      m.all.erase(std::find(m.all.begin(), m.all.end(), x.t));
      m.all.push_back(x.t);
      ss.txns.push_back(x.t);
      x.state = 3;
      break;
    default: {
      std::vector<size_t> ready;
      for (size_t j = 0; j < w.size(); j++) if (w[j].state == 3) ready.push_back(j);
      st.txn = x.t;
      if (s.chance(1, 8)) st.what = ABORT, x.state = 0;
      else if (s.chance(joint_only ? 9 : 1, joint_only ? 10 : 6)) {
        st.what = JOINT;
        st.writers = ready;
        for (auto j : ready) w[j].state = 0;
      } else st.what = COMMIT, x.state = 0;
    }
    }
    ss.steps.push_back(st);
    if (s.chance(1, 12)) { Step p; p.what = PAUSE; p.r = s.below(3000); ss.steps.push_back(p); }
    if (ss.manual && !open && s.chance(1, 3)) { Step p; p.what = MERGE; p.r = s.raw(); ss.steps.push_back(p); }
  }
  return ss;
}
std::string describe(const Model &m, const Session &ss) {
  std::string o;
  for (auto &st : ss.steps) {
    if (st.what == PAUSE || st.what == MERGE) continue;
    static const char *names[] = {"begin", "apply", "ready", "commit", "abort", "commit all", "merge", "pause"};
    o += vp::cat("  writer ", st.writer, " ", names[st.what]);
    if (st.what == APPLY) o += ": " + m.describe(*st.txn);
    if (st.what == JOINT) { o += " of"; for (auto j : st.writers) o += vp::cat(" ", j); }
    o += "\n";
  }
  return o;
}
std::shared_ptr<Warren> open_index(vp::Ctx &c, const std::string &dir) { return wd::open(c, dir); }

// In the child.  faulty: operations may be refused, which must show.
void execute(vp::Ctx &c, const std::string &dir, const Session &ss, bool faulty) {
  std::string err;
  auto main = std::dynamic_pointer_cast<Bigwig>(open_index(c, dir));
  std::vector<std::shared_ptr<Warren>> w;
  for (size_t i = 0; i < ss.writers; i++) w.push_back(i == 0 ? main : main->clone(&err));
  std::vector<std::shared_ptr<Txn>> open(ss.writers);
  std::vector<bool> skip(ss.writers, false);
  for (auto &st : ss.steps) {
    if (st.what == PAUSE) { usleep(ss.merge ? (useconds_t)st.r : 0); continue; }
    if (st.what == MERGE) continue;
    auto x = w[st.writer];
    auto refused = [&](const std::string &what) {
      if (!faulty) c.fail(what + ": " + err);
      c.check_f(err.size() > 0, [&] { return what + " refused without an error"; });
      x->abort();
      skip[st.writer] = true;
    };
    switch (st.what) {
    case BEGIN:
      skip[st.writer] = false;
      err = "";
      if (!x->transaction(&err)) refused("transaction");
      break;
    case APPLY:
      if (!skip[st.writer]) dyn::apply(c, *st.txn, x);
      break;
    case READY:
      if (skip[st.writer]) break;
      err = "";
      if (x->ready(&err)) progress(ss, st.txn.get(), 1);
      else { progress(ss, st.txn.get(), 5); refused("ready"); }
      open[st.writer] = st.txn;
      break;
    case COMMIT:
      if (skip[st.writer]) break;
      if (faulty) crash::disarm(); // a commit has no way to fail
      progress(ss, st.txn.get(), 2);
      x->commit();
      progress(ss, st.txn.get(), 3);
      break;
    case ABORT:
      if (skip[st.writer]) break;
      progress(ss, st.txn.get(), 4);
      x->abort();
      break;
    case JOINT: {
      if (faulty) crash::disarm();
      std::vector<std::shared_ptr<Warren>> set;
      std::vector<Txn *> ts;
      for (auto j : st.writers)
        if (!skip[j]) { set.push_back(w[j]); ts.push_back(open[j].get()); }
      for (auto t : ts) progress(ss, t, 2);
      if (set.size()) Warren::commit_all(set);
      for (auto t : ts) progress(ss, t, 3);
      break;
    }
    default: break;
    }
  }
}
// The joint commits of a session, as groups of transactions.
std::vector<std::vector<std::shared_ptr<Txn>>> groups(const Session &ss) {
  std::vector<std::vector<std::shared_ptr<Txn>>> g;
  std::vector<std::shared_ptr<Txn>> open(ss.writers);
  for (auto &st : ss.steps) {
    if (st.what == READY) open[st.writer] = st.txn;
    if (st.what == COMMIT) g.push_back({st.txn});
    if (st.what == JOINT) { g.emplace_back(); for (auto j : st.writers) g.back().push_back(open[j]); }
  }
  return g;
}
void copy(const std::string &a, const std::string &b) {
  std::string cmd = "/bin/rm -rf '" + b + "' && /bin/cp -a '" + a + "' '" + b + "'";
  if (system(cmd.c_str()) != 0) throw vp::Discard();
}
// Reopen in child processes, stopped at most `stops` times; settle what the
// model holds; compare; `then` runs in the child after the comparison.
void recover(vp::Src &s, vp::Ctx &c, const std::string &dir, Model &m, const std::vector<std::vector<std::shared_ptr<Txn>>> &maybe, size_t stops, const std::string &where) {
  for (size_t i = 0; i < stops; i++) {
    long at = 1 + (long)s.below(12);
    auto o = crash::child(c, dir + "/", s.coin() ? crash::STOP : crash::STOP_HALF, at, [&] {
      auto w = open_index(c, dir);
      w->start();
      w->end();
    });
    if (o.stopped) c.label("recovery stopped");
    c.check_f(o.ok || o.stopped, [&] { return vp::cat(where, ", reopening: ", o.message); });
  }
  // which of the undecided groups are there?
  uint64_t seed = s.raw();
  size_t variants = 1u << maybe.size();
  auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
    auto w = open_index(c, dir);
    w->start();
    std::string why;
    for (size_t k = variants; k-- > 0;) { // largest first: what is supposed to be there shows by its mark
      for (size_t g = 0; g < maybe.size(); g++) for (auto &t : maybe[g]) t->committed = (k >> g) & 1;
      View v = dyn::committed(m);
      try {
        vp::Src q(seed, 50, nullptr);
        dyn::compare(q, c, w, v, 3, vp::cat(where, maybe.size() ? vp::cat(" (supposing case ", k, ")") : ""));
        crash::shared()->v[0] = (long)k;
        return;
      } catch (const vp::Failure &f) { why += std::string(f.what()).substr(0, 600) + "\n"; }
    }
    c.fail(why);
  });
  c.check_f(o.ok, [&] { return vp::cat(where, ", reopened: ", o.message); });
  long k = crash::shared()->v[0];
  for (size_t g = 0; g < maybe.size(); g++) {
    if ((k >> g) & 1) c.label("undecided commit present"); else c.label("undecided commit absent");
    for (auto &t : maybe[g]) t->committed = (k >> g) & 1;
  }
  std::vector<std::shared_ptr<Txn>> keep;
  for (auto &t : m.all) if (t->committed) keep.push_back(t);
  m.all = keep;
  m.address = next_address(m);
}
// After a session that ended somehow: what is committed, and what undecided.
std::vector<std::vector<std::shared_ptr<Txn>>> settle(const Session &ss) {
  std::vector<std::vector<std::shared_ptr<Txn>>> maybe;
  auto state = [&](const std::shared_ptr<Txn> &t) { for (size_t i = 0; i < ss.txns.size(); i++) if (ss.txns[i] == t) return crash::shared()->v[i]; return 0l; };
  for (auto &t : ss.txns) t->committed = state(t) == 3;
  for (auto &g : groups(ss)) {
    bool begun = false;
    std::vector<std::shared_ptr<Txn>> in;
    for (auto &t : g) { begun = begun || state(t) == 2; if (state(t) == 2 || state(t) == 3) in.push_back(t); }
    if (begun && in.size()) maybe.push_back(in);
  }
  return maybe;
}
struct Options { bool merge, faults, joint; };
void history(vp::Src &s, vp::Ctx &c, Options opt) {
  std::string base = c.dir() + "/base", dir = c.dir() + "/run", err;
  {
    std::string options = "tokenizer:name:utf8";
    if (s.coin()) options += " idx:posting_compressor:post";
    if (s.coin()) options += " txt:compressor:zlib";
    auto b = Bigwig::make(base, options, &err);
    c.check(b != nullptr, "make: " + err);
    if (!opt.merge) b->merge(false);
  }
  Model m;
  m.rules.max_tokens = 6;
  m.rules.big = s.chance(1, 10);
  m.rules.erasures = s.chance(1, 3);
  m.rules.cross_nest = !m.rules.erasures;
  m.rules.features = 3;
  m.rules.marks = true; // so that an undecided commit can be told
  size_t sessions = 1 + s.below(3);
  bool stopped = false;
  size_t done = 0;
  for (size_t r = 0; r < sessions; r++) {
    Session ss = plan(s, m, opt.joint ? 1 + s.below(8) : 1 + s.below(opt.merge ? 12 : 4), opt.joint);
    ss.merge = opt.merge;
    c.note_f([&] { return vp::cat("session ", r, ":\n", describe(m, ss)); });
    copy(base, dir);
    // how many operations it takes
    auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] { execute(c, dir, ss, false); });
    c.check_f(o.ok, [&] { return vp::cat("session ", r, " undisturbed: ", o.message); });
    long total = o.ops + 2;
    copy(base, dir);
    crash::Mode mode = opt.faults ? (s.coin() ? crash::FAIL_ONE : crash::FAIL_FROM) : (s.coin() ? crash::STOP : crash::STOP_HALF);
    long at = 1 + (long)s.below(total);
    c.note(vp::cat(opt.faults ? "fails" : "stops", mode == crash::STOP_HALF || mode == crash::FAIL_FROM ? "+" : "", " at ", at, " of ", total));
    o = crash::child(c, dir + "/", mode, at, [&] { execute(c, dir, ss, opt.faults); });
    if (o.stopped) { stopped = true; c.label("session stopped"); }
    if (opt.faults) { // giving up is no worse than being stopped
      if (o.died) c.label("gave up");
      if (!o.ok && o.failed && o.message.find("opening the index") == 0) { c.label("open refused"); o.ok = true; }
      c.check_f(o.ok || o.died, [&] { return vp::cat("session ", r, " with a failing operation: ", o.message); });
      stopped = true;
    } else
      c.check_f(o.ok || o.stopped, [&] { return vp::cat("session ", r, ": ", o.message); });
    auto maybe = settle(ss);
    for (auto &t : ss.txns) done += t->committed;
    recover(s, c, dir, m, maybe, s.below(3), vp::cat("after session ", r));
    copy(dir, base);
  }
  c.nontrivial(stopped && done > 0);
}
void commits(vp::Src &s, vp::Ctx &c) { history(s, c, {false, false, false}); }
void merging(vp::Src &s, vp::Ctx &c) { history(s, c, {true, false, false}); }
void faults(vp::Src &s, vp::Ctx &c) { history(s, c, {false, true, false}); }

// Shards merged and converted by hand in a process stopped on the way.
void offline(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/run", err;
  {
    auto b = Bigwig::make(dir, "tokenizer:name:utf8", &err);
    c.check(b != nullptr, "make: " + err);
    b->merge(false);
  }
  Model m;
  m.rules.max_tokens = 6;
  m.rules.big = s.chance(1, 10);
  m.rules.erasures = s.chance(1, 3);
  m.rules.cross_nest = !m.rules.erasures;
  m.rules.features = 3;
  m.rules.marks = true; // so that an undecided commit can be told
  {
    Session ss = plan(s, m, 2 + s.below(5), false);
    c.note_f([&] { return describe(m, ss); });
    auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] { execute(c, dir, ss, false); });
    c.check_f(o.ok, [&] { return "building: " + o.message; });
    auto maybe = settle(ss);
    recover(s, c, dir, m, maybe, 0, "built");
  }
  addr chunk = 1 + (addr)s.below(3000);
  bool stopped = false;
  size_t rounds = 1 + s.below(4);
  for (size_t r = 0; r < rounds; r++) {
    uint64_t seed = s.raw();
    long at = 1 + (long)s.below(60);
    auto o = crash::child(c, dir + "/", s.coin() ? crash::STOP : crash::STOP_HALF, at, [&] {
      vp::Src q(seed, 50, nullptr);
      auto working = Working::make(dir, &err);
      auto featurizer = Featurizer::make("hashing", "");
      auto tokenizer = Tokenizer::make("utf8", "");
      for (size_t step = 0; step < 3; step++) {
        std::vector<OwslaShard> fivers, hazels;
        std::vector<HazelMergeRecovery> rec;
        c.check(Fiver::sanitize(working, &fivers, &err), "sanitize: " + err);
        c.check(Hazel::sanitize(working, &hazels, &rec, &err), "sanitize: " + err);
        std::vector<OwslaShard> live;
        for (auto &f : fivers) { bool dead = false; for (auto &h : hazels) dead = dead || owsla_range_contains(h, f); if (!dead) live.push_back(f); }
        bool on_fivers = hazels.size() < 2 || (live.size() > 0 && q.coin());
        auto &set = on_fivers ? live : hazels;
        if (set.empty()) continue;
        size_t i = q.below(set.size()), j = i;
        auto apart = [&](size_t a) {
          for (auto &x : on_fivers ? hazels : live) if (x.start > set[a].end && x.end < set[a + 1].start) return true;
          return false;
        };
        while (j + 1 < set.size() && !apart(j) && q.chance(2, 3)) j++;
        if (!on_fivers) for (size_t x = i; x < j; x++) if (set[x].end + 1 != set[x + 1].start) j = x;
        auto load = [&](const OwslaShard &x) {
          auto f = Fiver::unpickle(x.name, working, featurizer, tokenizer, &err);
          c.check(f != nullptr, "unpickle: " + err);
          f->start();
          return f;
        };
        if (on_fivers && (j == i || q.chance(1, 4))) {
          auto f = load(set[i]);
          c.check(f->hazel(&err, chunk, "") != nullptr, "convert: " + err);
          f->discard();
        } else if (on_fivers) {
          std::vector<std::shared_ptr<Fiver>> fs;
          for (size_t x = i; x <= j; x++) fs.push_back(load(set[x]));
          auto f = Fiver::merge(fs, &err);
          c.check(f != nullptr && f->pickle(&err), "merge: " + err);
          for (auto &x : fs) x->discard();
        } else if (j > i) {
          std::vector<std::shared_ptr<Hazel>> hs;
          for (size_t x = i; x <= j; x++) {
            auto h = std::dynamic_pointer_cast<Hazel>(Warren::make(working->make_name(set[x].name), &err));
            c.check(h != nullptr, "hazel: " + err);
            hs.push_back(h);
          }
          auto h = Hazel::merge(hs, working->make_name(hazel_default_name(set[i].start, set[j].end)), nullptr, &err);
          c.check(h != nullptr, "merge: " + err);
          for (auto &x : hs) x->discard();
        }
      }
    });
    if (o.stopped) { stopped = true; c.label("merge stopped"); }
    c.check_f(o.ok || o.stopped, [&] { return vp::cat("merging round ", r, ": ", o.message); });
    recover(s, c, dir, m, {}, s.below(2), vp::cat("after merging round ", r));
    if (s.chance(1, 3)) { // and it remains usable
      Session ss = plan(s, m, 1 + s.below(2), false);
      auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] { execute(c, dir, ss, false); });
      c.check_f(o.ok, [&] { return vp::cat("used after merging round ", r, ": ", o.message); });
      auto maybe = settle(ss);
      recover(s, c, dir, m, maybe, 0, vp::cat("used after merging round ", r));
    }
  }
  c.nontrivial(stopped);
}
} // namespace
#endif
