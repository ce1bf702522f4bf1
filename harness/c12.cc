// C12: transactions on a static index, against a model, with stops and failures.
#include "crash.h"
#ifndef __SANITIZE_ADDRESS__
#include "crash_impl.h"
#endif
#include "sm.h"
#include "src/annotator.h"
#include "src/appender.h"
#include "src/dna.h"
#include "src/recipe.h"
#include "src/warren.h"
using namespace cottontail;
namespace {
struct Op { bool text; std::string t; sm::Ann a; };
struct Txn { std::vector<Op> ops; sm::Model after; };
Txn gen_txn(vp::Src &s, vp::Ctx &c, const sm::Model &now, bool big) {
  Txn t;
  t.after = now;
  for (size_t n = s.len(10); n--;) {
    if (s.below(3)) {
      Op o{true, sm::gen_text(s, now, big && s.chance(1, 6)), {}};
      if (now.xml && sm::leaves_markup_open(o.t)) o.t += "\n";
      addr p, q;
      t.after.append(o.t, &p, &q);
      c.note_f([&] { return "text " + vp::show(o.t, 200); });
      t.ops.push_back(o);
    } else
      for (auto &a : sm::gen_annotations(s, t.after, 8)) {
        if (a.feature < 0) continue;
        t.after.annotate(a.feature, a.p, a.q, a.v);
        c.note_f([&] { return vp::cat("annotate ", a.feature, " (", a.p, ",", a.q, ")=", a.v); });
        t.ops.push_back({false, "", a});
      }
  }
  if (s.chance(1, 5)) { // ends where a block of text begins
    Op o{true, sm::fill(s, t.after), {}};
    addr p, q;
    t.after.append(o.t, &p, &q);
    c.note(vp::cat("text of ", q - p + 1, " words"));
    t.ops.push_back(o);
  }
  return t;
}
sm::Model built(vp::Src &s, vp::Ctx &c, const std::string &dir) {
  std::string err, tname, trecipe;
  auto working = Working::mkdir(dir, &err);
  c.check(working != nullptr, "working: " + err);
  sm::Model m;
  sm::gen_tokenizer(s, &m, &tname, &trecipe);
  m.featurizer = Featurizer::make("hashing", "");
  static const std::vector<std::string> pcs = {"post", "null", "zlib"}, fcs = {"zlib", "null"}, tcs = {"zlib", "null"};
  std::string pc = s.pick(pcs), fc = s.pick(fcs), tc = s.pick(tcs);
  auto b = SimpleBuilder::make(working, m.featurizer, m.tokenizer, &err, 1 << 20, 1 << 20, pc, "", fc, "", tc, "");
  c.check_f(b != nullptr, [&] { return "builder: " + err; });
  c.note("built: " + tname + ":" + trecipe + " " + pc + " " + fc + " " + tc);
  Txn t = gen_txn(s, c, m, true);
  for (auto &o : t.ops) {
    addr p, q;
    c.check(o.text ? b->add_text(o.t, &p, &q, &err) : b->add_annotation(o.a.feature, o.a.p, o.a.q, o.a.v, &err), "build: " + err);
  }
  c.check(b->finalize(&err), "finalize: " + err);
  if (s.chance(1, 4)) { auto w = Warren::make(dir, &err); c.check(w && w->set_parameter("preload", "yes", &err), "preload: " + err); }
  if (s.coin()) { // many small files of annotations
    std::string dna, n = std::to_string(s.coin() ? 60 + s.below(300) : t.after.tokens() < 500 ? 30 : 100);
    c.check(read_dna(working, &dna, &err), "dna: " + err);
    std::map<std::string, std::string> ps, is, rs;
    c.check(cook(dna, &ps, &err) && cook(ps["idx"], &is, &err) && (is["recipe"].empty() || cook(is["recipe"], &rs, &err)), "dna: " + err);
    rs["add_file_size"] = n;
    is["recipe"] = freeze(rs);
    ps["idx"] = freeze(is);
    c.check(write_dna(working, freeze(ps), &err), "dna: " + err);
    c.note("annotation files of " + n);
  }
  return t.after;
}
// Returns whether everything was accepted.
bool apply(vp::Ctx &c, std::shared_ptr<Warren> w, const sm::Model &now, const Txn &t, bool must) {
  sm::Model m = now;
  std::string err;
  for (auto &o : t.ops) {
    err = "";
    addr p = -7, q = -7, p0, q0;
    if (o.text) {
      m.append(o.t, &p0, &q0);
      if (!w->appender()->append(o.t, &p, &q, &err)) { c.check(!must, "append: " + err); c.check(err.size(), "append failed without an error"); return false; }
      c.check_f(p == p0 && q == q0, [&] { return vp::cat("append reported (", p, ",", q, "), expected (", p0, ",", q0, ")"); });
    } else if (!w->annotator()->annotate(o.a.feature, o.a.p, o.a.q, o.a.v, &err)) { c.check(!must, "annotate: " + err); c.check(err.size(), "annotate failed without an error"); return false; }
  }
  return true;
}
void look(vp::Src &s, vp::Ctx &c, const std::string &dir, const sm::Model &m, const std::string &where, size_t effort = 3) {
  std::string err;
  auto w = Warren::make(dir, &err);
  c.check_f(w != nullptr, [&] { return where + ": opening: " + err; });
  w->start();
  sm::compare(s, c, w, m, effort, where);
  if (s.chance(1, 4)) { auto k = w->clone(&err); c.check_f(k != nullptr, [&] { return "clone: " + err; }); sm::compare(s, c, k, m, effort, where + ", clone"); k->end(); }
  w->end();
}
void history(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err;
  sm::Model now = built(s, c, dir);
  size_t committed = 0, other = 0;
  std::shared_ptr<Warren> w;
  for (size_t rounds = 1 + s.below(5); rounds--;) {
    if (!w || s.coin()) {
      if (w) w->end();
      w = nullptr;
      w = Warren::make(dir, &err);
      c.check_f(w != nullptr, [&] { return "opening: " + err; });
      w->start();
    }
    sm::Model seen = now;
    Txn t = gen_txn(s, c, now, s.chance(1, 4));
    addr p, q;
    if (s.chance(1, 4)) {
      err = "";
      c.check(!w->appender()->append("a b", &p, &q, &err) && err.size(), "append outside of a transaction");
      err = "";
      c.check(!w->annotator()->annotate((addr)77, (addr)1, (addr)1, (fval)0.0, &err) && err.size(), "annotate outside of a transaction");
      err = "";
      c.check(!w->ready(&err) && err.size(), "ready outside of a transaction");
    }
    c.check_f(w->transaction(&err), [&] { return "transaction: " + err; });
    if (s.chance(1, 4)) {
      err = "";
      c.check(!w->transaction(&err) && err.size(), "transaction in a transaction");
      auto v = Warren::make(dir, &err);
      c.check_f(v != nullptr, [&] { return "opening during a transaction: " + err; });
      v->start();
      sm::compare(s, c, v, now, 2, "opened during a transaction");
      err = "";
      c.check(!v->transaction(&err) && err.size(), "another transaction at once");
      v->end();
    }
    try {
      apply(c, w, now, t, true);
    } catch (...) {
      w->abort(); // its threads
      throw;
    }
    switch (s.below(5)) {
    case 0:
      w->abort();
      c.note("abort");
      other++;
      break;
    case 1:
      c.check_f(w->ready(&err), [&] { return "ready: " + err; });
      if (s.coin()) look(s, c, dir, now, "opened before commit", 1);
      w->abort();
      c.note("ready, abort");
      other++;
      break;
    default:
      c.check_f(w->ready(&err), [&] { return "ready: " + err; });
      if (s.chance(1, 3)) {
        err = "";
        c.check(!w->appender()->append("a b", &p, &q, &err) && err.size(), "append after ready");
        err = "";
        c.check(!w->annotator()->annotate((addr)77, (addr)1, (addr)1, (fval)0.0, &err) && err.size(), "annotate after ready");
        c.check(w->ready(&err), "ready again: " + err);
      }
      w->commit();
      c.note("commit");
      now = t.after;
      if (t.ops.size()) committed++;
    }
    if (s.chance(1, 4)) { w->abort(); w->abort(); }
    if (s.chance(1, 4)) w = nullptr;
    look(s, c, dir, now, "reopened");
  }
  c.nontrivial(committed > 1 && now.tokens() > 3);
}
#ifndef __SANITIZE_ADDRESS__
void stopped(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err, itxt, iidx;
  sm::Model now = built(s, c, dir);
  { auto w = Warren::make(dir, &err); c.check(w != nullptr, err); w->start(); itxt = w->txt()->recipe(); iidx = w->idx()->recipe(); w->end(); }
  bool any = false;
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    Txn t = gen_txn(s, c, now, s.chance(1, 4));
    auto mode = (crash::Mode)(crash::STOP + s.below(4));
    bool give_up = s.chance(1, 5);
    auto work = [&] {
      std::string err;
      auto w = Warren::make(dir, &err);
      if (!w) { c.check(mode >= crash::FAIL_ONE, "opening: " + err); return; }
      w->start();
      if (!w->transaction(&err)) { c.check(mode >= crash::FAIL_ONE, "transaction: " + err); c.check(err.size(), "transaction failed without an error"); return; }
      if (!apply(c, w, now, t, mode < crash::FAIL_ONE) || give_up) { w->abort(); return; }
      err = "";
      if (!w->ready(&err)) { c.check(mode >= crash::FAIL_ONE, "ready: " + err); c.check(err.size(), "ready failed without an error"); w->abort(); return; }
      crash::shared()->v[0] = 1;
      w->commit();
    };
    long at = 1 + (long)s.below(s.coin() ? 20 : 60);
    auto o = crash::child(c, dir + "/", mode, at, work);
    c.note(vp::cat("mode ", (int)mode, " at ", at, " of ", o.ops, o.stopped ? "" : " (not stopped)", give_up ? ", giving up" : ""));
    c.check_f(o.ok || o.stopped || (mode >= crash::FAIL_ONE && o.died && o.message.find("signal 6:") != std::string::npos), [&] { return o.message; });
    if (o.died) c.label("gave up");
    bool reached = o.stopped || (mode >= crash::FAIL_ONE && o.ops >= at);
    any = any || reached;
    bool commit = crash::shared()->v[0];
    if (reached || s.chance(1, 4)) {
      for (int k = s.coin() ? 1 : 0; k >= 0; k--) { // recovery may be stopped as well
        auto r = crash::child(c, dir + "/", k && mode < crash::FAIL_ONE ? mode : crash::COUNT, 1 + (long)s.below(16), [&] {
          std::string err;
          auto working = Working::make(dir, &err);
          c.check(working != nullptr, "working: " + err);
          if (s.coin()) {
            c.check(Appender::recover("simple", itxt, commit, &err, working), "recovering text: " + err);
            c.check(Annotator::recover("simple", iidx, commit, &err, working), "recovering annotations: " + err);
          } else {
            c.check(Annotator::recover("simple", iidx, commit, &err, working), "recovering annotations: " + err);
            c.check(Appender::recover("simple", itxt, commit, &err, working), "recovering text: " + err);
          }
        });
        c.check_f(r.ok || r.stopped, [&] { return "recover: " + r.message; });
      }
      c.label(commit ? "recovered after" : "recovered before");
    }
    if (commit) now = t.after;
    look(s, c, dir, now, commit ? "after" : "before");
  }
  // it can be used
  Txn t = gen_txn(s, c, now, false);
  auto w = Warren::make(dir, &err);
  c.check(w != nullptr, err);
  w->start();
  c.check_f(w->transaction(&err), [&] { return "transaction: " + err; });
  apply(c, w, now, t, true);
  c.check_f(w->ready(&err), [&] { return "ready: " + err; });
  w->commit();
  w->end();
  look(s, c, dir, t.after, "used again");
  c.nontrivial(any);
}
#endif
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C12";
  sp.level = "fault_enumeration";
  sp.rule = "Random built indexes (tokenizers, compressors, preloaded or not) and histories of transactions on them (texts and annotations, committed, aborted, aborted after ready, several on one object or reopened), compared with a flat text and naive lists after each; and transactions in a process stopped at a random file-system operation (a write perhaps half done), or with one or all further operations failing, recovered (perhaps stopped as well) and compared with the state before, or after once ready had been answered. Non-trivial: more than one transaction with content committed; or really stopped or failed.";
  sp.assumptions = {"no two annotations of one feature are given for the same range", "with the markup tokenizer no text ends inside an unclosed tag or entity", "a stop ends the process; the operating system keeps what was written", "recovery is told to commit exactly when all parts had answered ready"};
  sp.subs = {{"history", 2000, 30000, history, 60, false, true}};
#ifndef __SANITIZE_ADDRESS__
  sp.subs.push_back({"stopped", 3000, 60000, stopped, 60, false, true});
#endif
  return vp::run(argc, argv, sp);
}
