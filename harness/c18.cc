// C18: interrupted merges of immutable files.  A merge runs in a child process
// stopped at a chosen file-system operation (or with it failing), again and
// again, with the files it leaves behind cut short or removed in between; its
// sources stay valid, and the merge that finishes gives what the model says.
#include <dirent.h>
#include "src/owsla.h"
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "crash.h"
#include "crash_impl.h"
#include "dyn.h"
using namespace cottontail;
using dyn::Model;
using dyn::View;

namespace {
struct Source {
  std::string name;
  View view;
  addr start, end;
};
std::vector<std::string> list(const std::string &dir) {
  std::vector<std::string> v;
  DIR *d = opendir(dir.c_str());
  if (d) {
    while (auto e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}
bool side(const std::string &n) { return n.compare(0, 4, "mrg.") == 0 || n.compare(0, 4, "pst.") == 0 || n.compare(0, 4, "dct.") == 0; }
void compare_erased(vp::Src &s, vp::Ctx &c, std::shared_ptr<Warren> w, const View &v, const std::string &where) {
  auto e = v.erased();
  if (e.empty()) { dyn::compare(s, c, w, v, 3, where, true); return; }
  for (auto &name : v.names()) {
    ref::List got, want = v.list(name);
    for (auto &i : wd::annotations(w, name)) { bool h = false; for (auto &x : e) h = h || (x.p <= i.p && i.q <= x.q); if (!h) got.push_back(i); }
    c.check_f(ref::equal(got, want), [&] { return where + ": '" + vp::show(name) + "': " + ref::diff(got, want); });
  }
  auto nl = ref::enumerate(w->idx()->hopper(null_feature).get());
  for (auto &x : e) { bool in = false; for (auto &i : nl) in = in || (i.p <= x.p && x.q <= i.q); c.check(in, where + ": an erasure was lost"); }
  addr p, q, p0, q0;
  if (v.range(&p0, &q0)) { c.check(w->txt()->range(&p, &q) && p == p0 && q == q0, where + ": range of text"); c.check(w->txt()->translate(p, q) == v.text(p, q), where + ": text"); }
}
void interrupted(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/w", err;
  auto working = Working::mkdir(dir, &err);
  c.check(working != nullptr, "working: " + err);
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make("utf8", "");
  auto pc = Compressor::make(s.coin() ? "post" : "null", ""), fc = Compressor::make(s.coin() ? "zlib" : "null", ""), tc = Compressor::make(s.coin() ? "zlib" : "null", "");
  addr chunk = 1 + (addr)s.mag(3000);
  Model m;
  m.rules.max_tokens = s.coin() ? 4 : 20;
  m.rules.big = s.chance(1, 8);
  m.rules.erasures = s.chance(1, 3);
  m.rules.cross_nest = !m.rules.erasures;
  std::vector<Source> sources;
  size_t n = 2 + s.below(3);
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    c.note_f([&] { return vp::cat("source ", i, ": ", m.describe(*t)); });
    m.all.push_back(t);
    auto f = Fiver::make(working, featurizer, tokenizer, &err, pc, fc, tc);
    c.check(f != nullptr && f->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, f);
    t->base = m.address;
    m.address = f->relocate(m.address);
    f->set_sequence((addr)i);
    c.check(f->ready(&err), "ready: " + err);
    f->commit();
    t->committed = true;
    f->start();
    c.check(f->hazel(&err, chunk, "") != nullptr, "convert: " + err);
    f->discard();
    Source x;
    x.name = hazel_default_name((addr)i, (addr)i);
    x.view.txns = {t};
    x.start = x.end = (addr)i;
    sources.push_back(x);
  }
  View all = dyn::committed(m);
  std::string target = hazel_default_name(0, (addr)n - 1), dst = working->make_name(target);
  auto merge = [&](bool by_name, std::string *e) -> bool {
    if (by_name) {
      std::vector<std::string> names;
      for (auto &x : sources) names.push_back(x.name);
      return Hazel::merge(working, names, "", e);
    }
    std::vector<std::shared_ptr<Hazel>> hs;
    for (auto &x : sources) {
      auto h = std::dynamic_pointer_cast<Hazel>(Warren::make(working->make_name(x.name), e));
      c.check_f(h != nullptr, [&] { return "opening a source: " + *e; });
      hs.push_back(h);
    }
    return Hazel::merge(hs, dst, nullptr, e) != nullptr;
  };
  auto exists = [&](const std::string &f) { return access(working->make_name(f).c_str(), F_OK) == 0; };
  // how many operations a whole merge takes
  long total = 60;
  {
    std::string copy = c.dir() + "/copy";
    if (system(("/bin/cp -a '" + dir + "' '" + copy + "'").c_str()) != 0) throw vp::Discard();
    auto o = crash::child(c, copy + "/", crash::COUNT, 0, [&] {
      auto w = Working::make(copy, &err);
      std::vector<std::string> names;
      for (auto &x : sources) names.push_back(x.name);
      c.check_f(Hazel::merge(w, names, "", &err), [&] { return "merge: " + err; });
    });
    c.check_f(o.ok, [&] { return "undisturbed: " + o.message; });
    total = o.ops + 1;
    vp::rm_tree(copy);
  }
  size_t rounds = 1 + s.below(4), resumed = 0;
  bool any = false;
  for (size_t r = 0; r < rounds && !exists(target); r++) {
    bool had = false;
    for (auto &f : list(dir)) had = had || f.compare(0, 4, "dct.") == 0;
    crash::Mode mode = (crash::Mode)(crash::STOP + (int)s.below(4));
    long at = 1 + (long)s.below(total);
    bool by_name = s.coin();
    c.note(vp::cat("round ", r, ": ", mode == crash::STOP ? "stop" : mode == crash::STOP_HALF ? "stop half way" : mode == crash::FAIL_ONE ? "fail" : "fail from", " at ", at, " of ", total, by_name ? " by name" : ""));
    auto o = crash::child(c, dir + "/", mode, at, [&] {
      std::string e;
      if (!merge(by_name, &e)) {
        c.check(mode == crash::FAIL_ONE || mode == crash::FAIL_FROM, "merge: " + e);
        c.check(e.size() > 0, "merge failed without an error");
      }
    });
    if (mode == crash::FAIL_ONE || mode == crash::FAIL_FROM) {
      if (o.died) c.label("gave up");
      c.check_f(o.ok || o.died || o.message.find("opening a source") == 0, [&] { return "merge with a failing operation: " + o.message; });
    } else
      c.check_f(o.ok || o.stopped, [&] { return vp::cat("merge, round ", r, ": ", o.message); });
    if (o.stopped || o.died) any = true;
    if (had) resumed++;
    // cut what is left short
    for (auto &f : list(dir))
      if (side(f) && s.chance(1, 3)) {
        struct stat st;
        std::string path = dir + "/" + f;
        if (stat(path.c_str(), &st)) continue;
        if (st.st_nlink > 1 || s.chance(1, 5)) { // a finished file may still be linked under its side name
          remove(path.c_str()); c.note("remove " + f); }
        else {
          off_t to = (off_t)s.below((uint64_t)st.st_size + 1);
          if (truncate(path.c_str(), to)) continue;
          c.note(vp::cat("cut ", f, " to ", to, " of ", st.st_size));
          c.label("side file cut short");
        }
      }
    // until it is complete, its sources are valid
    if (!exists(target))
      for (auto &x : sources) {
        auto w = Warren::make(working->make_name(x.name), &err);
        c.check_f(w != nullptr, [&] { return "source " + x.name + " after round: " + err; });
        w->start();
        compare_erased(s, c, w, x.view, "source " + x.name);
        w->end();
      }
    if (s.chance(1, 3)) { // tidying up between, as opening the index does
      std::vector<OwslaShard> hazels;
      std::vector<HazelMergeRecovery> rec;
      c.check_f(Hazel::sanitize(working, &hazels, &rec, &err), [&] { return "sanitize: " + err; });
      bool done = exists(target);
      c.check_f(hazels.size() == (done ? 1 : n), [&] { return vp::cat("sanitize finds ", hazels.size(), " files"); });
      for (auto &x : rec) c.check(!done && x.target.start == 0 && x.target.end == (addr)n - 1 && x.sources.size() == n, "sanitize offers to resume another merge");
      for (auto &f : list(dir)) c.check_f(f.compare(0, 4, "mrg.") != 0 && !(done && side(f)), [&] { return "sanitize left " + f; });
      c.note("sanitized");
    }
  }
  // the one that finishes
  bool before = exists(target);
  if (before && s.coin()) { // stale leftovers beside a finished merge are not used
    for (auto p : {"mrg.", "pst.", "dct."}) { remove((dir + "/" + p + target).c_str()); std::ofstream(dir + "/" + p + target) << "stale"; }
    c.note("stale side files beside the finished merge");
  }
  if (!before) {
    c.check_f(merge(s.coin(), &err), [&] { return "the merge that finishes: " + err; });
  } else {
    bool have = true;
    for (auto &x : sources) have = have && exists(x.name);
    if (have && s.coin()) c.check_f(merge(s.coin(), &err), [&] { return "merge done twice: " + err; });
    else c.check_f(Hazel::sanitize(working, nullptr, nullptr, &err), [&] { return "sanitize: " + err; });
  }
  auto w = Warren::make(dst, &err);
  c.check_f(w != nullptr, [&] { return "merged file: " + err; });
  w->start();
  compare_erased(s, c, w, all, "merged");
  w->end();
  for (auto &f : list(dir)) c.check_f(!side(f), [&] { return "left behind: " + f; });
  std::vector<OwslaShard> hazels;
  std::vector<HazelMergeRecovery> rec;
  c.check_f(Hazel::sanitize(working, &hazels, &rec, &err), [&] { return "sanitize: " + err; });
  c.check_f(hazels.size() == 1 && hazels[0].name == target && rec.empty(), [&] { return "after the merge sanitize does not find just " + target; });
  if (resumed) c.label("resumed from a checkpoint", resumed);
  c.nontrivial(any || resumed > 0);
}

// A stored index whose files' merge was interrupted resumes it by itself.
void whole_index(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err;
  {
    auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] { // in a process of its own, so that no merger is left running
      wd::disk(c, dir, "tokenizer:name:utf8")->merge(false);
    });
    c.check_f(o.ok, [&] { return o.message; });
  }
  auto b = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
  Model m;
  m.rules.max_tokens = 6;
  m.rules.big = false;
  m.rules.erasures = s.chance(1, 3);
  m.rules.cross_nest = !m.rules.erasures;
  size_t n = 2 + s.below(3);
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    c.note_f([&] { return vp::cat("transaction ", i, ": ", m.describe(*t)); });
    c.check(b->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, b);
    c.check(b->ready(&err), "ready: " + err);
    t->base = m.address;
    m.address += t->tokens();
    m.all.push_back(t);
    b->commit();
    t->committed = true;
  }
  b = nullptr;
  View v = dyn::committed(m);
  auto working = Working::make(dir, &err);
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make("utf8", "");
  addr chunk = 1 + (addr)s.below(2000);
  std::vector<std::string> names;
  {
    std::vector<OwslaShard> fivers;
    c.check_f(Fiver::sanitize(working, &fivers, &err), [&] { return "sanitize: " + err; });
    for (auto &x : fivers) {
      auto f = Fiver::unpickle(x.name, working, featurizer, tokenizer, &err);
      c.check(f != nullptr, "unpickle: " + err);
      f->start();
      auto h = f->hazel(&err, chunk, "");
      c.check(h != nullptr, "convert: " + err);
      f->discard();
      names.push_back(hazel_default_name(x.start, x.end));
    }
  }
  bool stopped = false;
  std::vector<std::string> strays;
  size_t rounds = 1 + s.below(4);
  for (size_t r = 0; r < rounds; r++) {
    size_t i = 0, j = names.size() - 1;
    if (j > 1 && s.coin()) { i = s.below(j); j = i + 1 + s.below(names.size() - i - 1); }
    long at = 1 + (long)s.below(60);
    c.note(vp::cat("merge ", names[i], " to ", names[j], ", stop at ", at));
    std::vector<std::string> part(names.begin() + i, names.begin() + j + 1);
    bool here = true;
    for (auto &x : part) here = here && access(working->make_name(x).c_str(), F_OK) == 0;
    for (auto &f : list(dir)) { // nor are they part of a merge that finished but has not removed them yet
      OwslaShard o, first, last;
      if (!owsla_parse_shard_name(f, "hazel", &o) || !owsla_parse_shard_name(part.front(), "hazel", &first) || !owsla_parse_shard_name(part.back(), "hazel", &last)) continue;
      if (o.start != o.end && o.start <= last.end && o.end >= first.start && std::find(part.begin(), part.end(), f) == part.end() && !(o.start == first.start && o.end == last.end)) here = false;
    }
    if (here) {
      auto o = crash::child(c, dir + "/", s.coin() ? crash::STOP : crash::STOP_HALF, at, [&] {
        std::string e;
        c.check_f(Hazel::merge(working, part, "", &e), [&] { return "merge: " + e; });
      });
      c.check_f(o.ok || o.stopped, [&] { return o.message; });
      stopped = stopped || o.stopped;
      for (auto &f : list(dir))
        if (side(f) && s.chance(1, 3)) {
          struct stat st;
          std::string path = dir + "/" + f;
          if (stat(path.c_str(), &st)) continue;
          off_t to = (off_t)s.below((uint64_t)st.st_size + 1);
          if (st.st_nlink > 1) continue; // already the finished file
          if (truncate(path.c_str(), to) == 0) c.note(vp::cat("cut ", f, " to ", to));
        }
    }
    // leftovers that belong to no merge of files that are here
    if (s.chance(1, 3)) {
      size_t many = 1 + s.below(3);
      for (size_t k = 0; k < many; k++) {
        addr a = (addr)s.below(n), b = a;
        if (s.coin()) { a = (addr)n + (addr)s.below(3); b = a + (addr)s.below(3); } // of no file at all
        static const std::vector<std::string> before{"mrg", "pst", "dct"}, after{"tmp", "pst", "dct"};
        std::string base = hazel_default_name(a, b), name = s.coin() ? s.pick(before) + "." + base : base + "." + s.pick(after);
        std::string junk;
        size_t len = s.mag(300);
        for (size_t x = 0; x < len; x++) junk += (char)s.below(256);
        std::ofstream(dir + "/" + name, std::ios::binary) << junk;
        strays.push_back(name);
        c.note("leftover " + name);
      }
    }
    // use it, with its own merging on, perhaps stopped as well
    uint64_t seed = s.raw();
    long stop = s.coin() ? 0 : 1 + (long)s.below(50);
    useconds_t wait = (useconds_t)s.below(15000);
    auto o = crash::child(c, dir + "/", stop ? crash::STOP : crash::COUNT, stop, [&] {
      auto w = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
      w->merge(true);
      vp::Src q(seed, 50, nullptr);
      for (size_t k = 0; k < 3; k++) {
        w->start();
        dyn::compare(q, c, w, v, 3, vp::cat("opened in round ", r));
        w->end();
        usleep(wait);
      }
    });
    c.check_f(o.ok || o.stopped, [&] { return o.message; });
  }
  auto o = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
    auto w = wd::open(c, dir);
    w->start();
    vp::Src q(1, 50, nullptr);
    dyn::compare(q, c, w, v, 3, "at the end");
  });
  c.check_f(o.ok, [&] { return o.message; });
  for (auto &x : strays) c.check_f(access((dir + "/" + x).c_str(), F_OK) != 0, [&] { return "leftover still there: " + x; });
  c.nontrivial(stopped || strays.size());
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C18";
  sp.level = "fault_enumeration";
  sp.rule = "Merges of 2 to 4 immutable files (random text, annotations, values, erasures, compressors and chunk sizes) run in child processes stopped at a chosen file-system operation, half way through a write, or with one or all further operations failing, up to 4 times, with side files removed or cut short at a random byte in between; after each stop every source is compared with the model, and so is the file of the merge that finishes; no side file may remain. The same with a stored index that finds the leftovers, and stray ones that belong to no merge or to an older version, and resumes on its own in the background. Non-trivial: stopped at least once or resumed from a checkpoint.";
  sp.assumptions = {"a stop ends the process; the operating system keeps what was written", "one merge of a target at a time"};
  sp.subs = {{"interrupted", 2500, 80000, interrupted, 120, false, true},
             {"index", 1200, 20000, whole_index, 120, true, true}};
  return vp::run(argc, argv, sp);
}
