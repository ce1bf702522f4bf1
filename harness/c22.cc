// C22: concurrency.  Threads of writers and readers, each with clones of its
// own, on one dynamic index with background merging, all their operations
// drawn beforehand.  What happened is judged after they joined: the marks a
// reader saw tell which transactions were visible to it, and everything else
// it saw has to be exactly those transactions, at the addresses they ended at.
#include <atomic>
#include <thread>
#include <unistd.h>
#include "crash.h"
#include "crash_impl.h"
#include "dyn.h"
using namespace cottontail;
using dyn::Txn;
using dyn::View;
using ref::List;

// Random delays around every lock, so that threads meet in unusual orders.
namespace {
std::atomic<unsigned> jitter{0}; // per mille of lock operations delayed
std::atomic<uint64_t> jitter_seed{1};
std::atomic<uint64_t> thread_number{0};
void nap() {
  unsigned k = jitter.load(std::memory_order_relaxed);
  if (k == 0) return;
  static thread_local uint64_t state = vp::mix(jitter_seed.load(), ++thread_number);
  state = vp::mix(state, 1);
  if (state % 1000 >= k) return;
  uint64_t d = (state >> 20) % 6;
  if (d < 3) sched_yield();
  else usleep(d == 5 ? 300 + (state >> 30) % 2000 : (state >> 30) % 120);
}
} // namespace
#ifndef __SANITIZE_THREAD__
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto f = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  nap();
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto f = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = f(m);
  nap();
  return r;
}
}
#endif

namespace {
// An annotation or erasure in the text of an earlier transaction of the same thread.
struct Far { size_t txn; dyn::Ann a; bool erase; };
enum How { COMMIT, ABORT, READY_ABORT, DROP };
struct Job { // one transaction
  std::shared_ptr<Txn> t;
  std::vector<Far> far;
  How how = COMMIT;
  size_t group = 0; // >0: together with the job before
  unsigned wait[4];
  // as it happened
  uint64_t begun = 0, ended = 0;
};
struct Snap {
  List range;
  std::map<size_t, List> lists; // by index of the name
  std::string text;
  addr tokens = 0;
};
struct Look {
  uint64_t begun = 0, started = 0;
  Snap snap;
  std::string what;
};
struct Writer { std::vector<Job> jobs; bool fresh; };
struct Reader { size_t looks; std::vector<unsigned> wait; std::vector<int> how; };
struct Plan {
  std::vector<Writer> writers;
  std::vector<Reader> readers;
  std::vector<std::shared_ptr<Txn>> before; // committed before the threads start
  size_t toggles = 0;
  std::vector<std::shared_ptr<Txn>> all;
  size_t txns = 0;
  bool any_erase = false;
};

void rest(unsigned w) {
  if (w == 0) return;
  if (w < 3) sched_yield();
  else usleep(w * 20);
}

std::shared_ptr<Txn> txn(vp::Src &s, dyn::Model *m, size_t i, bool erasing) {
  m->rules.erasures = erasing;
  auto t = m->gen(s);
  std::string unique = "own" + std::to_string(i);
  if (t->tokens()) { // a word of its own tells where it is
    auto o = std::make_shared<Txn>();
    dyn::add_piece(o.get(), {unique}, {" "}, "");
    size_t shift = o->text.size();
    for (auto &p : t->pieces) o->pieces.push_back(p);
    for (auto x : t->start) o->start.push_back(x + shift);
    for (auto &w : t->word) o->word.push_back(w);
    for (auto n : t->piece_tokens) o->piece_tokens.push_back(n);
    o->text += t->text;
    o->anns = t->anns;
    for (auto &a : o->anns) if (a.rel) a.p++, a.q++;
    for (auto &e : t->erase) if (e.rel) { auto x = e; x.p++; x.q++; o->erase.push_back(x); }
    t = o;
  } else t->erase.clear();
  std::vector<dyn::Ann> anns;
  for (auto &a : t->anns) {
    if (!a.rel && a.feature.substr(0, 4) != "mark") continue;
    anns.push_back(a);
  }
  t->anns = anns;
  if (s.coin()) { dyn::Ann a; a.feature = unique + ":"; a.p = a.q = ((addr)1 << 41) + (addr)i; a.v = 1.5; a.rel = false; t->anns.push_back(a); }
  return t;
}

Plan plan(vp::Src &s) {
  Plan p;
  dyn::Model m;
  m.rules.marks = true;
  m.rules.max_tokens = s.coin() ? 5 : 15;
  m.rules.big = s.chance(1, 4);
  m.rules.features = 3;
  m.rules.cross_nest = true;
  size_t nw = 1 + s.below(4), nr = 1 + s.below(3);
  bool erasing = s.coin();
  p.any_erase = erasing;
  size_t nb = s.below(4);
  for (size_t i = 0; i < nb; i++) {
    auto t = txn(s, &m, p.txns++, false);
    p.before.push_back(t);
    p.all.push_back(t);
  }
  size_t per = 2 + s.below(s.chance(1, 4) ? 30 : 8);
  for (size_t w = 0; w < nw; w++) {
    Writer x;
    x.fresh = s.coin();
    size_t n = 1 + s.below(per);
    for (size_t i = 0; i < n; i++) {
      Job j;
      j.t = txn(s, &m, p.txns++, erasing);
      p.all.push_back(j.t);
      j.how = (How)s.weighted({14, 1, 2, 1});
      for (auto &k : j.wait) k = s.chance(1, 3) ? s.below(20) : 0;
      if (i > 0 && s.chance(1, 5)) j.group = x.jobs.back().group + 1;
      size_t nf = s.chance(1, 3) ? 1 + s.below(3) : 0;
      for (size_t k = 0; k < nf && i > j.group; k++) {
        Far f;
        f.txn = s.below(i - j.group);
        auto &o = x.jobs[f.txn];
        if (o.how != COMMIT || o.t->tokens() < 3) continue;
        f.erase = erasing && s.coin();
        f.a.rel = false;
        f.a.p = 1 + (addr)s.below(o.t->tokens() - 1);
        f.a.q = std::min<addr>(f.a.p + (addr)s.below(4), o.t->tokens() - 1);
        f.a.v = 2.5;
        f.a.feature = "far" + std::to_string(p.txns) + "." + std::to_string(k) + ":";
        j.far.push_back(f);
      }
      x.jobs.push_back(j);
    }
    p.writers.push_back(x);
  }
  for (size_t r = 0; r < nr; r++) {
    Reader x;
    x.looks = 1 + s.below(s.coin() ? 4 : 12);
    for (size_t i = 0; i < x.looks; i++) {
      x.wait.push_back(s.coin() ? s.below(40) : 0);
      x.how.push_back(s.below(6));
    }
    p.readers.push_back(x);
  }
  p.toggles = s.chance(1, 4) ? 1 + s.below(6) : 0;
  return p;
}

struct Run {
  Plan &p;
  std::vector<std::string> names;
  std::vector<std::string> broken; // one per thread
  std::vector<std::vector<Look>> looks;
  std::atomic<uint64_t> clock{1};
  std::atomic<bool> go{false};
  explicit Run(Plan &p) : p(p) {
    std::map<std::string, int> m;
    for (auto &t : p.all) {
      for (auto &a : t->anns) m[a.feature];
      for (auto &w : t->word) m[w];
    }
    for (auto &w : p.writers)
      for (auto &j : w.jobs)
        for (auto &f : j.far) m[f.a.feature];
    m["never"]; m[transaction_tag];
    for (auto &e : m) names.push_back(e.first);
  }
  Snap dump(std::shared_ptr<Warren> w, uint64_t seed, bool slow) {
    Snap o;
    size_t n = names.size(), at = vp::mix(seed, 3) % n;
    for (size_t i = 0; i < n; i++) { // readers fill the caches in different orders
      size_t k = (at + i) % n;
      o.lists[k] = wd::annotations(w, names[k]);
      if (slow && vp::mix(seed, i) % 40 == 0) rest(10);
    }
    addr a = 0, b = 0;
    if (w->txt()->range(&a, &b)) o.range.push_back({a, b, 0.0});
    o.tokens = w->txt()->tokens();
    o.text = o.range.size() ? w->txt()->translate(a, b) : "";
    return o;
  }
  static void same(const Snap &a, const Snap &b, const std::string &what) {
    if (!ref::equal(a.range, b.range) || a.tokens != b.tokens) throw vp::Failure(what + ": the extent of the text changed");
    if (a.text != b.text) throw vp::Failure(what + ": the text changed from " + vp::show(a.text) + " to " + vp::show(b.text));
    for (auto &e : a.lists)
      if (!ref::equal(e.second, b.lists.at(e.first))) throw vp::Failure(what + ": a list changed: " + ref::diff(b.lists.at(e.first), e.second));
  }
  void guarded(size_t i, const std::function<void()> &f) {
    while (!go) sched_yield();
    try { f(); } catch (const vp::Failure &e) { broken[i] = e.what(); } catch (const std::exception &e) { broken[i] = std::string("exception: ") + e.what(); }
  }
  static void require(bool ok, const std::string &m) { if (!ok) throw vp::Failure(m); }
  addr where(std::shared_ptr<Warren> w, const std::string &unique) {
    w->start();
    List l = wd::annotations(w, unique);
    w->end();
    require(l.size() == 1, "after its commit a transaction is not there");
    return l[0].p;
  }
  void write(std::shared_ptr<Warren> first, Writer &x) {
    std::string err;
    std::vector<std::shared_ptr<Warren>> mine = {first};
    vp::Ctx c("", false, false);
    size_t i = 0;
    while (i < x.jobs.size()) {
      size_t e = i + 1;
      while (e < x.jobs.size() && x.jobs[e].group > 0) e++;
      std::vector<std::shared_ptr<Warren>> ready;
      std::vector<size_t> readied;
      for (size_t k = i; k < e; k++) {
        Job &j = x.jobs[k];
        while (mine.size() <= k - i) {
          auto y = mine[0]->clone(&err);
          require(y != nullptr, "clone: " + err);
          mine.push_back(y);
        }
        auto &w = mine[k - i];
        for (auto &f : j.far) {
          auto a = f.a;
          addr base = where(w, x.jobs[f.txn].t->word[0]);
          a.p += base;
          a.q += base;
          (f.erase ? j.t->erase : j.t->anns).push_back(a);
        }
        rest(j.wait[0]);
        require(w->transaction(&err), "transaction: " + err);
        dyn::apply(c, *j.t, w);
        rest(j.wait[1]);
        if (j.how == DROP) { w->abort(); w = w->clone(&err); continue; }
        if (j.how == ABORT) { w->abort(); continue; }
        require(w->ready(&err), "ready: " + err);
        rest(j.wait[2]);
        if (j.how == READY_ABORT) { w->abort(); continue; }
        ready.push_back(w);
        readied.push_back(k);
      }
      for (auto k : readied) x.jobs[k].begun = ++clock;
      if (ready.size() == 1) ready[0]->commit();
      else if (ready.size() > 1) Warren::commit_all(ready);
      for (auto k : readied) x.jobs[k].ended = ++clock;
      rest(x.jobs[e - 1].wait[3]);
      if (x.fresh && i % 3 == 2) { auto y = mine[0]->clone(&err); require(y != nullptr, "clone: " + err); mine = {y}; }
      i = e;
    }
  }
  void read(std::shared_ptr<Warren> w, const Reader &x, std::vector<Look> *out, uint64_t seed) {
    std::string err;
    for (size_t i = 0; i < x.looks; i++) {
      rest(x.wait[i]);
      Look l;
      l.begun = ++clock;
      w->start();
      l.started = ++clock;
      l.snap = dump(w, vp::mix(seed, i), x.how[i] & 1);
      l.what = vp::cat("look ", i);
      if (x.how[i] < 4) {
        rest(x.wait[i] + 5);
        same(l.snap, dump(w, vp::mix(seed, i + 1000), false), "between two readings of one snapshot");
      }
      if (x.how[i] == 2 || x.how[i] == 5) {
        auto y = w->clone(&err);
        require(y != nullptr, "clone: " + err);
        if (x.how[i] == 5) w->end();
        same(l.snap, dump(y, vp::mix(seed, i + 2000), false), "in a clone of a reader");
        y->end();
      }
      if (x.how[i] != 5) w->end();
      out->push_back(std::move(l));
    }
  }
  // Which transactions a snapshot shows, all of them placed; what it shows besides.
  struct Seen { std::set<size_t> set; };
  size_t index(const std::string &name) { return std::lower_bound(names.begin(), names.end(), name) - names.begin(); }
  std::set<size_t> marks(const Snap &x) {
    std::set<size_t> o;
    for (size_t i = 0; i < p.all.size(); i++) {
      for (auto &a : p.all[i]->anns)
        if (a.feature.substr(0, 4) == "mark" && x.lists.at(index(a.feature)).size()) o.insert(i);
    }
    return o;
  }
  void place(vp::Ctx &c, const Snap &final) {
    for (size_t i = 0; i < p.all.size(); i++) {
      auto &t = p.all[i];
      if (!t->tokens()) { t->base = maxfinity - 1; continue; }
      const List &l = final.lists.at(index(t->word[0]));
      t->base = l.size() ? l[0].p : -1;
      c.check_f(l.size() == (t->committed ? 1u : 0u), [&] { return vp::cat("transaction ", i, t->committed ? " was committed but" : " was not committed but", " at the end its text is there ", l.size(), " times"); });
    }
  }
  void judge(vp::Ctx &c, const Snap &x, const std::set<size_t> &set, const std::string &what) {
    View v;
    for (auto i : set) v.txns.push_back(p.all[i]);
    std::stable_sort(v.txns.begin(), v.txns.end(), [](auto &a, auto &b) { return a->base < b->base; });
    for (size_t k = 0; k < names.size(); k++) {
      List want = v.list(names[k]);
      c.check_f(ref::equal(x.lists.at(k), want), [&] { return what + ": '" + vp::show(names[k]) + "': " + ref::diff(x.lists.at(k), want); });
    }
    addr p0 = 0, q0 = 0;
    bool any = false;
    for (auto &t : v.txns) if (t->tokens()) { if (!any) p0 = t->base; q0 = t->base + t->tokens() - 1; any = true; }
    c.check_f(any == (x.range.size() > 0) && (!any || (x.range[0].p == p0 && x.range[0].q == q0)), [&] { return what + ": the text spans " + (x.range.size() ? vp::cat("(", x.range[0].p, ",", x.range[0].q, ")") : "nothing") + vp::cat(", expected (", p0, ",", q0, ")"); });
    c.check_f(x.tokens == v.tokens(), [&] { return vp::cat(what, ": ", x.tokens, " tokens, expected ", v.tokens()); });
    std::string text;
    for (auto &t : v.txns) for (size_t i = 0; i < t->start.size(); i++) text += t->token(i);
    c.check_f(x.text == text, [&] { return what + ": text " + vp::show(x.text, 300) + ", expected " + vp::show(text, 300); });
  }
  void run(vp::Ctx &c, std::shared_ptr<Bigwig> b, uint64_t seed) {
    std::string err;
    size_t n = p.writers.size() + p.readers.size() + 1;
    broken.assign(n, "");
    looks.resize(p.readers.size());
    std::vector<std::thread> threads;
    std::vector<std::shared_ptr<Warren>> handles;
    for (size_t i = 0; i + 1 < n; i++) {
      auto w = b->clone(&err);
      c.check(w != nullptr, "clone: " + err);
      handles.push_back(w);
    }
    for (size_t i = 0; i < p.writers.size(); i++)
      threads.emplace_back([&, i] { guarded(i, [&] { write(handles[i], p.writers[i]); }); });
    for (size_t i = 0; i < p.readers.size(); i++)
      threads.emplace_back([&, i] { size_t k = p.writers.size() + i; guarded(k, [&] { read(handles[k], p.readers[i], &looks[i], vp::mix(seed, i)); }); });
    if (p.toggles)
      threads.emplace_back([&] { guarded(n - 1, [&] {
        auto w = std::dynamic_pointer_cast<Bigwig>(b->clone());
        for (size_t i = 0; i < p.toggles; i++) { rest(20); w->merge(i % 2); w->set_parameter("k" + std::to_string(i % 3), "v"); }
        w->merge(true);
      }); });
    go = true;
    for (auto &t : threads) t.join();
    jitter = 0;
    for (size_t i = 0; i < n; i++)
      c.check_f(broken[i] == "", [&] { return (i < p.writers.size() ? vp::cat("writer ", i) : vp::cat("reader ", i - p.writers.size())) + ": " + broken[i]; });
    // What is committed, and when.
    struct When { uint64_t begun, ended; };
    std::map<size_t, When> when;
    size_t k = 0;
    for (; k < p.before.size(); k++) { p.all[k]->committed = true; when[k] = {0, 0}; }
    size_t committed = 0, aborted = 0, overlapping = 0;
    for (auto &w : p.writers)
      for (auto &j : w.jobs) {
        p.all[k]->committed = j.how == COMMIT;
        if (j.how == COMMIT) { when[k] = {j.begun, j.ended}; committed++; } else aborted++;
        k++;
      }
    b->start();
    Snap final = dump(b, 1, false);
    b->end();
    place(c, final);
    // Addresses of different transactions are disjoint.
    std::vector<std::pair<addr, addr>> spans;
    for (auto &t : p.all) if (t->committed && t->tokens()) spans.push_back({t->base, t->base + t->tokens() - 1});
    std::sort(spans.begin(), spans.end());
    for (size_t i = 1; i < spans.size(); i++)
      c.check_f(spans[i - 1].second < spans[i].first, [&] { return vp::cat("two transactions share addresses: (", spans[i - 1].first, ",", spans[i - 1].second, ") and (", spans[i].first, ",", spans[i].second, ")"); });
    std::set<size_t> all;
    for (auto &e : when) all.insert(e.first);
    judge(c, final, all, "at the end");
    struct V { uint64_t begun, started; std::set<size_t> set; std::string what; };
    std::vector<V> views;
    for (size_t r = 0; r < looks.size(); r++)
      for (auto &l : looks[r]) {
        V v{l.begun, l.started, marks(l.snap), vp::cat("reader ", r, " ", l.what)};
        for (size_t i = 0; i < p.all.size(); i++) {
          bool in = v.set.count(i);
          if (!when.count(i)) c.check_f(!in, [&] { return vp::cat(v.what, ": shows transaction ", i, ", which was aborted"); });
          else {
            c.check_f(in || when[i].ended >= l.begun, [&] { return vp::cat(v.what, ": misses transaction ", i, ", committed before the reader started"); });
            c.check_f(!in || when[i].begun <= l.started, [&] { return vp::cat(v.what, ": shows transaction ", i, ", whose commit began after the reader started"); });
            if (when[i].ended >= l.begun && when[i].begun <= l.started) overlapping++;
          }
        }
        judge(c, l.snap, v.set, v.what);
        views.push_back(v);
      }
    for (auto &a : views)
      for (auto &d : views)
        if (a.started < d.begun)
          c.check_f(std::includes(d.set.begin(), d.set.end(), a.set.begin(), a.set.end()), [&] { return a.what + " shows a transaction that " + d.what + ", started later, does not"; });
    c.label("transactions committed by threads", committed);
    c.label("transactions aborted", aborted);
    c.label("readings", views.size());
    size_t between = 0;
    for (auto &v : views) between += v.set.size() > p.before.size() && v.set.size() < all.size();
    c.label("readings between commits", between);
    c.label("commits under way while a reader started", overlapping);
  }
};

void build(vp::Ctx &c, const Plan &p, std::shared_ptr<Warren> b) {
  std::string err;
  for (auto &t : p.before) {
    c.check(b->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, b);
    c.check(b->ready(&err), "ready: " + err);
    b->commit();
  }
}
void describe(vp::Ctx &c, const Plan &p) {
  c.note_f([&] {
    dyn::Model m;
    std::string o = vp::cat(p.writers.size(), " writers, ", p.readers.size(), " readers\n");
    size_t k = 0;
    for (auto &t : p.before) o += vp::cat("before: ", k++, ": ", m.describe(*t), "\n");
    for (size_t w = 0; w < p.writers.size(); w++)
      for (auto &j : p.writers[w].jobs) {
        o += vp::cat("writer ", w, ": ", k++, ": ", m.describe(*j.t), j.how == COMMIT ? j.group ? "commit jointly" : "commit" : j.how == READY_ABORT ? "ready, abort" : "abort");
        for (auto &f : j.far) o += vp::cat("; ", f.erase ? "erase" : "annotate", " own transaction ", f.txn, " +", f.a.p, ",+", f.a.q);
        o += "\n";
      }
    for (auto &r : p.readers) o += vp::cat("reader: ", r.looks, " looks\n");
    return o;
  });
}
void noise(vp::Src &s) {
  jitter_seed = s.raw();
  static const std::vector<unsigned> levels = {0, 5, 30, 150, 500};
  jitter = s.pick(levels);
}

// Everything in a child process of its own: background threads end with it.
void in_child(vp::Src &s, vp::Ctx &c, bool stored) {
  Plan p = plan(s);
  describe(c, p);
  bool hazel = stored && p.before.size() && s.chance(2, 3);
  uint64_t seed = s.raw();
  std::string dir = c.dir() + "/b", err;
  static const std::vector<std::string> onoff = {"null", "zlib"};
  auto pc = s.coin() ? "post" : "null", fc = s.pick(onoff).c_str(), tc = s.pick(onoff).c_str();
  bool merging = s.chance(7, 8);
  auto shared = [&](const char *name, long n) { crash::shared()->v[name[0] - 'a'] = n; };
  uint64_t js = s.raw();
  unsigned level = (unsigned)s.weighted({2, 2, 2, 1, 1});
  static const unsigned levels[] = {0, 5, 30, 150, 500};
  if (stored) {
    std::string o = "tokenizer:name:utf8";
    if (s.coin()) o += " idx:posting_compressor:post";
    if (s.coin()) o += " txt:compressor:zlib";
    uint64_t which = s.raw();
    auto made = crash::child(c, dir + "/", crash::COUNT, 0, [&] { // opening an index starts a thread
    auto b = wd::disk(c, dir, o);
    b->merge(false);
    build(c, p, b);
    });
    c.check_f(made.ok, [&] { return "building: " + made.message; });
    if (hazel) made = crash::child(c, dir + "/", crash::COUNT, 0, [&] { // in the form of immutable files, some of them or all
      auto working = Working::make(dir, &err);
      auto [pcs, tcs] = std::pair(o.find("post") != std::string::npos, o.find("zlib") != std::string::npos);
      std::vector<OwslaShard> fivers;
      c.check(Fiver::sanitize(working, &fivers, &err), "sanitize: " + err);
      for (auto &x : fivers)
        if (vp::mix(which, x.start) % 3) {
          auto f = Fiver::unpickle(x.name, working, Featurizer::make("hashing", ""), Tokenizer::make("utf8", ""), &err, Compressor::make(pcs ? "post" : "null", ""), Compressor::make("null", ""), Compressor::make(tcs ? "zlib" : "null", ""));
          c.check(f != nullptr, "unpickle: " + err);
          f->start();
          c.check(f->hazel(&err, 500, "") != nullptr, "convert: " + err);
          f->discard();
        }
    });
    c.check_f(made.ok, [&] { return "building: " + made.message; });
  }
  std::map<std::string, uint64_t> *labels = &c.labels_;
  auto out = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
    std::shared_ptr<Bigwig> b;
    if (stored) {
      b = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
      c.check(b != nullptr, "not a bigwig");
    } else {
      b = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("utf8", ""), nullptr, &err,
                       Compressor::make(pc, ""), Compressor::make(fc, ""), Compressor::make(tc, ""));
      c.check(b != nullptr, "bigwig: " + err);
      build(c, p, b);
    }
    jitter_seed = js;
    jitter = levels[level];
    b->merge(merging);
    Run r(p);
    labels->clear();
    r.run(c, b, seed);
    size_t i = 0;
    for (auto &e : *labels) crash::shared()->v[i++] = (long)e.second;
    if (stored) {
      // Wait for nothing: the process ends as if killed, merging or not.
      size_t k = 100;
      for (auto &t : p.all) { crash::shared()->v[k++] = t->base == -1 ? -1 : (long)t->base; if (k >= 500) break; }
    }
  }, 100);
  c.check_f(out.ok, [&] { return out.message; });
  static const std::vector<std::string> what = {"commits under way while a reader started", "readings", "readings between commits", "transactions aborted", "transactions committed by threads"};
  for (size_t i = 0; i < what.size(); i++) c.label(what[i], crash::shared()->v[i]);
  bool nontrivial = crash::shared()->v[2] > 0 || crash::shared()->v[0] > 0;
  if (stored) {
    // What is stored is what was committed.
    std::set<size_t> all;
    size_t k = 0;
    for (; k < p.before.size(); k++) p.all[k]->committed = true;
    bool far = false;
    for (auto &w : p.writers)
      for (auto &j : w.jobs) { p.all[k++]->committed = j.how == COMMIT; far = far || (j.far.size() && j.how == COMMIT); }
    for (size_t i = 0; i < p.all.size(); i++) if (p.all[i]->committed) all.insert(i);
    // Far annotations were placed in the child.
    k = 100;
    std::map<size_t, long> base;
    for (size_t i = 0; i < p.all.size() && 100 + i < 500; i++) base[i] = crash::shared()->v[100 + i];
    if (p.all.size() < 400) {
      size_t at = p.before.size();
      for (auto &w : p.writers) {
        size_t first = at;
        for (auto &j : w.jobs) {
          for (auto &f : j.far) {
            auto a = f.a;
            a.p += base[first + f.txn];
            a.q += base[first + f.txn];
            (f.erase ? j.t->erase : j.t->anns).push_back(a);
          }
          at++;
        }
      }
      auto out2 = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
        auto b = std::dynamic_pointer_cast<Bigwig>(wd::open(c, dir));
        c.check(b != nullptr, "not a bigwig");
        b->start();
        Run r(p);
        Snap x = r.dump(b, 1, false);
        b->end();
        r.place(c, x);
        for (size_t i = 0; i < p.all.size(); i++)
          if (p.all[i]->committed && p.all[i]->tokens()) c.check_f((long)p.all[i]->base == base[i], [&] { return vp::cat("transaction ", i, " is at ", p.all[i]->base, " after reopening, was at ", base[i]); });
        r.judge(c, x, all, "after reopening");
      });
      c.check_f(out2.ok, [&] { return "reopened: " + out2.message; });
    }
  }
  c.nontrivial(nontrivial);
}
void memory(vp::Src &s, vp::Ctx &c) { in_child(s, c, false); }
void stored(vp::Src &s, vp::Ctx &c) { in_child(s, c, true); }
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C22";
  sp.level = "exploration";
  sp.rule = "Up to 4 writer threads and 3 readers, and now and then one switching merging and setting parameters, on one index in memory or stored (some of it as immutable files beforehand), with background merging; every operation drawn beforehand, delays injected around every mutex operation. Judged after they join: the marks in a reader's snapshot tell the set of transactions it shows, which includes those whose commit returned before the reader started, none whose commit began after it had, none aborted; everything else in the snapshot (every list, the text, its extent) is exactly that set; snapshots only grow; reading a snapshot twice or in a clone gives the same; address ranges are disjoint; the final content, and the content after reopening, is all that was committed. Also under a race detector. Non-trivial: a reader saw some but not all of the threads' transactions, or a commit was under way while one started.";
  sp.assumptions = {"each handle is used by one thread at a time", "thread schedules are sampled, not enumerated"};
  sp.subs = {{"memory", 2500, 150000, memory, 120, true, true},
             {"stored", 1000, 60000, stored, 120, true, true}};
  return vp::run(argc, argv, sp);
}
