// C15: merging and converting shards is invisible.  Random transactions become
// shards; a random schedule merges, converts, saves, reloads and merges again;
// each resulting shard is compared with the reference model of its content.
#include <cstdio>
#include <unistd.h>
#include "dyn.h"
#include "vp.h"
using namespace cottontail;
using dyn::Model;
using dyn::Txn;
using dyn::View;

namespace {
struct Kit {
  std::shared_ptr<Working> working;
  std::shared_ptr<Featurizer> featurizer;
  std::shared_ptr<Tokenizer> tokenizer;
  std::shared_ptr<Compressor> pc, fc, tc;
  addr chunk = 4096; // files to be merged agree on it
};
Kit gen_kit(vp::Src &s, vp::Ctx &c, bool disk) {
  Kit k;
  std::string err;
  if (disk) { k.working = Working::mkdir(c.dir() + "/w", &err); c.check(k.working != nullptr, "working: " + err); }
  k.featurizer = Featurizer::make("hashing", "");
  k.tokenizer = Tokenizer::make(s.coin() ? "utf8" : "ascii", "");
  auto pick = [&](std::vector<std::string> names) { return Compressor::make(s.pick(names), ""); };
  k.pc = pick({"null", "post"});
  k.fc = pick({"null", "zlib", "tfdf"});
  k.tc = pick({"null", "zlib"});
  k.chunk = 1 + (addr)s.mag(5000);
  if (k.fc->name() == "tfdf") k.fc = Compressor::make("null", "");
  return k;
}
struct Node { // a shard and the transactions it holds
  std::shared_ptr<Fiver> fiver;
  std::shared_ptr<Hazel> hazel;
  View view;
  addr start, end;
  std::map<std::string, std::string> settings; // of an immutable file
  std::shared_ptr<Warren> warren() { return fiver ? std::static_pointer_cast<Warren>(fiver) : std::static_pointer_cast<Warren>(hazel); }
};
// What was recorded with an immutable file can be read from it.
void check_settings(vp::Ctx &c, Node &n, const std::string &where) {
  std::string err, got;
  for (auto &name : {"container", "stemmer", "id", "k_1", "other"}) {
    auto it = n.settings.find(name);
    std::string want = it == n.settings.end() ? "" : it->second;
    c.check_f(n.hazel->get_parameter(name, &got, &err) && got == want, [&] { return where + ": setting '" + name + "' is " + vp::show(got) + ", expected " + vp::show(want); });
  }
  auto it = n.settings.find("container");
  c.check_f(n.hazel->default_container() == (it == n.settings.end() ? "" : it->second), [&] { return where + ": default container " + vp::show(n.hazel->default_container()); });
  it = n.settings.find("stemmer");
  if (it != n.settings.end()) c.check_f(n.hazel->stemmer()->name() == it->second, [&] { return where + ": stemmer " + n.hazel->stemmer()->name(); });
}
std::map<std::string, std::string> gen_settings(vp::Src &s) {
  std::map<std::string, std::string> m;
  if (s.coin()) m["container"] = s.pick(std::vector<std::string>{":", "(... <a> </a>)", "(1 \"a b\" c)"});
  if (s.chance(1, 3)) m["stemmer"] = "porter";
  if (s.chance(1, 3)) m["id"] = s.pick(std::vector<std::string>{":id:", "\"docno\"", "a\\b"});
  if (s.chance(1, 3)) m["k_1"] = s.pick(std::vector<std::string>{"0.9", "[", "x:y,z", " "});
  return m;
}
// A shard on its own shows everything in it, hidden or not; what it may have
// dropped for good is what its own erasures cover.
void check_shard(vp::Src &s, vp::Ctx &c, Node &n, const std::string &where, size_t effort) {
  auto w = n.warren();
  if (!w->started()) w->start();
  if (n.hazel) check_settings(c, n, where);
  addr first, last;
  if (w->txt()->range(&first, &last)) {
    addr p = first + (addr)s.below((size_t)std::min<addr>(last - first + 1, 1000)), q = p + (addr)s.mag(20);
    c.check_f(w->txt()->raw(p, q) == w->txt()->translate(p, q), [&] { return vp::cat(where, ": raw text of ", p, ",", q, " differs"); });
  }
  View plain = n.view;
  auto e = n.view.erased();
  if (e.size() == 0) { dyn::compare(s, c, w, plain, effort, where, true); return; }
  auto hide = [&](const ref::List &l) { ref::List o; for (auto &i : l) { bool h = false; for (auto &x : e) h = h || (x.p <= i.p && i.q <= x.q); if (!h) o.push_back(i); } return o; };
  for (auto &name : plain.names()) {
    ref::List got = hide(wd::annotations(w, name)), want = plain.list(name);
    c.check_f(ref::equal(got, want), [&] { return where + ": '" + vp::show(name) + "' less the erased: " + ref::diff(got, want); });
  }
  // the erased addresses themselves
  auto nl = ref::enumerate(w->idx()->hopper(null_feature).get());
  for (auto &x : e) { bool in = false; for (auto &i : nl) in = in || (i.p <= x.p && x.q <= i.q); c.check_f(in, [&] { return where + ": erasure " + ref::str(x) + " lost, has " + ref::str(nl); }); }
  for (auto &i : nl) { bool in = false; for (auto &x : e) in = in || (i.p == x.p && x.q == i.q); c.check_f(in, [&] { return where + ": erasure " + ref::str(i) + " invented"; }); }
}
std::vector<Node> build(vp::Src &s, vp::Ctx &c, const Kit &k, Model &m, size_t n) {
  std::vector<Node> nodes;
  addr seq = 0;
  std::string err;
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    c.note_f([&] { return vp::cat("transaction ", i, ": ", m.describe(*t)); });
    m.all.push_back(t);
    auto f = Fiver::make(k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc);
    c.check(f != nullptr, "fiver: " + err);
    c.check(f->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, f);
    t->base = m.address;
    addr next = f->relocate(m.address);
    c.check_f(next == m.address + t->tokens(), [&] { return vp::cat("next address ", next, " after ", t->tokens(), " tokens at ", m.address); });
    m.address = next;
    f->set_sequence(seq);
    c.check(f->ready(&err), "ready: " + err);
    if (s.chance(1, 10)) { f->abort(); c.note("aborted"); m.all.pop_back(); if (s.coin()) seq++; continue; } // a gap of addresses
    f->commit();
    t->committed = true;
    f->start();
    Node nd;
    nd.fiver = f;
    nd.view.txns = {t};
    nd.start = nd.end = seq++;
    nodes.push_back(nd);
  }
  return nodes;
}
Node merged(std::vector<Node> &nodes, size_t i, size_t j) {
  Node n;
  for (size_t x = i; x <= j; x++) for (auto &t : nodes[x].view.txns) n.view.txns.push_back(t);
  n.start = nodes[i].start;
  n.end = nodes[j].end;
  n.settings = nodes[j].settings; // the latest, unless others are given
  nodes.erase(nodes.begin() + i, nodes.begin() + j + 1);
  return n;
}
void convert(vp::Src &s, vp::Ctx &c, const Kit &k, Node &n, size_t i) {
  std::string err;
  n.settings = gen_settings(s);
  c.note(vp::cat("convert ", i, " chunks of ", k.chunk));
  std::shared_ptr<Hazel> h = n.fiver->hazel(&err, k.chunk, n.settings.size() || s.coin() ? freeze(n.settings) : std::string());
  c.check(h != nullptr, "convert: " + err);
  addr a, b;
  h->get_sequence(&a, &b);
  c.check(a == n.start && b == n.end, "sequence of the converted shard");
  h->start();
  n.hazel = h;
  n.fiver = nullptr;
}
// One random storage operation; returns its index.
size_t step(vp::Src &s, vp::Ctx &c, const Kit &k, std::vector<Node> &nodes) {
  std::string err;
  size_t i = s.below(nodes.size());
  size_t run = i;
  auto same = [&](size_t a, size_t b) { return (nodes[a].fiver != nullptr) == (nodes[b].fiver != nullptr); };
  while (run + 1 < nodes.size() && same(i, run + 1) && run - i < 7 && s.chance(5, 6)) run++;
  int what = (int)s.weighted({6, k.working ? 3u : 0u, k.working ? 2u : 0u});
  if (run > i && what != 2) {
    std::vector<std::shared_ptr<Fiver>> fs;
    std::vector<std::shared_ptr<Hazel>> hs;
    if (nodes[i].fiver) {
      for (size_t x = i; x <= run; x++) fs.push_back(nodes[x].fiver);
      c.note(vp::cat("merge ", i, "..", run));
      auto f = Fiver::merge(fs, &err);
      c.check(f != nullptr, "merge: " + err);
      Node n = merged(nodes, i, run);
      n.fiver = f;
      addr a, b;
      f->get_sequence(&a, &b);
      c.check(a == n.start && b == n.end, "sequence of the merged shard");
      f->start();
      nodes.insert(nodes.begin() + i, n);
      return i;
    }
    for (size_t x = i; x <= run; x++) hs.push_back(nodes[x].hazel);
    bool contiguous = true;
    for (size_t x = i; x < run; x++) contiguous = contiguous && nodes[x].end + 1 == nodes[x + 1].start;
    c.note(vp::cat("merge immutable ", i, "..", run));
    if (!contiguous) { // has to be refused
      auto h = Hazel::merge(hs, k.working->make_name("h-refused"), nullptr, &err);
      c.check(h == nullptr && err.size(), "files out of sequence merged");
      return i;
    }
    std::string dst;
    std::shared_ptr<Hazel> h;
    std::shared_ptr<std::map<std::string, std::string>> given;
    c.label(vp::cat("merge of ", run - i + 1, " immutable files"));
    addr a0 = nodes[i].start, b0 = nodes[run].end;
    if (s.coin()) {
      dst = k.working->make_name(hazel_default_name(a0, b0));
      if (s.chance(1, 3)) given = std::make_shared<std::map<std::string, std::string>>(gen_settings(s));
      h = Hazel::merge(hs, dst, given, &err);
      c.check(h != nullptr, "merge of immutable files: " + err);
    } else {
      std::vector<std::string> names;
      for (size_t x = i; x <= run; x++) names.push_back(hazel_default_name(nodes[x].start, nodes[x].end));
      c.check_f(Hazel::merge(k.working, names, "", &err), [&] { return "merge of immutable files by name: " + err; });
      dst = k.working->make_name(hazel_default_name(a0, b0));
      auto w = Warren::make(dst, &err);
      c.check(w != nullptr, "merged file: " + err);
      h = std::dynamic_pointer_cast<Hazel>(w);
    }
    Node n = merged(nodes, i, run);
    if (given) n.settings = *given;
    n.hazel = h;
    h->start();
    nodes.insert(nodes.begin() + i, n);
    return i;
  }
  if (nodes[i].fiver && k.working && what == 1) {
    convert(s, c, k, nodes[i], i);
  } else if (nodes[i].fiver && k.working) { // save and reload
    c.note(vp::cat("save ", i));
    std::string name = k.working->make_name("saved" + std::to_string(s.below(1000)));
    remove(name.c_str());
    c.check_f(nodes[i].fiver->pickle(name, &err), [&] { return "pickle: " + err; });
    auto f = Fiver::unpickle(name, k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc);
    c.check(f != nullptr, "unpickle: " + err);
    addr a, b;
    f->get_sequence(&a, &b);
    c.check(a == nodes[i].start && b == nodes[i].end, "sequence of the reloaded shard");
    f->start();
    nodes[i].fiver = f;
  } else if (nodes[i].hazel) { // reopen or clone
    c.note(vp::cat("reopen ", i));
    if (s.coin()) {
      auto w = Warren::make(k.working->make_name(hazel_default_name(nodes[i].start, nodes[i].end)), &err);
      c.check(w != nullptr, "reopen: " + err);
      nodes[i].hazel = std::dynamic_pointer_cast<Hazel>(w);
      nodes[i].hazel->start();
    } else {
      auto w = nodes[i].hazel->clone(&err);
      c.check(w != nullptr, "clone: " + err);
      nodes[i].hazel = std::dynamic_pointer_cast<Hazel>(w);
      if (!w->started()) w->start();
    }
  }
  return i;
}
void schedule(vp::Src &s, vp::Ctx &c, bool erasures) {
  bool disk = s.chance(3, 4);
  Kit k = gen_kit(s, c, disk);
  Model m;
  m.rules.erasures = erasures;
  m.rules.cross_nest = !erasures;
  m.rules.far = s.chance(1, 4) ? 1000 : 0;
  m.rules.max_tokens = s.coin() ? 6 : 30;
  auto nodes = build(s, c, k, m, 1 + s.below(s.coin() ? 3 : 8));
  if (nodes.empty()) return;
  for (auto &n : nodes) check_shard(s, c, n, "new shard", 2);
  if (disk && s.chance(1, 3))
    for (size_t i = 0; i < nodes.size(); i++) convert(s, c, k, nodes[i], i);
  size_t steps = 1 + s.below(8), merges = 0;
  for (size_t i = 0; i < steps; i++) {
    size_t before = nodes.size();
    size_t j = step(s, c, k, nodes);
    merges += before - nodes.size();
    check_shard(s, c, nodes[j], vp::cat("shard ", j, " after step ", i), 5);
  }
  for (auto &n : nodes) check_shard(s, c, n, "at the end", 3);
  c.nontrivial(m.all.size() > 1 && merges > 0);
}
void plain(vp::Src &s, vp::Ctx &c) { schedule(s, c, false); }
void erasing(vp::Src &s, vp::Ctx &c) { schedule(s, c, true); }

// Shards with postings and texts of more than a megabyte.
void large(vp::Src &s, vp::Ctx &c) {
  Kit k = gen_kit(s, c, true);
  k.chunk = 1000 + (addr)s.mag(200000);
  std::string err;
  std::vector<Node> nodes;
  ref::List all;
  std::vector<std::string> words;
  addr address = 0;
  size_t n = 2 + s.below(3);
  addr X = k.featurizer->featurize("x");
  for (size_t i = 0; i < n; i++) {
    size_t tokens = 1 + s.mag(60000), marks = s.coin() ? 20000 + s.below(40000) : s.mag(60000);
    uint64_t r = s.below(1u << 30);
    auto rnd = [&] { r = r * 6364136223846793005ull + 1442695040888963407ull; return (size_t)(r >> 33); };
    auto f = Fiver::make(k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc);
    c.check(f != nullptr && f->transaction(&err), "fiver: " + err);
    std::string text;
    for (size_t j = 0; j < tokens; j++) { words.push_back("w" + std::to_string(rnd() % 5000)); text += words.back() + (j % 7 ? " " : "\n"); }
    addr p, q;
    c.check(f->appender()->append(text, &p, &q, &err), "append: " + err);
    addr at = address;
    for (size_t j = 0; j < marks; j++) {
      addr a = at, b = at + (addr)(rnd() % 3);
      at += 1 + (addr)(rnd() % 4);
      if (all.size() && all.back().q >= b) b = all.back().q + 1; // no nesting
      fval v = j % 11 ? (fval)(rnd() % 100000) / 7 : 0.0;
      c.check(f->annotator()->annotate(X, a, b, v, &err), "annotate: " + err);
      all.push_back({a, b, v});
    }
    addr base = address;
    address = f->relocate(base);
    c.check(address == base + (addr)tokens, "tokens");
    address = base + (addr)tokens;
    if (at > address) { // absolute addresses of the next shard start after these annotations
      for (addr j = address; j < at + 3; j++) words.push_back("");
      address = at + 3;
    }
    f->set_sequence((addr)i);
    c.check(f->ready(&err), "ready: " + err);
    f->commit();
    f->start();
    Node nd;
    nd.fiver = f;
    nd.start = nd.end = (addr)i;
    nodes.push_back(nd);
    c.note(vp::cat("shard of ", tokens, " tokens and ", marks, " annotations"));
  }
  auto check = [&](std::shared_ptr<Warren> w, const std::string &where) {
    ref::List got = ref::enumerate(w->idx()->hopper(X).get(), 1000000);
    c.check_f(ref::equal(got, all), [&] { return where + ": " + ref::diff(got, all); });
    for (int j = 0; j < 20; j++) {
      addr p = (addr)s.below(words.size()), q = p + (addr)s.mag(200);
      q = std::min(q, (addr)words.size() - 1);
      std::string t = w->txt()->translate(p, q), want;
      std::string u;
      for (auto &ch : t) if (ch != '\n' && ch != ' ') u += ch; else if (u.size() && u.back() != ' ') u += ' ';
      t = u;
      for (addr a = p; a <= q; a++) if (words[a].size()) want += (want.size() ? " " : "") + words[a];
      while (t.size() && t.back() == ' ') t.pop_back();
      c.check_f(t == want, [&] { return vp::cat(where, ": text of ", p, ",", q, " is ", vp::show(t, 300), ", expected ", vp::show(want, 300)); });
      std::string word = s.pick(words);
      if (word.size() == 0 || j > 3) continue;
      size_t count = 0;
      for (auto &x : words) count += x == word;
      c.check_f(w->idx()->count(k.featurizer->featurize(word)) == (addr)count, [&] { return vp::cat(where, ": ", word, " occurs ", w->idx()->count(k.featurizer->featurize(word)), " times, expected ", count); });
    }
  };
  bool early = s.coin();
  if (early) for (size_t i = 0; i < nodes.size(); i++) convert(s, c, k, nodes[i], i);
  while (nodes.size() > 1) {
    size_t i = s.below(nodes.size() - 1), j = i + 1 + s.below(nodes.size() - i - 1);
    std::vector<std::shared_ptr<Fiver>> fs;
    std::vector<std::shared_ptr<Hazel>> hs;
    for (size_t x = i; x <= j; x++) { if (early) hs.push_back(nodes[x].hazel); else fs.push_back(nodes[x].fiver); }
    c.note(vp::cat("merge ", i, "..", j));
    Node m;
    m.start = nodes[i].start;
    m.end = nodes[j].end;
    if (early) m.hazel = Hazel::merge(hs, k.working->make_name(hazel_default_name(m.start, m.end)), nullptr, &err);
    else m.fiver = Fiver::merge(fs, &err);
    c.check(m.hazel || m.fiver, "merge: " + err);
    m.warren()->start();
    nodes.erase(nodes.begin() + i, nodes.begin() + j + 1);
    nodes.insert(nodes.begin() + i, m);
  }
  check(nodes[0].warren(), "merged");
  if (!early) {
    if (s.coin()) {
      std::string name = k.working->make_name("saved");
      c.check(nodes[0].fiver->pickle(name, &err), "pickle: " + err);
      auto f = Fiver::unpickle(name, k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc);
      c.check(f != nullptr, "unpickle: " + err);
      f->start();
      check(f, "reloaded");
    }
    convert(s, c, k, nodes[0], 0);
    check(nodes[0].hazel, "converted");
  }
  auto w = Warren::make(k.working->make_name(hazel_default_name(nodes[0].start, nodes[0].end)), &err);
  c.check(w != nullptr, "reopen: " + err);
  w->start();
  check(w, "reopened");
  c.nontrivial(all.size() > 20000);
}

// A stored dynamic index whose files are merged and converted by hand.
void offline(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err;
  std::string options = "tokenizer:name:utf8";
  bool post = s.coin(), zlib = s.coin(), fzlib = s.coin();
  if (post) options += " idx:posting_compressor:post";
  if (fzlib) options += " idx:fvalue_compressor:zlib";
  if (zlib) options += " txt:compressor:zlib";
  auto b = wd::quiet(c, dir, options);
  b->merge(false);
  Model m;
  m.rules.erasures = s.coin();
  m.rules.cross_nest = !m.rules.erasures;
  m.rules.max_tokens = 10;
  size_t n = 1 + s.below(6);
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    c.note_f([&] { return vp::cat("transaction ", i, ": ", m.describe(*t)); });
    c.check(b->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, b);
    c.check(b->ready(&err), "ready: " + err);
    t->base = m.address;
    m.address += t->tokens();
    m.all.push_back(t);
    if (s.chance(1, 8)) { b->abort(); c.note("aborted"); } else { b->commit(); t->committed = true; }
  }
  b = nullptr;
  View v = dyn::committed(m);
  Kit k;
  k.working = Working::make(dir, &err);
  k.featurizer = Featurizer::make("hashing", "");
  k.tokenizer = Tokenizer::make("utf8", "");
  k.pc = Compressor::make(post ? "post" : "null", "");
  k.fc = Compressor::make(fzlib ? "zlib" : "null", "");
  k.tc = Compressor::make(zlib ? "zlib" : "null", "");
  k.chunk = 1 + (addr)s.below(3000);
  size_t rounds = 1 + s.below(4);
  for (size_t r = 0; r < rounds; r++) {
    { // merge or convert some shards
      std::vector<OwslaShard> fivers, hazels;
      std::vector<HazelMergeRecovery> rec;
      c.check(Fiver::sanitize(k.working, &fivers, &err), "sanitize: " + err);
      c.check(Hazel::sanitize(k.working, &hazels, &rec, &err), "sanitize: " + err);
      bool on_fivers = hazels.size() < 2 || (fivers.size() > 0 && s.coin());
      auto &set = on_fivers ? fivers : hazels;
      if (set.size()) {
        size_t i = s.below(set.size()), j = i;
        auto apart = [&](size_t a) { // nothing of the other kind in between
          for (auto &o : on_fivers ? hazels : fivers) if (o.start > set[a].end && o.end < set[a + 1].start) return true;
          return false;
        };
        while (j + 1 < set.size() && !apart(j) && s.chance(2, 3)) j++;
        if (!on_fivers) for (size_t x = i; x < j; x++) if (set[x].end + 1 != set[x + 1].start) j = x;
        bool leave = s.chance(1, 4); // sources left behind, as an interrupted worker leaves them
        if (on_fivers && (j == i || s.chance(1, 4))) {
          auto f = Fiver::unpickle(set[i].name, k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc);
          c.check(f != nullptr, "unpickle: " + err);
          c.note("convert " + set[i].name);
          f->start();
          c.check(f->hazel(&err, k.chunk, "") != nullptr, "convert: " + err);
          if (!leave) f->discard();
        } else if (on_fivers) {
          std::vector<std::shared_ptr<Fiver>> fs;
          for (size_t x = i; x <= j; x++) { fs.push_back(Fiver::unpickle(set[x].name, k.working, k.featurizer, k.tokenizer, &err, k.pc, k.fc, k.tc)); c.check(fs.back() != nullptr, "unpickle: " + err); }
          c.note(vp::cat("merge ", set[i].name, " to ", set[j].name));
          auto f = Fiver::merge(fs, &err);
          c.check(f != nullptr && f->pickle(&err), "merge: " + err);
          if (!leave) for (auto &x : fs) x->discard();
        } else if (j > i) {
          std::vector<std::string> names;
          for (size_t x = i; x <= j; x++) names.push_back(set[x].name);
          c.note(vp::cat("merge ", set[i].name, " to ", set[j].name));
          c.check_f(Hazel::merge(k.working, names, "", &err), [&] { return "merge: " + err; });
          if (!leave) for (auto &x : names) k.working->remove(x);
        }
      }
    }
    auto w = wd::open(c, dir);
    w->start();
    dyn::compare(s, c, w, v, 6, vp::cat("after round ", r));
    w->end();
  }
  c.nontrivial(v.txns.size() > 1);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C15";
  sp.level = "exploration";
  sp.rule = "Random sets of up to 8 transactions (text in several appends, tokenless and multi-chunk text, absolute and relative annotations, erasures, aborted transactions leaving address gaps) become shards; random schedules merge adjacent runs, convert, save and reload, reopen, clone and merge again, in memory and on disk, with random compressors and chunk sizes; every shard and every reopened index is compared with the model: all features by enumeration and random probes, counts, tokens, range, and the text of random ranges. Some shards hold tens of thousands of tokens and annotations (more than a megabyte). Non-trivial: at least two transactions and one merge (large: more than 20000 annotations).";
  sp.assumptions = {"counts are compared where nothing was erased", "annotations of one feature do not nest across transactions where erasures are used (known finding)"};
  sp.subs = {{"large", 40, 1500, large, 120, false, true}, {"plain", 24000, 900000, plain, 60, false, true}, {"erasing", 24000, 900000, erasing, 60, false, true}, {"offline", 900, 30000, offline, 120, false, true}};
  return vp::run(argc, argv, sp);
}
