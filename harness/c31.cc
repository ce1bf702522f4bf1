// C31: the command-line tools, run as programs on indexes the harness made,
// against models and against what the library does when called directly.
#include <dirent.h>
#include "coll.h"
#include "dyn.h"
#include "files.h"
#include "jsongen.h"
#include "src/ranker.h"
#include "src/tagging_featurizer.h"
#include "tools.h"
using namespace cottontail;
using dyn::Model;
using dyn::View;
using ref::Iv;
using ref::List;

namespace {
std::vector<std::string> ls(const std::string &dir) {
  std::vector<std::string> v;
  DIR *d = opendir(dir.c_str());
  if (d) {
    while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}
std::map<std::string, std::string> contents(const std::string &dir, const std::string &prefix = "") {
  std::map<std::string, std::string> m;
  for (auto &n : ls(dir + "/" + prefix)) {
    struct stat st;
    if (stat((dir + "/" + prefix + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      m[prefix + n + "/"] = "";
      for (auto &e : contents(dir, prefix + n + "/")) m[e.first] = e.second;
    } else m[prefix + n] = fl::get(dir + "/" + prefix + n);
  }
  return m;
}
std::string difference(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
  std::string o;
  for (auto &e : a) { auto f = b.find(e.first); if (f == b.end()) o += " " + e.first + " is gone"; else if (f->second != e.second) o += " " + e.first + " changed"; }
  for (auto &e : b) if (!a.count(e.first)) o += " " + e.first + " appeared";
  return o;
}
void copy(vp::Ctx &c, const std::string &from, const std::string &to) {
  if (system(("/bin/cp -a '" + from + "' '" + to + "'").c_str()) != 0) throw std::runtime_error("harness: cp");
  (void)c;
}
size_t shards(const std::string &dir, const std::string &prefix) {
  size_t n = 0;
  for (auto &f : ls(dir)) n += f.compare(0, prefix.size() + 1, prefix + ".") == 0;
  return n;
}
// One immutable file on its own; erasures are still pending in it.
void alone(vp::Src &s, vp::Ctx &c, const std::string &file, const View &v, const std::string &where) {
  std::string err;
  auto w = Warren::make(file, &err);
  c.check_f(w != nullptr, [&] { return where + ": " + err; });
  w->start();
  if (v.erased().empty()) dyn::compare(s, c, w, v, 3, where);
  else {
    addr p, q, p0, q0;
    if (v.range(&p0, &q0)) { c.check(w->txt()->range(&p, &q) && p == p0 && q == q0, where + ": range of text"); c.check(w->txt()->translate(p, q) == v.text(p, q), where + ": text"); }
  }
  w->end();
}
void add(vp::Src &s, vp::Ctx &c, Model &m, std::shared_ptr<Bigwig> b, size_t n) {
  std::string err;
  while (n--) {
    auto t = m.gen(s);
    c.note_f([&] { return "transaction: " + m.describe(*t); });
    c.check(b->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, b);
    c.check(b->ready(&err), "ready: " + err);
    t->base = m.address;
    m.address += t->tokens();
    b->commit();
    t->committed = true;
    m.all.push_back(t);
  }
}
std::string describe_dir(const std::string &d) { std::string o; for (auto &f : ls(d)) o += " " + f; return o; }

// fiver2hazel: whatever it is told to do, in whatever order, the content stays.
void convert(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err;
  Model m;
  m.rules.max_tokens = s.coin() ? 6 : 25;
  m.rules.big = s.chance(1, 4);
  m.rules.erasures = s.chance(1, 4);
  m.rules.cross_nest = !m.rules.erasures;
  std::string options = s.coin() ? "tokenizer:name:utf8" : "tokenizer:name:utf8 idx:posting_compressor:post idx:fvalue_compressor:zlib txt:compressor:zlib";
  add(s, c, m, wd::quiet(c, dir, options), 1 + s.below(5));
  size_t done = 0;
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    std::vector<std::string> args;
    bool conv = s.chance(1, 3), merge = s.chance(1, 3);
    if (s.coin()) { args.push_back("--chunk-size"); args.push_back(std::to_string(1 + s.mag(5000))); }
    if (conv) args.push_back("--convert");
    if (merge) args.push_back("--merge");
    if (s.coin()) std::reverse(args.begin() + (args.size() && args[0] == "--chunk-size" ? 2 : 0), args.end());
    args.push_back(dir);
    tools::How how;
    if (s.chance(1, 3)) { how.limit = (long)s.mag(6000); how.killed = s.coin(); }
    size_t fivers = shards(dir, "fiver"), hazels = shards(dir, "hazel");
    auto r = tools::run(c, "fiver2hazel", args, how);
    if (how.limit < 0) {
      bool both = conv == merge;
      if (both && fivers && !hazels) {
        tools::ends(c, r, true, "converting and merging");
        char name[80];
        snprintf(name, sizeof name, "/hazel.%020d.%020zu", 0, m.all.size() - 1);
        c.check_f(access((dir + name).c_str(), F_OK) == 0, [&] { return std::string("no ") + name + " among" + describe_dir(dir); });
        alone(s, c, dir + name, dyn::committed(m), "the final file");
        done++;
      } else if (conv && !merge && fivers) { tools::ends(c, r, true, "converting"); done++; }
      else if (r.rc >= 256) tools::ends(c, r, true, "fiver2hazel");
      if (s.chance(1, 3)) { // a copy with nothing but the converted files
        auto all = ls(dir);
        bool covered = shards(dir, "hazel") > 0 && (both || (conv && fivers)) && r.rc == 0;
        if (covered && fivers == m.all.size()) {
          std::string only = c.dir() + "/only";
          vp::rm_tree(only);
          copy(c, dir, only);
          for (auto &f : all) if (f.compare(0, 6, "fiver.") == 0) unlink((only + "/" + f).c_str());
          auto w = wd::open(c, only);
          w->start();
          dyn::compare(s, c, w, dyn::committed(m), 2, "without the mutable files:" + describe_dir(only));
          w->end();
        }
      }
    } else {
      // no complaint, no fault: whatever happened, nothing may be lost
      c.label(r.rc == 0 ? "undisturbed" : "disturbed");
      c.check_f(r.rc < 256 || (how.killed && r.rc == 256 + SIGXFSZ), [&] { return vp::cat("fiver2hazel ended by signal ", r.rc - 256, ": ", vp::show(r.err.size() > 300 ? r.err.substr(r.err.size() - 300) : r.err, 400)); });
    }
    auto w = wd::open(c, dir);
    w->start();
    dyn::compare(s, c, w, dyn::committed(m), 2, "after fiver2hazel, with" + describe_dir(dir));
    w->end();
    if (s.chance(1, 3)) { auto b = std::dynamic_pointer_cast<Bigwig>(w); c.check(b != nullptr, "not dynamic"); add(s, c, m, b, 1 + s.below(2)); }
  }
  if (shards(dir, "fiver")) { // and it can always be finished
    auto r = tools::run(c, "fiver2hazel", {"--convert", dir});
    tools::ends(c, r, true, "converting in the end");
    done++;
  }
  auto w = wd::open(c, dir);
  w->start();
  dyn::compare(s, c, w, dyn::committed(m), 3, "in the end");
  w->end();
  c.nontrivial(done > 0 && m.all.size() > 1);
}
// merge-hazels
void merging(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/b", err;
  Model m;
  m.rules.max_tokens = 15;
  m.rules.big = s.chance(1, 5);
  size_t n = 2 + s.below(4);
  add(s, c, m, wd::quiet(c, dir, "tokenizer:name:utf8"), n);
  tools::ends(c, tools::run(c, "fiver2hazel", {"--convert", dir}), true, "converting");
  auto name = [&](size_t a, size_t b) {
    char t[80];
    snprintf(t, sizeof t, "/hazel.%020zu.%020zu", a, b);
    return dir + t;
  };
  std::vector<std::pair<size_t, size_t>> files;
  for (size_t i = 0; i < n; i++) {
    c.check_f(access(name(i, i).c_str(), F_OK) == 0, [&] { return "no " + name(i, i) + " among" + describe_dir(dir); });
    files.push_back({i, i});
  }
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    std::vector<std::pair<size_t, size_t>> pick;
    size_t wrong = s.weighted({3, 1, 1, 1});
    size_t at = s.below(n), k = 2 + s.below(3);
    for (size_t next = at; pick.size() < k && next < n;) {
      std::vector<std::pair<size_t, size_t>> from;
      for (auto &f : files) if (f.first == next && std::find(pick.begin(), pick.end(), f) == pick.end()) from.push_back(f);
      pick.push_back(s.pick(from));
      next = pick.back().second + 1;
    }
    if (wrong == 1 && pick.size() > 1) std::swap(pick[0], pick[1]);
    if (wrong == 2 && pick.size() > 2) pick.erase(pick.begin() + 1);
    std::vector<std::string> args;
    for (auto &p : pick) args.push_back(name(p.first, p.second));
    if (wrong == 3) args.insert(args.begin() + (long)s.below(args.size() + 1), s.coin() ? dir + "/dna" : dir + "/none");
    bool good = args.size() >= 2 && wrong != 3;
    for (size_t i = 1; i < pick.size(); i++) good = good && pick[i].first == pick[i - 1].second + 1;
    auto before = contents(dir);
    auto r = tools::run(c, "merge-hazels", args);
    tools::ends(c, r, good, "merge-hazels");
    auto after = contents(dir);
    if (good) {
      std::string to = name(pick.front().first, pick.back().second);
      View v;
      for (size_t i = pick.front().first; i <= pick.back().second; i++) v.txns.push_back(m.all[i]);
      c.check_f(access(to.c_str(), F_OK) == 0, [&] { return "no " + to + " among" + describe_dir(dir); });
      alone(s, c, to, v, "the merged file");
      for (auto &p : pick) { std::string f = name(p.first, p.second).substr(dir.size() + 1); c.check(after[f] == before[f], "a source changed"); }
      files.push_back({pick.front().first, pick.back().second});
    } else c.check_f(before == after, [&] { return "refused, but" + difference(before, after); });
    c.nontrivial(good);
  }
  for (auto &x : files)
    for (auto &y : files)
      if (x.first < y.first && y.first <= x.second && x.second < y.second) return; // neither covers the other: no history of an index leaves such files
  auto w = wd::open(c, dir);
  w->start();
  dyn::compare(s, c, w, dyn::committed(m), 2, "the index afterwards");
  w->end();
}

// What a meadow holds, file by file, up to the order of records.
typedef std::map<std::string, std::vector<std::multiset<std::string>>> Held;
Held held(vp::Ctx &c, std::shared_ptr<Warren> w, const std::set<std::string> &paths, const std::set<std::string> &fields) {
  Held h;
  (void)c;
  for (auto &p : paths) {
    for (auto &r : wd::annotations(w, p)) {
      std::multiset<std::string> m;
      for (auto &f : fields)
        for (auto &x : wd::annotations(w, f))
          if (x.p >= r.p && x.q <= r.q) {
            std::string t = w->txt()->translate(x.p, x.q);
            while (t.size() && strchr(" \n\t", t.back())) t.pop_back();
            m.insert(f + " " + t + vp::cat(" ", f == ":" || f[1] == ':' ? 0.0 : x.v));
          }
      h[p].push_back(m);
    }
    std::sort(h[p].begin(), h[p].end());
  }
  std::multiset<std::string> names;
  for (auto &e : wd::annotations(w, "/")) names.insert(w->txt()->translate(e.p, e.q));
  h["/"].push_back(names);
  return h;
}
std::string cell(vp::Src &s) { std::string o; for (size_t n = s.below(4); n--;) o += s.pick(std::vector<std::string>{"a", "cat ", "dog", "1 ", "\xC3\xA9t\xC3\xA9 ", "x-y ", "\"", "The "}); return o; }
void meadow(vp::Src &s, vp::Ctx &c) {
  std::string base = c.dir() + "/d", err;
  mkdir(base.c_str(), 0777);
  mkdir((base + "/x").c_str(), 0777);
  struct File { std::string name, path; bool tsv; };
  std::vector<File> files;
  std::set<std::string> taken;
  for (size_t n = 2 + s.below(4); n--;) {
    File f;
    f.tsv = s.coin();
    bool gz = s.chance(1, 5);
    f.name = fl::name(s, f.tsv ? ".tsv" : ".jsonl", gz);
    if (f.name[0] == '-' || f.name[0] == '/' || f.name.find('/') != std::string::npos) f.name = "x/" + f.name.substr(f.name.find('/') == std::string::npos ? 1 : f.name.rfind('/') + 1);
    if (!taken.insert(f.name).second) continue;
    f.path = f.name.find('/') == std::string::npos ? "./" + f.name : f.name;
    std::string b;
    for (size_t k = s.len(8); k--;) {
      if (f.tsv) { b += cell(s); for (size_t j = s.below(3); j--;) b += "\t" + cell(s); b += "\n"; }
      else { json j; for (size_t q = s.below(4); q--;) { auto key = s.pick(std::vector<std::string>{"a", "b", "cat"}); if (s.coin()) j[key] = (int)s.below(9); else j[key] = cell(s); } if (j.is_null()) j = json::object(); b += j.dump() + "\n"; }
    }
    fl::put(c, base + "/" + f.name, fl::zipped(f.name) ? fl::gzipped(b) : b);
    c.note_f([&] { return vp::show(f.name) + ": " + vp::show(b, 300); });
    files.push_back(f);
  }
  fl::put(c, base + "/x/bad.jsonl", "{\"a\": 1}\n{\"a\": \n");
  std::set<std::string> paths, fields = {":", "::", ":0:", ":1:", ":2:", ":a:", ":b:", ":cat:"};
  for (auto &f : files) paths.insert(f.path);
  bool named = s.coin();
  std::string dir = named ? s.pick(std::vector<std::string>{"m", "x/m", "my meadow"}) : "meadow", full;
  std::vector<std::string> lead;
  if (named) lead = {s.coin() ? "-m" : "--meadow", dir};
  else dir = "a.meadow"; // as documented
  full = dir[0] == '/' ? dir : base + "/" + dir;
  tools::How how;
  how.cwd = base;
  bool exists = false;
  if (s.chance(1, 6)) { // not there yet
    auto a = lead;
    if (a.empty() || s.coin()) { a.push_back("--tsv"); a.push_back(files[0].name); }
    if (a.size() > 2 || a[0] == "--tsv") {
      tools::ends(c, tools::run(c, "meadowlark", a, how), false, "appending to a meadow that does not exist");
    }
  }
  std::set<std::string> in;
  auto reference = [&](const std::vector<File> &order) { // the library's doing, in this process
    fl::Here here(base);
    std::string rd = c.dir() + "/ref";
    vp::rm_tree(rd);
    auto w = fl::meadow(c, rd);
    for (auto &f : order) {
      bool ok = f.tsv ? meadowlark::append_tsv(w, f.name, &err) : meadowlark::append_jsonl(w, f.name, &err);
      c.check_f(ok, [&] { return "library refuses " + f.name + ": " + err; });
    }
    w->start();
    Held h = held(c, w, paths, fields);
    w->end();
    return h;
  };
  std::vector<File> order;
  size_t appended = 0;
  for (size_t rounds = 1 + s.below(4); rounds--;) {
    std::vector<std::string> args = lead;
    bool create = !exists || s.chance(1, 8), refused = false, aborts = false;
    if (create) args.push_back(s.coin() ? "-c" : "--create");
    std::vector<File> now;
    std::vector<size_t> idx(files.size());
    for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
    for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[s.below(i)]);
    idx.resize(s.below(idx.size() + 1));
    size_t trouble = s.weighted({8, 1, 1, 1, 1, 1, 1});
    int mode = -1;
    bool stop = false;
    std::vector<File> will;
    for (size_t i = 0; i <= idx.size(); i++) {
      if ((trouble == 1 || trouble == 2) && (i == idx.size() || s.chance(1, 3)) && !stop) { // a file that cannot be stored
        args.push_back(trouble == 1 && s.coin() ? "--tsv" : "--jsonl");
        mode = args.back() == "--tsv";
        args.push_back(trouble == 1 ? "x/none" : "x/bad.jsonl");
        stop = aborts = true;
      }
      if (i == idx.size()) break;
      const File &f = files[idx[i]];
      if (mode != (int)f.tsv || s.chance(1, 4)) { args.push_back(f.tsv ? "--tsv" : s.coin() ? "--jsonl" : "--json"); mode = f.tsv; }
      args.push_back(f.name);
      if (!stop && !in.count(f.name)) will.push_back(f);
    }
    if (trouble == 3) { args.push_back(s.pick(std::vector<std::string>{"--tsv", "--jsonl", "--json"})); refused = true; }
    if (trouble == 4) { args.insert(args.begin() + (long)lead.size() + create + (long)s.below(args.size() - lead.size() - create + 1), s.pick(std::vector<std::string>{"-x", "--csv", "-", "--create"})); refused = true; }
    if (trouble == 5 && idx.size()) { args.insert(args.begin() + (long)lead.size() + create, files[idx[0]].name); refused = true; }
    if (trouble == 6 && idx.size()) { args.insert(args.begin() + (long)lead.size() + create, "--tsv"); refused = true; }
    if (trouble == 4 && args.size() > lead.size() && !create && args[lead.size()] == "--create") { create = true; refused = exists; }
    if (args.empty()) continue;
    if (create && exists) refused = true;
    if (args.size() == lead.size() && !exists) continue;
    auto r = tools::run(c, "meadowlark", args, how);
    // what is listed must not matter twice: duplicates within one command are not generated
    tools::ends(c, r, !refused && !aborts, "meadowlark");
    if (create && !exists) exists = access(full.c_str(), F_OK) == 0;
    c.check(exists, "no meadow was created");
    if (!refused)
      for (auto &f : will) { order.push_back(f); in.insert(f.name); appended++; }
    if (!refused)
      for (auto &i : idx)
        if (in.count(files[i].name) && !aborts) {
          bool fresh = false;
          for (auto &f : will) fresh = fresh || f.name == files[i].name;
          bool said = r.err.find("Skipping existing file " + files[i].name + "\n") != std::string::npos;
          c.check_f(said != fresh, [&] { return vp::show(files[i].name) + (said ? " skipped, was not stored" : " not skipped, was stored"); });
        }
    Held want = reference(order), got;
    {
      fl::Here here(base);
      auto w = fl::reopen(c, full);
      w->start();
      got = held(c, w, paths, fields);
      w->end();
      w = nullptr;
    }
    c.check_f(got == want, [&] {
      std::string o = "the meadow differs from one the library filled with";
      for (auto &f : order) o += " " + vp::show(f.name);
      for (auto &e : want) if (got[e.first] != e.second) { o += "; " + vp::show(e.first) + ": "; for (auto &m : got[e.first]) { o += "{"; for (auto &x : m) o += vp::show(x, 60) + ", "; o += "} "; } o += "expected "; for (auto &m : e.second) { o += "{"; for (auto &x : m) o += vp::show(x, 60) + ", "; o += "} "; } }
      return o;
    });
  }
  c.nontrivial(appended > 1);
}
// forage
void forage(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", err;
  static const std::vector<std::string> words = {"cat", "cats", "dog", "running", "ran", "Relational", "the", "x1"};
  {
    auto w = fl::meadow(c, dir);
    c.check(w->transaction(&err), "transaction " + err);
    for (size_t n = s.len(12); n--;) {
      std::string t;
      for (size_t k = 1 + s.below(7); k--;) t += s.pick(words) + " ";
      addr p, q;
      c.check(w->appender()->append(t, &p, &q, &err), "append " + err);
      c.check(w->annotator()->annotate(w->featurizer()->featurize(s.chance(1, 4) ? "other:" : "doc:"), p, q, &err), "annotate " + err);
      c.note_f([&] { return t; });
    }
    c.check(w->ready(&err), "ready " + err);
    w->commit();
  }
  for (size_t rounds = 1 + s.below(2); rounds--;) {
    std::string twin = c.dir() + "/twin";
    vp::rm_tree(twin);
    copy(c, dir, twin);
    std::map<std::string, std::string> params;
    std::vector<std::string> args;
    size_t where = s.below(3);
    auto option = [&](const std::string &k, const std::string &v) {
      if (s.coin()) { args.push_back("--" + k); args.push_back(v); }
      else args.push_back("--" + k + "=" + v);
    };
    if (where == 0) option("meadow", dir);
    if (s.coin()) { params["stemmer"] = s.pick(std::vector<std::string>{"porter", "null"}); option("stemmer", params["stemmer"]); }
    if (s.coin()) { params["tokenizer"] = s.pick(std::vector<std::string>{"ascii", "utf8"}); option("tokenizer", params["tokenizer"]); }
    if (s.chance(1, 3)) { std::string v = s.pick(std::vector<std::string>{"", "a b", "x=y", "\"", "--z"}); params["p q"] = v; option("p q", v); }
    if (where > 0) option("meadow", dir);
    std::string query = s.pick(std::vector<std::string>{"doc:", "other:", "(+ doc: other:)", "(>> doc: cat)", "none:", "(^", ""}), name, tag;
    args.push_back(query);
    size_t more = s.below(3);
    if (more > 0) { name = s.pick(std::vector<std::string>{"tf-idf", "", "null", "unknown"}); args.push_back(name); }
    if (more > 1) { tag = s.pick(std::vector<std::string>{"", "t", "a b", "\xC3\xA9"}); args.push_back(tag); }
    if (s.chance(1, 12)) { args.push_back(tag); args.push_back("extra"); args.push_back("more"); }
    bool usage = args.size() >= 2 && args.back() == "more";
    auto r = tools::run(c, "forage", args);
    if (usage) { tools::ends(c, r, false, "too many arguments"); }
    bool ok = false;
    {
      auto w = fl::reopen(c, twin);
      if (!usage) {
        ok = meadowlark::forage(w, query, name, tag, params, &err);
        tools::ends(c, r, ok, "forage");
      }
    }
    auto a = fl::reopen(c, dir), b = fl::reopen(c, twin);
    a->start();
    b->start();
    std::string kind = name == "" ? "tf-idf" : name, label = kind + ":" + (tag == "" ? "" : tag + ":");
    std::vector<addr> features;
    auto feature = [&](const std::string &what, const std::string &t) { features.push_back(TaggingFeaturizer::make(a->featurizer(), label + what)->featurize(t)); };
    for (auto &w : words)
      for (std::string t : {w, std::string(Stemmer::make("porter", "")->stem(w)), std::string("relational"), std::string("relat")}) { feature("tf", t); feature("df", t); }
    feature("total", "items");
    feature("total", "length");
    for (std::string x : std::vector<std::string>{"@", "@" + label, "doc:", "other:"}) features.push_back(a->featurizer()->featurize(x));
    size_t n = 0;
    for (auto f : features) {
      List x = wd::annotations(a, f), y = wd::annotations(b, f);
      n += x.size();
      c.check_f(ref::equal(x, y), [&] { return "after forage, against the library: " + ref::diff(x, y); });
    }
    addr p, q, p2, q2;
    bool ta = a->txt()->range(&p, &q), tb = b->txt()->range(&p2, &q2);
    c.check(ta == tb && (!ta || (p == p2 && q == q2 && a->txt()->translate(p, q) == b->txt()->translate(p, q))), "after forage, against the library: text");
    c.nontrivial(ok && n > 5);
    a->end();
    b->end();
  }
}
// set: parameters read and written from outside
void parameters(vp::Src &s, vp::Ctx &c) {
  std::string base = c.dir() + "/d", err;
  mkdir(base.c_str(), 0777);
  bool named = s.coin();
  std::string name = named ? s.pick(std::vector<std::string>{"b", "my burrow"}) : DEFAULT_BURROW, dir = base + "/" + name;
  Model m;
  m.rules.big = false;
  m.rules.max_tokens = 10;
  add(s, c, m, wd::quiet(c, dir, "tokenizer:name:utf8"), 1 + s.below(2));
  auto twin = wd::quiet(c, c.dir() + "/twin", "tokenizer:name:utf8"); // says which keys and values can be stored
  std::map<std::string, std::string> model;
  static const std::vector<std::string> keys = {"container", "k", "a b", "x:y", "K", "id", "\xC3\xA9"}, values = {"", "doc:", "(... <DOC> </DOC>)", "a \"quoted\" one", "back\\slash", "two\nlines", " ", "\xE4\xBD\xA0"};
  tools::How how;
  how.cwd = base;
  size_t sets = 0;
  for (size_t rounds = 2 + s.below(6); rounds--;) {
    std::vector<std::string> args;
    if (named) args = {s.coin() ? "-b" : "--burrow", name};
    std::string key = s.pick(keys), value;
    args.push_back(key);
    size_t what = s.weighted({4, 3, 1});
    if (what == 0) { value = s.pick(values); args.push_back(value); }
    if (what == 2) { if (s.coin()) args.pop_back(); else { args.push_back("x"); args.push_back("y"); } }
    auto before = contents(dir);
    auto r = tools::run(c, "set", args, how);
    bool ok = what == 0 ? twin->set_parameter(key, value, &err) : what == 1 ? twin->get_parameter(key, &value, &err) : false;
    tools::ends(c, r, ok, "set");
    if (!ok) { c.check_f(contents(dir) == before, [&] { return "refused, but" + difference(before, contents(dir)); }); continue; }
    if (what == 0) { model[key] = value; sets++; }
    else if (!model.count(key)) c.check(value == "", "harness: the twin");
    c.check_f(r.out == key + " = \"" + value + "\"\n", [&] { return "printed " + vp::show(r.out) + ", expected the value " + vp::show(value); });
  }
  {
    auto w = wd::open(c, dir);
    w->start();
    for (auto &e : model) { std::string v, u; c.check(w->get_parameter(e.first, &v, &err) && twin->get_parameter(e.first, &u, &err), "get_parameter " + err); c.check_f(v == u && (v == e.second || e.second[0] == '['), [&] { return vp::show(e.first) + " is " + vp::show(v) + ", was set to " + vp::show(e.second); }); }
    dyn::compare(s, c, w, dyn::committed(m), 1, "after set");
    w->end();
  }
  c.nontrivial(sets > 1);
}
// containers: each on a line of its own
void containers(vp::Src &s, vp::Ctx &c) {
  coll::Rules rules;
  rules.engines = {"disk", "simple"};
  rules.docs = 12;
  auto k = coll::make(s, c, rules);
  std::string err, q = s.pick(std::vector<std::string>{"doc:", "title:", "body:", "(>> doc: cat)", "id:", "none:", "(^"});
  c.check(k.w->set_parameter("container", q, &err), "set_parameter " + err);
  std::vector<std::string> want;
  auto h = k.w->hopper_from_gcl(q, &err);
  if (h)
    for (auto &i : ref::enumerate(h.get())) {
      std::string t;
      for (auto ch : k.w->txt()->translate(i.p, i.q)) t += ch == '\n' || ch == '\r' ? ' ' : ch;
      want.push_back(t);
    }
  k.w->end();
  auto r = tools::run(c, "containers", {k.dir});
  tools::ends(c, r, h != nullptr, "containers of " + q);
  std::string o;
  for (auto &t : want) o += t + "\n";
  c.check_f(r.out == o, [&] { return "containers of " + q + ": " + vp::show(r.out, 500) + ", expected " + vp::show(o, 500); });
  c.nontrivial(want.size() > 1);
}
// rank: the run the library computes, in the usual format
void rank(vp::Src &s, vp::Ctx &c) {
  coll::Rules rules;
  rules.engines = {"disk", "simple"};
  rules.docs = 50;
  rules.length = 6;
  auto k = coll::make(s, c, rules);
  std::string err;
  std::string kind;
  if (s.chance(1, 4)) { // by the library
    coll::configure(s, c, &k);
    coll::statistics(s, c, &k, s.pick(std::vector<std::string>{"df", "idf", "field", "tf"}));
    kind = k.kind;
  }
  k.w->end();
  k.w = nullptr;
  if (kind == "") { // by a tool, compared with a copy the library did
    std::string twin = c.dir() + "/twin", stemmer = s.chance(1, 12) ? "none" : s.pick(std::vector<std::string>{"porter", "null"});
    bool idf = k.engine == "simple" && s.chance(1, 3), full = s.coin(), id = !idf || s.chance(3, 4);
    copy(c, k.dir, twin);
    std::vector<std::string> args = {s.coin() ? "-b" : "--burrow", k.dir}, content;
    if (idf && full) args.push_back(s.coin() ? "-f" : "--full");
    std::string container = s.chance(1, 15) ? "(^" : "doc:";
    args.insert(args.end(), {stemmer, container});
    if (id) args.push_back(s.chance(1, 12) ? "(^" : "id:");
    std::string idq = id ? args.back() : "";
    if (!idf) for (size_t n = s.below(3); n--;) content.push_back(s.chance(1, 20) ? "(^" : s.pick(std::vector<std::string>{"body:", "title:"}));
    if (content.size() == 2 && content[0] == content[1]) content.pop_back();
    args.insert(args.end(), content.begin(), content.end());
    auto r = tools::run(c, idf ? "tf-idf" : "tf-df", args);
    auto w = wd::open(c, twin);
    w->start();
    auto st = Stemmer::make(stemmer, "", &err);
    bool ok = st != nullptr && container == "doc:" && idq != "(^";
    for (auto &q : content) ok = ok && q != "(^";
    if (ok) {
      c.check(w->set_stemmer(st, &err) && w->set_default_container(container, &err), err);
      if (id) c.check(w->set_parameter("id", idq, &err), err);
      if (content.size() == 1) c.check(w->set_parameter("content", content[0], &err), err);
      if (content.size() == 2) c.check(w->set_parameter("fields", content[0] + "\t" + content[1], &err), err);
      ok = idf ? tf_idf_annotations(w, &err, full, full, true) : content.size() < 2 ? tf_df_annotations(w, &err) : tf_field_annotations(w, &err);
    }
    tools::ends(c, r, ok, idf ? "tf-idf" : "tf-df");
    w->end();
    w = nullptr;
    if (ok) {
      kind = idf ? "idf" : content.size() < 2 ? "df" : "field";
      auto a = wd::open(c, k.dir), b = wd::open(c, twin);
      a->start();
      b->start();
      auto sa = Stats::make(kind, "", a, &err), sb = Stats::make(kind, "", b, &err);
      c.check_f((sa == nullptr) == (sb == nullptr), [&] { return "statistics of one kind only: " + err; });
      if (sa) {
        c.check_f(sa->avgl() == sb->avgl(), [&] { return vp::cat("average length ", sa->avgl(), ", the library computes ", sb->avgl()); });
        for (auto &v : k.vocab)
          for (std::string t : {v, k.stem->stem(v), st->stem(v)}) {
            c.check_f(sa->idf(t) == sb->idf(t) && sa->rsj(t) == sb->rsj(t), [&] { return vp::cat("weights of ", t, " are ", sa->idf(t), " ", sa->rsj(t), ", the library computes ", sb->idf(t), " ", sb->rsj(t)); });
            List x = ref::enumerate(sa->tf_hopper(t).get()), y = ref::enumerate(sb->tf_hopper(t).get());
            c.check_f(ref::equal(x, y), [&] { return "frequencies of " + t + ", against the library: " + ref::diff(x, y); });
          }
      } else kind = "";
      a->end();
      b->end();
    }
  }
  static const std::vector<std::string> pipelines = {"bm25", "bm25:b=0.4 bm25", "stop bm25", "stem bm25", "depth=2 bm25", "bm25 kld bm25", "lmd", "nonsense", "bm25 x=y"};
  std::string pipeline = s.pick(pipelines), stats = s.chance(1, 12) ? s.pick(std::vector<std::string>{"nonsense", "df:x", "tf-idf"}) : kind;
  if (stats == kind && s.chance(1, 3)) stats += ":";
  if (kind == "" && stats == ":") stats = "";
  std::string file;
  std::map<std::string, std::string> queries;
  std::vector<std::string> topics;
  bool weird = false;
  for (size_t n = s.below(6); n--;) {
    std::string topic = s.chance(1, 5) && topics.size() ? "t" + std::to_string(topics.size()) + "x" : std::to_string(topics.size() + 1);
    std::string q;
    for (size_t j = s.chance(1, 12) ? 0 : 1 + s.below(4); j--;) q += (q.size() ? " " : "") + (s.chance(1, 8) ? std::string("never") : s.coin() ? s.pick(k.docs).id : coll::word(s, k.vocab));
    if (s.chance(1, 25)) { file += "oneword\n"; weird = true; break; }
    std::string sep = s.coin() ? "\t" : " ";
    file += topic + sep + q + "\n";
    queries[topic] = sep + q;
    topics.push_back(topic);
  }
  fl::put(c, c.dir() + "/queries", file);
  std::vector<std::string> args;
  size_t threads = s.below(4);
  std::vector<std::vector<std::string>> opts = {{s.coin() ? "-b" : "--burrow", k.dir}};
  if (s.coin()) opts.push_back({s.coin() ? "-t" : "--threads", std::to_string(threads)});
  if (stats.size()) opts.push_back({s.pick(std::vector<std::string>{"-s", "--stats", "--statistics"}), stats});
  if (s.chance(1, 5)) opts.push_back({"-v"});
  for (size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[s.below(i)]);
  for (auto &o : opts) args.insert(args.end(), o.begin(), o.end());
  bool bad = s.chance(1, 12);
  if (bad) { args.insert(args.begin(), s.pick(std::vector<std::string>{"-1", "x", "3x", ""})); args.insert(args.begin(), "-t"); }
  args.push_back(c.dir() + "/queries");
  for (size_t at = 0, e; at < pipeline.size(); at = e + 1) { e = std::min(pipeline.find(' ', at), pipeline.size()); args.push_back(pipeline.substr(at, e - at)); }
  c.note_f([&] { return vp::show(file); });
  auto r = tools::run(c, "rank", args);
  if (bad || weird) { tools::ends(c, r, false, "rank"); c.check(r.out == "", "refused, but printed " + vp::show(r.out, 200)); return; }
  auto w = wd::open(c, k.dir);
  size_t colon = stats.find(':');
  std::map<std::string, std::vector<std::string>> results;
  bool ok = trec(w, stats.substr(0, colon), colon == std::string::npos ? "" : stats.substr(colon + 1), pipeline, queries, &results, &err, 1, nullptr);
  c.note_f([&] { return ok ? "" : "refused: " + err; });
  tools::ends(c, r, ok, "rank " + pipeline + " " + stats);
  std::string o;
  size_t lines = 0;
  if (ok)
    for (auto &t : topics) {
      auto &d = results[t];
      if (d.empty()) o += t + " Q0 FAKE 1 1 cottontail\n";
      for (size_t i = 0; i < d.size(); i++, lines++) {
        std::string id = d[i];
        while (id.size() && !isalnum((unsigned char)id.back())) id.pop_back();
        o += vp::cat(t, " Q0 ", trec_docno(d[i]), " ", i + 1, " ", d.size() - i, " cottontail\n");
        c.check_f(trec_docno(d[i]).compare(0, id.size(), id) == 0 && (id[0] == 'd' || id[0] == 'D'), [&] { return "an identifier that is none: " + vp::show(d[i]); });
      }
    }
  c.check_f(r.out == o, [&] { return "rank printed " + vp::show(r.out, 500) + ", the library gives " + vp::show(o, 500); });
  c.nontrivial(lines > 1);
}
// jsonl and simple: whole indexes from files
void build(vp::Src &s, vp::Ctx &c) {
  std::string base = c.dir() + "/d", err;
  mkdir(base.c_str(), 0777);
  mkdir((base + "/in").c_str(), 0777);
  tools::How how;
  how.cwd = base;
  std::vector<std::string> args;
  if (s.coin()) {
    bool simple = s.coin();
    std::multiset<std::string> want;
    if (!simple || s.coin()) args.push_back(simple ? "--simple" : "--bigwig");
    for (size_t n = 1 + s.below(3), i = 0; i < n; i++) {
      std::string b;
      for (size_t k = s.len(8); k--;) {
        json j;
        for (size_t q = 1 + s.below(3); q--;) { auto key = s.pick(std::vector<std::string>{"a", "b", "cat"}); if (s.coin()) j[key] = (double)s.below(9); else j[key] = cell(s); }
        b += j.dump() + "\n";
        want.insert(j.dump());
      }
      std::string f = "in/f" + std::to_string(i) + ".jsonl";
      fl::put(c, base + "/" + f, b);
      c.note_f([&] { return vp::show(b, 300); });
      args.push_back(f);
    }
    bool missing = s.chance(1, 10);
    if (missing) args.push_back("in/none");
    auto r = tools::run(c, "jsonl", args, how);
    tools::ends(c, r, !missing, "jsonl");
    if (missing) return;
    auto w = wd::open(c, base + "/json.burrow");
    w->start();
    std::multiset<std::string> got;
    for (auto &i : wd::annotations(w, ":")) {
      std::string t = json_translate(w->txt()->translate(i.p, i.q));
      try { got.insert(json::parse(t).dump()); } catch (json::exception &e) { c.fail("a stored document is " + vp::show(t)); }
    }
    c.check_f(got == want, [&] { std::string o; for (auto &x : got) o += x + " "; o += "; expected "; for (auto &x : want) o += x + " "; return "jsonl stored " + o; });
    w->end();
    c.nontrivial(want.size() > 1);
    return;
  }
  std::vector<std::string> names;
  std::string options = s.coin() ? "" : s.pick(std::vector<std::string>{"tokenizer:noxml", "tokenizer:name:utf8", "txt:compressor:zlib"});
  if (options.size()) args.push_back(options);
  if (s.coin()) args.push_back("--trec");
  args.push_back("--files");
  size_t total = 0;
  for (size_t n = 1 + s.below(3), i = 0; i < n; i++) {
    std::string b = "<DOC> ", f = s.pick(std::vector<std::string>{"in/a", "in/b.txt", "in/c d", "in/README", "in/readme.txt"}) + std::to_string(i), as = f;
    for (size_t k = s.len(s.chance(1, 4) ? 900 : 30); k--; total++) b += (s.coin() ? s.pick(std::vector<std::string>{"cat", "dog", "The", "x1"}) : "w" + std::to_string(s.mag(999))) + s.pick(std::vector<std::string>{" ", "\n", ", "});
    b += "</DOC>\n";
    if (s.chance(1, 4)) { // a directory
      std::string d = f + ".d", e = d;
      for (size_t depth = s.below(3); depth--;) e += "/sub";
      for (size_t at = 0; (at = e.find('/', at + 1)) != std::string::npos;) mkdir((base + "/" + e.substr(0, at)).c_str(), 0777);
      mkdir((base + "/" + e).c_str(), 0777);
      f = e + "/doc";
      as = d;
    }
    fl::put(c, base + "/" + f, b);
    args.push_back(as);
    std::string low;
    for (auto ch : f) low += (char)tolower(ch);
    if (low.find("readme") == std::string::npos) names.push_back(f);
  }
  bool missing = s.chance(1, 10);
  if (missing) args.push_back("in/none");
  if (s.chance(1, 3)) { how.limit = s.coin() ? 450 + (long)s.mag(9000) : (long)s.mag(1500); }
  auto r = tools::run(c, "simple", args, how);
  if (how.limit >= 0 && !missing && r.rc != 0) { // a failing write that was noticed
    c.label("writing fails");
    tools::ends(c, r, false, "simple");
    c.nontrivial(total > 5);
    return;
  }
  tools::ends(c, r, !missing, "simple");
  if (missing) { c.check(access((base + "/" + DEFAULT_BURROW).c_str(), F_OK) != 0, "refused, but made an index"); return; }
  std::string rd = c.dir() + "/ref";
  {
    fl::Here here(base);
    auto working = Working::mkdir(rd, &err);
    c.check(working != nullptr, err);
    auto b = SimpleBuilder::make(working, options, &err);
    c.check(b != nullptr, err);
    for (auto &f : names) {
      addr p, q;
      c.check(b->add_text(fl::get(f), &p, &q, &err), err);
    }
    c.check(b->finalize(&err), err);
  }
  auto a = wd::open(c, base + "/" + DEFAULT_BURROW), b = wd::open(c, rd);
  a->start();
  b->start();
  for (std::string f : {"cat", "dog", "the", "The", "x1", "<DOC>", "</DOC>", "doc", "never", "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w10", "w20", "w30", "w99", "w100"}) {
    List x = wd::annotations(a, f), y = wd::annotations(b, f);
    c.check_f(ref::equal(x, y), [&] { return "simple, against the library: " + f + ": " + ref::diff(x, y); });
  }
  addr p, q, p2, q2;
  bool ta = a->txt()->range(&p, &q), tb = b->txt()->range(&p2, &q2);
  c.check(ta == tb && (!ta || (p == p2 && q == q2 && a->txt()->translate(p, q) == b->txt()->translate(p, q))), "simple, against the library: text");
  a->end();
  b->end();
  c.nontrivial(total > 5);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec spec;
  spec.property = "C31";
  spec.level = "exploration";
  spec.rule = "a case is non-trivial when a tool changed or printed something: files converted or merged, more than one file stored, statistics computed, more than one parameter set, container, or ranked line";
  spec.assumptions = {"command lines do not name one file twice", "background merging is off in indexes the harness makes; indexes tools create run their own"};
  vp::Sub sub;
  auto put = [&](const char *n, uint64_t q, uint64_t t, vp::Fn f) {
    vp::Sub x;
    x.name = n; x.quick = q; x.thorough = t; x.fn = f; x.needs_dir = true; x.timeout_s = 300;
    spec.subs.push_back(x);
  };
  put("convert", 250, 6000, convert);
  put("merging", 150, 4000, merging);
  put("meadow", 200, 5000, meadow);
  put("forage", 120, 3000, forage);
  put("parameters", 80, 2000, parameters);
  put("containers", 100, 2000, containers);
  put("rank", 500, 10000, rank);
  put("build", 120, 3000, build);
  return vp::run(argc, argv, spec);
}
