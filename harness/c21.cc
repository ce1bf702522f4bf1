// C21: the files of a working directory, against a map from names to bytes;
// and loading text files, plain and compressed.
#include <atomic>
#include <dirent.h>
#include <set>
#include <thread>
#include "crash.h"
#include "crash_impl.h"
#include "dyn.h"
#include "files.h"
#include "src/read_gate.h"
#include "src/simple_builder.h"
using namespace cottontail;

namespace {
std::string bytes(vp::Src &s, size_t max) {
  size_t n = s.weighted({3, 3, 1}) == 0 ? s.below(20) : s.coin() ? s.len(max) : s.below(max + 1);
  uint64_t seed = s.raw();
  size_t kind = s.below(4);
  std::string o(n, 0);
  for (size_t i = 0; i < n; i++) {
    uint64_t r = vp::mix(seed, kind == 1 ? i / 50 : i);
    o[i] = kind == 0 ? "the quick\nbrown fox "[r % 20] : kind == 1 ? (char)r : kind == 2 ? (char)(r % 3) : (char)r;
  }
  return o;
}
const std::vector<std::string> &directories() {
  static const std::vector<std::string> v = {"w", "w x", "it's", "a*", "a(b)", "w;x", "$HOME", "\"w\"", "w&x", "-w", "w'x y'z", "w\nx", "\xC3\xA9 w", "w?", "[w]", "`w`", "w>x", "w|x", "a\\b", "temp.d", "#w", "w "};
  return v;
}
std::string directory(vp::Src &s, vp::Ctx &c) {
  std::string d = c.dir() + "/" + (s.chance(1, 3) ? "in ner/" : "") + s.pick(directories());
  return d;
}
// Every file below a directory, with its bytes.
void tree(const std::string &dir, const std::string &at, std::map<std::string, std::string> *o) {
  DIR *d = opendir((dir + at).c_str());
  if (!d) return;
  while (auto e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (lstat((dir + at + "/" + n).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { (*o)[at + "/" + n + "/"] = "directory"; tree(dir, at + "/" + n, o); }
    else (*o)[at + "/" + n] = fl::get(dir + at + "/" + n);
  }
  closedir(d);
}
std::map<std::string, std::string> tree(const std::string &dir) {
  std::map<std::string, std::string> o;
  tree(dir, "", &o);
  return o;
}
const std::vector<std::string> &names() {
  static const std::vector<std::string> v = {"a", "ab", "a.b", "a.b.c", "a b", "hazel.0.0", "hazel", "hazelnut", "fiver.1", "fiverish", "xfiver", "temporary", "atemp.x", "(x", "[x", "x*", "+", "a+b", "$", "^a", "\\d", "A", "\xC3\xA9", "new\nline", "tab\tx", "'q'", "\"q\"", "-r", "commit.x.sh", "pst.hazel", "pstXhazel", "z{1}"};
  return v;
}

// Reading patterns against the bytes.
void check_reader(vp::Src &s, vp::Ctx &c, std::shared_ptr<Reader> r, const std::string &want, bool random_access, const std::string &what) {
  size_t where = 0;
  std::vector<char> buffer;
  if (random_access && s.coin()) c.check_f(r->size() == want.size(), [&] { return vp::cat(what, ": size ", r->size(), ", expected ", want.size()); });
  size_t n = 1 + s.below(12);
  for (size_t i = 0; i < n; i++) {
    bool jump = random_access && s.chance(2, 5);
    if (jump) where = s.weighted({4, 1, 1}) == 0 ? s.below(want.size() + 3) : s.coin() ? want.size() : (size_t)s.mag(~0ull >> 1);
    size_t amount = s.weighted({3, 2, 1}) == 0 ? s.below(20) : s.below(want.size() + 10);
    if (s.chance(1, 8)) amount = want.size() + s.below(300);
    buffer.assign(amount + 8, '\x5a');
    size_t got = jump ? r->read(buffer.data(), where, amount) : r->read(buffer.data(), amount);
    size_t left = where < want.size() ? want.size() - where : 0, expect = std::min(left, amount);
    c.check_f(got == expect, [&] { return vp::cat(what, ": reading ", amount, " bytes at ", where, " of ", want.size(), " gave ", got); });
    c.check_f(got == 0 || memcmp(buffer.data(), want.data() + where, got) == 0, [&] { return vp::cat(what, ": reading ", amount, " bytes at ", where, " gave other bytes than written"); });
    for (size_t k = got; k < buffer.size(); k++) c.check(buffer[k] == '\x5a', what + ": wrote beyond what it said it read");
    where += got;
  }
  if (random_access && s.coin()) c.check_f(r->size() == want.size(), [&] { return vp::cat(what, ": size ", r->size(), ", expected ", want.size()); });
}

void files(vp::Src &s, vp::Ctx &c) {
  std::string dir = directory(s, c), err;
  fl::Here here(c.dir());
  auto w = Working::mkdir(dir, &err);
  c.check(w != nullptr, "mkdir: " + err);
  struct File { std::string bytes; bool compressed; };
  std::map<std::string, File> model;
  std::set<std::string> loaded;
  size_t steps = 2 + s.below(12), reads = 0;
  for (size_t i = 0; i < steps; i++) {
    std::string name = s.pick(names());
    switch (s.weighted({4, 5, 1, 1, 1})) {
    case 0: {
      std::string b = bytes(s, s.chance(1, 6) ? 300000 : 3000);
      static const std::vector<std::string> kinds = {"", "file", "full", "compressed", "compression test"};
      std::string kind = s.pick(kinds);
      if (kind == "compression test" && b.size() > 20000) b.resize(20000);
      auto x = w->writer(name, kind, &err);
      c.check_f(x != nullptr, [&] { return "writer: " + err; });
      size_t at = 0;
      while (at < b.size()) {
        size_t n = s.chance(1, 6) ? 0 : s.coin() ? 1 + s.below(40) : 1 + s.below(b.size());
        n = std::min(n, b.size() - at);
        if (b.size() > 2000 && n < 100) n = std::min<size_t>(b.size() - at, 100 + n * 37);
        x->append(b.data() + at, n);
        at += n;
      }
      x = nullptr;
      model[name] = {b, kind[0] == 'c'};
      c.note_f([&] { return vp::cat("write ", vp::show(name), " as '", kind, "' ", b.size(), " bytes"); });
      break;
    }
    case 1: {
      auto it = model.find(name);
      if (model.size() && it == model.end()) { it = model.begin(); std::advance(it, s.below(model.size())); name = it->first; }
      bool zip = it != model.end() && it->second.compressed;
      static const std::vector<std::string> plain = {"", "file", "full"}, zipped = {"compressed", "compression test"};
      std::string kind = s.pick(zip ? zipped : plain);
      bool by_default = !zip && s.chance(1, 3);
      auto r = by_default ? w->reader(name, &err) : w->reader(name, kind, &err);
      c.note_f([&] { return vp::cat("read ", vp::show(name), " as '", by_default ? "default" : kind, "'"); });
      if (it == model.end()) { c.check(r == nullptr, "a reader of a file that is not there"); break; }
      c.check_f(r != nullptr, [&] { return "reader: " + err; });
      std::vector<std::shared_ptr<Reader>> rs = {r};
      while (s.chance(1, 3)) { auto y = w->reader(name, kind, &err); c.check(y != nullptr, "reader: " + err); rs.push_back(y); }
      for (auto &y : rs) {
        check_reader(s, c, y, it->second.bytes, !zip, vp::cat(vp::show(name), " as '", kind, "'"));
        reads++;
      }
      if (!zip) {
        auto gate = ReadGate::make(w->make_name(name), &err, 1 + s.below(3));
        c.check(gate != nullptr, "gate: " + err);
        size_t n = it->second.bytes.size();
        addr at = (addr)s.below(n + 2), len = (addr)s.below(n + 3);
        auto b = gate->read(at, len, &err);
        bool ok = at + len <= (addr)n || len == 0;
        c.check_f((b != nullptr) == ok, [&] { return vp::cat("gate: reading ", len, " bytes at ", at, " of ", n, ok ? " failed" : " succeeded"); });
        if (ok) c.check(memcmp(b.get(), it->second.bytes.data() + (len ? at : 0), len) == 0, "gate: other bytes than written");
        c.check(gate->read(-1 - (addr)s.below(3), 1, &err) == nullptr && gate->read(0, -1, &err) == nullptr, "gate: a negative range was read");
      }
      break;
    }
    case 2:
      c.check(w->remove(name, &err), "remove: " + err);
      model.erase(name);
      break;
    case 3:
      w->load(name);
      loaded.insert(name);
      break;
    case 4: {
      err = "";
      static const std::vector<std::string> bad = {"zip", "File", "compressed ", "gz", "x"};
      std::string kind = s.pick(bad);
      if (model.size()) c.check(w->reader(model.begin()->first, kind, &err) == nullptr && err != "", "a reader of kind '" + kind + "'");
      err = "";
      c.check(w->writer("other", kind, &err) == nullptr && err != "", "a writer of kind '" + kind + "'");
      break;
    }
    }
    if (s.chance(1, 3)) {
      auto l = w->ls("");
      std::vector<std::string> want;
      for (auto &e : model) want.push_back(e.first);
      std::sort(l.begin(), l.end());
      c.check_f(l == want, [&] { return vp::cat("lists ", l.size(), " files, ", want.size(), " were written"); });
    }
    if (s.chance(1, 8)) { w = Working::make(dir, &err); c.check(w != nullptr, "make: " + err); }
  }
  for (auto &e : model)
    if (!e.second.compressed) c.check_f(fl::get(dir + "/" + e.first) == e.second.bytes, [&] { return "the file " + vp::show(e.first) + " does not hold what was written"; });
  c.nontrivial(reads > 0 && model.size() > 0);
}

// Listing and temporary files, in a directory among others.
void listing(vp::Src &s, vp::Ctx &c) {
  std::string root = c.dir() + "/r", err;
  ::mkdir(root.c_str(), 0700);
  std::string leaf = s.pick(directories()), dir = root + "/" + leaf;
  fl::Here here(root);
  // What careless handling of the name would touch.
  for (auto &d : directories())
    if (s.chance(1, 4) && d != leaf) {
      ::mkdir((root + "/" + d).c_str(), 0700);
      for (auto n : {"temp.00000000", "temp.x", "a"}) fl::put(c, root + "/" + d + "/" + n, "keep");
    }
  for (auto n : {"temp.00000000", "x", "w", "y'z"}) if (n != leaf && s.coin()) { struct stat st; if (stat((root + "/" + n).c_str(), &st)) fl::put(c, root + "/" + n, "keep"); }
  bool there = s.coin();
  std::map<std::string, std::string> in;
  std::vector<std::string> all = names();
  all.push_back(std::string(255, 'n'));
  all.push_back("hazel." + std::string(249, '7'));
  auto add = [&] {
    size_t n = s.below(14);
    for (size_t i = 0; i < n; i++) {
      std::string name = s.chance(1, 4) ? "temp." + s.pick(all).substr(0, 200) : s.pick(all);
      fl::put(c, dir + "/" + name, "in " + name);
      in[name] = "in " + name;
    }
  };
  if (there) { ::mkdir(dir.c_str(), 0700); add(); }
  auto outside = [&] {
    auto t = tree(root);
    std::map<std::string, std::string> o;
    for (auto &e : t) if (e.first.compare(0, leaf.size() + 2, "/" + leaf + "/") != 0) o.insert(e);
    return o;
  };
  auto before = outside();
  std::vector<std::shared_ptr<Working>> ws;
  size_t rounds = 1 + s.below(3), cleaned = 0, matched = 0;
  std::set<std::string> kept = {};
  for (size_t r = 0; r < rounds; r++) {
    auto w = there && s.coin() ? Working::make(dir, &err) : Working::mkdir(dir, &err);
    c.check(w != nullptr, "working: " + err);
    there = true;
    for (auto it = in.begin(); it != in.end();)
      if (it->first.compare(0, 5, "temp.") == 0) { it = in.erase(it); cleaned++; } else ++it;
    auto inside = [&](const std::string &what) {
      auto t = tree(dir);
      std::map<std::string, std::string> o;
      for (auto &e : in) o["/" + e.first] = e.second;
      c.check_f(t == o, [&] {
        std::string m;
        for (auto &e : t) if (!o.count(e.first)) m += " left " + vp::show(e.first);
        for (auto &e : o) if (!t.count(e.first)) m += " lost " + vp::show(e.first);
        return what + ":" + (m.size() ? m : " files changed");
      });
    };
    inside("after opening the directory");
    std::set<std::string> temps;
    size_t nt = s.below(5);
    for (size_t i = 0; i < nt; i++) {
      std::string t = s.coin() ? w->make_temp() : w->make_temp(s.pick(std::vector<std::string>{"a", "commit", "x.y"}));
      c.check(temps.insert(t).second, "a temporary name was given twice");
      c.check(t.compare(0, dir.size() + 1, dir + "/") == 0, "a temporary name outside the directory");
      if (s.coin()) { fl::put(c, t, "temporary"); in[t.substr(dir.size() + 1)] = "temporary"; }
    }
    add();
    static const std::vector<std::string> prefixes = {"", "a", "a.", "a.b", "hazel", "hazel.", "fiver", "temp.", "commit", "(x", "[", "x*", "+", "$", "^a", "\\d", "z{1}", "pst.", "nosuch", "\xC3", "new\n", "n", "a+"};
    size_t nl = 1 + s.below(8);
    for (size_t i = 0; i < nl; i++) {
      std::string p = s.pick(prefixes);
      auto got = w->ls(p);
      std::sort(got.begin(), got.end());
      std::vector<std::string> want;
      for (auto &e : in) if (e.first.compare(0, p.size(), p) == 0) want.push_back(e.first);
      matched += want.size();
      c.check_f(got == want, [&] {
        std::string m = "listing '" + vp::show(p) + "' gives";
        for (auto &g : got) m += " " + vp::show(g);
        m += ", expected";
        for (auto &g : want) m += " " + vp::show(g);
        return m;
      });
    }
    size_t nr = s.below(4);
    for (size_t i = 0; i < nr; i++) {
      std::string name = s.pick(all);
      c.check(w->remove(name, &err), "remove: " + err);
      in.erase(name);
    }
    inside("after listing and removing");
  }
  auto after = outside();
  c.check_f(before == after || after.size() >= before.size(), [&] { return "files outside the directory were lost"; });
  c.check_f(before == after, [&] { return "files outside the directory changed"; });
  c.nontrivial(cleaned > 0 || matched > 2);
}

// Several threads: names, readers, gates.
void threads(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/w", err;
  auto w = Working::mkdir(dir, &err);
  std::string content = bytes(s, 20000);
  std::string kind = s.pick(std::vector<std::string>{"file", "compression test"});
  { auto x = w->writer("f", kind, &err); c.check(x != nullptr, err); x->append(content.data(), content.size()); }
  { auto x = w->writer("g", "file", &err); c.check(x != nullptr, err); x->append(content.data(), content.size()); }
  size_t n = 2 + s.below(5), per = 1 + s.below(40);
  auto gate = ReadGate::make(w->make_name("g"), &err, 1 + s.below(3));
  std::vector<std::vector<std::string>> temps(n);
  std::vector<std::string> broken(n);
  uint64_t seed = s.raw();
  std::atomic<bool> go{false};
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      while (!go) std::this_thread::yield();
      vp::Src q(vp::mix(seed, i), 50, nullptr);
      vp::Ctx mine("", false, false);
      try {
        for (size_t k = 0; k < per; k++) {
          temps[i].push_back(w->make_temp(k % 3 ? "" : "x"));
          if (k % 5 == 0) {
            auto r = w->reader(q.coin() ? "g" : "f", q.coin() ? "file" : "full");
            bool raw = kind == "file";
            auto g = w->reader("g", q.coin() ? "file" : "full");
            mine.check(r && g, "no reader");
            check_reader(q, mine, g, content, true, "a thread's reader");
            if (!raw) check_reader(q, mine, w->reader("f", kind), content, false, "a thread's compressed reader");
          }
          addr at = (addr)q.below(content.size() + 1), len = (addr)q.below(content.size() - at + 1);
          auto b = gate->read(at, len);
          mine.check(b && memcmp(b.get(), content.data() + at, len) == 0, "a thread's gate read other bytes");
        }
      } catch (const vp::Failure &e) { broken[i] = e.what(); }
    });
  go = true;
  for (auto &t : ts) t.join();
  std::set<std::string> all;
  for (auto &b : broken) c.check(b == "", b);
  for (auto &t : temps) for (auto &x : t) c.check(all.insert(x).second, "two threads were given one temporary name");
  c.nontrivial(content.size() > 100);
}

// Loading text files.
void loading(vp::Src &s, vp::Ctx &c) {
  std::string err;
  size_t n = 1 + s.below(4);
  fl::Here here(c.dir());
  size_t zipped = 0;
  std::set<std::string> used;
  for (size_t i = 0; i < n; i++) {
    bool gz = s.coin();
    std::string sub = "d" + std::to_string(i);
    ::mkdir(sub.c_str(), 0700);
    std::string leaf = fl::name(s, s.pick(std::vector<std::string>{".txt", ".gzx", ".z.x", ""}), gz);
    for (auto &ch : leaf) if (ch == '/') ch = '_';
    std::string name = s.chance(1, 3) ? leaf : s.coin() ? sub + "/" + leaf : c.dir() + "/" + sub + "/" + leaf;
    if (!used.insert(name).second) continue;
    std::string content = bytes(s, s.chance(1, 5) ? 700000 : 5000);
    bool zip = fl::zipped(leaf);
    if (leaf == "" || leaf[0] == '.') continue;
    std::string stored = content;
    enum { GOOD, CUT, JUNK, MISSING, DIRECTORY } how = (decltype(GOOD))s.weighted({8, zip ? 2u : 0u, zip ? 1u : 0u, 1, 1});
    if (zip) {
      stored = fl::gzipped(content);
      if (s.chance(1, 4)) { // several members
        size_t k = content.empty() ? 0 : s.below(content.size());
        stored = fl::gzipped(content.substr(0, k)) + fl::gzipped(content.substr(k));
      }
      zipped++;
    }
    if (how == CUT) stored.resize(s.below(stored.size()));
    if (how == JUNK) stored = "this is not compressed " + content;
    if (how == DIRECTORY) ::mkdir(name.c_str(), 0700);
    else if (how != MISSING) fl::put(c, name, stored);
    c.note_f([&] { return vp::cat(vp::show(name), " ", content.size(), " bytes, ", how == GOOD ? "good" : how == CUT ? "cut short" : how == JUNK ? "not compressed" : how == MISSING ? "missing" : "a directory"); });
    err = "";
    auto got = inhale(name, &err);
    if (how == GOOD) {
      c.check_f(got != nullptr, [&] { return "loading: " + err; });
      c.check_f(*got == content, [&] { return vp::cat("loading ", vp::show(name), " of ", content.size(), " bytes gave ", got->size(), " other bytes"); });
      auto in = maybe_zipped(name, &err);
      c.check(in != nullptr, "opening: " + err);
      std::string all;
      if (s.coin()) {
        std::string line;
        while (std::getline(*in, line)) { all += line; if (!in->eof()) all += "\n"; }
      } else {
        std::vector<char> b(1 + s.below(s.coin() ? 50 : 400000));
        while (in->read(b.data(), b.size()) || in->gcount() > 0) all.append(b.data(), in->gcount());
      }
      c.check_f(all == content, [&] { return vp::cat("reading ", vp::show(name), " of ", content.size(), " bytes piece by piece gave ", all.size(), " other bytes"); });
    } else if (how == CUT && stored.empty()) { // nothing at all: zcat takes it for empty or refuses it
      c.check(got == nullptr || got->empty(), "an empty compressed file gave bytes");
    } else if (how == CUT || how == JUNK) {
      c.check_f(got == nullptr && err != "", [&] { return vp::cat("loading ", vp::show(name), ", ", how == CUT ? "cut short" : "not compressed", got ? vp::cat(", gave ", got->size(), " of ", content.size(), " bytes") : ", gave no message"); });
    } else {
      c.check_f(got == nullptr && err != "", [&] { return "loading " + vp::show(name) + ", " + (how == MISSING ? "missing" : "a directory") + (got ? vp::cat(", gave ", got->size(), " bytes") : ", gave no message"); });
    }
    std::string again = how == DIRECTORY || how == MISSING ? "" : fl::get(name);
    if (how != DIRECTORY && how != MISSING) c.check(again == stored, "loading changed the file");
  }
  c.nontrivial(n > 0);
  c.label("compressed files", zipped);
}

// A whole index in a directory of any name.
void named(vp::Src &s, vp::Ctx &c) {
  std::string root = c.dir() + "/r", err;
  ::mkdir(root.c_str(), 0700);
  fl::Here here(root);
  std::string leaf = s.pick(directories());
  std::string dir = s.coin() ? root + "/" + leaf : leaf[0] == '-' ? "./" + leaf : leaf;
  fl::put(c, root + "/keep", "keep");
  if (leaf.size() > 1 && leaf != "w") { // what part of the name could name
    fl::put(c, root + "/w", "keep");
  }
  dyn::Model m;
  m.rules.max_tokens = 8;
  m.rules.big = false;
  size_t n = 1 + s.below(4);
  bool joint = s.coin();
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    t->base = m.address;
    m.address += t->tokens();
    t->committed = true;
    m.all.push_back(t);
  }
  auto built = crash::child(c, root + "/", crash::COUNT, 0, [&] {
    auto b = wd::disk(c, dir, "tokenizer:name:utf8");
    std::vector<std::shared_ptr<Warren>> together;
    for (auto &t : m.all) {
      std::shared_ptr<Warren> w = b->clone(&err);
      c.check(w->transaction(&err), "transaction: " + err);
      dyn::apply(c, *t, w);
      c.check(w->ready(&err), "ready: " + err);
      if (joint) together.push_back(w);
      else w->commit();
    }
    if (joint) Warren::commit_all(together);
  });
  c.check_f(built.ok, [&] { return "building: " + built.message; });
  for (size_t i = 0; i < 2; i++) {
    uint64_t seed = s.raw();
    auto out = crash::child(c, root + "/", crash::COUNT, 0, [&] { // it may merge in the background
      vp::Src q(seed, 50, nullptr);
      auto w = wd::open(c, dir);
      w->start();
      dyn::compare(q, c, w, dyn::committed(m), 3, i ? "opened again" : "reopened in " + vp::show(dir));
      w->end();
    });
    c.check_f(out.ok, [&] { return out.message; });
  }
  auto t = tree(root);
  c.check(t["/keep"] == "keep", "a file beside the index changed");
  for (auto &e : t) c.check_f(e.first == "/keep" || e.first == "/w" || e.first.compare(0, leaf.size() + 2, "/" + leaf + "/") == 0, [&] { return "the index left " + vp::show(e.first) + " outside " + vp::show(leaf); });
  c.nontrivial(leaf != "w");
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C21";
  sp.level = "exploration";
  sp.rule = "Histories of writing, reading, listing, removing and reopening files in a working directory of any name against a map from names to bytes: every writer and reader kind, random offsets, sizes and orders, several readers and threads at once, positional gates; listings by prefix over names with regular-expression and shell characters, newlines and the greatest length; temporary names from several threads, cleaned up on opening, with everything outside the directory unchanged; text files, plain, compressed in one or several members, cut short, missing; whole indexes in oddly named directories. Non-trivial: something was read back, listed or cleaned.";
  sp.assumptions = {"compressed files are read in sequence only", "names starting with a dot are not listed", "one Working object at a time creates temporary files in a directory", "a file is not read while it is being written"};
  sp.subs = {{"files", 3000, 200000, files, 60, false, true},
             {"listing", 2500, 150000, listing, 60, false, true},
             {"threads", 400, 15000, threads, 60, true, true},
             {"loading", 900, 40000, loading, 60, false, true},
             {"named", 700, 30000, named, 60, true, true}};
  return vp::run(argc, argv, sp);
}
