// C26: files of JSON documents, one per line, stored in an index.
#include "crash.h"
#include "files.h"
#include "jsongen.h"
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#define FAULTS
#include "crash_impl.h"
#endif
using namespace cottontail;
using namespace jg;

namespace {
struct File {
  std::string path;
  bool marked = false; // documents tell their line
  std::vector<Doc> docs;
  std::string bytes;
  bool entry = true; // listed as appended
  bool bad = false; // holds a line that is no document
};
std::string norm(const std::string &n) { return n.find('/') == std::string::npos ? "./" + n : n; }
std::string one_line(std::string t) {
  for (auto &ch : t) if (ch == '\n') ch = ' ';
  return t;
}
File file(vp::Src &s, const std::string &name, bool marked, bool bad, size_t most) {
  File f;
  f.path = norm(name);
  f.marked = marked;
  size_t n = s.chance(1, 12) ? 0 : s.len(most), at = bad ? s.below(n + 1) : n + 2;
  if (bad && n == 0) n = 1, at = s.below(2);
  bool cr = s.chance(1, 6);
  auto end = [&](bool last) {
    if (last && f.bytes.size() && f.bytes.back() != '\n' && s.chance(1, 3)) return; // not terminated
    f.bytes += cr ? "\r\n" : "\n";
  };
  for (size_t i = 0; i < n; i++) {
    Doc d = gen(s, (int)s.below(3));
    if (i == at) {
      f.bytes += one_line(damage(s, d));
      end(false);
    }
    if (marked) {
      Doc id, w;
      id.kind = Doc::NUM;
      id.s = std::to_string(f.docs.size());
      w.kind = Doc::OBJ;
      w.o.push_back({"doc", d});
      w.o.push_back({"line", id});
      d = w;
    }
    f.docs.push_back(d);
    f.bytes += one_line(write(s, d));
    end(i + 1 == n && at != n);
  }
  if (at == n) {
    std::string t = one_line(damage(s, gen(s, 1)));
    f.bytes += t;
    end(t != "");
  }
  f.bad = bad;
  return f;
}
struct Model {
  std::vector<File> files;
  bool has(const std::string &p) const {
    for (auto &f : files) if (f.entry && f.path == p) return true;
    return false;
  }
};
nlohmann::json parse(vp::Ctx &c, std::shared_ptr<Warren> w, const Iv &e, const std::string &where) {
  std::string t = json_translate(w->txt()->translate(e.p, e.q));
  try {
    return nlohmann::json::parse(t);
  } catch (std::exception &ex) {
    c.fail(vp::cat(where, ": text of (", e.p, ",", e.q, ") is not JSON: ", vp::show(t), " ", ex.what()));
  }
}
// Everything in the index against the model.  w is started.
void compare(vp::Ctx &c, std::shared_ptr<Warren> w, const Model &m, bool entries, const std::string &where) {
  static auto tok = Tokenizer::make("utf8", "");
  Expect x;
  addr tokens = 0;
  std::map<std::string, std::vector<const File *>> by;
  for (auto &f : m.files) by[f.path].push_back(&f);
  List documents = wd::annotations(w, ":");
  size_t total = 0;
  for (auto &e : by) {
    List regions = wd::annotations(w, e.first);
    size_t next = 0, k = 0; // file of this name, and document of it
    std::vector<const File *> fs;
    for (auto f : e.second) if (f->docs.size()) fs.push_back(f);
    std::set<size_t> seen;
    for (auto &r : regions) {
      x.at = r.p;
      long last = -1;
      size_t here = 0;
      for (auto &d : documents) {
        if (d.p < r.p || d.q > r.q) continue;
        here++;
        c.check_f(next < fs.size(), [&] { return vp::cat(where, ": ", vp::show(e.first), " holds a document too many"); });
        const File *f = fs[next];
        size_t i = k;
        if (f->marked) {
          auto j = parse(c, w, d, where);
          c.check_f(j.is_object() && j.contains("line") && j["line"].is_number(), [&] { return where + ": document of " + vp::show(e.first) + " is " + j.dump(); });
          i = (size_t)(double)j["line"];
          c.check_f(i < f->docs.size() && seen.insert(i).second, [&] { return vp::cat(where, ": document ", i, " of ", vp::show(e.first), " twice"); });
          c.check_f((long)i > last, [&] { return vp::cat(where, ": document ", i, " of ", vp::show(e.first), " comes after ", last); });
          last = (long)i;
        }
        addr p, q;
        x.put(f->docs[i], ":", &p, &q);
        c.check_f(p == d.p && q == d.q, [&] { return vp::cat(where, ": document ", i, " of ", vp::show(e.first), " is at (", d.p, ",", d.q, "), expected (", p, ",", q, ")"); });
        if (++k == f->docs.size()) { next++; k = 0; seen.clear(); last = -1; }
      }
      c.check_f(here > 0 && x.at == r.q + 1, [&] { return vp::cat(where, ": ", vp::show(e.first), " covers (", r.p, ",", r.q, ") but its documents end before ", x.at); });
      tokens += r.q - r.p + 1;
      total += here;
    }
    c.check_f(next == fs.size() && k == 0, [&] { return vp::cat(where, ": ", vp::show(e.first), " lacks documents: has ", next, " of ", fs.size(), " files and ", k, " documents more"); });
  }
  c.check_f(total == documents.size(), [&] { return vp::cat(where, ": ", documents.size(), " documents, ", total, " of them in files"); });
  if (entries) {
    List es = wd::annotations(w, "/");
    std::multiset<std::string> a, b;
    for (auto &f : m.files) if (f.entry) a.insert(f.path);
    for (auto &e : es) {
      std::string t = w->txt()->translate(e.p, e.q);
      auto words = tok->split(t);
      for (size_t i = 0; i < words.size(); i++) x.terms[words[i]].push_back(e.p + (addr)i);
      if (t.size()) t.pop_back();
      b.insert(t);
      tokens += e.q - e.p + 1;
    }
    c.check_f(a == b, [&] { std::string o; for (auto &y : b) o += vp::show(y) + " "; return where + ": file entries are " + o; });
  }
  c.check_f(w->txt()->tokens() == tokens, [&] { return vp::cat(where, ": ", w->txt()->tokens(), " tokens, expected ", tokens); });
  x.named["never:"] = {};
  for (auto &e : x.named) {
    List want = ref::reduce(e.second), got = wd::annotations(w, e.first);
    c.check_f(ref::equal(got, want), [&] { return where + ": '" + vp::show(e.first) + "': " + ref::diff(got, want); });
  }
  for (auto &e : x.terms) {
    List want;
    for (auto a : e.second) want.push_back({a, a, 0.0});
    std::sort(want.begin(), want.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
    if (e.first.size() == 3 && json_internal_token(e.first.data(), 3) && w->featurizer()->name() == "json") want.clear();
    List got = wd::annotations(w, e.first);
    c.check_f(ref::equal(got, want), [&] { return where + ": term '" + vp::show(e.first) + "': " + ref::diff(got, want); });
  }
  for (auto &e : x.extents) {
    auto j = parse(c, w, {e.p, e.q, 0.0}, where);
    if (x.precise) c.check_f(equal(j, e.j), [&] { return vp::cat(where, ": text of (", e.p, ",", e.q, ") is ", j.dump(), ", expected ", e.j.dump()); });
  }
}
void recognised(vp::Ctx &c, std::shared_ptr<Warren> w, const Model &m, const std::vector<std::string> &names, const std::string &where) {
  for (auto &n : names) {
    std::string err;
    bool yes = false;
    c.check_f(meadowlark::already_appended(w, n, &yes, &err), [&] { return where + ": already_appended: " + err; });
    c.check_f(yes == m.has(norm(n)), [&] { return vp::cat(where, ": ", vp::show(n), yes ? " taken for already appended" : " not recognised as already appended"); });
  }
}
void place(vp::Ctx &c, const std::string &dir, const std::string &name, const std::string &bytes) {
  for (size_t i = 0; (i = name.find('/', i + 1)) != std::string::npos;) mkdir((dir + "/" + name.substr(0, i)).c_str(), 0777);
  fl::put(c, dir + "/" + name, bytes);
}

void ingest(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", src = c.dir() + "/f", err;
  mkdir(src.c_str(), 0777);
  auto w = fl::meadow(c, dir);
  Model m;
  std::vector<std::string> names;
  size_t docs = 0, refused = 0;
  fl::Here here(src);
  for (size_t n = 1 + s.below(4); n--;) {
    bool gz = s.chance(1, 6);
    size_t threads = s.below(5);
    std::string name = fl::name(s, ".json", gz);
    names.push_back(name);
    bool bad = s.chance(1, 3);
    File f = file(s, name, threads != 1, bad, threads == 1 ? 8 : 25);
    std::string bytes = gz ? fl::gzipped(f.bytes) : f.bytes;
    c.note_f([&] { return vp::cat("file ", vp::show(name), " threads ", threads, bad ? " bad " : " ", vp::show(f.bytes, 600)); });
    unlink((src + "/" + name).c_str());
    bool missing = s.chance(1, 15), cut = !missing && gz && s.chance(1, 4);
    if (cut) { bytes.resize(s.below(bytes.size())); c.note("cut short"); }
    if (!missing) place(c, src, name, bytes);
    err = "";
    bool ok = meadowlark::append_jsonl(w, name, &err, threads, false);
    bool want = !bad && !missing && !cut;
    c.check_f(ok == want, [&] { return want ? "append_jsonl: " + err : missing || cut ? "a file that cannot be read was appended" : "a file with a line that is no document was appended"; });
    c.check(ok || err.size(), "failed without an error");
    c.check(!w->started(), "left started");
    if (ok) { m.files.push_back(f); docs += f.docs.size(); }
    else refused++;
    if (s.chance(1, 3)) w = fl::reopen(c, dir);
    w->start();
    recognised(c, w, m, names, ok ? "after" : "after a failure");
    if (!ok || n == 0 || s.coin()) compare(c, w, m, true, ok ? "after" : "after a failure");
    w->end();
  }
  w = fl::reopen(c, dir);
  w->start();
  recognised(c, w, m, names, "reopened");
  compare(c, w, m, true, "reopened");
  w->end();
  c.nontrivial(docs + refused > 1);
  if (refused) c.label("refused");
}

// scribe_jsonl: each file is one transaction, and files before one that fails stay
void scribed(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", src = c.dir() + "/f", err;
  mkdir(src.c_str(), 0777);
  bool memory = s.coin();
  std::shared_ptr<Warren> w = memory ? std::static_pointer_cast<Warren>(wd::memory(c)) : fl::meadow(c, dir);
  fl::Here here(src);
  Model m;
  size_t docs = 0, refused = 0;
  for (size_t calls = 1 + s.below(3); calls--;) {
    std::vector<std::string> names;
    bool fails = false;
    for (size_t n = s.below(4); n--;) {
      std::string name = fl::name(s, ".json", s.chance(1, 8));
      bool again = false;
      for (auto &o : names) again = again || o == name;
      if (again) continue;
      names.push_back(name);
      bool bad = s.chance(1, 6);
      File f = file(s, name, false, bad, 8);
      c.note_f([&] { return vp::cat("file ", vp::show(name), bad ? " bad " : " ", vp::show(f.bytes, 600)); });
      unlink((src + "/" + name).c_str());
      bool missing = s.chance(1, 20);
      if (!missing) place(c, src, name, fl::zipped(name) ? fl::gzipped(f.bytes) : f.bytes);
      fails = fails || bad || missing;
      if (!fails) { m.files.push_back(f); docs += f.docs.size(); }
    }
    auto scribe = Scribe::make(w, &err);
    c.check(scribe != nullptr, "scribe: " + err);
    err = "";
    bool ok = scribe_jsonl(names, scribe, &err, false);
    c.check_f(ok == !fails, [&] { return fails ? "a file with a line that is no document, or none, was scribed" : "scribe_jsonl: " + err; });
    c.check(ok || err.size(), "failed without an error");
    c.check(!w->transacting(), "left in a transaction");
    refused += !ok;
    if (!memory && s.chance(1, 3)) { scribe = nullptr; w = fl::reopen(c, dir); }
    w->start();
    compare(c, w, m, false, ok ? "after" : "after a failure");
    w->end();
  }
  c.nontrivial(docs + refused > 1);
  if (refused) c.label("refused");
}

// scribe_files: each file is a document with a name and a content
void files(vp::Src &s, vp::Ctx &c) {
  static auto tok = Tokenizer::make("utf8", "");
  static const std::vector<std::string> bits = {"a", "cat", "The", " ", " ", "\n", "...", "\t", "42", "\xC3\xA9t\xC3\xA9", "-"};
  std::string dir = c.dir() + "/m", src = c.dir() + "/f", err;
  mkdir(src.c_str(), 0777);
  bool memory = s.coin();
  std::shared_ptr<Warren> w = memory ? std::static_pointer_cast<Warren>(wd::memory(c)) : fl::meadow(c, dir);
  fl::Here here(src);
  struct Want { std::string name, text; };
  std::vector<Want> want;
  size_t refused = 0;
  for (size_t calls = 1 + s.below(3); calls--;) {
    std::vector<std::string> names;
    bool fails = false;
    for (size_t n = s.below(4); n--;) {
      std::string name = fl::name(s, ".txt", s.chance(1, 8));
      bool again = false;
      for (auto &o : names) again = again || o == name;
      if (again) continue;
      names.push_back(name);
      std::string text = s.chance(1, 6) ? "" : "w";
      if (text.size()) for (size_t i = s.len(40); i--;) text += s.pick(bits);
      unlink((src + "/" + name).c_str());
      bool missing = s.chance(1, 12);
      if (!missing) place(c, src, name, fl::zipped(name) ? fl::gzipped(text) : text);
      c.note_f([&] { return vp::cat("file ", vp::show(name), missing ? " missing" : " ", vp::show(text)); });
      fails = fails || missing;
      if (!fails) want.push_back({name, text});
    }
    auto scribe = Scribe::make(w, &err);
    c.check(scribe != nullptr, "scribe: " + err);
    err = "";
    bool ok = scribe_files(names, scribe, &err, false);
    c.check_f(ok == !fails, [&] { return fails ? "a file that is not there was scribed" : "scribe_files: " + err; });
    c.check(ok || err.size(), "failed without an error");
    c.check(!w->transacting(), "left in a transaction");
    refused += !ok;
    if (!memory && s.chance(1, 3)) { scribe = nullptr; w = fl::reopen(c, dir); }
    w->start();
    addr at = 0;
    List all, name_l, content_l;
    for (auto &x : want) {
      addr n = (addr)tok->split(x.name).size(), k = (addr)tok->split(x.text).size();
      at = w->txt()->tokens() ? at : 0;
      all.push_back({at, at + n + k - 1, 0.0});
      name_l.push_back({at, at + n - 1, 0.0});
      if (k) content_l.push_back({at + n, at + n + k - 1, 0.0});
      at += n + k;
    }
    // a transaction given up may leave addresses unused: compare in order
    List got = wd::annotations(w, "filename:"), gc = wd::annotations(w, "content:"), gf = wd::annotations(w, "file:");
    c.check_f(got.size() == want.size() && gc.size() == content_l.size(), [&] { return vp::cat(got.size(), " names and ", gc.size(), " contents, expected ", want.size(), " and ", content_l.size()); });
    size_t j = 0, jf = 0;
    for (size_t i = 0; i < want.size(); i++) {
      addr n = (addr)tok->split(want[i].name).size(), k = (addr)tok->split(want[i].text).size();
      std::string t = w->txt()->translate(got[i].p, got[i].q);
      auto words = tok->split(want[i].name);
      c.check_f(got[i].q - got[i].p + 1 == n && tok->split(t) == words, [&] { return vp::cat("name ", i, " is ", vp::show(t), ", expected ", vp::show(want[i].name)); });
      c.check_f(t.find(want[i].name) != std::string::npos, [&] { return vp::cat("name ", i, " is ", vp::show(t), ", expected ", vp::show(want[i].name)); });
      if (k) {
        std::string u = w->txt()->translate(gc[j].p, gc[j].q);
        c.check_f(gc[j].p == got[i].q + 1 && gc[j].q - gc[j].p + 1 == k && u.compare(0, want[i].text.size(), want[i].text) == 0, [&] { return vp::cat("content of ", vp::show(want[i].name), " is ", vp::show(u), ", expected ", vp::show(want[i].text)); });
        c.check_f(jf < gf.size() && gf[jf].p == got[i].p && gf[jf].q == gc[j].q, [&] { return "the file of " + vp::show(want[i].name) + " is not its name and its content"; });
        j++;
        jf++;
      } else if (jf < gf.size() && gf[jf].p == got[i].p) {
        c.check(gf[jf].q == got[i].q, "an empty file reaches beyond its name");
        jf++;
      }
    }
    c.check(jf == gf.size(), "files without a name");
    w->end();
  }
  c.nontrivial(want.size() + refused > 1);
}
#ifdef FAULTS
void stopped(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", src = c.dir() + "/f", err;
  mkdir(src.c_str(), 0777);
  fl::Here here(src);
  Model m;
  auto made = crash::child(c, dir + "/", crash::COUNT, 0, [&] { fl::meadow(c, dir); });
  c.check(made.ok, made.message);
  std::vector<std::string> names;
  bool any = false;
  for (size_t n = 1 + s.below(3); n--;) {
    std::string name = fl::name(s, ".json", false);
    names.push_back(name);
    size_t threads = 1 + s.below(3);
    bool scribing = threads == 1 && s.chance(1, 4);
    File f = file(s, name, threads > 1, s.chance(1, 8), 10);
    f.entry = !scribing;
    c.note_f([&] { return vp::cat("file ", vp::show(name), scribing ? " scribed" : "", " threads ", threads, f.bad ? " bad " : " ", vp::show(f.bytes, 600)); });
    place(c, src, name, f.bytes);
    auto mode = (crash::Mode)s.below(5);
    long at = 1 + (long)s.below(s.coin() ? 12 : 40);
    auto o = crash::child(c, dir + "/", mode, at, [&] {
      std::string err;
      auto w = meadowlark::open_meadow(dir, &err);
      if (!w) { c.check(mode >= crash::FAIL_ONE, "open_meadow: " + err); return; }
      err = "";
      bool ok = false;
      if (scribing) {
        auto scribe = Scribe::make(w, &err);
        c.check(scribe != nullptr, "scribe: " + err);
        ok = scribe_jsonl({name}, scribe, &err, false);
      } else {
        ok = meadowlark::append_jsonl(w, name, &err, threads, false);
      }
      c.check_f(ok || f.bad || mode >= crash::FAIL_ONE, [&] { return "append_jsonl: " + err; });
      c.check(!ok || !f.bad, "a file with a line that is no document was appended");
      c.check(ok || err.size(), "failed without an error");
      crash::shared()->v[0] = ok ? 1 : 2;
    });
    c.note(vp::cat("mode ", (int)mode, " at ", at, " of ", o.ops, o.stopped ? ", stopped" : ""));
    c.check_f(o.ok || o.stopped || (mode >= crash::FAIL_ONE && o.died && o.message.find("signal 6:") != std::string::npos), [&] { return o.message; });
    long result = crash::shared()->v[0];
    any = any || o.stopped || (mode >= crash::FAIL_ONE && o.ops >= at);
    auto r = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
      auto w = fl::reopen(c, dir);
      w->start();
      Model after = m;
      after.files.push_back(f);
      size_t had = 0, listed = 0;
      for (auto &x : m.files) listed += x.entry;
      auto entries = [](std::shared_ptr<Warren> w) { return wd::annotations(w, "/").size(); };
      for (auto &x : m.files) had += x.docs.size();
      bool yes = scribing ? wd::annotations(w, ":").size() > had : entries(w) > listed;
      c.check(result != 1 || yes || (scribing && f.docs.empty()), "an ingested file is not there after reopening");
      c.check(result != 2 || !yes, "a file that failed to be ingested is there after reopening");
      c.check(!yes || !f.bad, "a file with a line that is no document is there after reopening");
      compare(c, w, yes ? after : m, true, yes ? "reopened, with it" : "reopened, without it");
      w->end();
      crash::shared()->v[0] = yes;
    });
    c.check_f(r.ok, [&] { return r.message; });
    if (crash::shared()->v[0]) m.files.push_back(f);
  }
  c.nontrivial(any);
}
#endif
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C26";
  sp.level = "fault_enumeration";
  sp.rule = "Random files of JSON documents of all kinds (one per line; terminated or not, either line ending), of names that resemble each other, plain or compressed, some with a malformed or blank line at any position, missing, or cut short, ingested one after the other by one or several threads, or scribed file by file; after each the whole index is compared with a model: every document, member, term and file entry, and the text of every extent parsed as JSON. And ingestion in a process stopped at a random file-system operation, or with one or all further operations failing, compared after reopening with the content before or after. Non-trivial: more than one document or a refused file; or really stopped or failed.";
  sp.assumptions = {"file names hold a word and do not end in white space", "with several threads documents are in file order within what one thread stored", "numbers keep the documented six decimals", "a stop ends the process; the operating system keeps what was written"};
  sp.subs = {{"ingest", 2500, 40000, ingest, 60, true, true}, {"scribed", 1500, 20000, scribed, 60, false, true}, {"files", 1500, 20000, files, 60, false, true}};
#ifdef FAULTS
  sp.subs.push_back({"stopped", 600, 10000, stopped, 60, true, true});
#endif
  return vp::run(argc, argv, sp);
}
