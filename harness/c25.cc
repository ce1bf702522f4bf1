// C25: delimited files stored in a meadow.
#include "crash.h"
#include "files.h"
#ifndef __SANITIZE_ADDRESS__
#include "crash_impl.h"
#endif
using namespace cottontail;
using ref::Iv;
using ref::List;

namespace {
struct File {
  std::string name;  // as given
  std::string path;  // as stored
  std::string bytes; // uncompressed
  std::string sep;
  bool header = false;
  std::vector<std::vector<std::string>> rows;
};
// Independent of the code under test.
std::vector<std::string> lines_of(const std::string &b) {
  std::vector<std::string> o;
  std::string cur;
  bool open = false;
  for (size_t i = 0; i < b.size(); i++) {
    if (b[i] == '\r' || b[i] == '\n') {
      if (b[i] == '\r' && i + 1 < b.size() && b[i + 1] == '\n') i++;
      o.push_back(cur);
      cur = "";
      open = false;
    } else {
      cur += b[i];
      open = true;
    }
  }
  if (open) o.push_back(cur);
  return o;
}
std::vector<std::string> fields_of(const std::string &l, const std::string &sep) {
  std::vector<std::string> o;
  std::string cur;
  if (sep == "") {
    for (char ch : l) {
      if (strchr(" \t\n\v\f\r", ch) && ch) { if (cur.size()) o.push_back(cur); cur = ""; }
      else cur += ch;
    }
    if (cur.size()) o.push_back(cur);
    return o;
  }
  for (size_t i = 0; i < l.size();) {
    if (l.compare(i, sep.size(), sep) == 0) { o.push_back(cur); cur = ""; i += sep.size(); }
    else cur += l[i++];
  }
  o.push_back(cur);
  return o;
}
std::string field(vp::Src &s) {
  static const std::vector<std::string> words = {"a", "b", "cat", "Dog", "1", "42", "x1", "\xC3\xA9t\xC3\xA9", "\xE4\xBD\xA0\xE5\xA5\xBD", "the"};
  static const std::vector<std::string> odd = {" ", "-", "!", "\"", "'", ":", "/", "?", "\\", "(", "...", ",", "|", ";", "\t", "\xE2\x80\x94", "=", ">"};
  std::string o;
  if (s.chance(1, 6)) return o;
  for (size_t n = s.chance(1, 40) ? 200 : 1 + s.below(4); n--;) {
    if (s.chance(1, 4)) o += s.pick(odd);
    o += s.chance(1, 10) ? s.pick(odd) : s.pick(words);
    if (n && s.coin()) o += ' ';
  }
  return o;
}
File file(vp::Src &s, const std::string &name) {
  static const std::vector<std::string> seps = {"\t", ",", ";", "|", "||", ", ", " ", "", "-->", "::", "\t\t", "\x01", "=>"};
  File f;
  f.name = name;
  f.path = name.find('/') == std::string::npos ? "./" + name : name;
  f.sep = s.coin() ? "\t" : s.pick(seps);
  f.header = s.chance(1, 3);
  size_t n = s.chance(1, 10) ? 0 : s.len(12), width = 1 + s.below(s.chance(1, 10) ? 14 : 4);
  bool ragged = s.chance(1, 3);
  std::vector<std::string> eols = {"\n", "\r\n", "\r"};
  size_t style = s.weighted({4, 2, 1, 1});
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 12)) { // an empty line
    } else {
      size_t k = ragged ? 1 + s.below(width + 2) : width;
      for (size_t j = 0; j < k; j++) f.bytes += (j ? (f.sep == "" ? (s.coin() ? " " : "\t ") : f.sep) : "") + field(s);
    }
    if (i + 1 == n && s.chance(1, 3)) break;
    f.bytes += style == 3 ? s.pick(eols) : eols[style];
  }
  for (auto &l : lines_of(f.bytes)) f.rows.push_back(fields_of(l, f.sep));
  return f;
}
// Where everything should be, for records stored in order from address 0.
struct Layout {
  std::string text;
  std::map<std::string, List> named;
  std::map<std::string, std::vector<addr>> words;
  addr tokens = 0;
};
Layout layout(const File &f) {
  static auto tok = Tokenizer::make("utf8", "");
  Layout l;
  std::string sep = f.sep == "" ? "\t" : f.sep;
  for (size_t i = 0; i < f.rows.size(); i++) {
    addr p = l.tokens;
    for (size_t j = 0; j < f.rows[i].size(); j++) {
      std::string piece = f.rows[i][j] + (j + 1 < f.rows[i].size() ? sep : "");
      auto w = tok->split(piece);
      for (size_t k = 0; k < w.size(); k++) l.words[w[k]].push_back(l.tokens + (addr)k);
      if (w.size()) l.named[":" + std::to_string(j) + ":"].push_back({l.tokens, l.tokens + (addr)w.size() - 1, 0.0});
      l.tokens += (addr)w.size();
      l.text += piece;
      if (piece.size() && !strchr(" \t\n", piece.back())) l.text += "\n";
    }
    if (l.tokens > p) l.named[f.header && i == 0 ? "::" : ":"].push_back({p, l.tokens - 1, 0.0});
  }
  return l;
}
std::string squeeze(std::string t) { // what is left of text ends in a newline
  while (t.size() && t.back() == '\n') t.pop_back();
  return t;
}
struct Meadow {
  std::vector<File> files; // stored
  bool has(const std::string &path) const {
    for (auto &f : files) if (f.path == path) return true;
    return false;
  }
};
std::vector<std::string> tags() {
  std::vector<std::string> o = {":", "::"};
  for (int i = 0; i < 20; i++) o.push_back(":" + std::to_string(i) + ":");
  return o;
}
// Everything in the meadow against the model.  w is started.
void compare(vp::Ctx &c, std::shared_ptr<Warren> w, const Meadow &m, const std::string &where) {
  std::map<std::string, List> want;
  std::map<std::string, std::vector<const File *>> by;
  for (auto &f : m.files) by[f.path].push_back(&f);
  addr tokens = 0;
  for (auto &e : by) {
    List regions = wd::annotations(w, e.first);
    std::vector<const File *> nonempty;
    for (auto f : e.second) if (layout(*f).tokens) nonempty.push_back(f);
    c.check_f(regions.size() == nonempty.size(), [&] { return vp::cat(where, ": ", vp::show(e.first), " has ", regions.size(), " regions, was stored ", nonempty.size(), " times with content"); });
    for (size_t i = 0; i < regions.size(); i++) { // in the order of their ingestion
      Layout l = layout(*nonempty[i]);
      addr p = regions[i].p, q = regions[i].q;
      c.check_f(q - p + 1 == l.tokens, [&] { return vp::cat(where, ": ", vp::show(e.first), " covers ", q - p + 1, " tokens, has ", l.tokens); });
      std::string got = w->txt()->translate(p, q);
      c.check_f(squeeze(got) == squeeze(l.text), [&] { return where + ": the text of " + vp::show(e.first) + " is " + vp::show(got, 300) + ", expected " + vp::show(l.text, 300); });
      for (auto &x : l.named)
        for (auto &iv : x.second) want[x.first].push_back({p + iv.p, p + iv.q, 0.0});
      for (auto &x : l.words)
        for (auto a : x.second) {
          auto h = w->idx()->hopper(w->featurizer()->featurize(x.first));
          addr hp, hq;
          h->tau(p + a, &hp, &hq);
          c.check_f(hp == p + a && hq == hp, [&] { return vp::cat(where, ": word '", x.first, "' of ", vp::show(e.first), " is not at ", p + a); });
        }
      tokens += l.tokens;
    }
  }
  for (auto &t : tags()) {
    std::sort(want[t].begin(), want[t].end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
    List got = wd::annotations(w, t);
    c.check_f(ref::equal(got, want[t]), [&] { return where + ": '" + t + "': " + ref::diff(got, want[t]); });
  }
  // one entry per ingestion, holding the path
  List entries = wd::annotations(w, "/");
  c.check_f(entries.size() == m.files.size(), [&] { return vp::cat(where, ": ", entries.size(), " file entries, expected ", m.files.size()); });
  std::multiset<std::string> a, b;
  for (auto &f : m.files) a.insert(f.path);
  for (auto &e : entries) {
    std::string t = w->txt()->translate(e.p, e.q);
    c.check(t.size() && t.back() == '\n', where + ": entry " + vp::show(t));
    t.pop_back();
    b.insert(t);
    tokens += e.q - e.p + 1;
  }
  c.check_f(a == b, [&] { std::string o; for (auto &x : b) o += vp::show(x) + " "; return where + ": file entries are " + o; });
  c.check_f(w->txt()->tokens() == tokens, [&] { return vp::cat(where, ": ", w->txt()->tokens(), " tokens, expected ", tokens); });
}
void recognised(vp::Ctx &c, std::shared_ptr<Warren> w, const Meadow &m, const std::vector<std::string> &names, const std::string &where) {
  for (auto &n : names) {
    std::string err, path = n.find('/') == std::string::npos ? "./" + n : n;
    bool yes = false;
    c.check_f(meadowlark::already_appended(w, n, &yes, &err), [&] { return where + ": already_appended of " + vp::show(n) + ": " + err; });
    c.check_f(yes == m.has(path), [&] { return vp::cat(where, ": ", vp::show(n), yes ? " taken for already appended" : " not recognised as already appended"); });
  }
}
void place(vp::Ctx &c, const std::string &dir, const std::string &name, const std::string &bytes) {
  for (size_t i = 0; (i = name.find('/', i + 1)) != std::string::npos;) mkdir((dir + "/" + name.substr(0, i)).c_str(), 0777);
  fl::put(c, dir + "/" + name, bytes);
}
std::string describe(const File &f) {
  return vp::cat("file ", vp::show(f.name), " separator ", vp::show(f.sep), f.header ? " header " : " ", vp::show(f.bytes, 500));
}

void ingest(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", err;
  std::string src = c.dir() + "/f";
  mkdir(src.c_str(), 0777);
  auto w = fl::meadow(c, dir);
  Meadow m;
  std::vector<std::string> names;
  size_t rows = 0, refused = 0;
  for (size_t n = 1 + s.below(4); n--;) {
    bool gz = s.chance(1, 5), absolute = s.chance(1, 4);
    std::string rel = fl::name(s, ".tsv", gz);
    std::string given = absolute ? src + "/" + rel : rel;
    names.push_back(given);
    if (s.chance(1, 3)) names.push_back((absolute ? src + "/" : "") + fl::name(s, ".tsv", s.chance(1, 5)));
    File f = file(s, given);
    c.note_f([&] { return describe(f); });
    fl::Here here(src);
    size_t threads = s.below(4);
    w->start();
    recognised(c, w, m, {given}, "before");
    w->end();
    if (s.chance(1, 4)) { // first, something that cannot be read
      refused++;
      unlink((src + "/" + rel).c_str());
      if (gz && s.coin()) {
        std::string z = fl::gzipped(f.bytes);
        if (s.coin()) z.resize(s.below(z.size()));
        else { size_t at = z.size() - 8 + s.below(4); z[at] = (char)(z[at] ^ (1 << s.below(8))); } // checksum
        place(c, src, rel, z);
        c.note("damaged first");
      } else {
        c.note("missing first");
      }
      err = "";
      c.check(!meadowlark::append_tsv(w, given, &err, f.header, f.sep, threads), "a file that cannot be read was appended");
      c.check(err.size(), "failed without an error");
      w->start();
      recognised(c, w, m, names, "after a failure");
      compare(c, w, m, "after a failure");
      w->end();
    }
    place(c, src, rel, gz ? fl::gzipped(f.bytes) : f.bytes);
    err = "";
    bool ok = s.chance(1, 3) && f.sep == "\t" ? meadowlark::append_tsv(w, given, &err, f.header) : meadowlark::append_tsv(w, given, &err, f.header, f.sep, threads);
    c.check_f(ok, [&] { return "append_tsv: " + err; });
    m.files.push_back(f);
    rows += f.rows.size();
    if (s.chance(1, 3)) w = fl::reopen(c, dir);
    w->start();
    recognised(c, w, m, names, "after");
    if (n == 0 || s.coin()) compare(c, w, m, "after");
    w->end();
  }
  w = fl::reopen(c, dir);
  w->start();
  recognised(c, w, m, names, "reopened");
  compare(c, w, m, "reopened");
  w->end();
  c.nontrivial(rows > 1);
  if (refused) c.label("refused");
}

// Enough lines for several threads: pieces of the file, each in order.
void threads(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", name = c.dir() + "/big.tsv", err;
  auto w = s.coin() ? fl::meadow(c, dir) : std::static_pointer_cast<Warren>(wd::memory(c));
  size_t n = s.chance(1, 4) ? 65530 + s.below(14) : 65537 + s.below(9000);
  uint64_t seed = s.below(1 << 20);
  bool header = s.coin();
  size_t t = s.below(9);
  std::string bytes;
  std::vector<std::string> want(n);
  for (size_t i = 0; i < n; i++) {
    std::string a = vp::mix(seed, i) % 7 == 0 ? "" : "n" + std::to_string(vp::mix(seed, i + n) % 10);
    want[i] = a;
    bytes += "r" + std::to_string(i) + "\t" + a + "\n";
  }
  fl::put(c, name, bytes);
  c.note(vp::cat(n, " lines, ", t, " threads", header ? ", header" : ""));
  c.check_f(meadowlark::append_tsv(w, name, &err, header, "\t", t), [&] { return "append_tsv: " + err; });
  w->start();
  List regions = wd::annotations(w, name), records = wd::annotations(w, ":"), head = wd::annotations(w, "::");
  List f0 = wd::annotations(w, ":0:"), f1 = wd::annotations(w, ":1:");
  c.check_f(head.size() == (header ? 1u : 0u) && records.size() == n - head.size(), [&] { return vp::cat(records.size(), " records and ", head.size(), " headers"); });
  List all = records;
  for (auto &h : head) all.push_back(h);
  std::sort(all.begin(), all.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
  c.check(f0.size() == n, "first fields are missing");
  std::vector<bool> seen(n, false);
  size_t r = 0, second = 0;
  long last = -1;
  for (size_t i = 0; i < all.size(); i++) {
    while (r < regions.size() && regions[r].q < all[i].p) { r++; last = -1; }
    c.check(r < regions.size() && regions[r].p <= all[i].p && all[i].q <= regions[r].q, "a record lies outside of the file");
    std::string t0 = w->txt()->translate(f0[i].p, f0[i].q);
    c.check(f0[i].p == all[i].p && t0.size() > 1 && t0[0] == 'r', "a record does not start with its first field");
    long k = strtol(t0.c_str() + 1, nullptr, 10);
    c.check_f(k >= 0 && (size_t)k < n && !seen[k], [&] { return vp::cat("record ", k, " twice"); });
    c.check_f(last < 0 || k == last + 1, [&] { return vp::cat("record ", k, " after ", last); });
    last = k;
    seen[k] = true;
    if (header && head[0].p == all[i].p) c.check_f(k == 0, [&] { return vp::cat("record ", k, " is the header"); });
    if (want[k] != "") {
      c.check(second < f1.size() && f1[second].p > f0[i].q && f1[second].q == all[i].q, "a second field is misplaced");
      std::string t1 = w->txt()->translate(f1[second].p, f1[second].q);
      c.check_f(t1 == want[k] + "\n", [&] { return vp::cat("second field of record ", k, " is ", vp::show(t1), ", expected ", want[k]); });
      second++;
    }
  }
  c.check(second == f1.size(), "too many second fields");
  bool yes = false;
  c.check(meadowlark::already_appended(w, name, &yes, &err) && yes, "not recognised");
  w->end();
  c.nontrivial(n > 65536);
}
#ifndef __SANITIZE_ADDRESS__
void stopped(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/m", src = c.dir() + "/f", err;
  mkdir(src.c_str(), 0777);
  fl::Here here(src);
  Meadow m;
  auto made = crash::child(c, dir + "/", crash::COUNT, 0, [&] { fl::meadow(c, dir); });
  c.check(made.ok, made.message);
  std::vector<std::string> names;
  bool any = false;
  for (size_t n = 1 + s.below(3); n--;) {
    std::string name = fl::name(s, ".tsv", false);
    names.push_back(name);
    File f = file(s, name);
    c.note_f([&] { return describe(f); });
    place(c, src, name, f.bytes);
    auto mode = (crash::Mode)s.below(5);
    long at = 1 + (long)s.below(s.coin() ? 12 : 40);
    bool direct = true;
    auto o = crash::child(c, dir + "/", mode, at, [&] {
      std::string err;
      auto w = meadowlark::open_meadow(dir, &err);
      if (!w) { c.check(mode >= crash::FAIL_ONE, "open_meadow: " + err); return; }
      err = "";
      crash::shared()->v[1] = 1;
      bool ok = meadowlark::append_tsv(w, name, &err, f.header, f.sep, 1);
      c.check_f(ok || mode >= crash::FAIL_ONE, [&] { return "append_tsv: " + err; });
      c.check(ok || err.size(), "failed without an error");
      crash::shared()->v[0] = ok ? 1 : 2;
    });
    c.note(vp::cat("mode ", (int)mode, " at ", at, " of ", o.ops, o.stopped ? ", stopped" : ""));
    c.check_f(o.ok || o.stopped || (mode >= crash::FAIL_ONE && o.died && o.message.find("signal 6:") != std::string::npos), [&] { return o.message; });
    long result = crash::shared()->v[0];
    any = any || o.stopped || (mode >= crash::FAIL_ONE && o.ops >= at);
    (void)direct;
    auto r = crash::child(c, dir + "/", crash::COUNT, 0, [&] {
      auto w = fl::reopen(c, dir);
      w->start();
      Meadow after = m;
      after.files.push_back(f);
      // the entry tells whether it is there
      bool yes = wd::annotations(w, "/").size() > m.files.size();
      c.check(result != 1 || yes, "an ingested file is not there after reopening");
      c.check(result != 2 || !yes, "a file that failed to be ingested is there after reopening");
      recognised(c, w, yes ? after : m, names, "reopened");
      compare(c, w, yes ? after : m, yes ? "reopened, with it" : "reopened, without it");
      w->end();
      crash::shared()->v[0] = yes;
    });
    c.check_f(r.ok, [&] { return r.message; });
    if (crash::shared()->v[0]) m.files.push_back(f);
  }
  c.nontrivial(any);
}
#endif
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C25";
  sp.level = "fault_enumeration";
  sp.rule = "Random delimited files (ragged and empty rows, empty fields, separators of one or several characters or white space, all line endings, header or not) of names that resemble each other, plain or compressed, ingested one after the other, some missing or damaged at first, compared after each with records and fields laid out by an independent reader of the file: every record, field, word, file entry, and the whole text; files large enough for several threads; and ingestion in a process stopped at a random file-system operation, or with one or all further operations failing, compared after reopening with the content before or after. Non-trivial: more than one row; more lines than one thread takes; or really stopped or failed.";
  sp.assumptions = {"separators hold no letters or digits", "file names hold a word and do not end in white space", "lines are in order within what one thread ingests; files below 65537 lines are ingested by one", "a stop ends the process; the operating system keeps what was written"};
  sp.subs = {{"ingest", 2000, 40000, ingest, 60, false, true}, {"threads", 10, 200, threads, 120, true, true, 4}};
#ifndef __SANITIZE_ADDRESS__
  sp.subs.push_back({"stopped", 600, 20000, stopped, 60, false, true});
#endif
  return vp::run(argc, argv, sp);
}
