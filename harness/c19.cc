// C19: damaged and foreign index files.  Immutable index files, saved shards and
// configurations are built, then cut, altered or replaced by junk, and opened.
#include <dirent.h>
#include <set>
#include <sys/stat.h>
#include "crash.h"
#include "crash_impl.h"
#include "dyn.h"
#include "files.h"
#include "src/simple.h"
#include "src/simple_builder.h"

extern "C" const char *__asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0"; }

namespace {
using namespace cottontail;
using dyn::Model;
using dyn::View;

struct Parts {
  std::shared_ptr<Featurizer> featurizer = Featurizer::make("hashing", "");
  std::shared_ptr<Tokenizer> tokenizer = Tokenizer::make("utf8", "");
  std::shared_ptr<Compressor> pc, fc, tc;
  explicit Parts(vp::Src &s) {
    pc = Compressor::make(s.pick(std::vector<std::string>{"post", "null", "zlib"}), "");
    fc = Compressor::make(s.coin() ? "zlib" : "null", "");
    tc = Compressor::make(s.coin() ? "zlib" : "null", "");
  }
};
// Shards of one transaction each, as fiver files or converted; their model.
std::vector<std::string> shards(vp::Src &s, vp::Ctx &c, const Parts &p, std::shared_ptr<Working> working, Model &m, size_t n, const std::function<bool(size_t)> &convert) {
  std::vector<std::string> names;
  std::string err;
  addr chunk = 1 + (addr)s.mag(2000);
  for (size_t i = 0; i < n; i++) {
    auto t = m.gen(s);
    m.all.push_back(t);
    c.note_f([&] { return vp::cat("shard ", i, ": ", m.describe(*t)); });
    auto f = Fiver::make(working, p.featurizer, p.tokenizer, &err, p.pc, p.fc, p.tc);
    c.check(f != nullptr && f->transaction(&err), "transaction: " + err);
    dyn::apply(c, *t, f);
    t->base = m.address;
    m.address = f->relocate(m.address);
    f->set_sequence((addr)i);
    c.check(f->ready(&err), "ready: " + err);
    f->commit();
    t->committed = true;
    std::string seq = vp::cat(i, ".", i);
    if (convert(i)) {
      f->start();
      c.check(f->hazel(&err, chunk, s.coin() ? "" : freeze({{"container", "doc:"}})) != nullptr, "convert: " + err);
      f->end();
      f->discard();
      names.push_back(hazel_default_name((addr)i, (addr)i));
    } else {
      std::string name;
      for (auto &x : working->ls("fiver.")) { OwslaShard o; if (owsla_parse_shard_name(x, "fiver", &o) && o.start == (addr)i) name = x; }
      c.check(name.size() > 0, "the shard is not there");
      names.push_back(name);
    }
  }
  return names;
}
addr pod(const std::string &b, size_t at) { addr x; memcpy(&x, b.data() + at, sizeof x); return x; }
void pod(std::string *b, size_t at, addr x) { memcpy(&(*b)[at], &x, sizeof x); }

struct Field { std::string what; size_t at, size; int kind; }; // 0 locates content 1 configuration 2 directory entry
// The layout of an immutable index file.
struct Layout {
  std::vector<Field> fields;
  size_t dna = 0, dna_end = 0;
  bool good = false;
  explicit Layout(const std::string &b) {
    const std::string magic = cottontail_file_magic, dict = hazel_blob_dictionary_magic, im = hazel_idx_magic, tm = hazel_txt_magic;
    fields.push_back({"file magic", 0, magic.size(), 0});
    dna = magic.size();
    size_t blank = b.find("\n\n", dna);
    if (blank == std::string::npos) return;
    dna_end = blank + 1;
    fields.push_back({"configuration", dna, dna_end - dna, 1});
    size_t at = blank + 2;
    if (b.compare(at, dict.size(), dict)) return;
    fields.push_back({"dictionary magic", at, dict.size(), 0});
    at += dict.size();
    fields.push_back({"dictionary count", at, 8, 0});
    addr n = pod(b, at);
    at += 8;
    std::map<std::string, addr> where;
    for (addr i = 0; i < n; i++) {
      addr l = pod(b, at);
      fields.push_back({"name length", at, 8, 0});
      at += 8;
      std::string name = b.substr(at, (size_t)l);
      fields.push_back({"name " + name, at, (size_t)l, 0});
      at += (size_t)l;
      fields.push_back({name + " offset", at, 8, 0});
      where[name] = pod(b, at);
      fields.push_back({name + " length", at + 8, 8, 0});
      at += 16;
    }
    size_t i0 = (size_t)where["idx"], t0 = (size_t)where["txt"];
    if (b.compare(i0, im.size(), im) || b.compare(t0, tm.size(), tm)) return;
    fields.push_back({"idx magic", i0, im.size(), 0});
    size_t h = i0 + im.size();
    for (size_t k = 0; k < 3; k++) fields.push_back({vp::cat("idx header ", k), h + 8 * k, 8, 0});
    size_t d = i0 + (size_t)pod(b, h);
    for (addr k = 0; k < pod(b, h + 16); k++)
      for (size_t j = 0; j < 3; j++) fields.push_back({vp::cat("idx entry ", k, " field ", j), d + 24 * (size_t)k + 8 * j, 8, 2});
    fields.push_back({"txt magic", t0, tm.size(), 0});
    h = t0 + tm.size();
    for (size_t k = 0; k < 4; k++) fields.push_back({vp::cat("txt header ", k), h + 8 * k, 8, 0});
    fields.push_back({"txt target chunk size", h + 32, 8, 2});
    d = h + 40 + (size_t)pod(b, h);
    for (addr k = 0; k < pod(b, h + 16); k++)
      for (size_t j = 0; j < 2; j++) fields.push_back({vp::cat("txt entry ", k, " field ", j), d + 16 * (size_t)k + 8 * j, 8, 2});
    good = true;
  }
};
void refused(vp::Ctx &c, const std::string &name, const std::string &bytes, const std::string &what) {
  std::string err;
  auto w = Warren::make(name, &err);
  c.check_f(w == nullptr, [&] { return what + ": opened"; });
  c.check_f(err.size() > 0, [&] { return what + ": refused without a message"; });
  c.check_f(fl::get(name) == bytes, [&] { return what + ": the file was changed"; });
}
// Reading all of it, whatever it says.
void read_all(vp::Src &s, std::shared_ptr<Warren> w, const std::vector<std::string> &features) {
  w->start();
  for (auto &f : features) {
    addr k = w->featurizer()->featurize(f);
    w->idx()->count(k);
    auto h = w->idx()->hopper(k);
    addr p = minfinity, q;
    fval v;
    for (size_t i = 0; i < 3000 && p < maxfinity; i++) h->tau(p + 1, &p, &q, &v);
    h->rho((addr)s.below(100), &p, &q, &v);
    h->uat((addr)s.below(100), &p, &q, &v);
  }
  addr p, q;
  w->idx()->vocab();
  w->txt()->tokens();
  if (w->txt()->range(&p, &q)) {
    w->txt()->translate(p, q);
    for (size_t i = 0; i < 5; i++) { addr a = (addr)s.below(100); w->txt()->translate(a, a + (addr)s.below(20)); }
  }
  w->txt()->translate(minfinity, maxfinity);
  w->end();
}
std::string immutable(vp::Src &s, vp::Ctx &c, Model &m, std::vector<std::string> *names, std::string *dir) {
  std::string err;
  *dir = c.dir() + "/w";
  auto working = Working::mkdir(*dir, &err);
  c.check(working != nullptr, "working: " + err);
  Parts p(s);
  m.rules.max_tokens = 1 + s.below(12);
  m.rules.big = s.chance(1, 8);
  size_t n = 1 + s.below(3);
  *names = shards(s, c, p, working, m, n, [](size_t) { return true; });
  std::string name = (*names)[0];
  if (n > 1 && s.coin()) {
    c.check_f(Hazel::merge(working, *names, "", &err), [&] { return "merge: " + err; });
    name = hazel_default_name(0, (addr)n - 1);
  } else
    m.all.resize(1);
  return name;
}

void cut(vp::Src &s, vp::Ctx &c) {
  Model m;
  std::vector<std::string> names;
  std::string dir, err, name = immutable(s, c, m, &names, &dir), bytes = fl::get(dir + "/" + name);
  Layout l(bytes);
  c.check(l.good, "harness: layout of the file");
  std::set<size_t> at = {0, bytes.size() - 1};
  if (bytes.size() < 700) for (size_t i = 0; i < bytes.size(); i++) at.insert(i);
  else {
    for (size_t i = 0; i < 60; i++) at.insert(s.below(bytes.size()));
    for (size_t i = 0; i < 40; i++) { auto &f = s.pick(l.fields); at.insert(std::min(bytes.size() - 1, f.at + s.below(f.size + 1))); }
  }
  std::string copy = c.dir() + "/cut";
  for (auto n : at) {
    std::string b = bytes.substr(0, n);
    fl::put(c, copy, b);
    refused(c, copy, b, vp::cat("cut to ", n, " of ", bytes.size(), " bytes"));
  }
  fl::put(c, copy, bytes);
  auto w = wd::open(c, copy);
  w->start();
  dyn::compare(s, c, w, dyn::committed(m), 3, "the whole file");
  w->end();
  c.nontrivial(bytes.size() > 600);
}

addr other(vp::Src &s, addr x) {
  for (;;) {
    addr y;
    switch (s.below(10)) {
    case 0: y = x + 1; break;
    case 1: y = x - 1; break;
    case 2: y = (addr)((uint64_t)x ^ (1ull << s.below(64))); break;
    case 3: y = x + 8 * s.range(-4, 4); break;
    case 4: y = x + 24 * s.range(-2, 2); break;
    case 5: y = -x; break;
    case 6: y = s.pick(std::vector<addr>{0, -1, 1, maxfinity, minfinity, maxfinity - 1, maxfinity / 24 + 1, maxfinity / 16, (addr)1 << 32, (addr)1 << 60}); break;
    case 7: y = (addr)s.mag(100000); break;
    case 8: y = maxfinity - (addr)s.mag(1000); break;
    default: y = (addr)s.raw(); break;
    }
    if (y != x) return y;
    if (s.drawn() > 100000) throw vp::Discard();
  }
}
// One field of the file altered: refused, or served right; when it is part of a
// directory the process may stop on reading what it describes.
void altered(vp::Src &s, vp::Ctx &c) {
  Model m;
  std::vector<std::string> names;
  std::string dir, name = immutable(s, c, m, &names, &dir), bytes = fl::get(dir + "/" + name);
  Layout l(bytes);
  c.check(l.good, "harness: layout of the file");
  std::string copy = c.dir() + "/altered";
  std::vector<std::string> features = {"", "text", "nothing"};
  for (auto &v : dyn::vocabulary()) features.push_back(v);
  for (size_t i = 0; i < 5; i++) features.push_back(dyn::tag(i));
  std::vector<size_t> by[3];
  for (size_t i = 0; i < l.fields.size(); i++) by[l.fields[i].kind].push_back(i);
  size_t refusals = 0, served = 0;
  for (size_t round = 0; round < 10; round++) {
    size_t which = s.weighted({5, 2, 3, 3});
    Field f = {"anywhere", 0, bytes.size(), 3};
    if (which < 3) {
      if (by[which].empty()) continue;
      f = l.fields[s.pick(by[which])];
    } else if (s.coin()) { // some eight bytes
      f.at = s.below(bytes.size() - 8);
      f.size = 8;
    }
    if (f.size == 0) continue;
    std::string b = bytes, what = f.what;
    if (f.kind == 1 || f.size != 8) {
      size_t n = f.kind & 1 ? 1 + s.below(3) : 1;
      for (size_t i = 0; i < n; i++) {
        size_t at = f.at + s.below(f.size);
        switch (f.kind & 1 ? s.below(3) : 0) {
        case 0: b[at] = (char)(b[at] ^ (1 << s.below(8))); break;
        case 1: b[at] = s.pick(std::vector<char>{'[', ']', '"', '\\', ',', ':', '\n', '0', '9', '-', '\0', '\xff'}); break;
        default: b.erase(at, 1); b.insert(f.at + s.below(f.size - 1), 1, ' '); break;
        }
      }
      if (b == bytes) continue;
      what += ": " + vp::show(b.substr(f.at, std::min<size_t>(f.size, 400)));
    } else {
      addr x = pod(b, f.at), y = other(s, x);
      pod(&b, f.at, y);
      what += vp::cat(": ", y, " for ", x);
    }
    c.note_f([&] { return what; });
    fl::put(c, copy, b);
    uint64_t seed = s.raw();
    auto o = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
      std::string err;
      vp::Src r(seed, 100, nullptr);
      auto w = Warren::make(copy, &err);
      if (w == nullptr) {
        if (err.size() == 0) throw vp::Failure("refused without a message");
        crash::shared()->v[0] = 1;
        return;
      }
      crash::shared()->v[0] = 2;
      if (f.kind == 0) {
        w->start();
        dyn::compare(r, c, w, dyn::committed(m), 3, "served");
        w->end();
      } else
        read_all(r, w, features);
    });
    long stage = crash::shared()->v[0];
    if (stage == 1) refusals++;
    if (stage == 2) served++;
    bool stop = f.kind != 0 && stage == 2 && o.died && o.message.find("Assertion") != std::string::npos && (o.message.find("AddressSanitizer") == std::string::npos || o.message.find("AddressSanitizer: ABRT") != std::string::npos) && o.message.find("runtime error") == std::string::npos;
    c.check_f(o.ok || stop, [&] { return what + ": " + (stage == 2 ? "opened, then " : "") + o.message; });
    c.check_f(fl::get(copy) == b, [&] { return what + ": the file was changed"; });
  }
  c.nontrivial(refusals > 0 && bytes.size() > 600);
  c.label(served ? "something served" : "all refused");
}

// A saved shard cut or altered.
void shard(vp::Src &s, vp::Ctx &c) {
  std::string err, dir = c.dir() + "/w";
  auto working = Working::mkdir(dir, &err);
  c.check(working != nullptr, "working: " + err);
  Parts p(s);
  Model m;
  m.rules.max_tokens = 1 + s.below(12);
  m.rules.empty = false;
  m.rules.big = s.chance(1, 8);
  auto names = shards(s, c, p, working, m, 1, [](size_t) { return false; });
  std::string bytes = fl::get(dir + "/" + names[0]);
  std::vector<size_t> bounds; // where a record ends
  c.check(bytes.size() >= 32, "harness: layout of the shard");
  size_t at = 32 + (size_t)pod(bytes, 24);
  bounds.push_back(at);
  while (at + sizeof(PstRecord) <= bytes.size()) {
    at += sizeof(PstRecord) + (size_t)(pod(bytes, at + 16) + pod(bytes, at + 24) + pod(bytes, at + 32));
    bounds.push_back(at);
  }
  c.check(at == bytes.size(), "harness: layout of the shard");
  std::string copy = c.dir() + "/shard";
  auto open = [&](const std::string &b, std::string *e) {
    fl::put(c, copy, b);
    auto f = Fiver::unpickle(copy, nullptr, p.featurizer, p.tokenizer, e, p.pc, p.fc, p.tc);
    c.check(fl::get(copy) == b, "the file was changed");
    return f;
  };
  std::set<size_t> cuts = {0};
  for (size_t i = 0; i < 40; i++) cuts.insert(s.below(bytes.size()));
  for (size_t i = 0; i < 40; i++) {
    addr d = s.pick(std::vector<addr>{-1, 1, 8, 39, 40, 41});
    addr x = (addr)s.pick(bounds) + d;
    if (x >= 0 && x < (addr)bytes.size()) cuts.insert((size_t)x);
  }
  for (auto x : cuts) {
    if (std::find(bounds.begin(), bounds.end(), x) != bounds.end()) continue; // nothing tells
    std::string e;
    auto f = open(bytes.substr(0, x), &e);
    c.check_f(f == nullptr, [&] { return vp::cat("cut to ", x, " of ", bytes.size(), " bytes: opened"); });
    c.check_f(e.size() > 0, [&] { return vp::cat("cut to ", x, ": refused without a message"); });
  }
  for (size_t i = 0; i < 6; i++) {
    size_t field = 16 + 8 * s.below(2);
    std::string b = bytes;
    addr x = pod(b, field), y = other(s, x);
    pod(&b, field, y);
    std::string e;
    auto f = open(b, &e);
    c.note_f([&] { return vp::cat("field ", field, ": ", y, " for ", x, f ? " opened" : " refused"); });
    // A wrong length of the stored form may go unnoticed: what follows carries no marks.
    c.check_f(f == nullptr || field == 24, [&] { return vp::cat("length of the text ", y, " for ", x, ": opened"); });
    if (f) { f->start(); for (auto &v : dyn::vocabulary()) { addr p, q; fval w; auto h = f->idx()->hopper(f->featurizer()->featurize(v)); h->tau(minfinity + 1, &p, &q, &w); } f->end(); }
    c.check(f != nullptr || e.size() > 0, "refused without a message");
  }
  auto f = open(bytes, &err);
  c.check_f(f != nullptr, [&] { return "the whole shard: " + err; });
  f->start();
  dyn::compare(s, c, f, dyn::committed(m), 3, "the whole shard");
  f->end();
  c.nontrivial(bounds.size() > 3);
}

std::map<std::string, std::string> tree(const std::string &dir) {
  std::map<std::string, std::string> o;
  DIR *d = opendir(dir.c_str());
  if (!d) return o;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == ".." || n.compare(0, 5, "temp.") == 0) continue;
    struct stat st;
    std::string path = dir + "/" + n;
    if (lstat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { o[n + "/"] = ""; for (auto &x : tree(path)) o[n + "/" + x.first] = x.second; }
    else o[n] = fl::get(path);
  }
  closedir(d);
  return o;
}

// A dynamic index one of whose shards is cut is refused and kept as it is.
void stored(vp::Src &s, vp::Ctx &c) {
  std::string err, dir = c.dir() + "/w", o;
  Parts p(s);
  auto made = crash::child(c, "/nowhere", crash::COUNT, 0, [&] { auto b = wd::disk(c, dir, "idx:posting_compressor:" + p.pc->name() + " idx:fvalue_compressor:" + p.fc->name() + " txt:compressor:" + p.tc->name() + " tokenizer:name:utf8"); b->merge(false); });
  c.check_f(made.ok, [&] { return made.message; });
  auto working = Working::make(dir, &err);
  c.check(working != nullptr, "working: " + err);
  Model m;
  m.rules.max_tokens = 1 + s.below(6);
  m.rules.empty = false;
  m.rules.big = false;
  uint64_t kinds = s.raw();
  size_t n = 1 + s.below(4);
  auto names = shards(s, c, p, working, m, n, [&](size_t i) { return (kinds >> i) & 1; });
  for (size_t r = 0; r < 4; r++) {
    std::string name = dir + "/" + s.pick(names), bytes = fl::get(name), b;
    bool hazel = name.find("/hazel.") != std::string::npos;
    if (hazel || bytes.size() < 40) b = bytes.substr(0, s.below(bytes.size()));
    else b = bytes.substr(0, s.below(std::min<size_t>(bytes.size(), 32 + (size_t)pod(bytes, 24)))); // within header and text
    fl::put(c, name, b);
    auto before = tree(dir);
    auto out = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
      std::string e;
      auto w = Warren::make(dir, &e);
      if (w != nullptr) throw vp::Failure("opened with " + name + vp::cat(" cut to ", b.size(), " of ", bytes.size(), " bytes"));
      if (e.size() == 0) throw vp::Failure("refused without a message");
    });
    c.check_f(out.ok, [&] { return "cut shard: " + out.message; });
    auto after = tree(dir);
    c.check_f(after == before, [&] { return "the refused opening changed the directory"; });
    fl::put(c, name, bytes);
  }
  auto out = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
    auto w = wd::open(c, dir);
    w->start();
    dyn::compare(s, c, w, dyn::committed(m), 3, "with the shards back");
    w->end();
  });
  c.check_f(out.ok, [&] { return out.message; });
  c.nontrivial(n > 1);
}

// A dynamic index whose directory holds files named like shards that are none,
// or shards that claim parts of each other, is refused and kept as it is.
void names(vp::Src &s, vp::Ctx &c) {
  std::string err, dir = c.dir() + "/w";
  Parts p(s);
  auto made = crash::child(c, "/nowhere", crash::COUNT, 0, [&] { auto b = wd::disk(c, dir, "idx:posting_compressor:" + p.pc->name() + " idx:fvalue_compressor:" + p.fc->name() + " txt:compressor:" + p.tc->name() + " tokenizer:name:utf8"); b->merge(false); });
  c.check_f(made.ok, [&] { return made.message; });
  auto working = Working::make(dir, &err);
  c.check(working != nullptr, "working: " + err);
  Model m;
  m.rules.max_tokens = 1 + s.below(4);
  m.rules.empty = false;
  m.rules.big = false;
  bool hazel = s.coin();
  size_t n = 3 + s.below(3);
  auto real = shards(s, c, p, working, m, n, [&](size_t) { return hazel; });
  std::string kind = hazel ? "hazel" : "fiver";
  for (size_t r = 0; r < 4; r++) {
    std::map<std::string, std::string> extra;
    std::string what;
    if (s.coin()) {
      // shards a..b and a'..b' with a < a' <= b < b', copies of real ones
      size_t a = s.below(n - 2), a2 = a + 1 + s.below(n - 2 - a), b = a2 + s.below(n - 1 - a2), b2 = b + 1 + s.below(n - 1 - b);
      extra[owsla_shard_name(kind, (addr)a, (addr)b)] = fl::get(dir + "/" + s.pick(real));
      extra[owsla_shard_name(kind, (addr)a2, (addr)b2)] = fl::get(dir + "/" + s.pick(real));
      what = "overlapping shards";
    } else {
      std::string name = s.coin() ? "hazel" : "fiver", a = seq2str((addr)(n + 5)), b = seq2str((addr)(n + 6));
      switch (s.below(8)) {
      case 0: name += "." + a; break;
      case 1: name += "." + a + "."; break;
      case 2: name += "." + b + "." + a; break;
      case 3: name += "." + a + "." + b + "." + s.pick(std::vector<std::string>{"x", "old", "0", a}); break;
      case 4: name += "." + a + ".-" + b.substr(1); break;
      case 5: name += "." + a + "." + s.pick(std::vector<std::string>{"99999999999999999999", "09223372036854775808", "00000000000000000x09", b + " "}); break;
      case 6: name += ".." + b; break;
      default: name += "." + s.pick(std::vector<std::string>{"", "x", "x.y", "+1.2", " 1.2", "1,2"}); break;
      }
      extra[name] = s.coin() ? fl::get(dir + "/" + s.pick(real)) : "junk";
      what = "a file named " + vp::show(name);
    }
    for (auto &x : extra) { c.note_f([&] { return "with " + x.first; }); fl::put(c, dir + "/" + x.first, x.second); }
    auto before = tree(dir);
    auto out = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
      std::string e;
      auto w = Warren::make(dir, &e);
      if (w != nullptr) throw vp::Failure("opened");
      if (e.size() == 0) throw vp::Failure("refused without a message");
    });
    c.check_f(out.ok, [&] { return what + ": " + out.message; });
    auto after = tree(dir);
    c.check_f(after == before, [&] { return what + ": the refused opening changed the directory"; });
    for (auto &x : extra) unlink((dir + "/" + x.first).c_str());
  }
  // Creating another index where there is one is refused, whichever way it is asked for.
  auto before = tree(dir);
  uint64_t ways = s.raw();
  auto created = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
    std::string e;
    std::shared_ptr<Warren> w;
    if (ways & 1) w = Bigwig::make(dir, std::string((ways & 2) ? "tokenizer:name:utf8" : ""), &e);
    else w = Bigwig::make(Working::make(dir), p.featurizer, p.tokenizer, std::shared_ptr<Fluffle>(), &e, p.pc, p.fc, p.tc);
    if (w != nullptr) throw vp::Failure("created over another");
    if (e.size() == 0) throw vp::Failure("refused without a message");
  });
  c.check_f(created.ok, [&] { return "creating an index where there is one: " + created.message; });
  c.check_f(tree(dir) == before, [&] { return "the refused creation changed the directory"; });
  auto out = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
    auto w = wd::open(c, dir);
    w->start();
    dyn::compare(s, c, w, dyn::committed(m), 3, "without the foreign files");
    w->end();
  });
  c.check_f(out.ok, [&] { return out.message; });
  c.nontrivial();
  c.label(kind);
}

std::string junk(vp::Src &s) {
  std::string o;
  size_t n = s.len(300);
  static const std::vector<std::string> bits = {"[", "]", "\"", ":", ",", "warren", "\"bigwig\"", "\"simple\"", "\"hazel\"", "featurizer:[name:\"hashing\",recipe:\"\",],", "tokenizer:[name:\"utf8\",recipe:\"\",],", "idx:[", "txt:[", "name:\"bigwig\",", "recipe:[", "parameters:[],", "\n", " ", "\\", "\n\n"};
  for (size_t i = 0; i < n;) {
    if (s.coin()) { o += s.pick(bits); i += 5; }
    else { o += (char)s.below(256); i++; }
  }
  return o;
}
// Directories and files that are no index, or whose configuration is damaged.
void foreign(vp::Src &s, vp::Ctx &c) {
  std::string err, dir = c.dir() + "/w", target = dir;
  bool must = true; // be refused
  std::string what;
  size_t kind = s.below(8);
  auto make_simple = [&] {
    auto working = Working::mkdir(dir, &err);
    auto b = SimpleBuilder::make(working, s.coin() ? "" : "tokenizer:name:utf8", &err);
    c.check(b != nullptr, "builder: " + err);
    addr p, q;
    c.check(b->add_text("one two three\n", &p, &q, &err) && b->finalize(&err), "build: " + err);
  };
  auto make_bigwig = [&] {
    auto b = wd::disk(c, dir, "txt:json:yes tokenizer:name:utf8");
    b->merge(false);
    addr p, q;
    c.check(b->transaction(&err), "transaction: " + err);
    b->appender()->append("one two three\n", &p, &q);
    c.check(b->ready(&err), "ready: " + err);
    b->commit();
  };
  switch (kind) {
  case 0: what = "nothing there"; break;
  case 1: mkdir(dir.c_str(), 0755); what = "an empty directory"; if (s.coin()) { fl::put(c, dir + "/readme", "x"); what = "a directory of other files"; } break;
  case 2: mkdir(dir.c_str(), 0755); mkdir((dir + "/dna").c_str(), 0755); what = "a directory with a directory as configuration"; break;
  case 3: mkdir(dir.c_str(), 0755); fl::put(c, dir + "/dna", junk(s)); what = "junk as configuration"; break;
  case 4:
    mkdir(dir.c_str(), 0755);
    fl::put(c, dir + "/dna", "# DO NOT EDIT DNA - DO NOT EDIT DNA - DO NOT EDIT DNA \n" + junk(s));
    what = "junk after the header of a configuration";
    break;
  case 5: fl::put(c, dir, (s.coin() ? cottontail_file_magic : std::string()) + junk(s)); what = "a file of junk"; break;
  default: {
    must = false;
    bool simple = s.coin();
    auto made = crash::child(c, "/nowhere", crash::COUNT, 0, [&] { if (simple) make_simple(); else make_bigwig(); });
    c.check_f(made.ok, [&] { return made.message; });
    std::string dna = fl::get(dir + "/dna"), b = dna;
    if (s.chance(1, 3)) b = dna.substr(0, s.below(dna.size()));
    else if (s.chance(1, 2)) {
      // a line lost or repeated
      std::vector<std::string> lines;
      for (size_t i = 0; i < dna.size();) { size_t e = dna.find('\n', i); e = e == std::string::npos ? dna.size() : e + 1; lines.push_back(dna.substr(i, e - i)); i = e; }
      size_t k = s.below(lines.size());
      if (s.coin()) lines.erase(lines.begin() + (long)k); else lines.insert(lines.begin() + (long)k, lines[s.below(lines.size())]);
      b = "";
      for (auto &x : lines) b += x;
    } else
      for (size_t i = 0; i < 1 + s.below(4); i++) { size_t at = s.below(b.size()); if (s.coin()) b[at] = (char)(b[at] ^ (1 << s.below(8))); else if (s.coin()) b.erase(at, 1); else b.insert(at, 1, s.pick(std::vector<char>{'[', ']', '"', '\\', ',', ':', '\n', 'x'})); }
    fl::put(c, dir + "/dna", b);
    what = std::string(simple ? "static" : "dynamic") + " index with damaged configuration:\n" + b;
  }
  }
  c.note(what);
  auto before = tree(dir);
  std::string self = kind == 5 ? fl::get(dir) : "";
  auto out = crash::child(c, "/nowhere", crash::COUNT, 0, [&] {
    std::string e;
    std::shared_ptr<Warren> w;
    if (must || s.chance(2, 3)) w = Warren::make(target, &e);
    else w = Warren::make(s.pick(std::vector<std::string>{"simple", "bigwig", "", "hazel", "nothing"}), target, &e);
    crash::shared()->v[0] = w ? 2 : 1;
    if (w == nullptr && e.size() == 0) throw vp::Failure("refused without a message");
    if (w != nullptr && must) throw vp::Failure("opened");
  });
  long stage = crash::shared()->v[0];
  c.check_f(out.ok, [&] { return what + ": " + out.message; });
  if (stage == 1) c.check_f(tree(dir) == before && (kind != 5 || fl::get(dir) == self), [&] { return what + ": the refused opening changed something"; });
  c.label(stage == 1 ? "refused" : "opened");
  c.nontrivial(kind >= 3);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C19";
  sp.level = "fault_enumeration";
  sp.rule = "Immutable index files of 1 to 3 merged or unmerged random transactions, under all compressors, cut to random and to structural lengths (all lengths of small files), or with one field of the magic numbers, configuration, dictionary, headers or directories altered; saved shards cut within a record or with their lengths altered; dynamic indexes with one shard cut, or with files misnamed as shards or shards that overlap in part beside theirs, and creating another over them; empty, foreign and junk directories and files, and configurations with bytes or lines damaged. All under sanitizers. Non-trivial: the file has several postings and was refused at least once; or several shards; or junk content.";
  sp.assumptions = {"compressed bytes of postings and text are not altered (they carry no checks)", "damage to a directory entry may be noticed only on reading what it describes, and then stops the process"};
  sp.subs = {{"cut", 600, 20000, cut, 120, false, true},
             {"altered", 700, 20000, altered, 120, false, true},
             {"shard", 700, 20000, shard, 60, false, true},
             {"stored", 300, 8000, stored, 120, true, true},
             {"names", 200, 6000, names, 120, true, true},
             {"foreign", 1200, 40000, foreign, 60, true, true}};
  return vp::run(argc, argv, sp);
}
