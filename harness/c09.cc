// C09: the configuration format, options, and stored parameters.  Sanitized.
#include <map>
#include "src/bigwig.h"
#include "src/recipe.h"
#include "src/simple_builder.h"
#include "src/warren.h"
#include "src/working.h"
#include "vp.h"
#include "world.h"
using namespace cottontail;
using Map = std::map<std::string, std::string>;

namespace {
// A configuration value: a string, or a map of values.
struct Val {
  bool map = false;
  std::string s;
  std::map<std::string, Val> m;
  bool operator==(const Val &o) const { return map == o.map && s == o.s && m == o.m; }
};
// What a value read back stands for: text that is itself configuration is
// compared as configuration, everything else byte for byte.
Val norm(const std::string &t) {
  Val v;
  Map m;
  if (cook(t, &m)) {
    v.map = true;
    for (auto &x : m) v.m[x.first] = norm(x.second);
  } else {
    v.s = t;
  }
  return v;
}
std::string show(const Val &v) {
  if (!v.map) return "'" + vp::show(v.s) + "'";
  std::string o = "{";
  for (auto &x : v.m) o += (o.size() > 1 ? ", " : "") + x.first + ": " + show(x.second);
  return o + "}";
}
std::string ident(vp::Src &s) {
  static const std::vector<std::string> k = {"a", "b", "name", "recipe", "container", "stemmer", "x-y", "a.b", "_", "K1", "0", "txt", "parameters"};
  if (s.chance(3, 4)) return s.pick(k);
  std::string o;
  size_t n = 1 + s.below(6);
  for (size_t i = 0; i < n; i++) o += "abzAZ019-_."[s.below(11)];
  return o;
}
std::string text(vp::Src &s) {
  static const std::vector<std::string> bits = {"a", "b", " ", "\"", "'", "\\", "[", "]", ":", ",", "\n", "\t", "\r", "yes", "(... \"<doc>\" \"</doc>\")", "\xC3\xA9", "\x01", "\xFF", "name", "[]", "#", ";"};
  std::string o;
  size_t n = s.len(12);
  for (size_t i = 0; i < n; i++) o += s.chance(1, 10) ? std::string(1, (char)(1 + s.below(255))) : s.pick(bits);
  return o;
}
Val value(vp::Src &s, int depth) {
  Val v;
  if (depth > 0 && s.chance(1, 3)) {
    v.map = true;
    size_t n = s.below(4);
    for (size_t i = 0; i < n; i++) { std::string k = ident(s); v.m[k] = value(s, depth - 1); }
  } else {
    v.s = text(s);
    Map m;
    if (cook(v.s, &m)) return norm(v.s); // happens to be configuration
  }
  return v;
}
Val object(vp::Src &s, int depth) {
  Val v;
  v.map = true;
  size_t n = s.len(6);
  for (size_t i = 0; i < n; i++) { std::string k = ident(s); v.m[k] = value(s, depth); }
  return v;
}
// frozen by the code under test, level by level, as all callers do
std::string frozen(const Val &v) {
  if (!v.map) return v.s;
  Map m;
  for (auto &x : v.m) m[x.first] = frozen(x.second);
  return freeze(m);
}
// written by hand, in any layout the format allows
std::string ws(vp::Src &s) { return std::string(s.chance(1, 3) ? s.below(3) : 0, " \n\t"[s.below(3)]); }
std::string written(vp::Src &s, const Val &v) {
  if (!v.map) {
    char q = s.coin() ? '\'' : '"';
    std::string o(1, q);
    for (char ch : v.s) { if (ch == q || ch == '\\') o += '\\'; o += ch; }
    return o + q;
  }
  std::string o = "[" + ws(s);
  size_t i = 0;
  for (auto &x : v.m) {
    o += ws(s) + x.first + ws(s) + ":" + ws(s) + written(s, x.second) + ws(s);
    if (++i < v.m.size() || s.coin()) o += ",";
    o += ws(s);
  }
  return o + "]";
}
void roundtrip(vp::Src &s, vp::Ctx &c) {
  Val v = object(s, 3);
  c.note_f([&] { return show(v); });
  std::string f = frozen(v);
  Map m, m2, m3;
  std::string err;
  size_t at;
  c.check_f(cook(f, &m), [&] { return "frozen text does not cook: " + f; });
  c.check(cook(f, &m2, &err) && cook(f, &m3, &at) && m == m2 && m == m3, "the three forms of cook differ");
  Val got = norm(f);
  c.check_f(got == v, [&] { return "read back as " + show(got) + " from " + f; });
  c.check_f(freeze(m) == f, [&] { return "freezing again gives another text: " + freeze(m) + " after " + f; });
  for (auto &x : v.m) if (x.second.map) c.nontrivial();
  c.nontrivial(v.m.size() > 2);
}
void layouts(vp::Src &s, vp::Ctx &c) {
  Val v = object(s, 3);
  std::string t = ws(s) + written(s, v) + ws(s);
  c.note("text " + vp::show(t));
  Map m;
  size_t at = 0;
  c.check_f(cook(t, &m, &at), [&] { return vp::cat("valid configuration refused at ", at); });
  Val got = norm(t);
  c.check_f(got == v, [&] { return "read as " + show(got) + ", written as " + show(v); });
  Val again = norm(freeze(m));
  c.check_f(again == v, [&] { return "after freezing " + show(again) + ", written as " + show(v); });
  // cut short, it is refused, says where, and leaves the result alone
  size_t end = t.find_last_of(']');
  size_t cut = s.below(end + 1);
  Map keep = {{"k", "v"}};
  std::string part = t.substr(0, cut), err;
  c.check_f(!cook(part, &keep, &at), [&] { return "text cut short accepted: " + vp::show(part); });
  c.check_f(at <= part.size(), [&] { return vp::cat("failure reported at ", at, " of ", part.size()); });
  c.check(!cook(part, &keep, &err) && err.size(), "refused without a message");
  c.check(keep.size() == 1 && keep["k"] == "v", "a refused text changed the result");
  c.nontrivial(v.m.size() > 1);
}
void fuzz(vp::Src &s, vp::Ctx &c) {
  std::string t;
  if (s.coin()) {
    t = written(s, object(s, 2));
    for (size_t i = 0, n = 1 + s.below(3); i < n && t.size(); i++) {
      size_t at = s.below(t.size());
      switch (s.below(3)) {
      case 0: t.erase(at, 1 + s.below(3)); break;
      case 1: t.insert(at, 1, "[]'\"\\,: ab\n\0"[s.below(12)]); break;
      default: t[at] = (char)s.below(256);
      }
    }
  } else {
    static const std::vector<std::string> bits = {"[", "]", "a", "b:", ":", "'", "\"", "\\", ",", " ", "x:'y'", "z:[]", "\\'", "\\\""};
    t = "[";
    for (size_t i = 0, n = s.len(20); i < n; i++) t += s.pick(bits);
    if (s.coin()) t += "]";
  }
  c.note("text " + vp::show(t));
  Map a = {{"k", "v"}}, b = a;
  size_t at = 0;
  std::string err;
  bool ok = cook(t, &a, &at);
  c.check(cook(t, &b, &err) == ok && a == b, "forms of cook differ");
  if (!ok) {
    c.check(at <= t.size() && err.size(), "failure not reported");
    c.check(a.size() == 1 && a["k"] == "v", "a refused text changed the result");
    return;
  }
  Val v = norm(t), w = norm(freeze(a));
  c.check_f(v == w, [&] { return "accepted as " + show(v) + ", freezes to " + show(w); });
  c.nontrivial(!a.empty());
}
void packages(vp::Src &s, vp::Ctx &c) {
  Val r = value(s, 2);
  std::string n = text(s), key = ident(s), err;
  Map mm; if (cook(n, &mm)) n = "n";
  Val p, o;
  p.map = o.map = true;
  p.m["name"].s = n;
  p.m["recipe"] = r;
  bool noname = s.chance(1, 6), norecipe = s.chance(1, 6), nokey = s.chance(1, 6);
  if (noname) p.m.erase("name");
  if (norecipe) p.m.erase("recipe");
  o = object(s, 1);
  o.m.erase(key);
  if (!nokey) o.m[key] = p;
  Map m;
  for (auto &x : o.m) m[x.first] = frozen(x.second);
  c.note_f([&] { return "key " + key + " in " + show(o); });
  std::string gn = "-", gr = "-";
  bool ok = name_and_recipe(m, key, &gn, &gr, &err);
  c.check_f(ok == !(noname || norecipe || nokey), [&] { return vp::cat("name_and_recipe says ", ok, " ", err); });
  if (!ok) { c.check(err.size() && gn == "-" && gr == "-", "refused without a message, or with a result"); return; }
  c.check_f(gn == n && norm(gr) == r, [&] { return "unwrapped as '" + gn + "' and " + show(norm(gr)); });
  c.nontrivial();
}
// Command line options against the documented meaning.
void options(vp::Src &s, vp::Ctx &c) {
  Val v;
  v.map = true;
  static const std::vector<std::string> items = {"txt", "idx", "tokenizer", "x"};
  for (auto &i : items) {
    Val p;
    if (s.chance(1, 8)) { p.s = text(s); Map m; if (cook(p.s, &m)) p = norm(p.s); v.m[i] = p; continue; }
    p.map = true;
    if (!s.chance(1, 10)) p.m["name"].s = "n" + std::to_string(s.below(3));
    if (!s.chance(1, 10)) {
      if (s.coin()) p.m["recipe"].s = s.coin() ? "" : "plain";
      else { p.m["recipe"].map = true; for (size_t j = 0, n = s.below(4); j < n; j++) p.m["recipe"].m[s.pick(std::vector<std::string>{"compressor", "size", "json"})].s = "v" + std::to_string(s.below(5)); }
    }
    v.m[i] = p;
  }
  std::string dna = frozen(v), err;
  // the option
  auto word = [&] { static const std::vector<std::string> w = {"txt", "idx", "tokenizer", "x", "nope", "name", "recipe", "compressor", "size", "json", "yes", "", "va\"lue", "back\\slash"}; return s.pick(w); };
  std::string o = word();
  size_t n = s.below(4);
  for (size_t i = 0; i < n; i++) o += (s.chance(1, 6) ? "@" : ":") + word();
  c.note_f([&] { return "option " + o + " on " + show(v); });
  // model
  auto split = [](const std::string &t, char sep) {
    std::vector<std::string> r(1);
    for (char ch : t) { if (ch == sep) r.push_back(""); else r.back() += ch; }
    if (r.size() > 1 && r.back().empty()) r.pop_back(); // a trailing separator adds nothing
    return r;
  };
  Val want = v;
  bool ok = true;
  auto at = split(o, '@');
  auto pc = split(o, ':');
  std::string item, sub, val;
  if (o.empty()) {
  } else if (at.size() == 2) {
    item = at[0];
    if (!want.m.count(item)) ok = false;
    else { Val p; p.map = true; p.m["name"].s = at[1]; p.m["recipe"] = want.m[item]; want.m[item] = p; }
  } else if (pc.size() < 2 || pc.size() > 3) ok = false;
  else {
    item = pc[0];
    if (!want.m.count(item) || !want.m[item].map) ok = false;
    else if (pc.size() == 2) { Val r; r.s = pc[1]; want.m[item].m["recipe"] = r; }
    else if (pc[1] == "name") { Val a, b; a.s = pc[2]; want.m[item].m["name"] = a; want.m[item].m["recipe"] = b; }
    else if (!want.m[item].m.count("recipe") || !want.m[item].m["recipe"].map || !want.m[item].m["recipe"].m.count(pc[1])) ok = false;
    else { Val a; a.s = pc[2]; want.m[item].m["recipe"].m[pc[1]] = a; }
  }
  std::string r = dna;
  bool got = interpret_option(&r, o, &err);
  c.check_f(got == ok, [&] { return vp::cat("accepted: ", got, ", expected: ", ok, " ", err); });
  if (!got) c.check(err.size() && r == dna, "refused without a message, or with an effect");
  else { Val g = norm(r); c.check_f(g == want, [&] { return "gives " + show(g) + ", expected " + show(want); }); }
  // reading options back
  for (auto &i : items) for (std::string q : {"", "name", "compressor", "size", "nope"}) {
    std::string x = "-", e2;
    bool eok = want.m[i].map && want.m[i].m.count("name") && want.m[i].m.count("recipe");
    Val ev;
    if (eok) {
      auto &p = want.m[i].m;
      if (q == "") ev = p["recipe"];
      else if (q == "name") ev = p["name"];
      else if (p["recipe"].map && p["recipe"].m.count(q)) ev = p["recipe"].m[q];
      else eok = false;
    }
    if (!got) continue;
    std::string opt = i + (q == "" ? "" : ":" + q);
    bool g = extract_option(r, opt, &x, &e2);
    c.check_f(g == eok, [&] { return vp::cat("extracting ", opt, ": ", g, ", expected ", eok, " ", e2); });
    if (g) { Val xv = norm(x); c.check_f(xv == ev, [&] { return "extracting " + opt + " gives " + show(xv) + ", expected " + show(ev); }); }
    else c.check(e2.size() > 0, "extract refused without a message");
  }
  c.nontrivial(ok && !o.empty());
}
// Stored parameters, through every handle and across reopening.
void parameters(vp::Src &s, vp::Ctx &c) {
  std::string err, burrow = c.dir() + "/b";
  int kind = (int)s.below(3); // simple, bigwig, in memory
  std::shared_ptr<Warren> w;
  auto work = kind == 0 ? Working::mkdir(burrow, &err) : nullptr;
  if (kind == 0) {
    auto b = SimpleBuilder::make(work, "", &err);
    c.check(b != nullptr, "builder: " + err);
    addr p, q;
    c.check(b->add_text("hello world", &p, &q) && b->finalize(&err), "builder: " + err);
    w = Warren::make(burrow, &err);
  } else if (kind == 1)
    w = wd::quiet(c, burrow, "tokenizer:name:utf8"); // a merger of its own would outlive the handle
  else
    w = wd::memory(c);
  c.check(w != nullptr, "open: " + err);
  std::vector<std::shared_ptr<Warren>> handles = {w};
  Map model;
  bool content = kind == 0;
  size_t n = 1 + s.len(14), stored = 0;
  auto same = [&](const std::string &a, const std::string &b) { return a == b || norm(a) == norm(b); };
  auto verify = [&](const char *when) {
    for (auto &h : handles) {
      for (auto &x : model) {
        std::string got = "?";
        c.check(h->get_parameter(x.first, &got, &err), std::string(when) + ": get: " + err);
        c.check_f(same(got, x.second), [&] { return std::string(when) + ": " + x.first + " reads '" + vp::show(got) + "', stored '" + vp::show(x.second) + "'"; });
      }
      std::string got = "?";
      c.check(h->get_parameter("never-set", &got, &err) && got == "", "a parameter never set reads '" + got + "'");
      if (content) {
        h->start();
        auto cur = h->hopper_from_gcl("hello", &err);
        addr p = minfinity, q;
        if (cur) cur->tau(minfinity + 1, &p, &q);
        c.check(cur != nullptr && p < maxfinity, std::string(when) + ": content lost");
        c.check(h->txt()->translate(p, q).substr(0, 5) == "hello", std::string(when) + ": text lost");
        h->end();
      }
    }
  };
  for (size_t i = 0; i < n; i++) {
    switch (s.weighted({6, 2, 2, 2})) {
    case 0: {
      std::string k = s.chance(1, 10) ? text(s) : ident(s), v = text(s);
      if (s.chance(1, 6)) v = frozen(object(s, 1));
      if (s.chance(1, 20)) v += std::string(1, '\0') + "x";
      if (k == "stemmer") v = s.coin() ? "porter" : "";
      if (k == "merge" || k == "preload" || k == "fastid") k = "m";
      auto &h = s.pick(handles);
      err = "";
      std::string before;
      bool had = h->get_parameter(k, &before, &err);
      bool ok = h->set_parameter(k, v, &err);
      c.note(vp::cat("set ", vp::show(k), " = ", vp::show(v), ok ? "" : " refused"));
      bool plain = !k.empty() && k.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.") == std::string::npos && v.find('\0') == std::string::npos && v.find("\n\n") == std::string::npos;
      c.check_f(ok || (!plain || v.find('\n') != std::string::npos), [&] { return "an ordinary parameter is refused: " + err; });
      if (ok) { model[k] = v; stored++; }
      else {
        c.check(err.size() > 0, "refused without a message");
        std::string after;
        c.check(had && h->get_parameter(k, &after, &err) && after == before, "a refused parameter changed");
      }
      break;
    }
    case 1: if (kind < 2 || true) { auto cl = handles[0]->clone(&err); c.check(cl != nullptr, "clone: " + err); handles.push_back(cl); c.note("clone"); break; }
    case 2:
      if (kind < 2) {
        handles.clear();
        w = nullptr;
        err = "";
        w = Warren::make(burrow, &err);
        c.note("reopen");
        c.check_f(w != nullptr, [&] { return "the index cannot be opened again: " + err; });
        handles.push_back(w);
        auto it = model.find("container");
        w->start();
        if (it != model.end()) c.check(same(w->default_container(), it->second), "the default container differs after reopening");
        it = model.find("stemmer");
        if (it != model.end()) c.check(w->stemmer() != nullptr && (w->stemmer()->name() == "porter") == (it->second == "porter"), "the stemmer differs after reopening");
        w->end();
      }
      break;
    default:
      if (kind > 0 && !content) {
        auto &h = handles[0];
        addr p, q;
        c.check(h->transaction(&err) && h->appender()->append("hello world", &p, &q, &err) && h->ready(&err), "transaction: " + err);
        h->commit();
        content = true;
        c.note("content");
      } else if (kind > 0) {
        addr p, q;
        auto &h = handles[0];
        c.check(h->transaction(&err) && h->appender()->append("more", &p, &q, &err) && h->ready(&err), "transaction: " + err);
        h->commit();
      }
    }
    verify("after a step");
  }
  if (kind < 2) {
    handles.clear();
    w = nullptr;
    w = Warren::make(burrow, &err);
    c.check_f(w != nullptr, [&] { return "the index cannot be opened again: " + err; });
    handles.push_back(w);
    verify("finally reopened");
  }
  c.nontrivial(stored > 1);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C09";
  sp.level = "exploration";
  sp.rule = "Random nested configurations with quotes, backslashes, brackets, newlines and control characters frozen and read back; the same written by hand in every layout, cut short, and mutated; packages and command line options against a model of their documented meaning; random histories of setting, reading, cloning, committing and reopening on static, dynamic and in-memory indexes against a map. Non-trivial: several keys or nesting, an accepted option, or several parameters stored.";
  sp.assumptions = {"the stemmer parameter names a stemmer that exists", "a value that is itself configuration text may be stored as equivalent configuration text", "NUL bytes, blank lines and non-identifier keys may be refused, with an error"};
  sp.subs = {{"roundtrip", 200000, 3000000, roundtrip}, {"layouts", 200000, 3000000, layouts}, {"fuzz", 300000, 4000000, fuzz}, {"packages", 100000, 1000000, packages}, {"options", 20000, 300000, options}, {"parameters", 3000, 40000, parameters, 60, false, true}};
  return vp::run(argc, argv, sp);
}
