// C10: JSON documents stored in an index.  Sanitized build.
#include "jsongen.h"
using namespace cottontail;

using namespace jg;
namespace {
void documents(vp::Src &s, vp::Ctx &c) {
  int engine = (int)s.weighted({7, 1, 1}); // in memory, on disk, static
  std::string err, dir = c.dir() + "/b";
  std::shared_ptr<Warren> w;
  std::shared_ptr<Scribe> scribe;
  if (engine == 0) { w = wd::memory(c); scribe = Scribe::make(w, &err); }
  else if (engine == 1) { w = wd::quiet(c, dir, "txt:json:yes"); scribe = Scribe::make(w, &err); }
  else {
    auto work = Working::mkdir(dir, &err);
    auto b = SimpleBuilder::make(work, "tokenizer:name:utf8 txt:json:yes", &err);
    c.check(b != nullptr, "builder: " + err);
    scribe = Scribe::make(b, &err);
  }
  c.check(scribe != nullptr, "scribe: " + err);
  size_t n = 1 + s.below(4);
  bool static_ = engine == 2;
  Expect x;
  std::vector<Doc> docs;
  size_t nodes = 0;
  c.check(scribe->transaction(&err), "transaction: " + err);
  for (size_t i = 0; i < n; i++) {
    if (!static_ && s.chance(1, 8)) { // another transaction
      c.check(scribe->ready(), "ready");
      scribe->commit();
      c.check(scribe->transaction(&err), "transaction: " + err);
    }
    Doc d = gen(s, 1 + (int)s.below(4));
    if (s.chance(1, 4)) {
      std::string bad = damage(s, d);
      c.note("refused document " + vp::show(bad));
      err = "";
      addr p = -7, q = -7;
      c.check_f(!json_scribe(bad, scribe, &p, &q, &err), [&] { return "accepted text that is not JSON: " + vp::show(bad); });
      c.check(err.size() > 0, "refused without a message");
      continue;
    }
    std::string t = write(s, d);
    c.note("document " + vp::show(t));
    addr p, q, p1, q1;
    err = "";
    bool ok = s.chance(1, 4) ? json_scribe(t, scribe, &err) && ((p = minfinity), true) : json_scribe(t, scribe, &p, &q, &err);
    c.check_f(ok, [&] { return "document refused: " + err; });
    x.put(d, ":", &p1, &q1);
    if (static_ && p != minfinity) c.check_f(p == p1 && q == q1, [&] { return vp::cat("stored at (", p, ",", q, "), expected (", p1, ",", q1, ")"); });
    else if (p != minfinity) c.check_f(q - p == q1 - p1, [&] { return vp::cat("stored in ", q - p + 1, " tokens, expected ", q1 - p1 + 1); });
    docs.push_back(d);
  }
  c.check(scribe->ready(), "ready");
  scribe->commit();
  c.check(scribe->finalize(&err), "finalize: " + err);
  if (static_) w = wd::open(c, dir);
  else if (engine == 1 && s.coin()) { scribe = nullptr; w = nullptr; w = wd::open(c, dir); }
  bool cloned = s.chance(1, 3), early = s.coin();
  if (cloned && early) { w->start(); w = w->clone(&err); c.check(w != nullptr, "clone: " + err); }
  else if (cloned) { w = w->clone(&err); c.check(w != nullptr, "clone: " + err); }
  if (!w->started()) w->start();
  x.named["never:"] = {};
  x.named[":never:"] = {};
  x.named[":"];
  for (auto &e : x.named) {
    List want = ref::reduce(e.second), got = wd::annotations(w, e.first);
    c.check_f(ref::equal(got, want), [&] { return "'" + vp::show(e.first) + "': " + ref::diff(got, want); });
    nodes += want.size();
  }
  c.check(wd::annotations(w, ":").size() == docs.size(), "the number of documents");
  for (auto &e : x.terms) {
    List want;
    for (auto a : e.second) want.push_back({a, a, 0.0});
    if (e.first.size() == 3 && json_internal_token(e.first.data(), 3) && w->featurizer()->name() == "json") want.clear();
    List got = wd::annotations(w, e.first);
    c.check_f(ref::equal(got, want), [&] { return "term '" + vp::show(e.first) + "': " + ref::diff(got, want); });
  }
  for (auto &e : x.extents) {
    std::string raw = w->txt()->raw(e.p, e.q), t = w->txt()->translate(e.p, e.q);
    if (engine == 0) t = json_translate(t);
    else c.check(json_translate(raw) == t, "the wrapped text is not the translation of the raw text");
    nlohmann::json j;
    try { j = nlohmann::json::parse(t); } catch (std::exception &ex) { c.fail(vp::cat("text of (", e.p, ",", e.q, ") is not JSON: ", vp::show(t), " ", ex.what())); }
    if (x.precise) c.check_f(equal(j, e.j), [&] { return vp::cat("text of (", e.p, ",", e.q, ") is ", vp::show(t), ", expected ", e.j.dump()); });
  }
  w->end();
  c.nontrivial(nodes > 4);
}
// json_encode: the stored form of a string
void encode(vp::Src &s, vp::Ctx &c) {
  std::string t = clean(text(s, false));
  c.note("string " + vp::show(t));
  std::string e = json_encode(t);
  c.check(e.size() >= 6 && e.compare(0, 3, open_string_token) == 0 && e.compare(e.size() - 3, 3, close_string_token) == 0, "not delimited");
  std::string body = e.substr(3, e.size() - 6);
  nlohmann::json j;
  try { j = nlohmann::json::parse("\"" + body + "\""); } catch (std::exception &ex) { c.fail("not a JSON string: " + vp::show(body)); }
  c.check_f(j.is_string() && (std::string)j == t, [&] { return "decodes to " + vp::show((std::string)j); });
  c.nontrivial(t.size() > 1);
}
// json_translate and json_scribe on anything at all
void anything(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> bits = {open_object_token, close_object_token, open_array_token, close_array_token, open_string_token, close_string_token, colon_token, comma_token, open_number_token, close_number_token, " ", "\n", "a", "\"", "\\", "\xEF", "\xEF\xB7"};
  std::string t;
  bool whole = s.coin(); // whole characters only
  for (size_t i = 0, n = s.len(20); i < n; i++) t += whole ? bits[s.below(bits.size() - 2)] : s.chance(1, 5) ? std::string(1, (char)s.below(256)) : s.pick(bits);
  std::string o = json_translate(t);
  if (whole) c.check(o.find(open_string_token) == std::string::npos && o.find(open_object_token) == std::string::npos, "structural token left in a translation");
  auto w = Scribe::null();
  std::string j, err;
  for (size_t i = 0, n = s.len(12); i < n; i++) { static const std::vector<std::string> jb = {"{", "}", "[", "]", "\"a\"", ":", ",", "1", "-", "e9", "true", "nul", " ", "\"", "\\u", "d800", "\xC3"}; j += s.pick(jb); }
  c.note("text " + vp::show(t) + " json " + vp::show(j));
  addr p, q;
  bool ok = json_scribe(j, w, &p, &q, &err);
  c.check_f(ok == nlohmann::json::accept(j) || !ok, [&] { return "accepted " + vp::show(j); });
  c.check(ok || err.size(), "refused without a message");
  c.nontrivial(t.size() > 3);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C10";
  sp.level = "exploration";
  sp.rule = "Random documents (nesting to depth 5, all value kinds, keys and strings with control characters, quotes, NUL, noncharacters and internal tokens, all number spellings) written in random layouts and stored through in-memory, on-disk and static indexes; every named feature, every term and the translated text of every extent against a model of the documented naming; unparsable texts in between; random bytes to the translator. Non-trivial: more than four annotations (or characters).";
  sp.assumptions = {"names that two paths share (keys containing colons) follow the documented naming, reduced to minimal intervals", "numbers keep the documented six decimals in the stored text"};
  sp.subs = {{"documents", 16000, 250000, documents, 60, false, true}, {"encode", 60000, 600000, encode}, {"anything", 60000, 1000000, anything}};
  return vp::run(argc, argv, sp);
}
