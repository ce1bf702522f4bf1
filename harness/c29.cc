// C29: descriptions of foragers, and foraging.
#include <set>
#include "files.h"
#include "meadowlark/forager.h"
#include "meadowlark/tf-idf_stats.h"
#include "src/nlohmann.h"
#include "src/stemmer.h"
#include "src/tagging_featurizer.h"
using namespace cottontail;
using namespace cottontail::meadowlark;
using ref::Iv;
using ref::List;

namespace {
using Params = std::map<std::string, std::string>;
std::string text(vp::Src &s, bool bytes) {
  static const std::vector<std::string> bits = {"a", "name", "tag", "parameters", ":", " ", "\"", "\\", "/", "{", "}", "[", ",", "\xC3\xA9", "\xE4\xBD\xA0", "\xF0\x9F\x98\x80", "u0041", "\n", "\t", "\r", "\b", "\f"};
  std::string o;
  for (size_t n = s.len(8); n--;) {
    if (s.chance(1, 5)) o += (char)(bytes ? s.below(256) : s.below(0x80));
    else o += s.pick(bits);
  }
  return o;
}
struct Desc {
  std::string name, tag;
  Params params;
};
Desc desc(vp::Src &s, bool bytes) {
  Desc d;
  d.name = s.coin() ? "tf-idf" : text(s, bytes);
  d.tag = s.coin() ? "" : text(s, bytes);
  for (size_t n = s.len(5); n--;) {
    std::string k = text(s, bytes);
    d.params[k] = text(s, bytes);
  }
  return d;
}
std::string show(const Desc &d) {
  std::string o = vp::show(d.name) + " " + vp::show(d.tag);
  for (auto &p : d.params) o += " " + vp::show(p.first) + "=" + vp::show(p.second);
  return o;
}
void same(vp::Ctx &c, const Desc &d, const std::string &name, const std::string &tag, const Params &params, const std::string &where) {
  Desc g{name, tag, params};
  c.check_f(name == d.name && tag == d.tag && params == d.params, [&] { return where + ": " + show(g) + ", expected " + show(d); });
}
// There and back; and what is stored is JSON.
void round_trip(vp::Src &s, vp::Ctx &c) {
  bool bytes = s.coin();
  Desc d = desc(s, bytes);
  c.note_f([&] { return show(d); });
  std::string j = forager2json(d.name, d.tag, d.params);
  Desc g{"x", "y", {{"old", "z"}}};
  std::string err;
  c.check_f(json2forager(j, &g.name, &g.tag, &g.params, &err), [&] { return "own form refused: " + vp::show(j) + " " + err; });
  same(c, d, g.name, g.tag, g.params, "back");
  if (!bytes) {
    nlohmann::json x;
    try { x = nlohmann::json::parse(j); } catch (std::exception &e) { c.fail("not JSON: " + vp::show(j) + " " + e.what()); }
    c.check(x.is_object() && x.size() == 3 && x["name"] == d.name && x["tag"] == d.tag && x["parameters"].is_object() && x["parameters"].size() == d.params.size(), "the JSON holds something else");
    for (auto &p : d.params) c.check_f(x["parameters"].contains(p.first) && x["parameters"][p.first] == p.second, [&] { return "the JSON holds something else for " + vp::show(p.first); });
  }
  c.nontrivial(d.params.size() > 0 && j.size() > 60);
}
std::string spell(vp::Src &s, const std::string &t) {
  std::string o = "\"";
  for (char ch : t) {
    unsigned char u = (unsigned char)ch;
    char buf[8];
    const char *esc = "\b\f\n\r\t\"\\/", *let = "bfnrt\"\\/";
    const char *e = u ? strchr(esc, ch) : nullptr;
    if (e && (u < 0x20 || u == '"' || u == '\\' || s.coin()) && s.chance(3, 4)) { o += '\\'; o += let[e - esc]; }
    else if (u < 0x20 || u == '"' || u == '\\' || (u < 0x80 && s.chance(1, 12))) { snprintf(buf, sizeof buf, s.coin() ? "\\u%04x" : "\\u%04X", u); o += buf; }
    else o += ch;
  }
  return o + "\"";
}
std::string gap(vp::Src &s) { return s.chance(1, 4) ? std::string(1 + s.below(2), " \n\t\r"[s.below(4)]) : ""; }
std::string value(vp::Src &s, int depth) {
  static const std::vector<std::string> flat = {"null", "true", "false", "0", "-1", "1.5", "1e3", "-2.25E-4", "123456789012", "[]", "{}", "\"\"", "[ ]", "{ }"};
  size_t k = s.below(depth ? 5 : 3);
  if (k < 2) return s.pick(flat);
  if (k == 2) return spell(s, text(s, false));
  std::string o = k == 3 ? "[" : "{";
  for (size_t i = 0, n = s.below(4); i < n; i++) o += (i ? "," : "") + gap(s) + (k == 4 ? spell(s, text(s, false)) + gap(s) + ":" : "") + gap(s) + value(s, depth - 1) + gap(s);
  return o + (k == 3 ? "]" : "}");
}
// Any other spelling of a description; and texts that are none.
void spelled(vp::Src &s, vp::Ctx &c) {
  Desc d = desc(s, false);
  bool with_name = !s.chance(1, 8), with_tag = !s.chance(1, 5), with_params = !s.chance(1, 5);
  std::vector<std::string> members;
  if (with_name) members.push_back(spell(s, "name") + gap(s) + ":" + gap(s) + spell(s, d.name));
  if (with_tag) members.push_back(spell(s, "tag") + gap(s) + ":" + gap(s) + spell(s, d.tag));
  else d.tag = "";
  if (with_params) {
    std::string o = "{" + gap(s);
    bool first = true;
    for (auto &p : d.params) {
      o += (first ? "" : gap(s) + "," + gap(s)) + spell(s, p.first) + gap(s) + ":" + gap(s) + spell(s, p.second);
      first = false;
    }
    members.push_back(spell(s, "parameters") + gap(s) + ":" + gap(s) + o + gap(s) + "}");
  } else {
    d.params.clear();
  }
  std::set<std::string> used = {"name", "tag", "parameters"};
  for (size_t n = s.len(3); n--;) {
    std::string k = text(s, false);
    if (used.insert(k).second) members.push_back(spell(s, k) + gap(s) + ":" + gap(s) + value(s, 2));
  }
  for (size_t k = members.size(); k > 1; k--) std::swap(members[k - 1], members[s.below(k)]);
  std::string j = gap(s) + "{";
  for (size_t i = 0; i < members.size(); i++) j += (i ? "," : "") + gap(s) + members[i] + gap(s);
  j += (members.empty() ? gap(s) : "") + "}";
  std::string why;
  bool good = with_name;
  if (!with_name) why = "no name";
  if (s.chance(2, 5)) {
    std::string t = j;
    switch (s.below(6)) {
    case 0: t = t.substr(0, s.below(t.size())); why = "cut short"; break;
    case 1: t += s.pick(std::vector<std::string>{"x", "}", "{}", ",", "\"\"", " null"}); why = "something after it"; break;
    case 2: t = s.pick(std::vector<std::string>{"[" + j + "]", "null", "\"name\"", "7", "true", j.substr(j.find('{') + 1), ""}); why = "no object"; break;
    case 3: { size_t at = t.rfind('}'); t.insert(at, members.empty() ? "," : s.coin() ? "," : ",,"); why = "a comma too many"; break; }
    case 4: { // something that is no text
      std::string m = "\"" + s.pick(std::vector<std::string>{"name", "tag"}) + "\":" + s.pick(std::vector<std::string>{"1", "null", "{}", "[\"a\"]", "true", "a", "'a'"});
      t = "{\"name\":\"x\"," + m + "}";
      why = "no text where one belongs";
      break;
    }
    default: {
      static const std::vector<std::string> bad = {"{\"name\":\"a\\x\"}", "{\"name\":\"a\\u12\"}", "{\"name\":\"\\u00g0\"}", "{\"name\":\"a\nb\"}", "{\"name\":\"a", "{name:\"a\"}", "{\"name\" \"a\"}", "{\"name\":\"a\" \"tag\":\"b\"}", "{\"name\":\"a\",\"x\":nul}", "{\"name\":\"a\",\"x\":[1 2]}", "{\"name\":\"a\",\"x\":1.}", "{\"name\":\"a\",\"x\":}", "{\"name\":\"a\",\"parameters\":{\"a\":1}}", "{\"name\":\"a\",\"parameters\":{\"a\"}}", "{\"name\":\"a\",\"parameters\":{\"a\":\"b\",}}", "{\"name\":\"a\",\"parameters\":{\"a\":\"b\"}", "{\"name\":\"a\",\"x\":{\"y\":}}", "{\"name\":\"a\",\"x\":1e}", "{\"name\":\"a\",\"x\":--1}", "{\"name\":\"a\\\"}", "{,\"name\":\"a\"}"};
      t = s.pick(bad);
      why = "malformed";
    }
    }
    good = false;
    j = t;
  }
  c.note_f([&] { return vp::show(j) + " " + why; });
  Desc g{"x", "y", {{"old", "z"}}};
  std::string err;
  bool ok = json2forager(j, &g.name, &g.tag, &g.params, &err);
  c.check_f(ok == good, [&] { return good ? "refused: " + vp::show(j) : "accepted with " + why + ": " + vp::show(j); });
  c.check(ok || err.size(), "refused without an error");
  if (ok) same(c, d, g.name, g.tag, g.params, "read");
  c.nontrivial(!good || members.size() > 2);
}
// Anything at all.
void anything(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> bits = {"{", "}", "\"name\"", "\"tag\"", "\"parameters\"", ":", ",", "\"a\"", "\"", "\\", "u00", "41", "[", "]", "1", "null", "tru", "e", "-", ".", " ", "\n"};
  std::string j;
  for (size_t n = s.len(30); n--;) j += s.chance(1, 12) ? std::string(1, (char)s.below(256)) : s.pick(bits);
  c.note_f([&] { return vp::show(j); });
  Desc g;
  std::string err;
  bool ok = json2forager(j, &g.name, &g.tag, &g.params, &err);
  c.check(ok || err.size(), "refused without an error");
  if (ok) {
    Desc h;
    c.check(json2forager(forager2json(g.name, g.tag, g.params), &h.name, &h.tag, &h.params, &err), "what was read is refused once written");
    same(c, g, h.name, h.tag, h.params, "written and read");
  }
  c.nontrivial(j.size() > 10);
}

const std::vector<std::string> &words() {
  static const std::vector<std::string> v = {"cat", "cats", "dog", "running", "ran", "Relational", "the", "x1", "a"};
  return v;
}
struct World {
  std::shared_ptr<Warren> w;
  std::string dir;
  List docs;
  std::vector<std::string> text;
};
void grow(vp::Src &s, vp::Ctx &c, World &x, size_t most) {
  std::string err;
  c.check_f(x.w->transaction(&err), [&] { return "transaction: " + err; });
  size_t n = 1 + s.below(most);
  for (size_t i = 0; i < n; i++) {
    std::string t;
    for (size_t k = 1 + s.len(8); k--;) t += s.pick(words()) + (s.chance(1, 6) ? ", " : " ");
    addr p, q;
    c.check_f(x.w->appender()->append(t, &p, &q, &err), [&] { return "append: " + err; });
    c.check_f(x.w->annotator()->annotate(x.w->featurizer()->featurize("doc:"), p, q, &err), [&] { return "annotate: " + err; });
    x.text.push_back(t);
  }
  c.check_f(x.w->ready(&err), [&] { return "ready: " + err; });
  x.w->commit();
  x.w->start();
  x.docs = wd::annotations(x.w, "doc:");
  x.w->end();
  c.check(x.docs.size() == x.text.size(), "harness: documents");
}
addr feature(std::shared_ptr<Warren> w, const std::string &label, const std::string &what, const std::string &term) {
  auto f = TaggingFeaturizer::make(w->featurizer(), label + what);
  return f->featurize(term);
}
struct Job {
  std::string name, tag, gcl, tokenizer, stemmer;
  Params params;
};
Job job(vp::Src &s, size_t i) {
  Job j;
  j.name = s.pick(std::vector<std::string>{"tf-idf", "", "null"});
  static const std::vector<std::string> tags = {"", "one", "two:", "a b", "\xC3\xA9", "\"", "one:x"};
  j.tag = s.pick(tags);
  if (i && j.tag != "") j.tag += std::to_string(i);
  else if (i) j.tag = "n" + std::to_string(i);
  j.gcl = "doc:";
  j.stemmer = s.pick(std::vector<std::string>{"porter", "null", ""});
  j.tokenizer = s.pick(std::vector<std::string>{"ascii", "utf8"});
  if (j.stemmer != "porter" || s.coin()) j.params["stemmer"] = j.stemmer;
  if (j.tokenizer != "ascii" || s.coin()) j.params["tokenizer"] = j.tokenizer;
  if (s.coin()) j.params["container"] = "doc:";
  if (s.coin()) j.params["id"] = "doc:";
  for (size_t n = s.len(3); n--;) { std::string k = "p" + text(s, false); j.params[k] = text(s, s.coin()); }
  return j;
}
std::string kind(const Job &j) { return j.name == "" ? "tf-idf" : j.name; }
std::string label(const Job &j) { return kind(j) + ":" + (j.tag == "" ? "" : j.tag + ":"); }
// What foraging the documents in [from, to) should have stored, seen by a started reader.
void stored(vp::Ctx &c, World &x, const Job &j, const std::vector<size_t> &which, const std::string &where) {
  auto tok = Tokenizer::make(j.tokenizer, "");
  auto stem = Stemmer::make(j.stemmer, "");
  std::map<std::string, List> tf;
  addr length = 0;
  for (auto i : which) {
    std::map<std::string, addr> n;
    for (auto &t : tok->split(x.text[i])) n[stem->stem(t)]++;
    for (auto &e : n) tf[e.first].push_back({x.docs[i].p, x.docs[i].p, addr2fval(e.second)});
    length += x.docs[i].q - x.docs[i].p + 1;
  }
  tf["never"];
  bool null = j.name == "null";
  auto sum = [&](addr f) {
    addr n = 0;
    for (auto &e : wd::annotations(x.w, f)) n += fval2addr(e.v);
    return n;
  };
  for (auto &e : tf) {
    List want = null ? List() : e.second, got = wd::annotations(x.w, feature(x.w, label(j), "tf", e.first));
    std::sort(want.begin(), want.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
    bool eq = got.size() == want.size();
    for (size_t i = 0; eq && i < got.size(); i++) eq = got[i].p == want[i].p && got[i].q == want[i].q && fval2addr(got[i].v) == fval2addr(want[i].v);
    c.check_f(eq, [&] { return vp::cat(where, ": occurrences of ", vp::show(e.first), ": ", got.size(), " documents, expected ", want.size(), " or other places or counts"); });
    addr df = sum(feature(x.w, label(j), "df", e.first));
    c.check_f(df == (addr)want.size(), [&] { return vp::cat(where, ": ", vp::show(e.first), " in ", df, " documents, expected ", want.size()); });
  }
  addr items = sum(feature(x.w, label(j), "total", "items")), total = sum(feature(x.w, label(j), "total", "length"));
  c.check_f(items == (null ? 0 : (addr)which.size()) && total == (null ? 0 : length), [&] { return vp::cat(where, ": ", items, " items of length ", total, ", expected ", which.size(), " of ", length); });
  std::string err;
  auto st = TfIdfStats::make(j.tag, x.w, &err);
  if (null || which.empty()) {
    c.check(st == nullptr && err.size(), where + ": statistics where there are none");
    return;
  }
  c.check_f(st != nullptr, [&] { return where + ": statistics not found: " + err; });
  fval avgl = (fval)length / (fval)which.size();
  c.check_f(std::fabs(st->avgl() - avgl) < 1e-9, [&] { return vp::cat(where, ": average length ", st->avgl(), ", expected ", avgl); });
  for (auto &e : tf) {
    fval df = (fval)e.second.size(), n = (fval)which.size();
    fval idf = df == 0 ? 0 : std::max(0.0, std::log(n / df)), rsj = df == 0 ? 0 : std::max(0.0, std::log((n - df + 0.5) / (df + 0.5)));
    c.check_f(std::fabs(st->idf(e.first) - idf) < 1e-9 && std::fabs(st->rsj(e.first) - rsj) < 1e-9, [&] { return vp::cat(where, ": weights of ", vp::show(e.first), " are ", st->idf(e.first), " and ", st->rsj(e.first), ", expected ", idf, " and ", rsj); });
  }
}
void descriptions(vp::Ctx &c, World &x, const Job &j, const std::vector<Params> &want, const std::string &where) {
  List at = wd::annotations(x.w, "@" + label(j)), all = wd::annotations(x.w, "@");
  c.check_f(at.size() == want.size(), [&] { return vp::cat(where, ": ", at.size(), " descriptions under @", vp::show(label(j)), ", expected ", want.size()); });
  for (size_t i = 0; i < at.size(); i++) {
    bool among = false;
    for (auto &e : all) among = among || (e.p == at[i].p && e.q == at[i].q);
    c.check(among, where + ": description missing under @");
    Desc g;
    std::string err, t = x.w->txt()->translate(at[i].p, at[i].q);
    c.check_f(json2forager(t, &g.name, &g.tag, &g.params, &err), [&] { return where + ": description is " + vp::show(t) + ": " + err; });
    same(c, {kind(j), j.tag, want[i]}, g.name, g.tag, g.params, where);
  }
}
// Foraging everything, or batches of it, by ranges or by lists, or by hand.
void forages(vp::Src &s, vp::Ctx &c) {
  World x;
  std::string err;
  bool memory = s.coin();
  x.dir = c.dir() + "/m";
  x.w = memory ? std::static_pointer_cast<Warren>(wd::memory(c)) : fl::meadow(c, x.dir);
  size_t items = 0, known = 0;
  std::vector<Job> jobs;
  std::vector<std::vector<Params>> labels;
  std::vector<std::vector<size_t>> done;
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    if (s.chance(3, 4)) grow(s, c, x, 5);
    size_t n = x.docs.size();
    size_t jn = 1 + s.below(2);
    for (size_t k = 0; k < jn; k++) {
      if (jobs.empty() || s.chance(1, 3)) {
        jobs.push_back(job(s, jobs.size()));
        labels.push_back({});
        done.push_back({});
      }
      size_t ji = s.below(jobs.size());
      Job &j = jobs[ji];
      // documents not yet seen by this one, in order, some of them for later
      size_t from = done[ji].size() ? done[ji].back() + 1 : 0;
      while (from < n && (k + 1 == jn || s.coin())) {
        size_t to = from + 1 + s.below(n - from);
        if (s.chance(1, 3)) to = n;
        Params want = j.params;
        err = "";
        bool ok = true;
        size_t way = s.below(3);
        c.note_f([&] { return vp::cat("forager ", vp::show(j.name), " ", vp::show(j.tag), " documents ", from, " to ", to, " of ", n, way == 0 ? " by query" : way == 1 ? " by list" : " by hand"); });
        std::vector<std::pair<addr, addr>> iv;
        for (size_t i = from; i < to; i++) iv.push_back({x.docs[i].p, x.docs[i].q});
        want["start"] = std::to_string(iv[0].first);
        want["end"] = std::to_string(iv.back().second);
        want["gcl"] = j.gcl;
        if (way == 0) {
          bool whole = from == 0 && to == n && s.coin();
          addr a = from == 0 && s.coin() ? minfinity : s.coin() || from == 0 ? x.docs[from].p : x.docs[from - 1].p + 1;
          addr b = to == n && s.coin() ? maxfinity : to < n && s.coin() ? x.docs[to].q - 1 : x.docs[to - 1].q;
          ok = whole ? forage(x.w, j.gcl, j.name, j.tag, j.params, &err) : forage(x.w, j.gcl, a, b, j.name, j.tag, j.params, &err, s.below(3));
        } else if (way == 1) {
          Params p = j.params;
          p["gcl"] = j.gcl;
          ok = forage(x.w, iv, j.name, j.tag, p, &err, s.below(3));
        } else { // as the others do it
          auto w = x.w->clone(&err);
          c.check(w != nullptr, "clone: " + err);
          w->start();
          auto f = Forager::make(w, j.name, j.tag, want, &err);
          c.check_f(f != nullptr, [&] { return "forager: " + err; });
          if (s.chance(1, 3)) { // nothing at all first
            c.check_f(f->transaction(&err), [&] { return "transaction: " + err; });
            c.check_f(f->ready(&err), [&] { return "ready: " + err; });
            if (s.coin()) f->commit(); else f->abort();
          }
          auto g = Forager::make(w, j.name, j.tag, want, &err);
          c.check_f(g->transaction(&err), [&] { return "transaction: " + err; });
          c.check_f(g->label(&err), [&] { return "label: " + err; });
          if (s.coin()) {
            c.check_f(g->forage(iv, 0, iv.size(), &err), [&] { return "forage: " + err; });
          } else if (s.coin()) {
            for (auto &i : iv) c.check_f(g->forage(i.first, i.second, &err), [&] { return "forage: " + err; });
          } else {
            std::shared_ptr<Hopper> h = w->hopper_from_gcl(j.gcl, &err);
            c.check_f(g->forage(h, iv[0].first, iv.back().second, &err), [&] { return "forage: " + err; });
          }
          c.check_f(g->ready(&err), [&] { return "ready: " + err; });
          g->commit();
          w->end();
        }
        c.check_f(ok, [&] { return "forage: " + err; });
        labels[ji].push_back(want);
        for (size_t i = from; i < to; i++) done[ji].push_back(i);
        items += to - from;
        from = to;
      }
      if (s.chance(1, 3)) { // refused, and nothing of it is there
        known++;
        Params p = j.params;
        std::string name = j.name == "null" ? "tf-idf" : j.name, tag = "bad" + std::to_string(known), gcl = j.gcl;
        size_t why = s.below(4);
        if (why == 0) p["stemmer"] = "x" + text(s, false);
        else if (why == 1) p["tokenizer"] = "x" + text(s, false);
        else if (why == 2) name = "x" + text(s, false);
        else gcl = s.pick(std::vector<std::string>{"(", "(^ a", "\"a", ")", "(>> a)"});
        if (why == 3 || n > 0) {
          c.note(vp::cat("refused ", why));
          err = "";
          c.check_f(!forage(x.w, gcl, name, tag, p, &err), [&] { return vp::cat("accepted what no forager accepts (", why, ")"); });
          c.check(err.size(), "refused without an error");
        }
        x.w->start();
        c.check(wd::annotations(x.w, "@" + name + ":" + tag + ":").empty(), "a refused forager is described");
        x.w->end();
      }
    }
    if (!memory && s.chance(1, 3)) x.w = fl::reopen(c, x.dir);
    x.w->start();
    size_t total = 0;
    for (size_t i = 0; i < jobs.size(); i++) {
      stored(c, x, jobs[i], done[i], vp::cat("forager ", vp::show(jobs[i].name), " ", vp::show(jobs[i].tag)));
      descriptions(c, x, jobs[i], labels[i], vp::cat("forager ", vp::show(jobs[i].name), " ", vp::show(jobs[i].tag)));
      total += labels[i].size();
    }
    c.check_f(wd::annotations(x.w, "@").size() == total, [&] { return vp::cat(wd::annotations(x.w, "@").size(), " descriptions in all, expected ", total); });
    x.w->end();
  }
  c.nontrivial(items > 2);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C29";
  sp.level = "exploration";
  sp.rule = "Random descriptions (any bytes in names, tags and parameters) written and read back, and parsed by another JSON parser; other spellings of them (order, white space, escapes, further members) read; texts cut short, extended, or malformed in other ways refused; and histories of growing an index and foraging it whole or in batches by query, by list or by hand, with several foragers, with every stored description and every count compared with direct counting, and refused parameters in between. Non-trivial: more than two members (or characters), or more than two documents foraged.";
  sp.assumptions = {"escapes of characters beyond U+007F are not written", "each document is foraged once by one forager"};
  sp.subs = {{"round_trip", 300000, 5000000, round_trip}, {"spelled", 300000, 5000000, spelled}, {"anything", 300000, 5000000, anything}, {"forages", 4000, 60000, forages, 60, false, true}};
  return vp::run(argc, argv, sp);
}
