// Reference model of a static index: a flat text and lists of annotations.
#ifndef VERIF_HARNESS_SM_H_
#define VERIF_HARNESS_SM_H_
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "ref.h"
#include "src/cottontail.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
namespace sm {
using namespace cottontail;
using ref::List;
struct Ann { std::string tag; addr feature, p, q; fval v; bool by_name; };
struct Model {
  std::shared_ptr<Featurizer> featurizer;
  std::shared_ptr<Tokenizer> tokenizer;
  bool xml = false;
  std::string raw;
  std::vector<size_t> start;
  std::map<addr, List> lists; // as given, in order
  bool open_markup = false;   // a text ended inside what may be markup
  addr tokens() const { return (addr)start.size(); }
  void annotate(addr f, addr p, addr q, fval v) {
    if (f != null_feature && p >= 0 && p <= q) lists[f].push_back({p, q, v});
  }
  // What appending this text reports.
  void append(const std::string &text, addr *p, addr *q) {
    *p = tokens() + 1;
    *q = tokens();
    if (text.empty()) return;
    std::string t = text;
    if (t.back() != ' ' && t.back() != '\n' && t.back() != '\t') t += '\n';
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    auto toks = tokenizer->tokenize(featurizer, b.data(), t.size());
    if (toks.size()) { *p = tokens(); *q = *p + (addr)toks.size() - 1; }
    for (auto &k : toks) {
      annotate(k.feature, tokens(), tokens(), 0.0);
      start.push_back(raw.size() + k.offset);
    }
    raw += t;
  }
  std::string text(addr p, addr q) const {
    if (p < 0) p = 0;
    if (p > q || p >= tokens()) return "";
    size_t e = q < tokens() - 1 ? start[q + 1] : raw.size();
    return raw.substr(start[p], e - start[p]);
  }
  bool given(addr f, addr p, addr q) const {
    auto i = lists.find(f);
    if (i != lists.end()) for (auto &a : i->second) if (a.p == p && a.q == q) return true;
    return false;
  }
};
inline std::shared_ptr<Tokenizer> gen_tokenizer(vp::Src &s, Model *m, std::string *name, std::string *recipe) {
  switch (s.below(4)) {
  case 0: *name = "ascii"; *recipe = ""; break;
  case 1: *name = "ascii"; *recipe = "noxml"; break;
  case 2: *name = "ascii"; *recipe = "xml"; break;
  default: *name = "utf8"; *recipe = "";
  }
  m->xml = *recipe == "xml";
  return m->tokenizer = Tokenizer::make(*name, *recipe);
}
inline std::string gen_text(vp::Src &s, const Model &m, bool big) {
  static const std::vector<std::string> w = {"a", "cat", "Dog", "x1", "zebra", "thereafter", "9", "the", "A", "Stra\xc3\x9f""e", "\xe6\xbc\xa2\xe5\xad\x97", "\xd0\x96", "bb"};
  static const std::vector<std::string> mk = {"<b>", "</b>", "<doc id=\"3\">", "</doc>", "&amp;", "<p >", "<_x.y-z>", "&lt;", "<>", "& "};
  static const std::vector<std::string> sep = {" ", "\n", "\t", ", ", ". ", "-", "!?\n", "  "};
  std::string t;
  size_t n = big ? 600 + s.below(2500) : s.len(20);
  bool fixed = n > 100;
  uint64_t seed = fixed ? s.raw() : 0;
  uint64_t z = 0;
  auto draw = [&](uint64_t k) { return fixed ? vp::mix(seed, z++) % k : s.below(k); };
  if (s.chance(1, 8)) t += s.pick(sep);
  for (size_t i = 0; i < n; i++) {
    uint64_t k = draw(16);
    if (k == 15) t += mk[draw(mk.size())];
    else if (k == 14) t += fixed ? "" : s.chance(1, 6) ? std::string("\0", 1) : s.chance(1, 6) ? "\xff" : s.chance(1, 6) ? "\xe6\xbc" : "--";
    else t += w[draw(w.size())];
    if (i + 1 < n || s.coin()) t += sep[draw(sep.size())];
  }
  return t;
}
// Text that brings the number of tokens to around a multiple of the block size.
inline std::string fill(vp::Src &s, const Model &m) {
  addr n = 1024 - m.tokens() % 1024 + (addr)s.below(4) - 1;
  std::string t;
  for (addr i = 0; i < n; i++) t += "a ";
  return t;
}
// Would markup that this text leaves open be closed by what follows?
inline bool leaves_markup_open(const std::string &t) {
  if (t.empty() || (t.back() != ' ' && t.back() != '\t')) return false;
  size_t n = t.rfind('\n');
  std::string last = n == std::string::npos ? t : t.substr(n + 1);
  size_t lt = last.rfind('<'), amp = last.rfind('&');
  if (lt != std::string::npos && last.find('>', lt) == std::string::npos) return true;
  if (amp != std::string::npos && last.find_first_of(" ;", amp) == std::string::npos) return true;
  return false;
}
inline std::vector<Ann> gen_annotations(vp::Src &s, const Model &m, size_t max) {
  std::vector<Ann> out;
  size_t n = s.len(max);
  for (size_t i = 0; i < n; i++) {
    Ann a;
    a.by_name = s.coin();
    a.tag = s.chance(1, 8) ? "cat" : "t" + std::to_string(s.below(5)) + ":";
    a.feature = m.featurizer->featurize(a.tag);
    if (!a.by_name && s.chance(1, 10)) { a.feature = s.coin() ? (addr)s.raw() : (addr)s.below(5) - 2; if (a.feature == null_feature) a.feature = 3; }
    addr top = m.tokens() + (s.chance(1, 6) ? 1000000 : 3);
    a.p = (addr)s.below(top);
    a.q = a.p + (s.coin() ? 0 : (addr)s.mag(s.coin() ? 6 : 3000));
    a.v = s.chance(1, 2) ? 0.0 : ref::gen_v(s);
    if (a.v != a.v) a.v = 1.5;
    if (s.chance(1, 30)) a.p = -1 - (addr)s.below(3);
    if (s.chance(1, 30)) a.q = a.p - 1;
    if (s.chance(1, 40) && !a.by_name) a.feature = null_feature;
    bool dup = (a.tag == "cat" && a.p >= m.tokens() && a.p == a.q) || m.given(a.feature, a.p, a.q);
    for (auto &b : out) dup = dup || (b.feature == a.feature && b.p == a.p && b.q == a.q);
    if (!dup) out.push_back(a);
  }
  return out;
}
inline void compare(vp::Src &s, vp::Ctx &c, std::shared_ptr<Warren> w, const Model &m, size_t effort, const std::string &where) {
  size_t distinct = 0;
  for (auto &l : m.lists) {
    List want = ref::reduce(l.second);
    if (want.size()) distinct++;
    auto h = w->idx()->hopper(l.first);
    c.check(h != nullptr, where + ": no cursor");
    if (s.coin()) { addr n = w->idx()->count(l.first); c.check_f(n == (addr)want.size(), [&] { return vp::cat(where, ": feature ", l.first, " counted ", n, " times, has ", want.size()); }); }
    List got = ref::enumerate(h.get());
    c.check_f(ref::equal(got, want), [&] { return vp::cat(where, ": feature ", l.first, ": ", ref::diff(got, want)); });
    addr n = w->idx()->count(l.first);
    c.check_f(n == (addr)want.size(), [&] { return vp::cat(where, ": feature ", l.first, " counted ", n, " times, has ", want.size()); });
    if (effort && s.chance(1, 3)) {
      h = w->idx()->hopper(l.first);
      for (size_t i = 1 + s.below(effort); i--;) ref::check_probe(c, h.get(), want, s.below(6), ref::gen_k(s, want, -2, m.tokens() + 5), true, where);
    }
  }
  c.check_f(w->idx()->vocab() == (addr)distinct, [&] { return vp::cat(where, ": vocabulary of ", w->idx()->vocab(), " features, expected ", distinct); });
  for (auto f : {(addr)12345, m.featurizer->featurize("never"), (addr)-99}) if (!m.lists.count(f)) {
    auto h = w->idx()->hopper(f);
    c.check(h != nullptr && ref::enumerate(h.get()).empty() && w->idx()->count(f) == 0, where + ": a feature never given has annotations");
  }
  c.check_f(w->txt()->tokens() == m.tokens(), [&] { return vp::cat(where, ": ", w->txt()->tokens(), " tokens, expected ", m.tokens()); });
  addr p = -7, q = -7;
  bool some = w->txt()->range(&p, &q);
  c.check_f(some == (m.tokens() > 0) && (!some || (p == 0 && q == m.tokens() - 1)), [&] { return vp::cat(where, ": range of text (", p, ",", q, ")"); });
  auto text = [&](addr a, addr b) {
    std::string t = w->txt()->translate(a, b), u = m.text(a, b);
    c.check_f(t == u, [&] { return vp::cat(where, ": text of (", a, ",", b, ") is ", vp::show(t, 200), " (", t.size(), " bytes), expected ", vp::show(u, 200), " (", u.size(), " bytes)"); });
  };
  addr top = m.tokens();
  addr at = 0;
  for (size_t i = 0; i < 3 + effort * 2; i++) {
    addr a, b;
    switch (s.below(5)) {
    case 0: a = at; b = a + (addr)s.mag(top + 2); break; // go on from there
    case 1: a = (addr)s.below(top + 3) - 1; b = a; break;
    case 2: a = 1024 * (addr)s.below(top / 1024 + 1) + (addr)s.below(3) - 1; b = a + (addr)s.below(4); break;
    default: a = (addr)s.below(top + 3) - 1; b = s.chance(1, 8) ? a - 1 : a + (addr)s.mag(top + 2);
    }
    if (s.chance(1, 20)) a = s.coin() ? minfinity : -5;
    if (s.chance(1, 20)) b = s.coin() ? maxfinity : maxfinity - 1;
    text(a, b);
    at = b >= 0 && b < top ? b + 1 : 0;
  }
  if (effort) text(0, top + 1);
}
} // namespace sm
#endif
