// C07: tokenisation, skipping and splitting.  Sanitized build, exact buffers.
#include <map>
#include "src/featurizer.h"
#include "src/tokenizer.h"
#include "unicode_ref.h"
#include "vp.h"
using namespace cottontail;

namespace {
// Distinguishes every term, so that agreement on features is agreement on terms.
class Recorder : public Featurizer {
public:
  std::map<std::string, addr> ids;
  std::vector<std::string> terms;
private:
  std::string name_() final { return "recorder"; }
  std::string recipe_() final { return ""; }
  addr featurize_(const char *key, addr length) final {
    std::string k(key, length);
    auto i = ids.find(k);
    if (i != ids.end()) return i->second;
    terms.push_back(k);
    return ids[k] = (addr)terms.size();
  }
  std::string translate_(addr f) final { return terms.at(f - 1); }
};
struct Tok {
  std::vector<std::string> terms; // what the index holds at this address
  std::string split;              // what a query looks for
  size_t offset, length;
};
struct Block {
  char *p;
  size_t n;
  explicit Block(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Block() { free(p); }
};

// ---- oracle for the ascii tokenizer, one position at a time
bool al(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
bool an(unsigned char c) { return al(c) || (c >= '0' && c <= '9'); }
std::string low(std::string s) {
  for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
  return s;
}
std::vector<Tok> ascii(const std::string &t, bool xml) {
  std::vector<Tok> out;
  for (size_t i = 0; i < t.size();) {
    if (an(t[i])) {
      size_t j = i;
      while (j < t.size() && an(t[j])) j++;
      std::string w = t.substr(i, j - i);
      bool mixed = false;
      for (size_t k = 1; k < w.size(); k++) if (w[k] >= 'A' && w[k] <= 'Z') mixed = true;
      Tok k;
      if (mixed) k.terms.push_back(w);
      k.terms.push_back(low(w));
      k.split = mixed ? w : low(w);
      k.offset = i;
      k.length = j - i;
      out.push_back(k);
      i = j;
    } else if (xml && t[i] == '<') {
      size_t j = i + 1;
      if (j < t.size() && t[j] == '/') j++;
      bool name = j < t.size() && (al(t[j]) || t[j] == '_');
      if (!name) { i++; continue; }
      while (j < t.size() && (an(t[j]) || t[j] == '-' || t[j] == '_' || t[j] == '.')) j++;
      size_t nl = t.find('\n', j), gt = t.find('>', j);
      if (gt == std::string::npos || (nl != std::string::npos && nl < gt)) { i++; continue; }
      Tok k;
      k.terms.push_back(t.substr(i, j - i) + ">");
      k.split = k.terms[0];
      k.offset = i;
      k.length = gt + 1 - i;
      out.push_back(k);
      i = gt + 1;
    } else if (xml && t[i] == '&') {
      size_t j = t.find_first_of(" \n;", i + 1);
      i = j != std::string::npos && t[j] == ';' ? j + 1 : i + 1;
    } else {
      i++;
    }
  }
  return out;
}
// ---- oracle for utf8, on valid text
const std::vector<uint8_t> &actions() {
  static std::vector<uint8_t> a;
  if (a.empty()) for (auto &x : uref::actions) a.insert(a.end(), x.n, x.action);
  return a;
}
const std::map<uint32_t, uint32_t> &folds() {
  static std::map<uint32_t, uint32_t> f;
  if (f.empty()) for (auto &x : uref::folds) f[x.src] = x.dst;
  return f;
}
std::string enc(uint32_t c) {
  std::string o;
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  return o;
}
std::vector<Tok> utf8(const std::vector<uint32_t> &cs) {
  std::vector<Tok> out;
  bool in = false;
  size_t at = 0;
  for (auto c : cs) {
    std::string e = enc(c);
    int a = actions()[c];
    if (a == 3 || a == 4) {
      out.push_back({{e}, e, at, e.size()});
      in = false;
    } else if (a == 0) {
      in = false;
    } else {
      if (!in) out.push_back({{""}, "", at, 0});
      in = true;
      std::string f = a == 2 ? enc(folds().at(c)) : e;
      out.back().terms[0] += f;
      out.back().split += f;
      out.back().length += e.size();
    }
    at += e.size();
  }
  return out;
}

// Runs one tokenizer over the text: structural invariants, skip against
// tokenize, split against what was indexed.  Returns the tokens.
std::vector<Tok> observe(vp::Ctx &c, std::shared_ptr<Tokenizer> t, const std::string &text, vp::Src &s) {
  auto rec = std::make_shared<Recorder>();
  Block b(text), keep(text), str(text);
  auto tokens = t->tokenize(rec, b.p, b.n);
  std::vector<Tok> out;
  size_t end = 0;
  addr last = -1;
  for (auto &k : tokens) {
    c.check_f(k.length > 0 && k.offset + k.length <= text.size(), [&] { return vp::cat("token at offset ", k.offset, " length ", k.length, " in a text of ", text.size()); });
    std::string term = rec->translate(k.feature);
    if (k.address == last) {
      c.check(k.offset == out.back().offset && k.length == out.back().length, "two forms of one token differ in place");
      out.back().terms.push_back(term);
      continue;
    }
    c.check_f(k.address == last + 1, [&] { return vp::cat("address ", k.address, " follows ", last); });
    c.check_f(k.offset >= end, [&] { return vp::cat("token at offset ", k.offset, " starts before ", end); });
    last = k.address;
    end = k.offset + k.length;
    out.push_back({{term}, "", k.offset, k.length});
  }
  addr n = (addr)out.size();
  auto skip = [&](addr k) {
    const char *p = t->skip(keep.p, keep.n, k);
    c.check(p >= keep.p && p <= keep.p + keep.n, vp::cat("skip ", k, " leaves the text"));
    return (size_t)(p - keep.p);
  };
  for (addr k = 0; k < n; k++)
    c.check_f(skip(k) == out[k].offset, [&] { return vp::cat("skip ", k, " lands at ", skip(k), ", token ", k, " starts at ", out[k].offset); });
  if (n) c.check(skip(-1 - (addr)s.below(5)) == out[0].offset, "skip of a negative count");
  c.check_f(skip(n + (addr)s.below(3)) == text.size(), [&] { return vp::cat("skip past the last of ", n, " tokens lands at ", skip(n), " of ", text.size()); });
  if (n) { // skipping in two steps
    addr a = (addr)s.below(n), d = (addr)s.below(n - a);
    size_t o = out[a].offset;
    Block tail(text.substr(o));
    const char *p = t->skip(tail.p, tail.n, d);
    c.check_f((size_t)(p - tail.p) + o == out[a + d].offset, [&] { return vp::cat("skip ", d, " from token ", a, " lands at ", (p - tail.p) + o, ", token ", a + d, " starts at ", out[a + d].offset); });
    std::string whole = text;
    c.check(t->skip(whole, a) == text.substr(o), "skip on strings");
  }
  c.check(memcmp(keep.p, text.data(), keep.n) == 0, "skip changed the text");
  auto terms = t->split(text);
  c.check_f(terms.size() == out.size(), [&] { return vp::cat("split gives ", terms.size(), " terms for ", out.size(), " tokens"); });
  for (size_t i = 0; i < terms.size(); i++) {
    out[i].split = terms[i];
    bool found = false;
    for (auto &x : out[i].terms) found = found || x == terms[i];
    c.check_f(found, [&] { return vp::cat("term ", i, " '", vp::show(terms[i]), "' is not what is indexed: '", vp::show(out[i].terms[0]), "'"); });
  }
  // the string form, and a second run, agree
  auto again = t->tokenize(rec, text);
  c.check(again.size() == tokens.size(), "string and buffer forms differ");
  for (size_t i = 0; i < again.size(); i++)
    c.check(again[i].feature == tokens[i].feature && again[i].address == tokens[i].address && again[i].offset == tokens[i].offset && again[i].length == tokens[i].length, "string and buffer forms differ");
  if (!t->destructive()) c.check(memcmp(b.p, text.data(), b.n) == 0, "a tokenizer that does not claim to be destructive changed its buffer");
  return out;
}
void same(vp::Ctx &c, const std::vector<Tok> &got, const std::vector<Tok> &want) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    auto str = [](const std::vector<Tok> &v, size_t i) {
      if (i >= v.size()) return std::string("nothing");
      std::string o = vp::cat("[", v[i].offset, "+", v[i].length, "]");
      for (auto &t : v[i].terms) o += " '" + vp::show(t) + "'";
      return o + " split '" + vp::show(v[i].split) + "'";
    };
    bool ok = i < got.size() && i < want.size() && got[i].offset == want[i].offset && got[i].length == want[i].length && got[i].terms == want[i].terms && got[i].split == want[i].split;
    c.check_f(ok, [&] { return vp::cat("token ", i, ": got ", str(got, i), ", expected ", str(want, i)); });
  }
}

std::string ascii_text(vp::Src &s) {
  static const std::vector<std::string> bits = {"a", "b", "Z", "Qu", "7", " ", "\n", "<", ">", "/", "&", ";", "_", "-", ".", "\t", "<a>", "</b>", "<x y=\"1\">", "&amp;", "<!", "McX", "\r\n", "U.S.A", "aA", "'s"};
  std::string o;
  size_t n = s.len(40);
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 8)) o += (char)s.below(256);
    else o += s.pick(bits);
  }
  return o;
}
std::shared_ptr<Tokenizer> make(vp::Ctx &c, const std::string &name, const std::string &recipe) {
  std::string err;
  c.check(Tokenizer::check(name, recipe, &err), "check refused: " + err);
  auto t = Tokenizer::make(name, recipe, &err);
  c.check(t != nullptr, "no tokenizer: " + err);
  auto u = Tokenizer::make(t->name(), t->recipe(), &err);
  c.check(u != nullptr && u->recipe() == t->recipe() && u->name() == t->name(), "a tokenizer cannot be rebuilt from its recipe");
  return u;
}
void ascii_model(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> recipes = {"", "xml", "noxml"};
  std::string r = s.pick(recipes), text = ascii_text(s);
  c.note("recipe '" + r + "' text " + vp::show(text));
  auto got = observe(c, make(c, s.coin() ? "ascii" : "", r), text, s);
  same(c, got, ascii(text, r == "xml"));
  if (got.size() > 2) c.nontrivial();
}
uint32_t codepoint(vp::Src &s) {
  switch (s.below(9)) {
  case 0: return "ab Zq9\n.-"[s.below(9)];
  case 1: return 0x20 + (uint32_t)s.below(0x60);
  case 2: return 0x80 + (uint32_t)s.below(0x500);
  case 3: { // something that folds
    auto &x = uref::folds[s.below(sizeof(uref::folds) / sizeof(uref::folds[0]))];
    return s.coin() ? x.src : x.dst;
  }
  case 4: { // a class boundary
    static std::vector<uint32_t> b;
    if (b.empty()) { uint32_t at = 0; for (auto &x : uref::actions) { b.push_back(at); at += (uint32_t)x.n; } }
    uint32_t x = s.pick(b);
    return s.coin() && x ? x - 1 : x;
  }
  case 5: { static const std::vector<uint32_t> e = {0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xFDD0, 0xFDEF, 0xFFFE, 0x1FFFE, 0x1F600, 0x4E00, 0x3042, 0xAC00}; return s.pick(e); }
  case 6: return (uint32_t)s.below(0x110000);
  case 7: return 0x4E00 + (uint32_t)s.below(0x5000);
  default: return (uint32_t)s.below(0x20000);
  }
}
void utf8_model(vp::Src &s, vp::Ctx &c) {
  std::vector<uint32_t> cs;
  size_t n = s.len(40);
  std::string text;
  for (size_t i = 0; i < n; i++) {
    uint32_t x = s.chance(1, 4) && cs.size() ? cs[s.below(cs.size())] : codepoint(s);
    if (x >= 0xD800 && x < 0xE000) x = 'x';
    cs.push_back(x);
    text += enc(x);
  }
  c.note("text " + vp::hex(text));
  auto got = observe(c, make(c, "utf8", ""), text, s);
  same(c, got, utf8(cs));
  if (got.size() > 2) c.nontrivial();
}
// Every code point, alone and beside a letter.
void utf8_sweep(vp::Src &s, vp::Ctx &c) {
  uint32_t base = (uint32_t)s.below(0x110000 / 64) * 64;
  auto t = Tokenizer::make("utf8", "");
  for (uint32_t x = base; x < base + 64; x++) {
    if (x >= 0xD800 && x < 0xE000) continue;
    std::vector<uint32_t> cs = {x, 'a', x, ' ', 'b', x};
    std::string text;
    for (auto y : cs) text += enc(y);
    same(c, observe(c, t, text, s), utf8(cs));
  }
  c.nontrivial();
}
std::string bad_utf8(vp::Src &s) {
  std::string o;
  size_t n = s.len(30);
  for (size_t i = 0; i < n; i++) switch (s.below(6)) {
    case 0: o += "ab Z\n"[s.below(5)]; break;
    case 1: o += enc(codepoint(s)); break;
    case 2: { std::string e = enc(0x80 + (uint32_t)s.below(0x10FF80)); o += e.substr(0, 1 + s.below(e.size())); break; } // cut short
    case 3: o += (char)(0x80 + s.below(0x80)); break;
    case 4: o += (char)(0xF0 + s.below(16)); break;
    default: o += (char)s.below(256);
  }
  return o;
}
// Arbitrary bytes: nothing is said about what a malformed sequence means, only
// that everything agrees, and that text after a separator is unaffected by it.
void malformed(vp::Src &s, vp::Ctx &c) {
  std::string text = bad_utf8(s);
  c.note("text " + vp::hex(text));
  auto t = make(c, "utf8", "");
  auto a = observe(c, t, text, s);
  std::string rest;
  if (s.coin()) for (size_t i = 0, n = 1 + s.below(6); i < n; i++) rest += "abcZ 9"[s.below(6)];
  else rest = bad_utf8(s);
  const char sep = " \t\n"[s.below(3)];
  c.note("followed by " + vp::hex(std::string(1, sep) + rest));
  auto both = observe(c, t, text + sep + rest, s);
  auto want = a;
  for (auto k : observe(c, t, rest, s)) { k.offset += text.size() + 1; want.push_back(k); }
  same(c, both, want);
  c.nontrivial(a.size() > 1);
}
// Case variants of one text are indexed and looked up alike.
void folding(vp::Src &s, vp::Ctx &c) {
  static std::map<uint32_t, std::vector<uint32_t>> variants;
  if (variants.empty()) for (auto &f : uref::folds) if (actions()[f.src] == 2) variants[f.dst].push_back(f.src);
  std::vector<uint32_t> a, b;
  std::string ta, tb;
  size_t n = 1 + s.len(20);
  for (size_t i = 0; i < n; i++) {
    auto v = variants.begin();
    if (s.coin()) v = variants.lower_bound('a' + (uint32_t)s.below(26));
    else std::advance(v, s.below(variants.size()));
    auto one = [&] { return s.coin() ? v->first : v->second[s.below(v->second.size())]; };
    uint32_t x = s.chance(1, 5) ? ' ' : 0;
    a.push_back(x ? x : one());
    b.push_back(x ? x : one());
    ta += enc(a.back());
    tb += enc(b.back());
  }
  c.note("texts " + vp::show(ta) + " and " + vp::show(tb));
  auto t = Tokenizer::make("utf8", "");
  auto x = observe(c, t, ta, s), y = observe(c, t, tb, s);
  c.check(x.size() == y.size(), "case variants tokenise into different numbers of tokens");
  for (size_t i = 0; i < x.size(); i++) c.check_f(x[i].terms == y[i].terms && x[i].split == y[i].split, [&] { return vp::cat("token ", i, ": '", vp::show(x[i].split), "' and '", vp::show(y[i].split), "' are case variants"); });
  if (ta != tb) c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C07";
  sp.level = "exploration";
  sp.rule = "Random texts in exactly sized buffers under the address sanitizer: ASCII and markup texts against a reference tokenizer, valid UTF-8 (all code point classes, swept over every code point) against a reference built from a frozen copy of the Unicode tables, malformed UTF-8 against the agreement of tokenize, skip and split and the independence of what follows a separator, and case variants against each other. Non-trivial: more than two tokens (folding: the variants differ; malformed: more than one token).";
  sp.assumptions = {"the frozen tables describe the intended character classes"};
  sp.subs = {{"ascii_model", 400000, 3000000, ascii_model}, {"utf8_model", 200000, 2000000, utf8_model}, {"utf8_sweep", 12000, 150000, utf8_sweep}, {"malformed", 250000, 2000000, malformed}, {"folding", 60000, 500000, folding}};
  return vp::run(argc, argv, sp);
}
