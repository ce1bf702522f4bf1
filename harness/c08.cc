// C08: feature naming.  Sanitized build.
#include <fstream>
#include <map>
#include <sstream>
#include "src/bigwig.h"
#include "src/featurizer.h"
#include "src/hashing_featurizer.h"
#include "src/json.h"
#include "src/json_featurizer.h"
#include "src/recipe.h"
#include "src/tagging_featurizer.h"
#include "src/vocab_featurizer.h"
#include "src/warren.h"
#include "src/working.h"
#include "vp.h"
using namespace cottontail;

namespace {
// Reference: features are stored in index files, so the mapping is fixed.
uint64_t murmur64a(const std::string &k, uint64_t seed) {
  const uint64_t m = 0xc6a4a7935bd1e995ull;
  uint64_t h = seed ^ (k.size() * m);
  size_t i = 0;
  auto byte = [&](size_t j) { return (uint64_t)(unsigned char)k[j]; };
  for (; i + 8 <= k.size(); i += 8) {
    uint64_t x = 0;
    for (int j = 7; j >= 0; j--) x = x << 8 | byte(i + j);
    x *= m; x ^= x >> 47; x *= m;
    h ^= x; h *= m;
  }
  if (i < k.size()) {
    uint64_t x = 0;
    for (size_t j = k.size(); j-- > i;) x = x << 8 | byte(j);
    h ^= x; h *= m;
  }
  h ^= h >> 47; h *= m; h ^= h >> 47;
  return h;
}
bool literal(const std::string &k, addr *v) {
  if (k.size() < 2 || k[0] != '#') return false;
  unsigned __int128 n = 0;
  for (size_t i = 1; i < k.size(); i++) {
    if (k[i] < '0' || k[i] > '9') return false;
    n = n * 10 + (k[i] - '0');
    if (n > (unsigned __int128)maxfinity) return false;
  }
  *v = (addr)n;
  return true;
}
addr hashing(const std::string &k) {
  addr v;
  if (k.empty()) return 0;
  if (literal(k, &v)) return v;
  if (k.size() < 8) {
    uint64_t x = 0;
    for (size_t j = k.size(); j-- > 0;) x = x << 8 | (unsigned char)k[j];
    return (addr)x;
  }
  addr a = (addr)murmur64a(k, 588503011);
  if (a < 0) a = -a;
  return (addr)((uint64_t)a | (1ull << 56));
}
std::string key(vp::Src &s) {
  switch (s.below(8)) {
  case 0: { static const std::vector<std::string> w = {"", "a", "the", "<doc>", ":", "id:", ":a:b:", "#0", "#1", "#", "##", "#12", "#9223372036854775807", "#9223372036854775808", "#256", "#-5", "#007", open_object_token, close_number_token, "\xEF\xB7\x9A", "\xEF\xB7\xBA", "\xEF\xB7\x8F", "abcdefg", "abcdefgh"}; return s.pick(w); }
  case 1: { std::string o = "#"; size_t n = s.below(21); for (size_t i = 0; i < n; i++) o += (char)('0' + s.below(10)); return o; }
  case 2: { std::string o; size_t n = s.below(9); for (size_t i = 0; i < n; i++) o += (char)s.below(256); return o; }
  case 3: { std::string o; size_t n = 6 + s.below(4); for (size_t i = 0; i < n; i++) o += (char)('a' + s.below(3)); return o; }
  case 4: return std::string("\xEF\xB7") + (char)(0x80 + s.below(0x40));
  default: { std::string o; size_t n = s.len(60); for (size_t i = 0; i < n; i++) o += s.chance(1, 5) ? (char)s.below(256) : "abcdefgh:<>#12"[s.below(14)]; return o; }
  }
}
addr ask(std::shared_ptr<Featurizer> f, const std::string &k) {
  char *p = (char *)malloc(k.size() ? k.size() : 1); // exactly sized
  memcpy(p, k.data(), k.size());
  addr a = f->featurize(p, (addr)k.size());
  free(p);
  return a;
}
// A stack of featurizers, together with what it should compute.
struct Stack {
  std::shared_ptr<Featurizer> f;
  std::vector<std::pair<bool, std::string>> layers; // outermost last; true: tag
  addr expect(std::string k) const {
    for (size_t i = layers.size(); i-- > 0;) {
      if (layers[i].first) k = layers[i].second + ":" + k;
      else if (k.size() == 3 && k.compare(0, 2, "\xEF\xB7") == 0 && (unsigned char)k[2] >= 0x90 && (unsigned char)k[2] <= 0x99) return 0;
    }
    return hashing(k);
  }
};
Stack stack(vp::Src &s, vp::Ctx &c) {
  Stack st;
  std::string err;
  st.f = Featurizer::make(s.coin() ? "hashing" : "", "", &err);
  c.check(st.f != nullptr, "no hashing featurizer: " + err);
  size_t n = s.below(4);
  std::string d = "hashing";
  for (size_t i = 0; i < n; i++) {
    if (s.coin()) {
      static const std::vector<std::string> tags = {"a", "tag", "", "x:y", "with space", "qu'ote", "dou\"ble", "back\\slash", "[", "]", "tf", "\n", "\xC3\xA9"};
      std::string t = s.pick(tags);
      if (s.chance(1, 3)) { t = ""; for (size_t j = 0, m = s.below(6); j < m; j++) t += "ab'\"\\[],: \n"[s.below(11)]; }
      std::map<std::string, std::string> m;
      if (cook(t, &m)) t = "t"; // reads as configuration text itself
      st.f = TaggingFeaturizer::make(st.f, t, &err);
      st.layers.push_back({true, t});
      d = "tagging(" + vp::show(t) + ")." + d;
    } else {
      st.f = JsonFeaturizer::make(st.f);
      st.layers.push_back({false, ""});
      d = "json." + d;
    }
    c.check(st.f != nullptr, "no featurizer: " + err);
  }
  c.note(d);
  return st;
}
void stacks(vp::Src &s, vp::Ctx &c) {
  Stack st = stack(s, c);
  std::string err;
  std::vector<std::shared_ptr<Featurizer>> fs = {st.f};
  // rebuilt from the saved recipe, once and twice
  for (int i = 0; i < 2; i++) {
    std::string n = fs.back()->name(), r = fs.back()->recipe();
    c.check_f(Featurizer::check(n, r, &err), [&] { return "check refuses a saved recipe: " + err + ": " + r; });
    auto g = Featurizer::make(n, r, &err);
    c.check_f(g != nullptr, [&] { return "a featurizer cannot be rebuilt from its recipe: " + err + ": " + r; });
    c.check(g->name() == n, "the rebuilt featurizer has another name");
    fs.push_back(g);
  }
  size_t n = 1 + s.len(30);
  std::map<std::string, addr> seen;
  for (size_t i = 0; i < n; i++) {
    std::string k = key(s);
    addr want = st.expect(k);
    for (size_t j = 0; j < fs.size(); j++) {
      addr got = ask(fs[j], k);
      c.check_f(got == want, [&] { return vp::cat(j ? "rebuilt: " : "", "'", vp::show(k), "' maps to ", got, ", expected ", want); });
      c.check(got >= 0, "negative feature");
      if (k.find('\0') == std::string::npos) c.check(fs[j]->featurize(k) == want, "string form differs");
    }
    if (want) {
      // an empty layered tag and so on may be untranslatable, but what is
      // translated names the same feature of the base
      std::string t = st.f->translate(want);
      c.check_f(hashing(t) == want, [&] { return vp::cat("feature ", want, " of '", vp::show(k), "' translates to '", vp::show(t), "', which is feature ", hashing(t)); });
    }
  }
  c.nontrivial(n > 1);
}
void translation(vp::Src &s, vp::Ctx &c) {
  auto f = HashingFeaturizer::make();
  for (int i = 0; i < 20; i++) {
    addr a;
    switch (s.below(4)) {
    case 0: a = (addr)s.mag((uint64_t)maxfinity); break;
    case 1: a = (addr)s.below(70000); break;
    case 2: a = hashing(key(s)); break;
    default: { uint64_t x = 0; for (int j = 0; j < 8; j++) x = x << 8 | (s.chance(1, 3) ? s.below(256) : (uint64_t)"#0123ab"[s.below(7)]); a = (addr)(x >> (8 * s.below(8)) & (uint64_t)maxfinity); }
    }
    std::string t = f->translate(a);
    c.check_f(f->featurize(t) == a, [&] { return vp::cat("feature ", a, " translates to '", vp::show(t), "', which maps to ", f->featurize(t)); });
  }
  std::string k = key(s);
  if (k.size() && k.size() < 8 && k.find('\0') == std::string::npos && !literal(k, new (alloca(sizeof(addr))) addr)) {
    c.check_f(f->translate(f->featurize(k)) == k, [&] { return "'" + vp::show(k) + "' translates back to '" + vp::show(f->translate(f->featurize(k))) + "'"; });
  }
  c.nontrivial();
}
void distinct(vp::Src &s, vp::Ctx &c) {
  auto f = HashingFeaturizer::make();
  std::map<addr, std::string> seen;
  size_t n = 2 + s.len(60);
  for (size_t i = 0; i < n; i++) {
    std::string k = key(s);
    addr v;
    if (k.empty() || k.find('\0') != std::string::npos || literal(k, &v)) continue;
    addr a = f->featurize(k);
    auto it = seen.find(a);
    c.check_f(it == seen.end() || it->second == k, [&] { return "'" + vp::show(k) + "' and '" + vp::show(it->second) + "' share a feature"; });
    c.check(a != null_feature, "a string maps to the null feature: " + vp::show(k));
    seen[a] = k;
  }
  c.nontrivial(seen.size() > 2);
}
void vocab(vp::Src &s, vp::Ctx &c) {
  std::string err;
  auto w = Working::mkdir(c.dir() + "/v", &err);
  c.check(w != nullptr, "no working directory: " + err);
  std::map<std::string, size_t> counts;
  {
    static const std::vector<std::string> recipes = {"", "hashing", "[name:'hashing',recipe:'']", "[name:'tagging',recipe:[name:'hashing',tag:'t']]"};
    std::string r = s.pick(recipes);
    c.note("recipe " + r);
    c.check(VocabFeaturizer::check(r, &err), "check: " + err);
    auto f = VocabFeaturizer::make(r, w, &err);
    c.check(f != nullptr, "make: " + err);
    bool tagged = r.find("tag:") != std::string::npos;
    size_t n = s.len(40);
    for (size_t i = 0; i < n; i++) {
      std::string k = key(s);
      k.erase(std::remove_if(k.begin(), k.end(), [](char x) { return x == 0 || x == '\n'; }), k.end());
      counts[k]++;
      c.check(f->featurize(k) == hashing(tagged ? "t:" + k : k), "vocabulary featurizer changes a feature");
    }
    auto g = Featurizer::make(f->name(), f->recipe(), &err, w);
    c.check(g != nullptr, "rebuild: " + err);
    c.check(g->featurize("probe") == hashing(tagged ? "t:probe" : "probe"), "rebuilt featurizer differs");
    f = nullptr;
    std::ifstream in(w->make_name("vocabulary"));
    std::string line;
    std::map<std::string, size_t> got;
    while (std::getline(in, line)) {
      size_t a = line.find(' '), b = a == std::string::npos ? a : line.find(' ', a + 1);
      c.check(b != std::string::npos, "vocabulary line " + line);
      std::string k = line.substr(b + 1);
      c.check(std::stoll(line.substr(0, a)) == hashing(tagged ? "t:" + k : k), "vocabulary feature of " + k);
      got[k] = std::stoull(line.substr(a + 1, b - a - 1));
    }
    c.check_f(got == counts, [&] { return vp::cat("vocabulary lists ", got.size(), " terms of ", counts.size(), " or other counts"); });
  }
  c.nontrivial(counts.size() > 1);
}
// Through an index: the featurizer configured is the one found on reopening.
void index_reopen(vp::Src &s, vp::Ctx &c) {
  std::string err;
  Stack st = stack(s, c);
  std::string burrow = c.dir() + "/b";
  {
    auto w = Working::mkdir(burrow, &err);
    auto b = Bigwig::make(w, st.f, Tokenizer::make("utf8", "", &err), nullptr, &err);
    c.check(b != nullptr, "make: " + err);
  }
  auto w = Warren::make(burrow, &err);
  c.check_f(w != nullptr, [&] { return "an index cannot be reopened: " + err; });
  for (int i = 0; i < 8; i++) {
    std::string k = key(s);
    addr got = ask(w->featurizer(), k), want = st.expect(k);
    c.check_f(got == want, [&] { return vp::cat("after reopening '", vp::show(k), "' maps to ", got, ", was ", want); });
  }
  auto cl = w->clone(&err);
  c.check(cl != nullptr && cl->featurizer()->featurize("probe") == st.expect("probe"), "clone's featurizer");
  c.nontrivial(!st.layers.empty());
}
// Recipes that do not describe a featurizer are refused; check and make agree.
void recipes(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> names = {"hashing", "tagging", "json", "vocab", "null", "", "nope", "Hashing", "tagging "};
  static const std::vector<std::string> parts = {"[", "]", "name:'hashing'", "recipe:''", "tag:'x'", ",", "name:\"tagging\"", "recipe:[name:'hashing',tag:'y']", "name:'nope'", " ", "recipe:\"x\"", "'", "\\", "tag:''", "name:'json'", "recipe:[name:'hashing',recipe:'']"};
  std::string n = s.pick(names), r, err;
  if (s.chance(2, 3)) {
    r = "[";
    for (size_t i = 0, m = s.below(4); i < m; i++) r += (i ? "," : "") + s.pick(parts);
    r += "]";
  } else for (size_t i = 0, m = s.below(6); i < m; i++) r += s.pick(parts);
  c.note("name '" + n + "' recipe " + r);
  auto w = Working::mkdir(c.dir() + "/w", &err);
  err = "";
  bool ok = Featurizer::check(n, r, &err);
  c.check(ok || err.size(), "refused without a message by check");
  err = "";
  auto f = Featurizer::make(n, r, &err, w);
  c.check(f || err.size(), "refused without a message by make");
  c.check_f(ok == (f != nullptr), [&] { return vp::cat("check says ", ok, " and make says ", f != nullptr, ": ", err); });
  if (n == "nope" || n == "Hashing" || n == "tagging ") c.check(!f, "an unknown name is accepted");
  c.nontrivial(r.size() > 2);
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C08";
  sp.level = "exploration";
  sp.rule = "Random strings (every byte value, all lengths around the packing limit, numeric literals, structural tokens) through random stacks of hashing, tagging, JSON and vocabulary featurizers against a reference of the fixed mapping, the same after rebuilding from recipes and reopening an index; random features translated back; malformed recipes. Non-trivial: more than one key, a non-empty stack, or a recipe of more than two characters.";
  sp.assumptions = {"tags are not configuration texts themselves (those are stored as equivalent configuration)", "strings that differ only by trailing NUL bytes, and #-literals, may share a feature with another string, as the packing documents", "64-bit hashes of the sampled long strings do not collide"};
  sp.subs = {{"stacks", 200000, 3000000, stacks}, {"translation", 200000, 1000000, translation}, {"distinct", 100000, 600000, distinct}, {"vocab", 6000, 100000, vocab, 60, false, true}, {"index_reopen", 4000, 60000, index_reopen, 60, false, true}, {"recipes", 10000, 300000, recipes, 60, false, true}};
  return vp::run(argc, argv, sp);
}
