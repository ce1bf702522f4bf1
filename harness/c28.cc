// C28: the stemmer against an independent statement of the Porter algorithm.
#include <thread>
#include "src/core.h"
#include "src/stemmer.h"
#include "vp.h"
using namespace cottontail;
namespace porter {
// M.F. Porter, An algorithm for suffix stripping, 1980, with the author's two
// later departures (bli, logi), which the code declares.
bool consonant(const std::string &w, size_t i) {
  if (std::string("aeiou").find(w[i]) != std::string::npos) return false;
  if (w[i] == 'y') return i == 0 || !consonant(w, i - 1);
  return true;
}
int measure(const std::string &w) { // vowel to consonant changes
  int m = 0;
  for (size_t i = 1; i < w.size(); i++) if (!consonant(w, i - 1) && consonant(w, i)) m++;
  return m;
}
bool has_vowel(const std::string &w) { for (size_t i = 0; i < w.size(); i++) if (!consonant(w, i)) return true; return false; }
bool doubled(const std::string &w) { size_t n = w.size(); return n > 1 && w[n - 1] == w[n - 2] && consonant(w, n - 1); }
bool star_o(const std::string &w) { size_t n = w.size(); return n > 2 && consonant(w, n - 3) && !consonant(w, n - 2) && consonant(w, n - 1) && std::string("wxy").find(w[n - 1]) == std::string::npos; }
bool ends(const std::string &w, const std::string &s, std::string *stem) {
  if (w.size() < s.size() || w.compare(w.size() - s.size(), s.size(), s)) return false;
  *stem = w.substr(0, w.size() - s.size());
  return true;
}
using Rules = std::vector<std::pair<std::string, std::string>>;
std::string replace(const std::string &w, const Rules &rules, int over) { // the longest suffix decides
  const std::pair<std::string, std::string> *best = nullptr;
  std::string t;
  for (auto &r : rules) if (ends(w, r.first, &t) && (!best || r.first.size() > best->first.size())) best = &r;
  if (!best || !ends(w, best->first, &t) || measure(t) <= over) return w;
  return t + best->second;
}
std::string stem(std::string w) {
  std::string t;
  // 1a
  if (ends(w, "sses", &t)) w = t + "ss";
  else if (ends(w, "ies", &t)) w = t + "i";
  else if (ends(w, "ss", &t)) ;
  else if (ends(w, "s", &t)) w = t;
  // 1b
  if (ends(w, "eed", &t)) { if (measure(t) > 0) w = t + "ee"; }
  else if ((ends(w, "ed", &t) || ends(w, "ing", &t)) && has_vowel(t)) {
    w = t;
    if (ends(w, "at", &t) || ends(w, "bl", &t) || ends(w, "iz", &t)) w += "e";
    else if (doubled(w) && std::string("lsz").find(w.back()) == std::string::npos) w.pop_back();
    else if (!doubled(w) && measure(w) == 1 && star_o(w)) w += "e";
  }
  // 1c
  if (ends(w, "y", &t) && has_vowel(t)) w = t + "i";
  static const Rules two = {{"ational", "ate"}, {"tional", "tion"}, {"enci", "ence"}, {"anci", "ance"}, {"izer", "ize"}, {"bli", "ble"}, {"alli", "al"}, {"entli", "ent"}, {"eli", "e"}, {"ousli", "ous"}, {"ization", "ize"}, {"ation", "ate"}, {"ator", "ate"}, {"alism", "al"}, {"iveness", "ive"}, {"fulness", "ful"}, {"ousness", "ous"}, {"aliti", "al"}, {"iviti", "ive"}, {"biliti", "ble"}, {"logi", "log"}};
  static const Rules three = {{"icate", "ic"}, {"ative", ""}, {"alize", "al"}, {"iciti", "ic"}, {"ical", "ic"}, {"ful", ""}, {"ness", ""}};
  w = replace(w, two, 0);
  w = replace(w, three, 0);
  // 4
  static const std::vector<std::string> four = {"al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism", "ate", "iti", "ous", "ive", "ize"};
  Rules r4;
  for (auto &x : four) r4.push_back({x, ""});
  if (ends(w, "ion", &t)) { if (t.size() && (t.back() == 's' || t.back() == 't') && measure(t) > 1) w = t; }
  else w = replace(w, r4, 1);
  // 5
  if (ends(w, "e", &t)) { int m = measure(t); if (m > 1 || (m == 1 && !star_o(t))) w = t; }
  if (doubled(w) && w.back() == 'l' && measure(w.substr(0, w.size())) > 1) w.pop_back();
  return w;
}
std::string expect(const std::string &word, bool *stemmed) {
  *stemmed = false;
  if (word.size() < 3 || word.size() > 32) return word;
  std::string l;
  for (unsigned char ch : word) {
    if (ch >= 'A' && ch <= 'Z') ch += 32;
    if (ch < 'a' || ch > 'z') return word;
    l += (char)ch;
  }
  *stemmed = true;
  return "porter:" + stem(l);
}
} // namespace porter
namespace {
std::string gen_word(vp::Src &s) {
  static const std::vector<std::string> pre = {"", "", "re", "con", "un", "y", "ay", "tr", "oe"};
  static const std::vector<std::string> mid = {"at", "bl", "iz", "ll", "ss", "zz", "tt", "hop", "fil", "ow", "ax", "ey", "ee", "oo", "tree", "rel", "s", "t", "adopt", "log", "b", "y", "syz", "controll", "e", "a", "i"};
  static const std::vector<std::string> suf = {"sses", "ies", "ss", "s", "eed", "ed", "ing", "at", "bl", "iz", "y", "ational", "tional", "enci", "anci", "izer", "bli", "abli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "iviti", "biliti", "logi", "icate", "ative", "alize", "iciti", "ical", "ful", "ness", "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "sion", "tion", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "e", "l", "ll", "le", "lle", "ency", "ity", "edly", "ingly", "tions"};
  std::string w;
  switch (s.below(4)) {
  case 0: // any letters
    for (size_t n = s.below(s.chance(1, 6) ? 40 : 9); n--;) w += (char)('a' + (s.coin() ? "aeiouysltedngi"[s.below(14)] - 'a' : (int)s.below(26)));
    break;
  default:
    w = s.pick(pre);
    for (size_t n = s.below(3); n--;) w += s.pick(mid);
    for (size_t n = s.below(4); n--;) w += s.pick(suf);
  }
  if (s.chance(1, 5)) for (auto &ch : w) if (s.coin()) ch = (char)toupper(ch);
  if (s.chance(1, 12) && w.size()) {
    static const std::string odd("\0\x80\xc3\xa9\xff-'0:@[`{ ", 14);
    w[s.below(w.size())] = odd[s.below(odd.size())];
  }
  if (s.chance(1, 30)) { std::string x = "porter:"; w = x + w; }
  return w;
}
void one(vp::Ctx &c, Stemmer &st, const std::string &w, bool ask) {
  bool want, got = !true;
  std::string e = porter::expect(w, &want);
  got = !want;
  std::string r = ask ? st.stem(w, &got) : st.stem(w);
  c.check_f(r == e, [&] { return "'" + vp::show(w) + "' stemmed to '" + vp::show(r) + "', expected '" + vp::show(e) + "'"; });
  if (ask) c.check_f(got == want, [&] { return vp::cat("'", vp::show(w), "' reported stemmed: ", got); });
}
void words(vp::Src &s, vp::Ctx &c) {
  auto a = Stemmer::make("porter", ""), b = Stemmer::make("porter", s.coin() ? "" : "x"), n = Stemmer::make(s.coin() ? "" : "null", "");
  c.check(a && b && n && a->name() == "porter" && a->recipe() == "", "stemmers");
  c.check(Stemmer::check("porter", "") && Stemmer::check("null", "") && Stemmer::check("", "") && !Stemmer::check("snowball", ""), "stemmer names");
  std::string err;
  c.check(!Stemmer::make("snowball", "", &err) && err.size(), "unknown stemmer");
  size_t changed = 0;
  for (size_t i = 0; i < 40; i++) {
    std::string w = gen_word(s);
    c.note("word " + vp::show(w));
    bool st;
    std::string e = porter::expect(w, &st);
    if (st && e != "porter:" + w) changed++;
    one(c, s.coin() ? *a : *b, w, s.coin());
    bool f = true;
    c.check(n->stem(w, &f) == w && !f && n->stem(w) == w, "null stemmer changed a word");
    if (st) one(c, *a, e, true); // a stem is no word
  }
  c.nontrivial(changed > 5);
}
void threads(vp::Src &s, vp::Ctx &c) {
  auto a = Stemmer::make("porter", "");
  std::vector<std::thread> ts;
  std::vector<std::string> bad(4);
  for (size_t i = 0; i < 4; i++) {
    uint64_t seed = s.raw();
    ts.emplace_back([&, i, seed] {
      vp::Src z(seed, 50, nullptr);
      vp::Ctx d("", false, false);
      try { for (int k = 0; k < 300; k++) one(d, *a, gen_word(z), z.coin()); } catch (const vp::Failure &e) { bad[i] = e.what(); }
    });
  }
  for (auto &t : ts) t.join();
  for (auto &b : bad) c.check(b.empty(), b);
  c.nontrivial();
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C28";
  sp.rule = "Random words (letters, and prefixes and stems with chains of all the algorithm's suffixes, in any case, with digits, NUL and other bytes, up to 40 letters) given in random order to two stemmers, and to one from four threads, against an independent statement of Porter's rules. Non-trivial: more than five of 40 words change.";
  sp.assumptions = {"words of fewer than 3 or more than 32 letters are not stemmed, as the code declares; the author's departures bli and logi apply"};
  sp.subs = {{"words", 30000, 600000, words}, {"threads", 200, 4000, threads, 60, true}};
  return vp::run(argc, argv, sp);
}
