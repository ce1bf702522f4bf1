// Random JSON documents, their spellings, and what an index should hold of them.
#ifndef VERIF_HARNESS_JSONGEN_H_
#define VERIF_HARNESS_JSONGEN_H_
#include <cstring>
#include <map>
#include <set>
#include "src/nlohmann.h"
#include "world.h"
namespace jg {
using namespace cottontail;
using ref::Iv;
using ref::List;
struct Doc {
  enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
  bool b = false;
  std::string s; // string, or the number as spelled
  std::vector<Doc> a;
  std::vector<std::pair<std::string, Doc>> o; // distinct keys
};
inline std::string enc(uint32_t c) {
  std::string o;
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  return o;
}
inline std::string text(vp::Src &s, bool key) {
  static const std::vector<std::string> words = {"a", "b", "id", "name", "The", "cat", " ", " ", "x1", "\xC3\xA9t\xC3\xA9"};
  std::string o;
  size_t n = s.len(key ? 3 : 10);
  for (size_t i = 0; i < n; i++) switch (s.below(11)) {
    case 10: { static const std::vector<std::string> spelt = {"\\u0041", "\\n", "\\\"", "\\\\", "\\u", "\\ud83d\\ude00", "&quot;", "%20", "\\/"}; o += s.pick(spelt); break; } // look escaped, and are not
    case 7: o += "\"\\/\n\t\r\b\f{}[]:,"[s.below(15)]; break;
    case 8: { static const std::vector<uint32_t> u = {0xFDD0, 0xFDD4, 0xFDD5, 0xFDD9, 0xFDDA, 0xFDEF, 0xFDF0, 0xFDFA, 0xFDFF, 0xFDCF, 0xFFFE, 0x1F600, 0x4E00, 0x7F, 0x2028, 0xFEFF}; o += enc(s.pick(u)); break; }
    case 9: o += s.chance(1, 8) ? std::string(1, '\0') : enc((uint32_t)(s.coin() ? s.below(0x20) : s.below(0xD800))); break;
    default: o += s.pick(words);
  }
  return o;
}
inline std::string number(vp::Src &s) {
  static const std::vector<std::string> odd = {"0", "-0", "0.0", "-0.0", "1e3", "1E-3", "-1.5e+2", "123456789012345678", "18446744073709551615", "-9223372036854775808", "1e20", "0.1", "1e-9", "2.5", "1e308", "5e-324", "99999999999999999999"};
  if (s.chance(1, 3)) return s.pick(odd);
  std::string o = s.chance(1, 4) ? "-" : "";
  o += std::to_string(s.mag(1000000));
  if (s.coin()) { o += "."; for (size_t i = 0, n = 1 + s.below(8); i < n; i++) o += (char)('0' + s.below(10)); }
  return o;
}
inline Doc gen(vp::Src &s, int depth) {
  Doc d;
  size_t k = s.below(depth > 0 ? 10 : 6);
  if (k == 0) d.kind = Doc::NUL;
  else if (k == 1) { d.kind = Doc::BOOL; d.b = s.coin(); }
  else if (k == 2) { d.kind = Doc::NUM; d.s = number(s); }
  else if (k < 6) { d.kind = Doc::STR; d.s = text(s, false); }
  else if (k < 8) {
    d.kind = Doc::ARR;
    for (size_t i = 0, n = s.len(s.chance(1, 10) ? 14 : 4); i < n; i++) d.a.push_back(gen(s, depth - 1));
  } else {
    d.kind = Doc::OBJ;
    std::set<std::string> seen;
    for (size_t i = 0, n = s.len(5); i < n; i++) {
      std::string key = text(s, true);
      if (seen.insert(key).second) d.o.push_back({key, gen(s, depth - 1)});
    }
  }
  return d;
}
inline std::string spell(vp::Src &s, const std::string &t) {
  std::string o = "\"";
  for (size_t i = 0; i < t.size(); i++) {
    unsigned char ch = (unsigned char)t[i];
    char buf[8];
    if (ch < 0x20 || ch == '"' || ch == '\\') {
      static const char *esc = "\b\f\n\r\t\"\\", *let = "bfnrt\"\\";
      const char *e = ch ? strchr(esc, ch) : nullptr;
      if (e && s.coin()) { o += '\\'; o += let[e - esc]; }
      else { snprintf(buf, sizeof buf, "\\u%04x", ch); o += buf; }
    } else if (ch < 0x80) {
      if (s.chance(1, 20)) { snprintf(buf, sizeof buf, "\\u%04X", ch); o += buf; }
      else o += (char)ch;
    } else if (ch >= 0xE0 && ch < 0xF0 && s.chance(1, 2)) {
      unsigned v = (ch & 15u) << 12 | (t[i + 1] & 63u) << 6 | (t[i + 2] & 63u);
      snprintf(buf, sizeof buf, "\\u%04x", v);
      o += buf;
      i += 2;
    } else {
      o += (char)ch;
    }
  }
  return o + "\"";
}
inline std::string gap(vp::Src &s) { return s.chance(1, 5) ? std::string(1, " \n\t\r"[s.below(4)]) : ""; }
inline std::string write(vp::Src &s, const Doc &d) {
  std::string o = gap(s);
  switch (d.kind) {
  case Doc::NUL: o += "null"; break;
  case Doc::BOOL: o += d.b ? "true" : "false"; break;
  case Doc::NUM: o += d.s; break;
  case Doc::STR: o += spell(s, d.s); break;
  case Doc::ARR:
    o += "[";
    for (size_t i = 0; i < d.a.size(); i++) o += (i ? "," : "") + write(s, d.a[i]);
    o += gap(s) + "]";
    break;
  case Doc::OBJ:
    o += "{";
    for (size_t i = 0; i < d.o.size(); i++) o += (i ? "," : "") + gap(s) + spell(s, d.o[i].first) + gap(s) + ":" + write(s, d.o[i].second);
    o += gap(s) + "}";
  }
  return o + gap(s);
}
// ---- what the index should hold
inline std::string clean(const std::string &t) { // noncharacters are reserved
  std::string o;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == '\xEF' && i + 2 < t.size() && t[i + 1] == '\xB7' && (unsigned char)t[i + 2] >= 0x90 && (unsigned char)t[i + 2] <= 0xAF) { o += "\xEF\xBF\xBD"; i += 2; }
    else o += t[i];
  }
  return o;
}
struct Extent { addr p, q; nlohmann::json j; };
struct Expect {
  std::shared_ptr<Tokenizer> tok = Tokenizer::make("utf8", "");
  addr at = 0;
  std::map<std::string, List> named; // by feature name
  std::map<std::string, std::vector<addr>> terms;
  std::vector<Extent> extents;
  bool precise = true;
  void piece(const std::string &t) {
    for (auto &w : tok->split(t)) terms[w].push_back(at++);
  }
  // returns extent
  nlohmann::json put(const Doc &d, const std::string &path, addr *p, addr *q) {
    nlohmann::json j;
    fval v = 0.0;
    *p = at;
    switch (d.kind) {
    case Doc::NUL: piece("null"); v = NAN; break;
    case Doc::BOOL: piece(d.b ? "true" : "false"); v = d.b ? 1.0 : 0.0; j = d.b; break;
    case Doc::NUM: {
      v = std::strtod(d.s.c_str(), nullptr);
      char buf[400];
      snprintf(buf, sizeof buf, "%f", v);
      piece(open_number_token + buf + close_number_token);
      j = std::strtod(buf, nullptr);
      break;
    }
    case Doc::STR:
      piece(open_string_token + clean(d.s) + close_string_token);
      j = clean(d.s);
      break;
    case Doc::ARR:
      j = nlohmann::json::array();
      piece(open_array_token);
      for (size_t i = 0; i < d.a.size(); i++) {
        if (i) piece(comma_token);
        addr p0, q0;
        j.push_back(put(d.a[i], path + "[" + std::to_string(i) + "]:", &p0, &q0));
      }
      piece(close_array_token);
      v = (fval)d.a.size();
      break;
    case Doc::OBJ: {
      j = nlohmann::json::object();
      piece(open_object_token);
      // members are stored in key order
      std::map<std::string, const Doc *> m;
      for (auto &x : d.o) m[x.first] = &x.second;
      bool first = true;
      for (auto &x : m) {
        if (!first) piece(comma_token);
        first = false;
        std::string k = clean(x.first);
        piece(open_string_token + k + close_string_token + colon_token);
        addr p0, q0;
        auto e = put(*x.second, path + k + ":", &p0, &q0);
        if (j.contains(k)) precise = false; // two keys differ only in noncharacters
        j[k] = e;
        if (k != "") named[k + ":"].push_back({p0, q0, 0.0});
      }
      piece(close_object_token);
    }
    }
    *q = at - 1;
    named[path].push_back({*p, *q, v});
    if (extents.size() < 60) extents.push_back({*p, *q, j});
    return j;
  }
};
inline bool equal(const nlohmann::json &a, const nlohmann::json &b) {
  if (a.is_number() && b.is_number()) { double x = a, y = b; return x == y; }
  if (a.type() != b.type()) return false;
  if (a.is_array()) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!equal(a[i], b[i])) return false;
    return true;
  }
  if (a.is_object()) {
    if (a.size() != b.size()) return false;
    for (auto it = a.begin(); it != a.end(); ++it) if (!b.contains(it.key()) || !equal(it.value(), b[it.key()])) return false;
    return true;
  }
  return a == b;
}
// A text that is no JSON document, made from one that is.
inline std::string damage(vp::Src &s, const Doc &d) {
  std::string t = write(s, d);
  while (t.size() && isspace((unsigned char)t.back())) t.pop_back();
  switch (s.below(7)) {
  case 0: if (d.kind == Doc::ARR || d.kind == Doc::OBJ || d.kind == Doc::STR) return t.substr(0, s.below(t.size())); return t + "]";
  case 1: return t + "}";
  case 2: return t + " " + t + ",";
  case 3: return "";
  case 4: return "{\"a\":1,}" ;
  case 5: { static const std::vector<std::string> bad = {"{a:1}", "'x'", "[1,]", "\"\\ud800\"", "\"\xFF\"", "nul", "01", "1.", "+1", "\"\t\"", "[1 2]", "{\"a\" 1}", "1e999", "-1e999", "NaN", "\xEF\xB7\x90\xEF\xB7\x91", "\"\\x\"", "{\"a\":1", "[1e400]"}; return s.pick(bad); }
  default: return open_object_token + close_object_token;
  }
}
} // namespace jg
#endif
