// C03: query text.  Built with the address and undefined-behaviour sanitizers.
#include "gclgen.h"
#include "gcl/mt.h"
using namespace gg;
using cottontail::gcl::SExpression;

namespace {
std::shared_ptr<SExpression> parse(vp::Ctx &c, const std::string &q, std::string *text, std::string *err) {
  *err = "";
  auto e = SExpression::from_string(q, err);
  c.check_f(e || err->size(), [&] { return "rejected without a message: " + vp::show(q); });
  if (e) *text = e->to_string();
  return e;
}
// print and parse again until it must have settled
void settle(vp::Ctx &c, const std::string &q, const std::string &text) {
  std::string err, again;
  auto e = SExpression::from_string(text, &err);
  c.check_f(e != nullptr, [&] { return vp::cat("printed form of ", vp::show(q), " does not parse: ", vp::show(text), ": ", err); });
  again = e->to_string();
  c.check_f(again == text, [&] { return vp::cat(vp::show(text), " prints again as ", vp::show(again)); });
}

std::string quoted(vp::Src &s) {
  static const std::string chars = "ab c()#\\+^<>@\t\n,.'\"`\xc3\xa9" "1";
  char q = "\"'`"[s.below(3)];
  std::string o(1, q);
  size_t n = s.len(12);
  for (size_t i = 0; i < n; i++) {
    char ch = chars[s.below(chars.size())];
    if (ch == q) o += '\\';
    o += ch;
    if (ch == '\\') o += s.chance(1, 2) ? 'x' : '\\'; // never leave an open escape before the closing quote
  }
  return o + q;
}
std::string raw_term(vp::Src &s) {
  static const std::string first = "abz:/#+^<>@!0.-_\\\xc3\xa9";
  static const std::string rest = "abz:/#+^<>@!0.-_\\\xc3\xa9'\"`";
  std::string o(1, first[s.below(first.size())]);
  size_t n = s.len(6);
  for (size_t i = 0; i < n; i++) o += rest[s.below(rest.size())];
  return o;
}
// any tree at all (also ones without a finite meaning)
Node any_tree(vp::Src &s, int depth) {
  Node n;
  size_t k = depth <= 0 ? s.below(3) : s.below(13);
  switch (k) {
  case 0: n.term = raw_term(s); return n;
  case 1: n.term = quoted(s); return n;
  case 2:
    n.op = FIXED;
    n.width = (addr)s.mag((uint64_t)cottontail::maxfinity);
    return n;
  default: break;
  }
  static const Op ops[] = {AND, OR, SEQ, IN, CON, NIN, NCON, LINK, MAT, AND};
  n.op = ops[k - 3];
  size_t m = n.op == LINK || n.op == MAT ? 1 : (n.op == AND || n.op == OR || n.op == SEQ ? 1 : 2) + s.below(4);
  for (size_t i = 0; i < m; i++) n.kids.push_back(any_tree(s, depth - 1));
  return n;
}
void spread(vp::Src &s, const Node &n, std::string *o) { // odd but legal spelling
  if (n.op == TERM) { *o += n.term; return; }
  *o += "(" + space(s, false) + s.pick(aliases(n.op));
  bool need = true;
  if (n.op == FIXED) *o += space(s, true) + std::string(s.below(3), '0') + vp::cat(n.width);
  else
    for (auto &k : n.kids) {
      std::string t;
      spread(s, k, &t);
      bool sep = t[0] != '(' && need;
      *o += space(s, sep) + t;
      // a quoted term ends at its quote; anything may follow it
      bool q = k.op == TERM && (t[0] == '"' || t[0] == '\'' || t[0] == '`');
      need = k.op == TERM && !q;
    }
  *o += space(s, false) + ")";
}

void roundtrip(vp::Src &s, vp::Ctx &c) {
  Node n = any_tree(s, 1 + (int)s.below(5));
  std::string want = print(n), err, text;
  c.note("query " + want);
  auto e = parse(c, want, &text, &err);
  c.check_f(e != nullptr, [&] { return vp::cat("valid query rejected: ", vp::show(want), ": ", err); });
  c.check_f(text == want, [&] { return vp::cat(vp::show(want), " prints as ", vp::show(text)); });
  std::string loose = space(s, false);
  spread(s, n, &loose);
  loose += space(s, false);
  e = parse(c, loose, &text, &err);
  c.check_f(e != nullptr, [&] { return vp::cat("valid query rejected: ", vp::show(loose), ": ", err); });
  c.check_f(text == want, [&] { return vp::cat(vp::show(loose), " prints as ", vp::show(text), ", expected ", vp::show(want)); });
  // the binary form is a query too
  std::string b = e->to_binary()->to_string();
  settle(c, want, b);
  if (n.kids.size()) c.nontrivial();
}

// to_binary and a reparse have the same solutions
void meaning(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 2 + s.below(3);
  g.mats = true;
  g.phrases = true;
  for (size_t i = 0; i < g.terms; i++) g.words.push_back(name(i));
  World w = gen_world(s, c, g, 14);
  Node n = gen_node(s, g, 1 + (int)s.below(3));
  std::string q = print_loose(s, n), err;
  c.note("query " + q);
  auto e = SExpression::from_string(q, &err);
  c.check(e != nullptr, "rejected: " + q);
  e = e->expand_phrases(w.warren->tokenizer());
  if (s.coin()) e = e->to_binary();
  std::string text = e->to_string();
  auto r = SExpression::from_string(text, &err);
  c.check(r != nullptr, "printed form rejected: " + text);
  auto h = r->to_hopper(w.warren->featurizer(), w.warren->idx());
  c.check(h != nullptr, "no cursor for " + text);
  List want = eval(n, w.env);
  List got = ref::enumerate(h.get(), 5000);
  c.check_f(ref::equal(got, want), [&] { return vp::cat(q, " printed as ", text, ": ", ref::diff(got, want)); });
  if (count_nodes(n) >= 3 && want.size()) c.nontrivial();
}

// phrase text with capitals and punctuation means its words
void phrase(vp::Src &s, vp::Ctx &c) {
  Gen g;
  g.terms = 3;
  g.phrases = true; // mostly single-address lists
  World w = gen_world(s, c, g, 30);
  Node n;
  n.op = PHRASE;
  std::string text = "\"", sep = " ,.;:!?()-'\t";
  size_t k = 1 + s.below(4);
  for (size_t i = 0; i < k; i++) {
    std::string word = name(s.below(3));
    n.term += (i ? " " : "") + word;
    if (s.chance(1, 3)) word[0] = (char)toupper(word[0]); // an inner capital asks for the exact spelling
    do { if (i || s.coin()) text += sep[s.below(sep.size())]; } while (s.chance(1, 3));
    text += word;
  }
  while (s.chance(1, 3)) text += sep[s.below(sep.size())];
  text += "\"";
  c.note("query " + text);
  std::string err;
  auto h = w.warren->hopper_from_gcl(text, &err);
  c.check(h != nullptr, "rejected: " + text + " " + err);
  List want = eval(n, w.env), got = ref::enumerate(h.get(), 5000);
  c.check_f(ref::equal(got, want), [&] { return vp::cat(text, ": ", ref::diff(got, want)); });
  if (k > 1 && want.size()) c.nontrivial();
}

void malformed(vp::Src &s, vp::Ctx &c) {
  Node n;
  do n = any_tree(s, 2); while (n.op == TERM || n.op == FIXED);
  std::string t;
  spread(s, n, &t);
  size_t close = t.rfind(')');
  static const std::vector<std::string> bad = {
      "", " ", "\t ", "(", "()", ")", "( )", "(# )", "(#)", "(# x)", "(# -1)", "(# 3 4)", "(# 3x)", "(@ a b)", "(@)",
      "(<< a)", "(>>)", "(!< a)", "(!> \"b\")", "(+)", "(^ )", "(...)", "(materialize)", "(materialize a b)",
      "\"abc", "'abc", "`", "\"a\\\"", "(+ a \"b)", "(nosuch a b)", "((+ a b))", "(\"a\" b)", "(# 9223372036854775808)",
      "(# 99999999999999999999999)"};
  std::string q;
  switch (s.below(5)) {
  case 0: q = t.substr(0, close); break;               // last ) missing
  case 1: q = s.pick(bad); break;
  case 2: {                                             // a bad operand
    std::vector<std::string> parts = {"()", "(# )", "(<< a)", "(nosuch a)", "(@ a b)", "(", "(# x)", "\"open", "(# 92233720368547758080)"};
    std::string bp = s.pick(parts);
    q = t.substr(0, close) + " " + bp + ")";
    if (bp == "(" ) q = t.substr(0, close) + " ()";
    break;
  }
  case 3: q = "(zz" + t.substr(1); break;               // unknown operator
  default: {
    std::string op = s.pick(std::vector<std::string>{"<<", ">>", "!<", "!>", "containing"});
    q = "(" + op + " " + t + ")";                       // too few operands
  }
  }
  // "(zz" + "(..." cannot become an operator name
  c.note("query " + vp::show(q));
  std::string err, text;
  auto e = parse(c, q, &text, &err);
  c.check_f(e == nullptr, [&] { return vp::cat("malformed query accepted: ", vp::show(q), " as ", vp::show(text)); });
  auto w = FakeWarren::make();
  err = "";
  auto h = w->hopper_from_gcl(q, &err);
  c.check_f(h == nullptr && err.size(), [&] { return vp::cat("malformed query accepted: ", vp::show(q)); });
  h = w->hopper_from_gcl(q, nullptr);
  c.check(h == nullptr, "malformed query accepted");
  c.nontrivial();
}

// arbitrary text: parsed or refused, and what is parsed settles
void soup(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> tok = {"(", ")", "(", ")", " ", "\t", "#", "+", "^", "...", "<>", "<<", ">>", "!<", "!>",
      "@", "link", "materialize", "all_of", "\"", "'", "`", "\\", "a", "b", "\"a b\"", "12", "9223372036854775807", "99999999999999999999", "\n", "\xff"};
  std::string q;
  size_t n = s.len(40);
  for (size_t i = 0; i < n; i++) {
    if (s.chance(1, 12)) q += (char)s.below(256);
    else { q += s.pick(tok); if (s.coin()) q += ' '; }
  }
  c.note("query " + vp::show(q));
  std::string err, text;
  auto e = parse(c, q, &text, &err);
  if (e) {
    settle(c, q, text);
    c.label("accepted");
    auto w = FakeWarren::make();
    auto h = w->hopper_from_gcl(q, &err); // building the cursor is safe
    (void)h;
    std::string b = e->expand_phrases(w->tokenizer())->to_string();
    settle(c, q, b);
    if (q.size() > 3) c.nontrivial();
  } else
    c.label("refused");
}

// ---- infix ------------------------------------------------------------------
const std::vector<std::string> idents = {"foo", "bar", "x1", "Words2", "alls", "o"};
struct Infix {
  std::map<std::string, Node> env;
  Gen g;
};
std::string ispace(vp::Src &s, bool need) { return space(s, need); }
std::string infix_op(vp::Src &s, Op op) {
  switch (op) {
  case AND: return s.pick(std::vector<std::string>{"^", "and"});
  case OR: return s.pick(std::vector<std::string>{"+", "or"});
  case SEQ: return s.pick(std::vector<std::string>{"<>", "..", "...", "...."});
  case IN: return s.pick(std::vector<std::string>{"<", "<<", "contained in"});
  case CON: return s.pick(std::vector<std::string>{">", ">>", "containing"});
  case NIN: return s.pick(std::vector<std::string>{"/<", "not contained in"});
  default: return s.pick(std::vector<std::string>{"/>", "not containing"});
  }
}
// text, and the tree it means
std::string gen_infix(vp::Src &s, Infix &x, int depth, bool primary, Node *out);
std::string gen_primary(vp::Src &s, Infix &x, int depth, Node *out) {
  size_t k = s.weighted({8, x.env.empty() ? 0u : 5u, depth > 0 ? 4u : 0u, depth > 0 ? 3u : 0u});
  switch (k) {
  case 0: {
    Node n;
    n.op = PHRASE;
    size_t m = 1 + s.below(3);
    for (size_t i = 0; i < m; i++) n.term += (i ? " " : "") + name(s.below(x.g.terms));
    *out = n;
    return "\"" + n.term + "\"";
  }
  case 1: {
    auto it = x.env.begin();
    std::advance(it, s.below(x.env.size()));
    *out = it->second;
    return it->first;
  }
  case 2: return "(" + ispace(s, false) + gen_infix(s, x, depth - 1, false, out) + ispace(s, false) + ")";
  default: {
    size_t m = 1 + s.below(4);
    bool all = s.coin();
    std::string t;
    if (all) t = s.coin() ? std::string("all") : vp::cat(m);
    else t = s.coin() ? std::string("one") : std::string("1");
    if (m == 1) t = s.coin() ? "1" : t;
    Node n;
    n.op = all ? AND : OR;
    if (m == 1) n.op = OR;
    t += ispace(s, true) + (s.coin() ? "of" : "^") + ispace(s, false) + "(";
    for (size_t i = 0; i < m; i++) {
      Node k1;
      t += (i ? "," : "") + ispace(s, false) + gen_infix(s, x, depth - 1, false, &k1) + ispace(s, false);
      n.kids.push_back(k1);
    }
    *out = n;
    return t + ")";
  }
  }
}
std::string gen_infix(vp::Src &s, Infix &x, int depth, bool primary, Node *out) {
  std::string t = gen_primary(s, x, depth, out);
  if (primary) return t;
  while (s.more(depth > 0 ? 1.2 : 0.2)) {
    static const Op ops[] = {AND, OR, SEQ, IN, CON, NIN, NCON};
    Node n, right;
    n.op = ops[s.below(7)];
    std::string op = infix_op(s, n.op), r;
    if (n.op != OR && s.chance(1, 6)) {
      right = fixed_node(s);
      r = s.coin() ? vp::cat("[", ispace(s, false), right.width, ispace(s, false), "]") : vp::cat(right.width, ispace(s, true), "words");
    } else
      r = gen_primary(s, x, depth - 1, &right);
    n.kids = {*out, right};
    *out = n;
    bool wordy = isalpha((unsigned char)op[0]);
    t += ispace(s, wordy || isalnum((unsigned char)t.back())) + op + ispace(s, true) + r;
  }
  return t;
}
void infix(vp::Src &s, vp::Ctx &c) {
  Infix x;
  x.g.terms = 2 + s.below(2);
  x.g.phrases = true;
  World w = gen_world(s, c, x.g, 14);
  cottontail::Mt mt;
  size_t steps = 1 + s.below(5);
  for (size_t i = 0; i < steps; i++) {
    Node n;
    std::string err = "", t;
    if (i + 1 < steps && s.chance(1, 4)) { // a refused line leaves everything as it was
      static const std::vector<std::string> bad = {"nosuch", "(\"ax\"", "\"ax\" and", "\"ax\" not \"bx\"", "\"ax\" contained \"bx\"",
          "\"ax", "[0]", "0 words", "3 of (\"ax\")", "2 bottles", "\"ax\" \"bx\"", "one words", "all words", "foo = nosuch2", "[x]", "[3", ")", "\"ax\" not contained \"bx\"", "= \"ax\"", "\"ax\" ,"};
      t = s.pick(bad);
      if (s.coin()) { // or a correct one, damaged
        Node unused;
        std::string good = gen_infix(s, x, 1 + (int)s.below(3), false, &unused);
        size_t in = good.find("contained in");
        std::vector<size_t> gaps; // places outside of quoted terms and of words
        bool quoted = false;
        for (size_t k = 0; k < good.size(); k++) {
          if (good[k] == '"') quoted = !quoted;
          if (!quoted && (good[k] == ' ' || good[k] == '(' || good[k] == ')')) gaps.push_back(k);
        }
        gaps.push_back(good.size());
        static const std::vector<std::string> tails = {" and", " or", " ^", " <", " >>", " ..", " not", " contained in", " not containing", " /<", " of", " one of ()", " and [", " and ]", " =", " \"", " ,", " + + \"ax\"", " and [3", " and 3 word"};
        static const std::vector<std::string> inside = {"by", "at", "inn", "into", "IN", "of", "\"in\"", ""};
        switch (s.below(in == std::string::npos ? 3 : 4)) {
        case 0: good.insert(gaps[s.below(gaps.size())], "("); break;
        case 1: good.insert(gaps[s.below(gaps.size())], ")"); break;
        case 2: good += s.pick(tails); break;
        default: good.replace(in + 10, 2, s.pick(inside));
        }
        t = good;
      }
      c.note("infix " + t);
      c.check(!mt.infix_expression(t, &err), "malformed infix accepted: " + t);
      c.check(err.size() > 0, "malformed infix refused without a message: " + t);
      continue;
    }
    bool assign = i + 1 < steps;
    std::string id = s.pick(idents);
    t = gen_infix(s, x, 1 + (int)s.below(3), false, &n);
    if (assign) t = id + ispace(s, false) + "=" + ispace(s, false) + t;
    t = ispace(s, false) + t + ispace(s, false);
    c.note("infix " + t);
    c.check(mt.infix_expression(t, &err), "infix rejected: " + t + ": " + err);
    if (assign) { x.env[id] = n; continue; }
    std::string sx = mt.s_expression();
    auto h = w.warren->hopper_from_gcl(sx, &err);
    c.check(h != nullptr, "translation of " + t + " does not parse: " + sx + ": " + err);
    List want = eval(n, w.env), got = ref::enumerate(h.get(), 5000);
    c.check_f(ref::equal(got, want), [&] { return vp::cat(t, " translated to ", sx, ": ", ref::diff(got, want)); });
    if (count_nodes(n) >= 3 && want.size()) c.nontrivial();
  }
}
void infix_soup(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> tok = {"(", ")", "[", "]", ",", "=", "\"", "\"a\"", "\"b c\"", "x", "y", "foo", "and", "or", "^", "+", "<", ">", "<<", ">>",
      "/<", "/>", "<>", "...", "..", "1", "3", "0", "99999999999999", "of", "words", "one", "all", "not", "contained", "containing", "in", "x = \"q\"", "2 of", "1 of (", "[5]", "\"a\" and"};
  cottontail::Mt mt;
  size_t lines = 1 + s.below(3);
  for (size_t l = 0; l < lines; l++) {
    std::string q;
    size_t n = s.len(20);
    for (size_t i = 0; i < n; i++) {
      if (s.chance(1, 20)) q += (char)(1 + s.below(255));
      else { q += s.pick(tok); if (s.chance(3, 4)) q += ' '; }
    }
    c.note("infix " + vp::show(q));
    std::string err = "";
    if (mt.infix_expression(q, &err)) {
      std::string sx = mt.s_expression(), text;
      c.label("accepted");
      if (sx.empty()) continue; // an assignment, or nothing
      // listed finding: k-of-m, and a backslash inside a quoted term
      bool kofm = false;
      for (size_t i = 0; i + 1 < sx.size(); i++)
        if (sx[i] == '(' && isdigit((unsigned char)sx[i + 1])) kofm = true;
      if (kofm) { c.known("infix-k-of-m"); continue; }
      if (sx.find('\\') != std::string::npos) { c.known("infix-backslash"); continue; }
      auto e = SExpression::from_string(sx, &err);
      c.check_f(e != nullptr, [&] { return vp::cat("translation of ", vp::show(q), " does not parse: ", vp::show(sx)); });
      text = e->to_string();
      settle(c, q, text);
      c.nontrivial();
    } else {
      c.label("refused");
      c.check_f(err.size() > 0, [&] { return "refused without a message: " + vp::show(q); });
    }
  }
}
bool finding_kofm(vp::Ctx &) {
  cottontail::Mt mt;
  std::string err;
  if (!mt.infix_expression("2 of (\"a\", \"b\", \"c\")", &err)) return false;
  return SExpression::from_string(mt.s_expression(), &err) == nullptr;
}
bool finding_backslash(vp::Ctx &) {
  cottontail::Mt mt;
  std::string err;
  if (!mt.infix_expression("\"a\\\"", &err)) return false;
  return SExpression::from_string(mt.s_expression(), &err) == nullptr;
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C03";
  sp.level = "exploration";
  sp.rule = "Random query trees printed canonically and with random spelling and spacing (all quote characters, escapes, odd raw terms, extreme widths), damaged queries, token soup, phrase texts and infix programs with definitions, all under address and undefined-behaviour sanitizers; parse, print and translation are compared with the generating tree and its naive evaluation. Non-trivial: an operator is present (round trips), a solution exists (meaning, phrase, infix), the text is damaged (malformed), the text is accepted (soup).";
  sp.assumptions = {"nesting is bounded by the generated sizes (parsing is recursive)", "infix terms are free of backslashes and k of m is used only with k = 1 or k = m (listed findings otherwise)"};
  sp.subs = {{"roundtrip", 150000, 3000000, roundtrip}, {"meaning", 100000, 2000000, meaning}, {"phrase", 60000, 1000000, phrase},
             {"malformed", 100000, 2000000, malformed}, {"soup", 200000, 5000000, soup}, {"infix", 120000, 2500000, infix}, {"infix_soup", 200000, 5000000, infix_soup}};
  sp.findings = {{"infix-k-of-m", finding_kofm}, {"infix-backslash", finding_backslash}};
  return vp::run(argc, argv, sp);
}
