// C32: the search server, over the wire, against the library.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include "coll.h"
#include "src/nlohmann.h"
#include "tools.h"
using namespace cottontail;
namespace {
struct Burrow {
  std::string dir;
  std::shared_ptr<Warren> w;
  std::vector<std::string> ids;
};
const std::vector<std::string> vocab = {"the", "cat", "cats", "w1", "w2", "quick", "zzz", "one"};
Burrow build(vp::Src &s, vp::Ctx &c, const std::string &dir, const std::string &prefix) {
  Burrow b;
  std::string err;
  b.dir = dir;
  bool simple = s.coin(), ascii = s.coin();
  std::string tok = ascii ? "ascii" : "utf8";
  std::shared_ptr<SimpleBuilder> sb;
  if (simple) {
    auto working = Working::mkdir(dir, &err);
    c.check(working != nullptr, "working " + err);
    sb = SimpleBuilder::make(working, "tokenizer:name:" + tok + (ascii ? " tokenizer:noxml" : ""), &err);
    c.check(sb != nullptr, "builder " + err);
  } else {
    auto g = wd::quiet(c, dir, "tokenizer:name:" + tok + (ascii ? " tokenizer:noxml" : ""));
    g->merge(false);
    b.w = g;
    c.check(b.w->transaction(&err), "transaction " + err);
  }
  auto add = [&](const std::string &t, addr *p, addr *q) { c.check(sb ? sb->add_text(t, p, q, &err) : b.w->appender()->append(t, p, q, &err), "text " + err); };
  auto mark = [&](const std::string &f, addr p, addr q) { c.check(sb ? sb->add_annotation(f, p, q, 0.0, &err) : b.w->annotator()->annotate(b.w->featurizer()->featurize(f), p, q, &err), "annotate " + err); };
  bool latin = ascii && s.chance(1, 3); // documents that are not UTF-8
  static const std::vector<std::string> seps = {" ", " ", ", ", "\n", " \"", "\r\n", " <", " \\ "};
  size_t n = s.chance(1, 6) ? 12 + s.below(20) : 1 + s.below(12);
  for (size_t i = 0; i < n; i++) {
    size_t count = 0;
    std::string text;
    auto put = [&](const std::string &w) { text += w + s.pick(seps); if (latin && s.chance(1, 6)) text += "\xe9 "; count++; };
    std::string id = b.ids.size() && s.chance(1, 12) ? s.pick(b.ids) : prefix + std::to_string(i);
    text += id + (s.coin() ? " " : "\n");
    count++;
    size_t t0 = count, nt = s.below(4);
    for (size_t j = 0; j < nt; j++) put(coll::word(s, vocab));
    size_t b0 = count, nb = s.chance(1, 6) ? 190 + s.below(160) : s.len(15);
    uint64_t z = nb > 100 ? s.raw() : 0;
    for (size_t j = 0; j < nb; j++) {
      if (nb > 100) { uint64_t r = vp::mix(z, j); text += (r % 40 == 0 ? vocab[r / 64 % 3] : r % 40 == 1 ? "quick" : "filler") + std::string(r % 7 ? " " : ".\n"); count++; }
      else put(coll::word(s, vocab));
    }
    addr p, q;
    if (s.chance(1, 6)) add("the cat between ", &p, &q);
    add(text, &p, &q);
    c.check_f(q - p + 1 == (addr)count, [&] { return vp::cat("harness: ", count, " words, ", q - p + 1, " addresses: ", vp::show(text, 200)); });
    mark("doc:", p, q);
    if (s.below(12)) { mark("id:", p, p); b.ids.push_back(id); }
    if (nt) mark("title:", p + (addr)t0, p + (addr)b0 - 1);
    if (nb) mark("body:", p + (addr)b0, q);
    c.note_f([&] { return dir.substr(dir.rfind('/') + 1) + ": " + vp::show(text, 160); });
  }
  if (sb) {
    c.check(sb->finalize(&err), "finalize " + err);
    b.w = Warren::make(dir, &err);
    c.check(b.w != nullptr, "opening " + err);
  } else {
    c.check(b.w->ready(&err), "ready " + err);
    b.w->commit();
  }
  b.w->start();
  return b;
}
std::string clean(std::string t) {
  for (auto &ch : t) if (ch == '\n' || ch == '\r') ch = ' ';
  return t;
}
// What is left of a text on the wire: bytes that are not UTF-8 cannot be there.
std::string wire(const std::string &t) { return json::parse(json(t).dump(-1, ' ', false, json::error_handler_t::replace)).get<std::string>(); }
std::string gcl_of(vp::Src &s, int depth = 2) {
  switch (depth ? s.below(6) : 0) {
  case 1: { std::string r = s.coin() ? "(^" : "(+"; for (size_t i = 0, n = 2 + s.below(2); i < n; i++) r += " " + gcl_of(s, depth - 1); return r + ")"; }
  case 2: return "(... " + gcl_of(s, depth - 1) + " " + gcl_of(s, depth - 1) + ")";
  case 3: return "(<< " + gcl_of(s, depth - 1) + " title:)";
  case 4: return "\"" + coll::word(s, vocab) + " " + coll::word(s, vocab) + "\"";
  default: return coll::word(s, vocab);
  }
}
struct Hit { size_t burrow; addr p, q, cp, cq; std::string docno; fval score; };
ref::List list(vp::Ctx &c, std::shared_ptr<Warren> w, const std::string &gcl) {
  std::string err;
  auto h = w->hopper_from_gcl(gcl, &err);
  c.check_f(h != nullptr, [&] { return gcl + ": " + err; });
  return ref::enumerate(h.get());
}
std::string first_word(const std::string &t) {
  size_t i = t.find_first_not_of(" \n\r\t");
  if (i == std::string::npos) return "";
  std::string o;
  for (char ch : t.substr(i, t.find_first_of(" \n\r\t", i) - i)) if (ch != '"') o += ch;
  return o;
}
struct Setup { std::string container = "doc:", content, docno = "id:", fields; std::vector<Burrow> bs; };
// What the query finds, best first.
std::vector<Hit> hits(vp::Ctx &c, const Setup &u, const std::string &gcl) {
  std::vector<Hit> r;
  for (size_t i = 0; i < u.bs.size(); i++) {
    auto w = u.bs[i].w;
    ref::List ps = list(c, w, gcl), boxes = list(c, w, u.content), docs = list(c, w, u.container), ids = list(c, w, u.docno);
    for (auto &x : boxes) {
      Hit h = {i, 0, 0, x.p, x.q, "", 0};
      for (auto &y : ps)
        if (y.p >= x.p && y.q <= x.q) {
          if (h.score == 0 || y.q - y.p < h.q - h.p) { h.p = y.p; h.q = y.q; }
          h.score += 1.0 / (42 + (fval)(y.q - y.p));
        }
      if (h.score == 0) continue;
      for (auto &d : docs)
        if (d.p <= h.p && h.q <= d.q)
          for (auto &y : ids)
            if (y.p >= d.p) { // the first identifier in it
              if (y.q <= d.q) { h.docno = first_word(w->txt()->translate(y.p, y.q)); r.push_back(h); }
              break;
            }
    }
  }
  std::stable_sort(r.begin(), r.end(), [](const Hit &a, const Hit &b) { return a.score > b.score; });
  return r;
}
// Is this a snippet of that passage?
bool shows(const Setup &u, const Hit &h, const std::string &got) {
  auto w = u.bs[h.burrow].w;
  auto text = [&](addr p, addr q) { return p > q ? std::string() : clean(w->txt()->translate(p, q)); };
  auto is = [&](addr start, addr end, addr p, addr q) { return got == wire(text(start, p - 1) + "<cover>" + text(p, q) + "</cover>" + text(q + 1, end)); };
  const addr most = 200;
  if (h.cq - h.cp + 1 <= most) return is(h.cp, h.cq, h.p, h.q);
  if (h.q - h.p + 1 >= most) return is(h.p, h.p + most - 1, h.p, h.p + most - 1);
  for (addr a = std::max(h.cp, h.q - most + 1); a <= h.p && a + most - 1 <= h.cq; a++) if (is(a, a + most - 1, h.p, h.q)) return true;
  return false;
}
struct Server {
  pid_t pid = -1;
  int err = -1, port = 0, fd = -1;
  std::string log, tail, in;
  ~Server() {
    if (fd >= 0) close(fd);
    if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
    if (err >= 0) close(err);
  }
  bool alive(std::string *how) {
    int st;
    if (pid > 0 && waitpid(pid, &st, WNOHANG) != pid) return true;
    pid = -1;
    char b[4096];
    fcntl(err, F_SETFL, O_NONBLOCK);
    for (ssize_t n; (n = read(err, b, sizeof b)) > 0;) tail.append(b, (size_t)n);
    *how = (WIFSIGNALED(st) ? vp::cat("ended by signal ", WTERMSIG(st)) : vp::cat("ended with status ", WEXITSTATUS(st))) + ": " + vp::show(tail.substr(tail.size() > 300 ? tail.size() - 300 : 0), 300);
    return false;
  }
  void launch(vp::Ctx &c, const std::vector<std::string> &args) {
    log = c.dir() + "/log";
    int out = open(log.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600), pe[2];
    if (out < 0 || pipe2(pe, O_CLOEXEC)) throw std::runtime_error("harness: pipe");
    c.note_f([&] { return tools::line("ssr-server", args); });
    pid = tools::spawn("ssr-server", args, tools::How(), out, pe[1]);
    close(out);
    close(pe[1]);
    err = pe[0];
    fcntl(err, F_SETFL, O_NONBLOCK);
    const std::string key = "listening on port ";
    for (int i = 0; i < 6000; i++) {
      char b[4096];
      ssize_t n = read(err, b, sizeof b);
      if (n > 0) tail.append(b, (size_t)n);
      size_t at = tail.find(key);
      if (at != std::string::npos && tail.find('\n', at) != std::string::npos) { port = atoi(tail.c_str() + at + key.size()); return; }
      if (n == 0) break;
      usleep(10000);
    }
    std::string how;
    bool up = alive(&how);
    c.fail(up ? "the server is not listening" : "the server " + how);
  }
  void hang_up(bool rudely) {
    if (fd < 0) return;
    if (rudely) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    close(fd);
    fd = -1;
    in = "";
  }
  void call(vp::Ctx &c) {
    if (fd >= 0) return;
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons((uint16_t)port);
    struct timeval tv = {30, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    if (connect(fd, (sockaddr *)&a, sizeof a)) {
      std::string how = "refuses a connection";
      usleep(200000);
      alive(&how);
      c.fail("the server " + how);
    }
  }
  void say(vp::Ctx &c, const std::string &line) {
    c.note_f([&] { return "> " + vp::show(line, 200); });
    size_t at = 0;
    while (at < line.size()) {
      ssize_t n = send(fd, line.data() + at, std::min<size_t>(line.size() - at, 1000), MSG_NOSIGNAL);
      if (n <= 0) break; // the answer will be missing
      at += (size_t)n;
    }
  }
  std::string answer(vp::Ctx &c) {
    for (;;) {
      size_t nl = in.find('\n');
      if (nl != std::string::npos) { std::string l = in.substr(0, nl); in.erase(0, nl + 1); c.note_f([&] { return "< " + vp::show(l, 300); }); return l; }
      char b[4096];
      ssize_t n = recv(fd, b, sizeof b, 0);
      if (n > 0) { in.append(b, (size_t)n); continue; }
      std::string how = n == 0 ? "closed the connection instead of answering" : "does not answer";
      usleep(200000);
      alive(&how);
      c.fail("the server " + how);
    }
  }
};
void serve(vp::Src &s, vp::Ctx &c) {
  Setup u;
  size_t n = 1 + s.below(3);
  bool shared_ids = s.chance(1, 4);
  for (size_t i = 0; i < n; i++) u.bs.push_back(build(s, c, vp::cat(c.dir(), "/b", i), shared_ids ? "d" : std::string(1, (char)('d' + i))));
  u.content = s.pick(std::vector<std::string>{"doc:", "doc:", "body:", "title:"});
  std::vector<std::string> args, fields;
  if (s.coin()) {
    u.fields = s.pick(std::vector<std::string>{"title:", "body:", "title:,body:", " body: , title: ", "id:,\"cat the\"", "(... cat the)"});
    std::string f;
    for (char ch : u.fields + ",") if (ch == ',') { size_t a = f.find_first_not_of(' '), b = f.find_last_not_of(' '); fields.push_back(f.substr(a, b - a + 1)); f = ""; } else f += ch;
    args = {"--fields", u.fields};
  }
  for (auto &x : {u.container, u.content, u.docno}) args.push_back(x);
  for (auto &b : u.bs) args.push_back(b.dir);
  if (fields.size() && s.coin()) { std::rotate(args.begin(), args.begin() + 2, args.end()); }
  Server v;
  v.launch(c, args);
  struct Query { std::vector<Hit> left; fval last = 1e30; size_t rank = 0; };
  std::map<std::string, Query> qs;
  std::vector<std::string> names, seen; // of queries, and docnos the server has given
  std::string logged;
  bool whole = true;
  size_t answered = 0;
  auto exchange = [&](const std::string &line, const json &request, const std::string &op) {
    v.call(c);
    v.say(c, line + (s.chance(1, 6) ? "\r\n" : "\n"));
    std::string l = v.answer(c);
    logged += l + "\n";
    json r;
    try { r = json::parse(l); } catch (json::exception &e) { c.fail("the answer is no JSON: " + vp::show(l, 300)); }
    c.check(r.is_object() && r.contains("query") && r.contains("response") && r.contains("time") && r["time"].is_number() && r["time"] >= 0 && r["response"].is_object(), "an answer of another form: " + vp::show(l, 300));
    if (!request.is_null()) c.check(r["query"] == request, "the answer repeats another request: " + vp::show(l, 300));
    json x = r["response"];
    c.check(x.contains("ok") && x["ok"].is_boolean() && x.contains("op"), "an answer without op or ok: " + vp::show(l, 300));
    if (op.size()) c.check(x["op"] == op, "an answer to another op: " + vp::show(l, 300));
    if (!x["ok"]) c.check(x.contains("error") && x["error"].is_string() && x["error"] != "", "an error without a message: " + vp::show(l, 300));
    return x;
  };
  auto refuse = [&](const std::string &line, const json &request, const std::string &op, const std::string &why) {
    json x = exchange(line, request, op);
    c.check_f(!x["ok"].get<bool>(), [&] { return why + " was accepted: " + vp::show(line, 200); });
    return x["error"].get<std::string>();
  };
  auto result = [&](const json &x, const std::string &qid) {
    Query &k = qs[qid];
    c.check_f(x["ok"].get<bool>(), [&] { return vp::cat("no result: ", vp::show(x.dump(), 300)); });
    c.check(x["qid"] == qid, "a result of another query");
    if (k.left.empty()) {
      c.check_f(x.contains("done") && x["done"] == true && !x.contains("docno"), [&] { return vp::cat("a result after the last: ", vp::show(x.dump(), 300)); });
      return;
    }
    c.check_f(!x.contains("done") && x.contains("docno") && x.contains("burrow") && x.contains("snippet"), [&] { return vp::cat(k.left.size(), " results are missing: ", vp::show(x.dump(), 300)); });
    c.check_f(x["rank"] == ++k.rank, [&] { return vp::cat("rank ", x["rank"].dump(), " instead of ", k.rank); });
    seen.push_back(x["docno"]);
    answered++;
    fval best = k.left.front().score;
    for (size_t i = 0; i < k.left.size() && k.left[i].score > best - 1e-9; i++) {
      auto &h = k.left[i];
      if (x["burrow"] == u.bs[h.burrow].dir && x["docno"] == wire(h.docno) && shows(u, h, x["snippet"])) { k.left.erase(k.left.begin() + (long)i); return; }
    }
    auto &h = k.left.front();
    c.fail(vp::cat("result ", k.rank, " of ", qid, " is ", vp::show(x.dump(), 400), "; expected (", h.p, ",", h.q, ") in (", h.cp, ",", h.cq, ") of ", u.bs[h.burrow].dir, ", document ", h.docno));
  };
  size_t steps = 2 + s.len(25);
  for (size_t step = 0; step < steps; step++) {
    switch (s.below(9)) {
    case 0: case 1: { // a query
      std::string g = gcl_of(s);
      auto found = hits(c, u, g);
      json q = {{"op", "query"}, {"query", g}};
      if (s.chance(1, 5)) q["note"] = "ignored \xc3\xa9";
      json x = exchange(q.dump(s.chance(1, 4) ? -1 : -1, ' ', s.coin()), q, "query");
      c.check_f(x["ok"].get<bool>() && x.contains("qid") && x["qid"].is_string(), [&] { return g + " was refused: " + vp::show(x.dump(), 300); });
      std::string id = x["qid"];
      c.check_f(!qs.count(id), [&] { return "the name " + id + " was given to two queries"; });
      names.push_back(id);
      qs[id].left = found;
      result(x, id);
      break;
    }
    case 2: case 3: case 4: { // the next result of one of them
      if (names.empty()) break;
      std::string id = s.pick(names);
      for (size_t k = 1 + s.below(4); k--;) {
        json q = {{"op", "next"}, {"qid", id}};
        result(exchange(q.dump(), q, "next"), id);
      }
      break;
    }
    case 5: { // a document
      auto &b = s.pick(u.bs);
      std::string id = s.chance(1, 5) ? "nowhere" : seen.size() && s.coin() ? s.pick(seen) : b.ids.size() ? s.pick(b.ids) : "d0";
      std::string asked = s.chance(1, 4) ? "\"" + id + "\"" : id;
      size_t found = 0, at = 0;
      addr p = 0, q = 0;
      for (size_t i = 0; i < u.bs.size(); i++)
        for (auto &d : list(c, u.bs[i].w, u.container))
          for (auto &y : list(c, u.bs[i].w, u.docno))
            if (y.p >= d.p && y.q <= d.q && first_word(u.bs[i].w->txt()->translate(y.p, y.q)) == id) { found++; at = i; p = d.p; q = d.q; break; }
      json r = {{"op", "document"}, {"docno", asked}};
      if (found != 1) {
        std::string e = refuse(r.dump(), r, "document", found ? "an ambiguous name" : "an unknown name");
        c.check_f(e == (found ? "Ambiguous docno" : "Unknown docno"), [&] { return vp::cat(found, " documents: ", e); });
        break;
      }
      json x = exchange(r.dump(), r, "document");
      c.check_f(x["ok"].get<bool>(), [&] { return "document " + id + " refused: " + vp::show(x.dump(), 300); });
      c.check_f(x["burrow"] == u.bs[at].dir && x["docno"] == asked, [&] { return "another document: " + vp::show(x.dump(), 300); });
      auto w = u.bs[at].w;
      std::string want;
      if (fields.empty()) want = clean(w->txt()->translate(p, q));
      for (auto &f : fields)
        for (auto &y : list(c, w, f))
          if (y.p >= p && y.q <= q) {
            std::string t = clean(w->txt()->translate(y.p, y.q));
            if (t.size() >= 2 && t.front() == '"' && t.back() == '"') t = t.substr(1, t.size() - 2);
            want += (want.empty() ? "" : " ... ") + t;
          }
      c.check_f(x["document"] == wire(want), [&] { return vp::cat("document ", id, " is ", vp::show(x["document"].dump(), 300), ", expected ", vp::show(wire(want), 300)); });
      break;
    }
    case 6: { // what makes no sense
      switch (s.below(8)) {
      case 0: { static const std::vector<std::string> bad = {"", "{", "query", "{\"op\":\"query\",}", "\xff\xfe", "{} {}", "{\"op\":\"next\" \"qid\":\"q0\"}", "'", "{\"op\":\"\xc3\"}"}; std::string t = s.pick(bad); refuse(t, json(), "", "a line that is no JSON"); break; }
      case 1: { static const std::vector<std::string> odd = {"[]", "5", "null", "\"query\"", "true", "[{\"op\":\"query\",\"query\":\"the\"}]", "1.5"}; std::string t = s.pick(odd); refuse(t, json(), "", "a request that is no object"); break; }
      case 2: { json r = s.pick(std::vector<json>{{{"op", 5}}, {{"op", nullptr}}, {{"op", json::array({"query"})}, {"query", "the"}}, {{"op", json::object()}}}); refuse(r.dump(), r, "", "an op that is no string"); break; }
      case 3: { json r = s.pick(std::vector<json>{{{"op", "Query"}, {"query", "the"}}, json::object(), {{"query", "the"}}, {{"op", "quit"}}, {{"op", ""}}}); refuse(r.dump(), r, "", "an unknown op"); break; }
      case 4: { static const std::vector<std::string> bad = {"", "(^ the", "(", ")", "\"the", "(<< the)", "(^)"}; std::string g = s.pick(bad); std::string err; auto h = u.bs[0].w->hopper_from_gcl(g, &err); if (g != "" && h != nullptr) break; json r = {{"op", "query"}, {"query", g}}; refuse(r.dump(), r, "query", "a query that cannot be read"); break; }
      case 5: { json r = s.pick(std::vector<json>{{{"op", "query"}}, {{"op", "query"}, {"query", 7}}, {{"op", "query"}, {"query", nullptr}}, {{"op", "query"}, {"query", json::array({"the"})}}}); refuse(r.dump(), r, "", "a query that is missing"); break; }
      case 6: { json r = s.pick(std::vector<json>{{{"op", "next"}}, {{"op", "next"}, {"qid", 0}}, {{"op", "next"}, {"qid", "nothing"}}, {{"op", "next"}, {"qid", "q999"}}}); refuse(r.dump(), r, "", "a query that was never made"); break; }
      default: { json r = s.pick(std::vector<json>{{{"op", "document"}}, {{"op", "document"}, {"docno", 1}}, {{"op", "document"}, {"docno", ""}}, {{"op", "document"}, {"docno", json::object()}}}); refuse(r.dump(), r, "", "a document without a name"); }
      }
      break;
    }
    case 7: // another client
      v.hang_up(false);
      c.note("hang up");
      break;
    default: { // one that leaves without waiting for its answers
      v.call(c);
      whole = false;
      std::string lines;
      json q = {{"op", s.coin() ? "query" : "document"}, {"query", gcl_of(s)}, {"docno", u.bs[0].ids.size() ? s.pick(u.bs[0].ids) : "d0"}};
      std::vector<std::string> made;
      for (size_t k = 1 + s.below(30); k--;) lines += q.dump() + "\n";
      if (s.coin()) lines += "{\"op\":\"que";
      v.say(c, lines);
      if (s.coin()) usleep(1000 * (useconds_t)s.below(4));
      v.hang_up(s.coin());
      c.note("gone");
    }
    }
  }
  // It is still there, and every list goes on to its end.
  for (auto &id : names)
    for (size_t k = std::min<size_t>(qs[id].left.size() + 1, s.coin() ? 6 : 40); k--;) {
      json q = {{"op", "next"}, {"qid", id}};
      result(exchange(q.dump(), q, "next"), id);
    }
  refuse("{\"op\":\"last\"}", {{"op", "last"}}, "last", "an unknown op");
  std::string how;
  c.check_f(v.alive(&how), [&] { return "the server " + how; });
  if (whole) { c.check(fl::get(v.log) == logged, "the log is not what was answered"); }
  for (auto &b : u.bs) b.w->end();
  c.nontrivial(answered > 3);
}
// Command lines that name nothing to serve.
void refused(vp::Src &s, vp::Ctx &c) {
  Burrow b = build(s, c, c.dir() + "/b", "d");
  b.w->end();
  b.w = nullptr;
  std::vector<std::string> good = {"doc:", "body:", "id:", b.dir}, args = good;
  std::string what;
  switch (s.below(8)) {
  case 0: args.resize(s.below(4)); what = "too few arguments"; break;
  case 1: args[s.below(3)] = s.pick(std::vector<std::string>{"(^ a", "\"a", "(<< a)"}); what = "a query that cannot be read"; break;
  case 2: args[3] += "x"; what = "no burrow"; break;
  case 3: args.push_back(c.dir() + "/none"); what = "no second burrow"; break;
  case 4: args.insert(args.begin(), {"--fields", s.pick(std::vector<std::string>{"", " ", ",", "title:,", ",title:", "title:,,body:", " , "})}); what = "an empty field"; break;
  case 5: args.insert(args.begin(), {"--fields", s.pick(std::vector<std::string>{"(", "title:,(^ a", "\"x"})}); what = "a field that cannot be read"; break;
  case 6: args.push_back("--fields"); what = "fields missing"; break;
  default: { auto r = tools::run(c, "ssr-server", {"--help"}); tools::ends(c, r, true, "--help"); c.check(r.err.find("usage") != std::string::npos || r.out.find("usage") != std::string::npos, "no usage"); return; }
  }
  auto r = tools::run(c, "ssr-server", args);
  tools::ends(c, r, false, what);
  c.check(r.err.size(), what + ": no message");
  c.nontrivial();
}
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C32";
  sp.rule = "One to three burrows of up to 13 documents of up to 350 words (static and dynamic; identifiers missing or repeated; texts that are not UTF-8), served to a sequence of up to 27 requests over up to some connections: queries, next results of any earlier query, documents, nonsense of every type, clients that leave early. Every answer is compared with the ranking formula evaluated over the lists the library gives, and with the stored text. Non-trivial: more than three results compared (command lines: refused ones).";
  sp.assumptions = {"the server is asked by one client at a time", "the loopback network works"};
  sp.subs = {{"serve", 1500, 40000, serve, 120, true, true}, {"refused", 60, 600, refused, 60, false, true}};
  return vp::run(argc, argv, sp);
}
