// C06: compression and posting serialisation are lossless.  Sanitized build.
#include <fstream>
#include <sstream>
#include "ref.h"
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/simple.h"
#include "src/simple_posting.h"
using namespace cottontail;
using ref::Iv;
using ref::List;

namespace {
// exactly sized heap blocks, so that one byte too many is seen
struct Block {
  char *p;
  size_t n;
  Block(size_t n) : p((char *)malloc(n ? n : 1)), n(n) {}
  ~Block() { free(p); }
};
void roundtrip(vp::Ctx &c, std::shared_ptr<Compressor> z, const std::string &in, const std::string &what) {
  Block src(in.size());
  memcpy(src.p, in.data(), in.size());
  addr extra = z->extra(in.size());
  c.check(extra >= 0, what + ": negative bound");
  Block mid(in.size() + extra);
  size_t m = z->crush(src.p, in.size(), mid.p, mid.n);
  c.check_f(m <= mid.n, [&] { return vp::cat(what, ": ", m, " bytes written, bound ", mid.n); });
  c.check(in.empty() == (m == 0), what + ": size of the compressed form");
  if (!z->destructive()) c.check(memcmp(src.p, in.data(), in.size()) == 0, what + ": input trashed");
  Block exact(m); // as it would be read back from a file
  memcpy(exact.p, mid.p, m);
  Block out(in.size());
  size_t n = z->tang(exact.p, m, out.p, out.n);
  c.check_f(n == in.size() && memcmp(out.p, in.data(), n) == 0, [&] {
    size_t d = 0;
    while (d < n && d < in.size() && out.p[d] == in[d]) d++;
    return vp::cat(what, ": ", in.size(), " bytes in, ", n, " out, first difference at ", d, " input ", vp::hex(in, 80));
  });
}
std::string bytes(vp::Src &s, size_t max) {
  std::string o;
  size_t n = s.len(max);
  if (s.chance(1, 12)) { // large: drawn in bulk
    n = s.below(200000);
    uint64_t seed = s.raw();
    unsigned mask = (unsigned)s.below(256);
    for (size_t i = 0; i < n; i++) o += (char)(vp::mix(seed, i) & mask);
    return o;
  }
  int style = (int)s.below(3);
  char last = 0;
  for (size_t i = 0; i < n; i++) {
    if (style == 0) last = (char)s.below(256);
    else if (style == 1) { if (s.chance(1, 6)) last = (char)s.below(256); }
    else last = "etaoin shrdlu\n"[s.below(14)];
    o += last;
  }
  return o;
}
void any_bytes(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> names = {"zlib", "null", "bad", ""};
  std::string n = s.pick(names), b = bytes(s, 400);
  c.note(vp::cat("compressor '", n, "' ", b.size(), " bytes ", vp::hex(b, 100)));
  std::string err;
  auto z = Compressor::make(n, "", &err);
  c.check(z != nullptr, "no compressor: " + err);
  c.check(z->name() == n && z->recipe() == "", "name or recipe");
  roundtrip(c, z, b, n);
  if (b.size() > 2) c.nontrivial();
}
std::string raw(const std::vector<addr> &v) { return std::string((const char *)v.data(), v.size() * sizeof(addr)); }
std::vector<addr> increasing(vp::Src &s, size_t max) {
  std::vector<addr> v;
  size_t n = s.len(max);
  if (s.chance(1, 20)) n += s.below(5000);
  addr at = 0;
  switch (s.below(4)) {
  case 0: break;
  case 1: at = (addr)s.mag(1ull << 62); break;
  case 2: at = -(addr)s.mag(1ull << 62); break;
  default: at = minfinity + 1 + (addr)s.mag(1000);
  }
  int style = (int)s.below(3);
  for (size_t i = 0; i < n; i++) {
    v.push_back(at);
    uint64_t room = (uint64_t)(maxfinity - 1) - (uint64_t)at;
    uint64_t d = style == 0 ? s.below(3) : style == 1 ? s.mag(1 << 20) : s.mag(room);
    at = (addr)((uint64_t)at + std::min(d, room));
  }
  return v;
}
void postings(vp::Src &s, vp::Ctx &c) {
  auto v = increasing(s, 60);
  c.note_f([&] { std::string o = "post"; for (auto x : v) o += vp::cat(" ", x); return o; });
  auto z = Compressor::make("post", "");
  roundtrip(c, z, raw(v), "post");
  if (v.size() > 2) c.nontrivial();
}
void tfdf(vp::Src &s, vp::Ctx &c) {
  std::vector<addr> v;
  size_t n = s.len(60);
  bool odd = s.chance(1, 4);
  if (s.chance(1, 30)) n += s.below(3000);
  for (size_t i = 0; i < n; i++) {
    addr x = (addr)s.mag((1u << 30) - 1) + 1;
    if (s.chance(1, 20)) x = 1 << 30;
    if (odd && s.chance(1, 10)) x = s.coin() ? (addr)s.raw() : -(addr)s.below(3) + (s.coin() ? 1ll << 30 : 0);
    v.push_back(x);
  }
  c.note_f([&] { std::string o = "tfdf"; for (auto x : v) o += vp::cat(" ", x); return o; });
  roundtrip(c, Compressor::make("tfdf", ""), raw(v), "tfdf");
  if (v.size() > 2) c.nontrivial();
}
List values_list(vp::Src &s) {
  ref::Shape sh = ref::gen_shape(s, true);
  sh.max = s.chance(1, 20) ? 3000 : 60;
  sh.values = s.coin();
  sh.width = s.coin() ? 0 : -1;
  return ref::gen_list(s, sh);
}
List contents(std::shared_ptr<SimplePosting> p) {
  List out;
  Iv i;
  for (size_t k = 0; p && k < p->size(); k++) { p->get(k, &i.p, &i.q, &i.v); out.push_back(i); }
  return out;
}
void files(vp::Src &s, vp::Ctx &c) {
  static const std::vector<std::string> fz = {"zlib", "null", "tfdf", "bad"};
  auto pc = Compressor::make("post", ""), fc = Compressor::make(s.pick(fz), "");
  auto f = SimplePostingFactory::make(pc, fc);
  size_t n = 1 + s.below(5);
  std::vector<std::shared_ptr<SimplePosting>> ps;
  std::vector<List> ls;
  std::string name = c.dir() + "/postings";
  std::vector<std::string> blobs;
  {
    std::fstream out(name, std::ios::out | std::ios::binary | std::ios::trunc);
    for (size_t i = 0; i < n; i++) {
      List l = s.chance(1, 6) ? List() : values_list(s);
      c.note_f([&] { return "list " + ref::str(l); });
      auto p = f->posting_from_feature(s.chance(1, 4) ? (addr)s.raw() : (addr)i + 1);
      for (auto &x : l) p->push(x.p, x.q, x.v);
      std::ostringstream one;
      p->write(&one);
      blobs.push_back(one.str());
      p->write(&out);
      ps.push_back(p);
      ls.push_back(l);
    }
    out.write("tail", 4);
  }
  std::fstream in(name, std::ios::in | std::ios::binary);
  for (size_t i = 0; i < n; i++) {
    auto p = f->posting_from_file(&in);
    c.check(p != nullptr, "posting not read back");
    c.check(p->feature() == ps[i]->feature(), "feature of a posting read back");
    List got = contents(p);
    c.check_f(ref::equal(got, ls[i]), [&] { return "read from file: " + ref::diff(got, ls[i]); });
    c.check(*p == *ps[i], "posting read back differs");
  }
  char tail[5] = {0};
  in.read(tail, 4);
  c.check(std::string(tail) == "tail", "reading postings did not stop where they end");
  c.check(f->posting_from_file(&in) == nullptr, "posting read at end of file");
  for (size_t i = 0; i < n; i++) {
    Block b(blobs[i].size());
    memcpy(b.p, blobs[i].data(), b.n);
    std::string err;
    auto p = f->posting_from_compressed_blob(b.p, b.n, &err);
    c.check(p != nullptr, "blob not read back: " + err);
    c.check(p->feature() == ps[i]->feature(), "feature of a blob");
    List got = contents(p);
    c.check_f(ref::equal(got, ls[i]), [&] { return "read from blob: " + ref::diff(got, ls[i]); });
    auto line = std::make_shared<CacheRecord>();
    line->n = ls[i].size();
    c.check(f->cache_entry_from_compressed_blob(line, b.p, b.n, &err), "cache entry: " + err);
    if (ls[i].size()) {
      auto h = ArrayHopper::make(line);
      List g2 = ref::enumerate(h.get());
      c.check_f(ref::equal(g2, ls[i]), [&] { return "cache entry: " + ref::diff(g2, ls[i]); });
    }
    auto other = std::make_shared<CacheRecord>();
    other->n = ls[i].size() + 1;
    c.check(!f->cache_entry_from_compressed_blob(other, b.p, b.n, &err), "cache entry with the wrong count accepted");
    // anything shorter is refused, not misread
    size_t cut = s.below(b.n);
    Block sh(cut);
    memcpy(sh.p, b.p, cut);
    err = "";
    c.check(f->posting_from_compressed_blob(sh.p, cut, &err) == nullptr, vp::cat("blob cut to ", cut, " of ", b.n, " bytes accepted"));
    c.check(err.size() > 0, "cut blob refused without a message");
    if (ls[i].size() > 1) c.nontrivial();
  }
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C06";
  sp.level = "exploration";
  sp.rule = "Random byte strings (empty to 200 kB, constant to incompressible) through every byte compressor, random address and count sequences (including extreme and negative ones) through the list compressors, with buffers sized exactly to the declared bound under the address sanitizer; random posting lists written one after another to a file and to blobs with every value compressor and read back. Non-trivial: more than 2 bytes or entries.";
  sp.assumptions = {"the post compressor is given non-decreasing addresses, as every caller does", "tfdf and post are given whole 8-byte elements"};
  sp.subs = {{"any_bytes", 40000, 600000, any_bytes}, {"postings", 150000, 3000000, postings}, {"tfdf", 150000, 3000000, tfdf}, {"files", 40000, 600000, files, 60, false, true}};
  return vp::run(argc, argv, sp);
}
