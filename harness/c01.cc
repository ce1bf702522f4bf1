// C01: cursor navigation against a linear scan.
#include <sstream>

#include "gcl/vector_hopper.h"
#include "ref.h"
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/simple_posting.h"

using namespace cottontail;
using ref::Iv;
using ref::List;

namespace {
std::shared_ptr<SimplePostingFactory> factory(const std::string &fc = "zlib") {
  return SimplePostingFactory::make(Compressor::make("post", ""), Compressor::make(fc, ""));
}
std::shared_ptr<SimplePosting> posting(const List &l) {
  auto p = factory()->posting_from_feature(42);
  for (auto &i : l) p->push(i.p, i.q, i.v);
  return p;
}

// One cursor over the list, in a randomly chosen storage form.
std::unique_ptr<Hopper> cursor(vp::Src &s, vp::Ctx &c, const List &l, std::string *kind) {
  if (l.empty()) { *kind = "empty"; return std::make_unique<EmptyHopper>(); }
  bool nonneg = l[0].p >= 0;
  switch (s.below(5)) {
  case 1:
    if (l.size() == 1) {
      *kind = "singleton";
      return std::make_unique<SingletonHopper>(l[0].p, l[0].q, l[0].v);
    }
    [[fallthrough]];
  case 0: {
    auto p = shared_array<addr>(l.size()), q = shared_array<addr>(l.size());
    std::shared_ptr<fval> f = nullptr;
    bool any = false, wide = false;
    for (auto &i : l) { if (i.v != 0.0) any = true; if (i.p != i.q) wide = true; }
    if (any || s.coin()) f = shared_array<fval>(l.size());
    for (size_t i = 0; i < l.size(); i++) {
      p.get()[i] = l[i].p; q.get()[i] = l[i].q;
      if (f) f.get()[i] = l[i].v;
    }
    if (!wide && s.coin()) q = p;
    *kind = f ? "array+values" : "array";
    return ArrayHopper::make((addr)l.size(), p, q, f);
  }
  case 2:
    *kind = "posting";
    return ArrayHopper::make(posting(l));
  case 3:
    if (nonneg) { // through compression, into a cache line
      std::ostringstream o;
      posting(l)->write(&o);
      std::string blob = o.str();
      auto line = std::make_shared<CacheRecord>();
      line->n = l.size();
      std::string err;
      bool ok = factory()->cache_entry_from_compressed_blob(line, blob.data(), blob.size(), &err);
      c.check(ok, "cache_entry_from_compressed_blob: " + err);
      *kind = "cache";
      return ArrayHopper::make(line);
    }
    [[fallthrough]];
  default: {
    if (nonneg) {
      std::ostringstream o;
      posting(l)->write(&o);
      std::string blob = o.str(), err;
      auto p = factory()->posting_from_compressed_blob(blob.data(), blob.size(), &err);
      c.check(p != nullptr, "posting_from_compressed_blob: " + err);
      *kind = "blob";
      return ArrayHopper::make(p);
    }
    *kind = "posting";
    return ArrayHopper::make(posting(l));
  }
  }
}

void probes(vp::Src &s, vp::Ctx &c, Hopper *h, const List &l, const ref::Shape &sh, const std::string &kind) {
  size_t n = 1 + s.len(60);
  int style = (int)s.below(4); // 0 random, 1 ascending walk, 2 descending walk, 3 mixed with repeats
  addr k = 0;
  std::string log;
  size_t hits = 0;
  for (size_t i = 0; i < n; i++) {
    int a = (int)s.below(6);
    if (style == 1 && i > 0 && l.size()) {
      Iv r = ref::access(l, ref::TAU, k);
      k = ref::is_end(r) ? ref::gen_k(s, l, sh.lo, sh.hi) : r.p + 1;
    } else if (style == 2 && i > 0 && l.size()) {
      Iv r = ref::access(l, ref::UAT, k);
      k = ref::is_end(r) ? ref::gen_k(s, l, sh.lo, sh.hi) : r.q - 1;
    } else if (style == 3 && i > 0 && s.chance(1, 3)) {
      // same position, possibly another method
    } else
      k = ref::gen_k(s, l, sh.lo, sh.hi);
    if (c.want()) log += vp::cat(" ", ref::access_name(a), "(", k, ")");
    if (c.want() && log.size() < 400 && i + 1 == n) c.note("probes:" + log);
    if (!ref::is_end(ref::access(l, a < 4 ? a : (a == 4 ? ref::UAT : ref::TAU), k))) hits++;
    try {
      ref::check_probe(c, h, l, a, k, true, kind);
    } catch (vp::Failure &) {
      c.note("probes:" + log);
      throw;
    }
  }
  if (l.size() >= 2 && hits >= 2) c.nontrivial();
}

void single(vp::Src &s, vp::Ctx &c) {
  ref::Shape sh = ref::gen_shape(s, true);
  sh.max = s.chance(1, 4) ? 400 : 40;
  List l = ref::gen_list(s, sh);
  std::string kind;
  auto h = cursor(s, c, l, &kind);
  c.label(kind);
  c.note_f([&] { return vp::cat("form ", kind, " list ", ref::str(l)); });
  probes(s, c, h.get(), l, sh, kind);
}

void sharded(vp::Src &s, vp::Ctx &c) {
  ref::Shape sh = ref::gen_shape(s, true);
  size_t n = 2 + s.below(5);
  List all;
  std::vector<std::unique_ptr<Hopper>> hs;
  bool disjoint = s.chance(1, 3);
  std::string kinds;
  addr lo = sh.lo, hi = sh.hi;
  size_t nonempty = 0;
  for (size_t i = 0; i < n; i++) {
    ref::Shape one = sh;
    one.max = 20;
    if (disjoint) {
      uint64_t w = ((uint64_t)(hi - lo)) / n;
      one.lo = lo + (addr)(w * i);
      one.hi = one.lo + (addr)(w ? w - 1 : 0);
    }
    List l = ref::gen_list(s, one);
    // sometimes repeat intervals of an earlier shard, with other values
    if (!disjoint && all.size() && s.chance(1, 2)) {
      size_t m = s.below(4);
      for (size_t j = 0; j < m; j++) {
        Iv x = all[s.below(all.size())];
        x.v = (fval)(100 * i + j);
        l.push_back(x);
      }
      l = ref::reduce(l);
    }
    std::string kind;
    if (l.size()) nonempty++;
    c.note_f([&] { return vp::cat("shard ", i, " ", ref::str(l)); });
    hs.push_back(cursor(s, c, l, &kind));
    all.insert(all.end(), l.begin(), l.end());
  }
  List l = ref::reduce(all);
  auto h = gcl::VectorHopper::make(&hs, false);
  c.label(vp::cat("shards ", n));
  probes(s, c, h.get(), l, sh, "sharded");
  if (nonempty < 2) c.nontrivial_ = false;
}

// Fixed-width lists are infinite; the definition is arithmetic.
void fixed(vp::Src &s, vp::Ctx &c) {
  addr w = 1 + (addr)(s.coin() ? s.below(5) : s.mag((uint64_t)1 << 40));
  FixedWidthHopper h(w);
  size_t n = 1 + s.len(40);
  c.note_f([&] { return vp::cat("width ", w); });
  for (size_t i = 0; i < n; i++) {
    addr k = ref::gen_k(s, {}, -1000, 1000);
    if (s.chance(1, 4)) k = minfinity + (addr)s.below(3) + w - 1;
    if (s.chance(1, 4)) k = maxfinity - (addr)s.below(3) - w;
    int a = (int)s.below(4);
    Iv e{0, 0, 0}, g = ref::probe(&h, a, k);
    typedef __int128 W;
    auto set = [&](W p) {
      // members are (p, p+w-1) with both ends strictly between the infinities
      W first = (W)minfinity + 1, last = (W)maxfinity - 1 - (w - 1);
      if (a == ref::TAU || a == ref::RHO) {
        if (p < first) p = first;
        if (p > last) { e.p = e.q = maxfinity; return; }
      } else {
        if (p > last) p = last;
        if (p < first) { e.p = e.q = minfinity; return; }
      }
      e.p = (addr)p; e.q = (addr)(p + w - 1);
    };
    if (a <= ref::RHO && k == minfinity) e.p = e.q = minfinity;
    else if (a >= ref::UAT && k == maxfinity) e.p = e.q = maxfinity;
    else if (a == ref::TAU || a == ref::OHR) set(k);
    else set((W)k - (w - 1));
    c.check_f(e.p == g.p && e.q == g.q, [&] {
      return vp::cat("width ", w, " ", ref::access_name(a), "(", k, ") = ", ref::str(g), " expected ", ref::str(e));
    });
    if (!ref::is_end(e)) c.nontrivial();
  }
  (void)h;
}
} // namespace

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C01";
  sp.level = "exploration";
  sp.rule = "Random minimal-interval lists (0 to 400 intervals, four address regimes up to the extreme addresses, with and without values) held in a random storage form (arrays, posting, compressed blob, cache line, singleton, empty, 2 to 6 overlapping or disjoint shards), probed by random histories of tau/rho/uat/ohr/L/R biased to list boundaries; every answer is compared with a linear scan. Non-trivial: the list has at least 2 intervals (2 non-empty shards) and at least 2 probes hit an interval.";
  sp.assumptions = {"reference is a linear scan over the generated list", "values of sentinels are not compared"};
  sp.subs = {{"single", 1600000, 30000000, single}, {"sharded", 1200000, 25000000, sharded}, {"fixed", 300000, 3000000, fixed}};
  return vp::run(argc, argv, sp);
}
