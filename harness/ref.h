// Reference model of annotation lists: naive, linear, obviously right.
#ifndef VERIF_HARNESS_REF_H_
#define VERIF_HARNESS_REF_H_

#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "src/core.h"
#include "src/hopper.h"
#include "vp.h"

namespace ref {
using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;

struct Iv {
  addr p, q;
  fval v;
};
inline bool same_v(fval a, fval b) {
  return memcmp(&a, &b, sizeof a) == 0 || a == b;
}
inline bool operator==(const Iv &a, const Iv &b) {
  return a.p == b.p && a.q == b.q && same_v(a.v, b.v);
}
using List = std::vector<Iv>; // minimal intervals, strictly increasing in p and q

inline std::string str(const Iv &i) {
  return vp::cat("(", i.p, ",", i.q, ")=", i.v);
}
inline std::string str(const List &l, size_t max = 40) {
  std::string o = "[";
  for (size_t i = 0; i < l.size() && i < max; i++) o += (i ? " " : "") + str(l[i]);
  if (l.size() > max) o += vp::cat(" ... ", l.size(), " in all");
  return o + "]";
}

// Keep the intervals that do not contain another one.  For identical
// intervals the one later in the input is kept.  Quadratic by definition;
// the sorted sweep below is used for big inputs and is checked against it.
inline List reduce_naive(const List &in) {
  List out;
  for (size_t i = 0; i < in.size(); i++) {
    bool keep = true;
    for (size_t j = 0; keep && j < in.size(); j++) {
      if (i == j) continue;
      bool inside = in[j].p >= in[i].p && in[j].q <= in[i].q;
      bool equal = in[j].p == in[i].p && in[j].q == in[i].q;
      if (inside && (!equal || j > i)) keep = false;
    }
    if (keep) out.push_back(in[i]);
  }
  std::sort(out.begin(), out.end(), [](const Iv &a, const Iv &b) { return a.p < b.p; });
  return out;
}
inline List reduce(const List &in) {
  if (in.size() <= 12) return reduce_naive(in);
  List s(in), out;
  // by end, then by decreasing start, then later first
  std::vector<size_t> ix(s.size());
  for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) {
    if (s[a].q != s[b].q) return s[a].q < s[b].q;
    if (s[a].p != s[b].p) return s[a].p > s[b].p;
    return a > b;
  });
  for (auto i : ix)
    if (out.empty() || s[i].p > out.back().p) out.push_back(s[i]);
  return out;
}

enum Access { TAU, RHO, UAT, OHR };
inline const char *access_name(int a) {
  static const char *n[] = {"tau", "rho", "uat", "ohr", "L", "R"};
  return n[a];
}

// Linear-scan definition of the four access methods on a list whose
// addresses lie strictly between the two infinities.
inline Iv access(const List &l, int a, addr k) {
  if (a == TAU || a == RHO) {
    if (k == minfinity) return {minfinity, minfinity, 0};
    for (auto &i : l)
      if ((a == TAU ? i.p : i.q) >= k) return i;
    return {maxfinity, maxfinity, 0};
  }
  if (k == maxfinity) return {maxfinity, maxfinity, 0};
  for (size_t j = l.size(); j-- > 0;)
    if ((a == UAT ? l[j].q : l[j].p) <= k) return l[j];
  return {minfinity, minfinity, 0};
}

inline bool is_end(const Iv &i) {
  return i.p == minfinity || i.p == maxfinity;
}

inline Iv probe(cottontail::Hopper *h, int a, addr k) {
  Iv r;
  r.v = -12345.5;
  switch (a) {
  case TAU: h->tau(k, &r.p, &r.q, &r.v); break;
  case RHO: h->rho(k, &r.p, &r.q, &r.v); break;
  case UAT: h->uat(k, &r.p, &r.q, &r.v); break;
  default: h->ohr(k, &r.p, &r.q, &r.v); break;
  }
  return r;
}

// Compare one probe; L and R are checked through a = 4, 5.
inline void check_probe(vp::Ctx &c, cottontail::Hopper *h, const List &l, int a,
                        addr k, bool values, const std::string &what) {
  if (a >= 4) {
    Iv e = access(l, a == 4 ? UAT : TAU, k);
    addr want = a == 4 ? e.p : e.q;
    addr got = a == 4 ? h->L(k) : h->R(k);
    c.check_f(want == got, [&] {
      return vp::cat(what, ": ", access_name(a), "(", k, ") = ", got, ", expected ", want);
    });
    return;
  }
  Iv e = access(l, a, k), g = probe(h, a, k);
  bool ok = e.p == g.p && e.q == g.q;
  if (ok && values && !is_end(e)) ok = same_v(e.v, g.v);
  c.check_f(ok, [&] {
    return vp::cat(what, ": ", access_name(a), "(", k, ") = ", str(g), ", expected ", str(e));
  });
}

// Enumerate a cursor forwards by tau.
inline List enumerate(cottontail::Hopper *h, size_t limit = 2000000) {
  List out;
  Iv r;
  for (h->tau(minfinity + 1, &r.p, &r.q, &r.v); r.p < maxfinity;
       h->tau(r.p + 1, &r.p, &r.q, &r.v)) {
    out.push_back(r);
    if (out.size() > limit) throw vp::Failure("cursor does not terminate");
    if (out.size() > 1 && (out.back().p <= out[out.size() - 2].p || out.back().q <= out[out.size() - 2].q))
      throw vp::Failure(vp::cat("cursor not increasing: ", str(out[out.size() - 2]), " then ", str(out.back())));
  }
  return out;
}
inline bool equal(const List &a, const List &b, bool values = true) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].p != b[i].p || a[i].q != b[i].q || (values && !same_v(a[i].v, b[i].v))) return false;
  return true;
}
inline std::string diff(const List &got, const List &want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  List g(got.begin() + (i > 2 ? i - 2 : 0), got.end()), w(want.begin() + (i > 2 ? i - 2 : 0), want.end());
  return vp::cat("got ", str(g, 8), " expected ", str(w, 8), " (first difference at index ", i, "; sizes ", got.size(), " and ", want.size(), ")");
}

// Interesting probe positions for a list (and its shards).
inline addr gen_k(vp::Src &s, const List &l, addr lo, addr hi) {
  switch (s.weighted({6, 4, 1, 1, 1})) {
  case 0:
    if (l.size()) {
      const Iv &i = l[s.below(l.size())];
      addr base = s.coin() ? i.p : i.q;
      addr d = (addr)s.below(5) - 2;
      if ((d > 0 && base > maxfinity - d) || (d < 0 && base < minfinity - d)) return base;
      return base + d;
    }
    return lo;
  case 1: return s.range(lo, hi);
  case 2: return s.coin() ? minfinity : maxfinity;
  case 3: return s.coin() ? minfinity + 1 + (addr)s.below(3) : maxfinity - 1 - (addr)s.below(3);
  default: return (addr)s.raw();
  }
}

// A value: mostly small, sometimes extreme.
inline fval gen_v(vp::Src &s) {
  switch (s.weighted({4, 4, 2, 1, 1})) {
  case 0: return 0.0;
  case 1: return (fval)s.range(1, 5);
  case 2: return (fval)s.range(-1000, 1000) / 8.0;
  case 3: return cottontail::addr2fval((addr)s.range(-5, 1 << 20)); // address stored as value
  default: {
    fval v = cottontail::addr2fval((addr)s.raw());
    return v == v ? v : 1.5;
  }
  }
}

// A minimal-interval list with n about `max` at full size in [lo, hi].
struct Shape {
  addr lo = 0, hi = 60;
  size_t max = 40;
  bool values = true;
  int width = -1; // -1 any, 0 single-address only
};
inline List gen_list(vp::Src &s, const Shape &sh) {
  List raw;
  size_t n = s.len(sh.max);
  int style = sh.width == 0 ? 0 : (int)s.below(4);
  int vals = sh.values ? (int)s.below(3) : 0;
  addr at = sh.lo;
  bool seq = s.coin(); // sequential gaps rather than uniform positions
  for (size_t i = 0; i < n; i++) {
    addr p, w;
    if (seq) {
      uint64_t gap = s.weighted({6, 3, 1}) == 2 ? s.mag(((uint64_t)sh.hi - (uint64_t)sh.lo) / 4 + 1) : s.below(4);
      if ((uint64_t)sh.hi - (uint64_t)at <= gap) break;
      at = (addr)((uint64_t)at + gap);
      p = at;
    } else
      p = s.range(sh.lo, sh.hi);
    uint64_t room = (uint64_t)sh.hi - (uint64_t)p;
    switch (style) {
    case 0: w = 0; break;
    case 1: w = s.below(3); break;
    case 2: w = s.below(8); break;
    default: w = s.coin() ? s.below(4) : s.mag(room > 0 ? room : 0); break;
    }
    if ((uint64_t)w > room) w = room;
    fval v = vals == 0 ? 0.0 : vals == 1 ? (fval)(i + 1) : gen_v(s);
    raw.push_back({p, (addr)((uint64_t)p + (uint64_t)w), v});
  }
  return reduce(raw);
}
// Pick an address regime.
inline Shape gen_shape(vp::Src &s, bool negative_ok) {
  Shape sh;
  switch (s.weighted({5, 3, 2, 1})) {
  case 0: sh.lo = 0; sh.hi = s.range(3, 40); break;
  case 1: sh.lo = 0; sh.hi = s.range(40, 2000); break;
  case 2: sh.lo = s.range(0, 1000000); sh.hi = sh.lo + (addr)s.range(10, 1ll << 40); break;
  default:
    if (negative_ok) {
      if (s.coin()) { sh.lo = minfinity + 2; sh.hi = maxfinity - 2; }
      else { sh.lo = -50; sh.hi = 50; }
    } else { sh.lo = 0; sh.hi = maxfinity - 2; }
  }
  return sh;
}

} // namespace ref
#endif
