// Small property-based testing runtime.
//
// A property is a function of a choice source.  Every random decision is drawn
// from the source, so a case *is* its sequence of choices: it can be replayed,
// stored, and shrunk by deleting and lowering choices, without a shrinker per
// type.  Cases run in forked workers, so that an abort, a crash or a hang of
// the code under test is an observation like any other.
#ifndef VERIF_HARNESS_VP_H_
#define VERIF_HARNESS_VP_H_

#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct Failure : public std::runtime_error {
  explicit Failure(const std::string &m) : std::runtime_error(m) {}
};
struct Discard {};

// Shared-memory record of the choices made so far in the current case.
struct Tape {
  static constexpr size_t CAP = 1u << 20;
  volatile uint64_t index;   // case number
  volatile uint64_t started; // ms clock, 0 when idle
  volatile uint64_t n;       // choices recorded
  volatile uint64_t sub;     // sub-property number
  uint64_t v[CAP];
};

class Src {
public:
  Src(uint64_t seed, size_t size, Tape *tape)
      : state_(seed), size_(size), tape_(tape), replay_(false) {
    if (tape_) tape_->n = 0;
  }
  Src(const std::vector<uint64_t> &choices, size_t size, Tape *tape)
      : state_(0), size_(size), tape_(tape), replay_(true), in_(choices) {
    if (tape_) tape_->n = 0;
  }
  // Uniform in [0, n); 0 is the simplest choice.
  uint64_t below(uint64_t n) {
    uint64_t x;
    if (replay_) {
      x = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (n) x %= n;
    } else {
      x = next();
      if (n) x = (uint64_t)(((unsigned __int128)x * n) >> 64);
    }
    record(x);
    return x;
  }
  uint64_t raw() { return below(0); }
  // Inclusive range, lo simplest.
  int64_t range(int64_t lo, int64_t hi) {
    return (int64_t)((uint64_t)lo + below((uint64_t)hi - (uint64_t)lo + 1));
  }
  // False is simplest.
  bool chance(unsigned num, unsigned den) {
    return below(den) >= den - num;
  }
  bool coin() { return below(2) == 1; }
  // "another element?" with the given expected count; deleting it shrinks.
  bool more(double avg) {
    uint64_t den = 1000;
    uint64_t num = (uint64_t)(1000.0 * avg / (avg + 1.0));
    return below(den) >= den - num;
  }
  // Length in [0, max], biased to small and scaled by the case size.
  size_t len(size_t max) {
    size_t m = max * size_ / 100 + 1;
    if (m > max) m = max;
    switch (below(4)) {
    case 0: return below(m < 3 ? m + 1 : 4);
    case 1: return below(m / 4 + 1);
    default: return below(m + 1);
    }
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // index picked with weights; index 0 simplest
  size_t weighted(const std::vector<unsigned> &w) {
    uint64_t t = 0;
    for (auto x : w) t += x;
    uint64_t r = below(t);
    for (size_t i = 0; i < w.size(); i++) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return w.size() - 1;
  }
  // magnitude-biased integer in [0, max]
  uint64_t mag(uint64_t max) {
    unsigned bits = 0;
    while (bits < 64 && (max >> bits)) bits++;
    unsigned b = below(bits + 1);
    if (b == 0) return 0;
    uint64_t hi = b >= 64 ? ~0ull : ((1ull << b) - 1);
    if (hi > max) hi = max;
    return hi == ~0ull ? below(0) : below(hi + 1);
  }
  size_t size() const { return size_; }
  uint64_t hash() const { return h_; }
  size_t drawn() const { return drawn_; }

private:
  uint64_t next() {
    uint64_t z = (state_ += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void record(uint64_t x) {
    h_ = (h_ ^ x) * 0x100000001b3ull;
    h_ ^= h_ >> 29;
    drawn_++;
    if (tape_) {
      uint64_t n = tape_->n;
      if (n < Tape::CAP) {
        tape_->v[n] = x;
        tape_->n = n + 1;
      }
    }
  }
  uint64_t state_;
  size_t size_;
  Tape *tape_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t h_ = 0xcbf29ce484222325ull;
  size_t drawn_ = 0;
};

class Ctx {
public:
  Ctx(const std::string &dir, bool verbose, bool want)
      : dir_(dir), verbose_(verbose), want_(want) {}
  [[noreturn]] void fail(const std::string &m) { throw Failure(m); }
  void check(bool ok, const std::string &m) {
    if (!ok) throw Failure(m);
  }
  template <class F> void check_f(bool ok, F f) {
    if (!ok) throw Failure(f());
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string &l, uint64_t n = 1) { labels_[l] += n; }
  // Case description for evidence and replays.
  bool want() const { return verbose_ || want_; }
  void note(const std::string &s) {
    if (want() && notes_.size() < 6000) notes_ += s + "\n";
    if (verbose_) fputs((s + "\n").c_str(), stderr);
  }
  template <class F> void note_f(F f) {
    if (want() && (verbose_ || notes_.size() < 6000)) note(f());
  }
  const std::string &dir() const { return dir_; } // private empty scratch dir
  void known(const std::string &id) { known_[id]++; }
  bool verbose() const { return verbose_; }

  std::string dir_;
  bool verbose_, want_;
  bool nontrivial_ = false;
  std::string notes_;
  std::map<std::string, uint64_t> labels_;
  std::map<std::string, uint64_t> known_;
};

using Fn = std::function<void(Src &, Ctx &)>;
struct Sub {
  std::string name;
  uint64_t quick, thorough; // number of cases
  Fn fn;
  unsigned timeout_s = 60; // per case
  bool racy = false;       // outcome may depend on thread timing
  bool needs_dir = false;
  unsigned max_jobs = 8;
  unsigned quick_cap_s = 0; // optional wall cap for this sub (quick tier)
};
struct Spec {
  std::string property;
  std::string level; // exploration | fault_enumeration
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
  // directed demonstration of listed known findings: id -> still fails?
  std::map<std::string, std::function<bool(Ctx &)>> findings;
};

int run(int argc, char **argv, const Spec &spec);

// helpers
std::string hex(const std::string &s, size_t max = 200);
std::string show(const std::string &s, size_t max = 400);
bool rm_tree(const std::string &dir); // only below the runner's scratch root
uint64_t mix(uint64_t a, uint64_t b);

template <class... A> std::string cat(const A &...a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}

} // namespace vp
#endif
