// C20: block text storage against a flat string.
#include "crash.h"
#ifndef __SANITIZE_ADDRESS__
#include "crash_impl.h"
#endif
#include <fstream>
#include "src/compressor.h"
#include "src/core.h"
#include "src/simple_txt_io.h"
#include "src/zlib_compressor.h"
#include "src/null_compressor.h"
#include "src/bad_compressor.h"
using namespace cottontail;
namespace {
std::string gen_text(vp::Src &s, addr chunk) {
  size_t n;
  switch (s.below(5)) {
  case 0: n = s.below(4); break;
  case 1: n = (size_t)(chunk * (addr)s.below(4) + (addr)s.below(3)); break;
  case 2: n = (size_t)s.below(chunk + 1); break;
  case 3: n = (size_t)s.mag(20000); break;
  default: n = s.below(200);
  }
  if (n > 30000) n = 30000;
  std::string t(n, 'x');
  if (s.coin()) { for (size_t i = 0; i < n; i++) t[i] = "abc \n"[(i * 7 + i / 11) % 5]; }
  else { uint64_t z = s.raw(); for (size_t i = 0; i < n; i++) { z = vp::mix(z, i); t[i] = (char)z; } }
  return t;
}
std::shared_ptr<Compressor> gen_compressor(vp::Src &s) {
  switch (s.below(3)) {
  case 0: return Compressor::make("null", "");
  case 1: return Compressor::make("zlib", "");
  default: return BadCompressor::make();
  }
}
addr gen_chunk(vp::Src &s) {
  switch (s.below(4)) {
  case 0: return 1 + (addr)s.below(4);
  case 1: return 1 + (addr)s.below(50);
  case 2: return 64 + (addr)s.below(2000);
  default: return 4096 + (addr)s.below(60000);
  }
}
struct Store {
  std::string contents, map;
  addr chunk;
  std::shared_ptr<Compressor> compressor;
  std::shared_ptr<SimpleTxtIO> open(vp::Ctx &c) const {
    std::string err;
    auto io = SimpleTxtIO::make(contents, map, chunk, compressor, &err);
    c.check_f(io != nullptr, [&] { return "open: " + err; });
    return io;
  }
};
void append(std::shared_ptr<SimpleTxtIO> io, std::string *model, const std::string &t) {
  std::unique_ptr<char[]> b(new char[t.size() + 1]);
  memcpy(b.get(), t.data(), t.size());
  io->append(b.get(), (addr)t.size());
  *model += t;
}
void read(vp::Src &s, vp::Ctx &c, std::shared_ptr<SimpleTxtIO> io, const std::string &model, addr chunk, const std::string &who) {
  addr n = (addr)model.size();
  c.check_f(io->size() == n, [&] { return vp::cat(who, ": size ", io->size(), " should be ", n); });
  addr start, want;
  switch (s.below(4)) {
  case 0: start = 0; break;
  case 1: start = (addr)s.below(n + 3); break;
  case 2: start = chunk * (addr)s.below(n / chunk + 2); break;
  default: start = n - (addr)s.below(n + 1);
  }
  switch (s.below(7)) {
  case 0: want = (addr)s.below(n + 3); break;
  case 1: want = chunk * (addr)s.below(n / chunk + 2); break;
  case 2: want = n; break;
  case 3: want = 0; break;
  case 4: want = maxfinity; break;
  case 5: want = n > start ? n - start : 1; break;
  default: want = (addr)s.below(20);
  }
  addr actual = -77;
  auto b = io->read(start, want, &actual);
  std::string expect = start < n ? model.substr(start, want) : "";
  c.check_f(actual == (addr)expect.size(), [&] { return vp::cat(who, ": read(", start, ", ", want, ") of ", n, " gives ", actual, " bytes, should be ", expect.size()); });
  if (expect.size()) {
    c.check(b != nullptr, who + ": no bytes");
    c.check_f(std::string(b.get(), actual) == expect, [&] {
      size_t i = 0;
      while (b.get()[i] == expect[i]) i++;
      return vp::cat(who, ": read(", start, ", ", want, ") of ", n, " differs at ", i);
    });
  }
}
void all(vp::Ctx &c, std::shared_ptr<SimpleTxtIO> io, const std::string &model, const std::string &who) {
  c.check_f(io->size() == (addr)model.size(), [&] { return vp::cat(who, ": size ", io->size(), " should be ", model.size()); });
  std::ostringstream o;
  io->dump(o);
  c.check_f(o.str() == model, [&] { return who + ": contents differ"; });
}
void history(vp::Src &s, vp::Ctx &c) {
  Store st{c.dir() + "/contents", c.dir() + "/map", gen_chunk(s), gen_compressor(s)};
  c.note(vp::cat("chunk ", st.chunk));
  std::string now, before;
  auto io = st.open(c);
  bool in = false, ready = false, lost = false;
  size_t txns = 0, reads = 0, chunks = 0;
  struct Reader { std::shared_ptr<SimpleTxtIO> io; std::string model; };
  std::vector<Reader> readers; // hold what they saw until more is written outside of a transaction they know of
  std::string err;
  for (size_t steps = 3 + s.len(60); steps--;) {
    switch (s.weighted({8, 12, 5, 3, 3, 2})) {
    case 0: { // append
      if (ready) break;
      std::string t = gen_text(s, st.chunk);
      if (now.size() + t.size() > 400000) break;
      if (!in) readers.clear(); // in place, unguarded
      append(io, &now, t);
      c.note(vp::cat("append ", t.size()));
      chunks = std::max(chunks, now.size() / st.chunk);
      break;
    }
    case 1:
      read(s, c, io, now, st.chunk, "writer");
      reads++;
      break;
    case 2: // transactions
      if (!in) {
        if (s.coin()) readers.clear();
        c.check_f(io->transaction(&err), [&] { return "transaction: " + err; });
        before = now;
        in = true;
        c.note("transaction");
        for (auto &r : readers) if (!r.io) r.io = nullptr;
        // a reader opened before holds a map that the writer may outdate
        readers.clear();
        auto other = st.open(c);
        c.check(!other->transaction(&err), "a second transaction at once was granted");
        txns++;
      } else if (!ready) {
        c.check_f(io->ready(&err), [&] { return "ready: " + err; });
        ready = true;
        c.note("ready");
      } else {
        io->commit();
        in = ready = false;
        c.note("commit");
      }
      break;
    case 3: // abort, or stop using it and recover
      if (!in) break;
      if (s.coin()) {
        io->abort();
        now = before;
        c.note("abort");
      } else {
        bool commit = ready && s.coin();
        io = nullptr;
        for (size_t k = 1 + s.below(2); k--;) SimpleTxtIO::recover(st.contents, st.map, st.chunk, st.compressor, commit);
        if (!commit) now = before;
        io = st.open(c);
        c.note(commit ? "recover, commit" : "recover");
      }
      in = ready = false;
      all(c, io, now, "after the transaction");
      break;
    case 4: { // another reader
      if (in) { // sees what was there before
        auto o = st.open(c);
        readers.push_back({o, before});
        if (s.coin()) { auto k = o->clone(&err); c.check_f(k != nullptr, [&] { return "clone: " + err; }); readers.push_back({k, before}); }
        c.check(io->clone(&err) == nullptr, "cloned in a transaction");
        c.note("reader during transaction");
      } else if (readers.size() < 8) {
        auto o = io;
        if (s.coin()) { io->flush(); o = st.open(c); }
        auto k = o->clone(&err);
        c.check_f(k != nullptr, [&] { return "clone: " + err; });
        readers.push_back({k, now});
        if (s.coin()) { k = k->clone(&err); c.check_f(k != nullptr, [&] { return "clone: " + err; }); readers.push_back({k, now}); }
        c.note("clone");
      }
      break;
    }
    default: // reopen
      if (in) break;
      readers.clear();
      io = nullptr;
      io = st.open(c);
      all(c, io, now, "reopened");
      c.note("reopen");
    }
    if (readers.size()) { auto &r = readers[s.below(readers.size())]; read(s, c, r.io, r.model, st.chunk, "reader"); }
  }
  (void)lost;
  if (in) { if (s.coin()) { io->abort(); now = before; } else { c.check(io->ready(&err), err); io->commit(); } }
  all(c, io, now, "at the end");
  io = nullptr;
  all(c, st.open(c), now, "reopened at the end");
  c.nontrivial(txns > 0 && chunks > 1 && reads > 2);
}
#ifndef __SANITIZE_ADDRESS__
// The process stops during a transaction; recovering gives what was before,
// or what is after if it was ready.
void stopped(vp::Src &s, vp::Ctx &c) {
  std::string dir = c.dir() + "/d";
  mkdir(dir.c_str(), 0700);
  Store st{dir + "/contents", dir + "/map", gen_chunk(s), gen_compressor(s)};
  std::string now;
  { auto io = st.open(c); for (size_t i = s.below(4); i--;) append(io, &now, gen_text(s, st.chunk)); }
  bool any = false;
  for (size_t rounds = 1 + s.below(3); rounds--;) {
    std::string after = now;
    std::vector<std::string> ts;
    for (size_t i = s.below(5); i--;) { ts.push_back(gen_text(s, st.chunk)); after += ts.back(); }
    bool mid = s.coin();
    bool give_up = s.chance(1, 4);
    auto mode = (crash::Mode)(crash::STOP + s.below(4));
    auto work = [&] {
      std::string err, x = now;
      auto io = st.open(c);
      if (!io->transaction(&err)) { c.check(mode >= crash::FAIL_ONE, "transaction: " + err); c.check(err.size(), "transaction failed without an error"); return; }
      for (auto &t : ts) {
        append(io, &x, t);
        if (mid) { addr n; io->read(0, 10, &n); }
      }
      if (give_up) { if (mid) io->abort(); return; }
      if (!io->ready(&err)) { c.check(mode >= crash::FAIL_ONE, "ready: " + err); c.check(err.size(), "ready failed without an error"); io->abort(); return; }
      crash::shared()->v[0] = 1;
      crash::shared()->v[1] = 1; // from here on it can only be committed
      io->commit();
    };
    long at = 1 + (long)s.below(12 + 3 * (after.size() - now.size()) / std::max<addr>(st.chunk, 1));
    auto o = crash::child(c, dir + "/", mode, at, work);
    c.note(vp::cat("chunk ", st.chunk, ", ", now.size(), " bytes to ", after.size(), ", mode ", (int)mode, " at ", at, " of ", o.ops, o.stopped ? "" : " (not reached)"));
    c.check_f(o.ok || o.stopped || (mode >= crash::FAIL_ONE && o.died && o.message.find("signal 6:") != std::string::npos), [&] { return o.message; });
    if (o.died) c.label("gave up");
    bool ready = crash::shared()->v[0], done = crash::shared()->v[1];
    any = any || o.stopped || (mode >= crash::FAIL_ONE && o.ops >= at);
    bool commit = done || (ready && s.coin());
    for (int k = s.coin() ? 1 : 0; k >= 0; k--) { // recovery may be stopped as well
      auto r = crash::child(c, dir + "/", k && mode < crash::FAIL_ONE ? mode : crash::COUNT, 1 + (long)s.below(12), [&] { SimpleTxtIO::recover(st.contents, st.map, st.chunk, st.compressor, commit); });
      c.check_f(r.ok || r.stopped, [&] { return "recover: " + r.message; });
    }
    if (commit) now = after;
    all(c, st.open(c), now, commit ? "recovered to after" : "recovered to before");
    read(s, c, st.open(c), now, st.chunk, "recovered");
  }
  auto io = st.open(c);
  append(io, &now, gen_text(s, st.chunk));
  all(c, io, now, "used again");
  c.nontrivial(any);
}
#endif
} // namespace
int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C20";
  sp.level = "fault_enumeration";
  sp.rule = "Histories of appends (lengths around multiples of the block size; compressible or not), reads of random ranges, transactions committed, aborted, recovered, clones and readers opened before and during transactions, reopening, for random block sizes (1 byte to 64 kB) and compressors, against a flat string; and transactions stopped at a random file-system operation or with one or all further ones failing, recovered (perhaps stopped as well) and compared. Non-trivial: more than two blocks, a transaction and reads; or really stopped.";
  sp.assumptions = {"nothing is appended outside of a transaction while other readers of the same files are open", "a stop ends the process; the operating system keeps what was written"};
  sp.subs = {{"history", 15000, 150000, history, 60, false, true}};
#ifndef __SANITIZE_ADDRESS__
  sp.subs.push_back({"stopped", 8000, 100000, stopped, 60, false, true});
#endif
  return vp::run(argc, argv, sp);
}
