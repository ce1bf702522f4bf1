// Stopping a process at a chosen file-system operation, or making a chosen one
// fail.  The harness executable interposes the C library's file-changing calls
// (crash.cc); only operations below a chosen directory count.
#ifndef VERIF_HARNESS_CRASH_H_
#define VERIF_HARNESS_CRASH_H_
#include <functional>
#include <string>
#include "vp.h"
namespace crash {
enum Mode { COUNT, STOP, STOP_HALF, FAIL_ONE, FAIL_FROM };
// Start counting operations below prefix; the at-th (from 1) is the chosen one.
// STOP: the process ends just before it; STOP_HALF: a write is half done first;
// FAIL_ONE: it fails with "no space"; FAIL_FROM: it and all that follow do.
void arm(const std::string &prefix, Mode mode, long at);
void disarm();
long count();
constexpr int STOPPED = 99; // exit status of a stopped process

// A page shared with child processes.
struct Shared {
  volatile long v[512];
  volatile long ops;
  char message[8192];
};
Shared *shared(); // one per process, reset by child()

struct Outcome {
  bool ok = false;      // returned normally
  bool stopped = false; // at the chosen operation
  bool failed = false;  // a check failed: message
  bool died = false;    // signal, such as an abort: message
  std::string message;
  long ops = 0;
};
// Run f in a child process; it ends with _exit, as if killed.
Outcome child(vp::Ctx &c, const std::string &prefix, Mode mode, long at, const std::function<void()> &f, unsigned timeout_s = 60);
} // namespace crash
#endif
