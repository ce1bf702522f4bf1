#include "c16.h"

int main(int argc, char **argv) {
  vp::Spec sp;
  sp.property = "C16";
  sp.level = "fault_enumeration";
  sp.rule = "Random histories of interleaved transactions by up to 3 writers (text, annotations, erasures; commits, joint commits, aborts) run in a child process that ends at a chosen file-system operation (open for writing, write or half a write, link, remove, rename, truncate, chmod, shell command) or has it fail with no space from then on; reopening may itself be stopped, up to twice; the index must then hold exactly the transactions whose commit returned, and an unfinished commit whole or not at all, by enumeration, probes and text; then it is used again. Non-trivial: the process was stopped and something was committed.";
  sp.assumptions = {"a stop ends the process; the operating system keeps what was written", "operations can fail only up to commit, which has no way to report it", "one process uses the index at a time"};
  sp.subs = {{"commits", 1500, 60000, commits, 120, false, true},
             {"merging", 500, 12000, merging, 120, true, true},
             {"offline", 700, 30000, offline, 120, false, true},
             {"faults", 600, 20000, faults, 120, false, true}};
  return vp::run(argc, argv, sp);
}
