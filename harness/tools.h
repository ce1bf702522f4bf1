// Running the command-line tools that check.py built (VP_APPS).
#ifndef VERIF_HARNESS_TOOLS_H_
#define VERIF_HARNESS_TOOLS_H_
#include <csignal>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include "files.h"
namespace tools {
struct Run {
  int rc = 0; // exit status, or 256 and the signal
  std::string out, err;
};
struct How {
  std::string cwd;
  long limit = -1;      // most bytes a file may grow to
  bool killed = false;  // and what happens when one would grow further: ended, or the write fails
};
inline std::string path(const std::string &tool) {
  const char *d = getenv("VP_APPS");
  if (!d) throw std::runtime_error("harness: VP_APPS is not set");
  return std::string(d) + "/" + tool;
}
inline pid_t spawn(const std::string &tool, const std::vector<std::string> &args, const How &how, int out, int err) {
  std::string program = path(tool);
  std::vector<char *> argv;
  argv.push_back((char *)program.c_str());
  for (auto &a : args) argv.push_back((char *)a.c_str());
  argv.push_back(nullptr);
  int null = open("/dev/null", O_RDONLY);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(null, 0);
    dup2(out, 1);
    dup2(err, 2);
    if (how.cwd.size() && chdir(how.cwd.c_str()) != 0) _exit(126);
    if (how.limit >= 0) {
      struct rlimit r = {(rlim_t)how.limit, (rlim_t)how.limit};
      setrlimit(RLIMIT_FSIZE, &r);
      struct rlimit z = {0, 0};
      setrlimit(RLIMIT_CORE, &z);
      signal(SIGXFSZ, how.killed ? SIG_DFL : SIG_IGN);
    }
    execv(program.c_str(), argv.data());
    _exit(127);
  }
  close(null);
  return pid;
}
inline std::string line(const std::string &tool, const std::vector<std::string> &args) {
  std::string o = tool;
  for (auto &a : args) o += " '" + vp::show(a, 100) + "'";
  return o;
}
inline Run run(vp::Ctx &c, const std::string &tool, const std::vector<std::string> &args, const How &how = How()) {
  // the output is limited like any other file, so it goes through pipes
  c.note_f([&] { return line(tool, args) + (how.limit >= 0 ? vp::cat("  (files of at most ", how.limit, " bytes, ", how.killed ? "killed" : "failing", ")") : ""); });
  int po[2], pe[2];
  if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw std::runtime_error("harness: pipe");
  Run r;
  pid_t pid = spawn(tool, args, how, po[1], pe[1]);
  close(po[1]);
  close(pe[1]);
  fcntl(po[0], F_SETFL, O_NONBLOCK);
  fcntl(pe[0], F_SETFL, O_NONBLOCK);
  bool oo = true, eo = true;
  time_t t0 = time(nullptr);
  while (oo || eo) {
    fd_set f;
    FD_ZERO(&f);
    if (oo) FD_SET(po[0], &f);
    if (eo) FD_SET(pe[0], &f);
    struct timeval tv = {1, 0};
    select(std::max(po[0], pe[0]) + 1, &f, nullptr, nullptr, &tv);
    auto drain = [&](int fd, std::string *to, bool *open) {
      char b[65536];
      for (;;) {
        ssize_t n = read(fd, b, sizeof b);
        if (n > 0) to->append(b, (size_t)n);
        else { if (n == 0) *open = false; break; }
      }
    };
    if (oo) drain(po[0], &r.out, &oo);
    if (eo) drain(pe[0], &r.err, &eo);
    if (time(nullptr) - t0 > 90) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      close(po[0]);
      close(pe[0]);
      c.fail(line(tool, args) + " did not finish within 90 s");
    }
  }
  close(po[0]);
  close(pe[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
  if (r.rc == 127 || r.rc == 126) throw std::runtime_error("harness: cannot run " + tool);
  if (c.verbose()) fprintf(stderr, "  -> %d %s\n", r.rc, vp::show(r.err, 300).c_str());
  return r;
}
inline void ends(vp::Ctx &c, const Run &r, bool well, const std::string &what) { // as a program that noticed
  c.check_f(r.rc < 256, [&] { return vp::cat(what, ": ended by signal ", r.rc - 256, ": ", vp::show(r.err, 300)); });
  c.check_f(well == (r.rc == 0), [&] { return vp::cat(what, ": exit status ", r.rc, ": ", vp::show(r.err, 300)); });
}
} // namespace tools
#endif
