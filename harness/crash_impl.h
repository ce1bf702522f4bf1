#include "crash.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace crash {
namespace {
std::atomic<bool> armed{false};
std::atomic<long> ops{0};
char prefix_[4096];
size_t prefix_n = 0;
Mode mode_ = COUNT;
long at_ = 0;
std::atomic<unsigned char> ours[4096];
Shared *shm = nullptr;

bool below(const char *p) { return armed.load() && p != nullptr && strncmp(p, prefix_, prefix_n) == 0; }
enum Act { GO, HALF, ERR };
Act tick(bool data = false) {
  long n = ++ops;
  if (shm) __atomic_store_n(&shm->ops, n, __ATOMIC_RELAXED);
  switch (mode_) {
  case COUNT: return GO;
  case STOP:
    if (n == at_) _exit(STOPPED);
    return GO;
  case STOP_HALF:
    if (n == at_) { if (data) return HALF; _exit(STOPPED); }
    return GO;
  case FAIL_ONE: return n == at_ ? ERR : GO;
  case FAIL_FROM: return n >= at_ ? ERR : GO;
  }
  return GO;
}
template <class F> F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
bool fd_ours(int fd) { return armed.load() && fd >= 0 && fd < 4096 && ours[fd].load(); }
void own(int fd, bool yes) { if (fd >= 0 && fd < 4096) ours[fd] = yes; }
} // namespace

void arm(const std::string &prefix, Mode mode, long at) {
  armed = false;
  prefix_n = std::min(prefix.size(), sizeof(prefix_) - 1);
  memcpy(prefix_, prefix.data(), prefix_n);
  prefix_[prefix_n] = 0;
  mode_ = mode;
  at_ = at;
  ops = 0;
  armed = true;
}
void disarm() { armed = false; }
long count() { return ops; }
Shared *shared() {
  if (!shm) {
    shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) abort();
  }
  return shm;
}

Outcome child(vp::Ctx &c, const std::string &prefix, Mode mode, long at, const std::function<void()> &f, unsigned timeout_s) {
  Shared *s = shared();
  memset((void *)s, 0, sizeof(*s));
  fflush(stdout);
  fflush(stderr);
  std::string log = c.dir() + "/child.err";
  pid_t pid = fork();
  if (pid < 0) throw vp::Discard();
  if (pid == 0) {
    alarm(timeout_s);
    if (!c.verbose()) {
      int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (fd >= 0) dup2(fd, 2);
    }
    int rc = 0;
    try {
      arm(prefix, mode, at);
      f();
      disarm();
    } catch (const vp::Failure &e) {
      disarm();
      snprintf(s->message, sizeof(s->message), "%s", e.what());
      rc = 98;
    } catch (const std::exception &e) {
      disarm();
      snprintf(s->message, sizeof(s->message), "exception: %s", e.what());
      rc = 97;
    }
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.ops = s->ops;
  o.message = s->message;
  auto said = [&] {
    std::string text;
    if (FILE *e = fopen(log.c_str(), "r")) {
      char b[6000];
      size_t n = fread(b, 1, sizeof(b) - 1, e);
      text.assign(b, n);
      fclose(e);
    }
    return text;
  };
  if (WIFEXITED(st)) {
    int rc = WEXITSTATUS(st);
    o.ok = rc == 0;
    o.stopped = rc == STOPPED;
    o.failed = rc == 98;
    o.died = !o.ok && !o.stopped && !o.failed;
    if (o.died && rc != 97) o.message = vp::cat("exit status ", rc, ": ", said());
  } else {
    o.died = true;
    o.message = vp::cat(WTERMSIG(st) == SIGALRM ? "no answer within its time: " : "killed by signal ", WTERMSIG(st), ": ", said().substr(0, 1500));
  }
  return o;
}
} // namespace crash

using namespace crash;
extern "C" {
int link(const char *a, const char *b) noexcept {
  static auto f = next<int (*)(const char *, const char *)>("link");
  if (below(b) && tick() == ERR) { errno = ENOSPC; return -1; }
  return f(a, b);
}
int unlink(const char *a) noexcept {
  static auto f = next<int (*)(const char *)>("unlink");
  if (below(a) && tick() == ERR) { errno = EIO; return -1; }
  return f(a);
}
int remove(const char *a) noexcept {
  static auto f = next<int (*)(const char *)>("remove");
  if (below(a) && tick() == ERR) { errno = EIO; return -1; }
  return f(a);
}
int rename(const char *a, const char *b) noexcept {
  static auto f = next<int (*)(const char *, const char *)>("rename");
  if (below(b) && tick() == ERR) { errno = ENOSPC; return -1; }
  return f(a, b);
}
int truncate(const char *a, off_t n) noexcept {
  static auto f = next<int (*)(const char *, off_t)>("truncate");
  if (below(a) && tick() == ERR) { errno = EIO; return -1; }
  return f(a, n);
}
int truncate64(const char *a, off64_t n) noexcept {
  static auto f = next<int (*)(const char *, off64_t)>("truncate64");
  if (below(a) && tick() == ERR) { errno = EIO; return -1; }
  return f(a, n);
}
int chmod(const char *a, mode_t m) noexcept {
  static auto f = next<int (*)(const char *, mode_t)>("chmod");
  if (below(a) && tick() == ERR) { errno = EIO; return -1; }
  return f(a, m);
}
static FILE *opened(const char *name, const char *path, const char *mode) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = next<F>("fopen"), f64 = next<F>("fopen64");
  bool mine = below(path), changes = strchr(mode, 'w') || strchr(mode, 'a');
  if (mine && changes && tick() == ERR) { errno = ENOSPC; return nullptr; }
  FILE *r = (strcmp(name, "fopen") ? f64 : f)(path, mode);
  if (r) own(fileno(r), mine);
  return r;
}
FILE *fopen(const char *path, const char *mode) { return opened("fopen", path, mode); }
FILE *fopen64(const char *path, const char *mode) { return opened("fopen64", path, mode); }
static int opened_fd(const char *name, const char *path, int flags, mode_t m) {
  typedef int (*F)(const char *, int, ...);
  F f = next<F>(name);
  bool mine = below(path), changes = flags & (O_CREAT | O_TRUNC);
  if (mine && changes && tick() == ERR) { errno = ENOSPC; return -1; }
  int r = f(path, flags, m);
  if (r >= 0) own(r, mine);
  return r;
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = flags & O_CREAT ? va_arg(ap, int) : 0;
  va_end(ap);
  return opened_fd("open", path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = flags & O_CREAT ? va_arg(ap, int) : 0;
  va_end(ap);
  return opened_fd("open64", path, flags, m);
}
ssize_t write(int fd, const void *b, size_t n) {
  static auto f = next<ssize_t (*)(int, const void *, size_t)>("write");
  if (fd_ours(fd)) switch (tick(true)) {
    case ERR: errno = ENOSPC; return -1;
    case HALF: { ssize_t r = f(fd, b, n / 2); (void)r; _exit(STOPPED); }
    default: break;
    }
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  static auto f = next<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (fd_ours(fd)) switch (tick(true)) {
    case ERR: errno = ENOSPC; return -1;
    case HALF: { ssize_t r = f(fd, v, n > 1 ? n - 1 : n); (void)r; _exit(STOPPED); }
    default: break;
    }
  return f(fd, v, n);
}
// A shell command that names the directory.  A commit script runs command by
// command, so that the stop can come between any two.
int system(const char *cmd) {
  static auto f = next<int (*)(const char *)>("system");
  if (!armed.load() || cmd == nullptr || strstr(cmd, prefix_) == nullptr) return f(cmd);
  std::string s = cmd;
  if (s.size() > 5 && s[0] == '\'' && s.compare(s.size() - 4, 4, ".sh'") == 0) {
    std::string path = s.substr(1, s.size() - 2), all, command;
    FILE *in = fopen(path.c_str(), "r");
    if (in) {
      char b[4096];
      size_t n;
      while ((n = fread(b, 1, sizeof b, in)) > 0) all.append(b, n);
      fclose(in);
      int rc = 0;
      bool quoted = false;
      if (access(path.c_str(), X_OK) != 0) return f(cmd);
      for (size_t i = 0; i <= all.size(); i++) {
        char ch = i < all.size() ? all[i] : '\n';
        if (ch == '\'') quoted = !quoted;
        if (!quoted && (ch == '\n' || ch == ';')) {
          size_t b0 = command.find_first_not_of(" \t");
          if (b0 != std::string::npos && command[b0] != '#') {
            if (tick() == ERR) return 256;
            rc = f(command.c_str());
          }
          command = "";
        } else command += ch;
      }
      return rc;
    }
  }
  if (tick() == ERR) return 256;
  return f(cmd);
}
}
