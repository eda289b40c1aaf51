// Solver server: the z3 library loaded once, one forked process per query.
// z3srv <libz3.so> <listening socket fd> <liveness pipe fd>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
typedef void* Z;
static Z (*mk_config)();
static Z (*mk_context)(Z);
static void (*del_context)(Z);
static const char* (*eval)(Z, const char*);
static void (*on_error)(Z, void (*)(Z, int));
static void ignore(Z, int) {}
static bool put(int fd, const char* p, size_t n) {
  while (n) {
    ssize_t r = send(fd, p, n, MSG_NOSIGNAL);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    p += r;
    n -= r;
  }
  return true;
}
static Z ready;  // made before the fork, every query gets its own copy
static std::string run(const char* text) { return eval(ready, text); }
static void serve(int fd) {
  std::string in;
  char buf[65536];
  size_t head = std::string::npos;
  long ms = 0, len = 0, mb = 0;
  for (;;) {
    ssize_t r = recv(fd, buf, sizeof buf, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(0);
    in.append(buf, r);
    if (head == std::string::npos) {
      head = in.find('\n');
      if (head != std::string::npos) sscanf(in.c_str(), "%ld %ld %ld", &ms, &mb, &len);
    }
    if (head != std::string::npos && in.size() >= head + 1 + len) break;
  }
  std::string pid = std::to_string(getpid()) + "\n";
  if (!put(fd, pid.data(), pid.size())) _exit(0);
  itimerval it{};
  it.it_value.tv_sec = ms / 1000 + 1;
  setitimer(ITIMER_REAL, &it, nullptr);
  rlimit rl{(rlim_t)mb << 20, (rlim_t)mb << 20};
  setrlimit(RLIMIT_AS, &rl);
  std::string out = run(in.c_str() + head + 1);
  put(fd, out.data(), out.size());
  shutdown(fd, SHUT_RDWR);
  _exit(0);
}
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  const int ls = atoi(argv[2]), alive = atoi(argv[3]);
  void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) return 3;
  mk_config = (Z(*)())dlsym(h, "Z3_mk_config");
  mk_context = (Z(*)(Z))dlsym(h, "Z3_mk_context");
  del_context = (void (*)(Z))dlsym(h, "Z3_del_context");
  eval = (const char* (*)(Z, const char*))dlsym(h, "Z3_eval_smtlib2_string");
  on_error = (void (*)(Z, void (*)(Z, int)))dlsym(h, "Z3_set_error_handler");
  if (!mk_config || !mk_context || !del_context || !eval || !on_error) return 4;
  ready = mk_context(mk_config());
  on_error(ready, ignore);
  eval(ready, "(declare-const x Real)(assert (< (* 2.0 x) 1.0))(check-sat)(get-value (x))(reset)");
  signal(SIGCHLD, SIG_IGN);
  signal(SIGALRM, SIG_DFL);
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    pollfd p[2] = {{ls, POLLIN, 0}, {alive, POLLIN, 0}};
    if (poll(p, 2, -1) < 0) { if (errno == EINTR) continue; return 5; }
    if (p[1].revents) return 0;  // the exploration has ended
    if (!p[0].revents) continue;
    int fd = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd < 0) continue;
    pid_t c = fork();
    if (c == 0) { close(ls); serve(fd); }
    close(fd);
  }
}
