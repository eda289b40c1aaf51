// Cooperative scheduler: every thread of the code under test is a fiber of one
// thread, and every operation through which threads can influence each other
// (mutexes, condition variables, futures, atomics, thread start/join, sleeping)
// is a place where a switch may happen.  Where the switches happen is a symbolic
// variable; time is virtual.  The std:: types themselves are the real ones: what
// is replaced is the pthread/futex/clock layer underneath them.
#pragma once
#include "sym.h"
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <errno.h>
#include <future>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <time.h>
#include <ucontext.h>
#include <vector>
namespace sched {
enum St { RUN, BLOCKED, SLEEP, DONE };
struct Fiber {
  ucontext_t ctx;
  St st = RUN;
  const void* on = nullptr;  // what it is blocked on
  long wake = -1;            // virtual ns, -1: never
  bool timed_out = false, stopped = false;
  long seq = 0;
  void* (*fn)(void*) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  unsigned long cur_prio = 0;
};
struct Mx { int owner = -1, depth = 0; int readers = 0; };
struct State {
  std::vector<Fiber*> f;
  std::map<const void*, Mx> mx;
  std::map<const void*, int> once;
  int cur = 0;
  long now = 1000000000L, limit = 0, seq = 0;
  bool on = false, busy = false;
  int budget = 0, used = 0;
  long since = 0, total = 0, switches = 0;
  double gap = 0;
  void (*on_deadlock)(const char*) = nullptr;
};
inline State& S() {
  static State* s = [] { auto* x = new State; x->f.push_back(new Fiber); return x; }();
  return *s;
}
inline void fail(const char* id) {
  S().busy = true;
  sym_assert(0, id);
  sym_end();
}
inline void go(int n) {
  State& s = S();
  if (n == s.cur) return;
  int o = s.cur;
  s.cur = n;
  ++s.switches;
  swapcontext(&s.f[o]->ctx, &s.f[n]->ctx);
}
// the current fiber cannot go on: pick another one
inline void yield_blocked() {
  State& s = S();
  for (;;) {
    std::vector<int> r;
    for (size_t i = 0; i < s.f.size(); ++i)
      if (s.f[i]->st == RUN) r.push_back((int)i);
    if (r.empty()) {  // nobody is ready: let time pass
      int best = -1;
      for (size_t i = 0; i < s.f.size(); ++i) {
        Fiber* x = s.f[i];
        if (x->wake < 0 || (x->st != SLEEP && x->st != BLOCKED)) continue;
        if (best < 0 || x->wake < s.f[best]->wake || (x->wake == s.f[best]->wake && x->seq < s.f[best]->seq)) best = (int)i;
      }
      if (best < 0) fail("no-deadlock");
      Fiber* x = s.f[best];
      if (x->wake > s.now) s.now = x->wake;
      if (s.limit && s.now > s.limit) fail("calls-terminate");
      if (x->st == BLOCKED) x->timed_out = true;
      x->st = RUN;
      x->wake = -1;
      x->on = nullptr;
      continue;
    }
    int k = 0;
    if (r.size() > 1 && s.on) {
      s.busy = true;
      k = sym_choice("next", (int)r.size());
      s.busy = false;
    }
    if (r[k] == s.cur) return;
    go(r[k]);
    return;  // resumed: somebody made us runnable and chose us
  }
}
inline void block(const void* on, long wake = -1) {
  Fiber* f = S().f[S().cur];
  f->st = BLOCKED;
  f->on = on;
  f->wake = wake;
  f->timed_out = false;
  f->seq = ++S().seq;
  while (f->st != RUN) yield_blocked();
}
inline void sleep_ns(long d) {
  State& s = S();
  Fiber* f = s.f[s.cur];
  f->st = SLEEP;
  f->wake = s.now + (d > 0 ? d : 0);
  f->seq = ++s.seq;
  while (f->st != RUN) yield_blocked();
}
inline void wake_all(const void* on) {
  for (auto* x : S().f)
    if (x->st == BLOCKED && x->on == on) { x->st = RUN; x->on = nullptr; x->wake = -1; }
}
inline void wake_one(const void* on) {
  Fiber* b = nullptr;
  for (auto* x : S().f)
    if (x->st == BLOCKED && x->on == on && (!b || x->seq < b->seq)) b = x;
  if (b) { b->st = RUN; b->on = nullptr; b->wake = -1; }
}
// a place where the scheduler may switch although the fiber could go on
inline void point() {
  State& s = S();
  if (!s.on || s.busy || s.used >= s.budget) return;
  std::vector<int> r;
  for (size_t i = 0; i < s.f.size(); ++i)
    if ((int)i != s.cur && (s.f[i]->st == RUN || s.f[i]->st == SLEEP)) r.push_back((int)i);
  if (r.empty()) return;
  s.busy = true;
  ++s.total;
  const bool pre = s.gap < (double)(++s.since);
  int k = 0;
  if (pre) {
    ++s.used;
    s.since = 0;
    if (s.used < s.budget) s.gap = sym_double("gap", 0, 100000);
    if (r.size() > 1) k = sym_choice("to", (int)r.size());
  }
  s.busy = false;
  if (!pre) return;
  Fiber* x = s.f[r[k]];
  if (x->st == SLEEP) {  // the running thread is slow: time passes
    if (x->wake > s.now) s.now = x->wake;
    x->st = RUN;
    x->wake = -1;
  }
  go(r[k]);
}
inline void begin(int budget) {
  State& s = S();
  s.on = true;
  s.budget = budget;
  if (budget) s.gap = sym_double("gap", 0, 100000);
}
// from here on so many preemptions
inline void allow(int budget) {
  State& s = S();
  s.used = 0;
  s.since = 0;
  s.budget = budget;
  if (budget) s.gap = sym_double("gap", 0, 100000);
}
inline void end() { S().on = false; }
inline void entry() {
  State& s = S();
  Fiber* f = s.f[s.cur];
  f->ret = f->fn(f->arg);
  f->st = DONE;
  wake_all(f);
  for (;;) yield_blocked();
}
inline int spawn(void* (*fn)(void*), void* arg) {
  State& s = S();
  Fiber* f = new Fiber;
  const size_t sz = 1 << 20;
  void* st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = st;
  f->ctx.uc_stack.ss_size = sz;
  f->ctx.uc_link = nullptr;
  f->fn = fn;
  f->arg = arg;
  makecontext(&f->ctx, (void (*)())entry, 0);
  s.f.push_back(f);
  return (int)s.f.size() - 1;
}
inline int live() {
  int n = 0;
  for (auto* x : S().f) n += x->st != DONE;
  return n;
}
inline int mlock(const void* m, bool recursive) {
  State& s = S();
  point();
  for (;;) {
    Mx& x = s.mx[m];
    if (x.owner < 0 && x.readers == 0) { x.owner = s.cur; x.depth = 1; return 0; }
    if (x.owner == s.cur && recursive) { ++x.depth; return 0; }
    block(m);
  }
}
inline int munlock(const void* m) {
  Mx& x = S().mx[m];
  if (x.owner >= 0 && --x.depth > 0) return 0;
  x.owner = -1;
  wake_all(m);
  return 0;
}
inline long abs_ns(const timespec* t) { return t->tv_sec * 1000000000L + t->tv_nsec; }
inline int cwait(const void* c, pthread_mutex_t* m, long until) {
  point();
  munlock(m);
  block(c, until);
  bool to = S().f[S().cur]->timed_out;
  for (;;) {
    Mx& x = S().mx[m];
    if (x.owner < 0) { x.owner = S().cur; x.depth = 1; break; }
    block(m);
  }
  return to ? ETIMEDOUT : 0;
}
}  // namespace sched
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) throw() { return sched::mlock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); }
int pthread_mutex_trylock(pthread_mutex_t* m) throw() {
  sched::point();
  auto& x = sched::S().mx[m];
  if (x.owner >= 0) return EBUSY;
  x.owner = sched::S().cur; x.depth = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) throw() { return sched::munlock(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) throw() { return sched::mlock(m, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) throw() {
  sched::point();
  while (sched::S().mx[m].owner >= 0) sched::block(m);
  ++sched::S().mx[m].readers;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) throw() {
  auto& x = sched::S().mx[m];
  if (x.owner >= 0) return sched::munlock(m);
  if (--x.readers == 0) sched::wake_all(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return sched::cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return sched::cwait(c, m, sched::abs_ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return sched::cwait(c, m, sched::abs_ns(t)); }
int pthread_cond_signal(pthread_cond_t* c) throw() { sched::point(); sched::wake_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) throw() { sched::point(); sched::wake_all(c); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  for (;;) {
    int& st = sched::S().once[o];
    if (st == 2 || *o == 2) return 0;
    if (st == 0) break;
    sched::block(o);
  }
  sched::S().once[o] = 1;
  struct G {
    pthread_once_t* o;
    bool ok = false;
    ~G() { sched::S().once[o] = ok ? 2 : 0; if (ok) *(int*)o = 2; sched::wake_all(o); if (ok) sched::S().once.erase(o); }
  } g{o};
  fn();
  g.ok = true;
  return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) throw() {
  int n = sched::spawn(fn, arg);
  *t = (pthread_t)(n + 1);
  sched::point();
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  sched::Fiber* f = sched::S().f[(int)t - 1];
  sched::point();
  while (f->st != sched::DONE) sched::block(f);
  if (r) *r = f->ret;
  return 0;
}
int pthread_detach(pthread_t) throw() { return 0; }
int nanosleep(const timespec* a, timespec*) { sched::sleep_ns(sched::abs_ns(a)); return 0; }
int clock_nanosleep(clockid_t, int flags, const timespec* a, timespec*) {
  sched::sleep_ns(sched::abs_ns(a) - (flags & TIMER_ABSTIME ? sched::S().now : 0));
  return 0;
}
int usleep(useconds_t u) { sched::sleep_ns(u * 1000L); return 0; }
int sched_yield() throw() { sched::sleep_ns(1000); return 0; }
void __sched_point() { sched::point(); }
}
namespace std {
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sched::S().now)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sched::S().now)); }
} }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) {
  sched::point();
  if (*a != v) return true;
  sched::block(a, has ? s.count() * 1000000000L + n.count() : -1);
  return !sched::S().f[sched::S().cur]->timed_out;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, has, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sched::wake_all(a); }
}  // namespace std
