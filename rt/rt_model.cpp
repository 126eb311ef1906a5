// Models of threads, mutexes, condition variables, futexes and clocks, shared by the symbolic
// executor (where every scheduling decision is a symbolic choice) and by native replay (where the
// decisions are read back from the counterexample). Linked with -Wl,--wrap for native replay.
#include "sym.h"
#include <chrono>
#include <cerrno>
#include <sys/time.h>
#include <unistd.h>
#include <ctime>
#include <pthread.h>
#include <thread>

namespace {
enum { Runnable, Blocked, Done };
struct Th {
  int st;
  const void *wait;
  int64_t deadline;   // <0: none
  bool timedOut;
  bool quiesce;       // waiting for the others to finish or block
};
constexpr int MAXT = 12;
Th T[MAXT];
int nT = 1;
int preemptLeft = 2;
int timeJumpLeft = 0;
int spuriousLeft = 0;
int64_t nowNs = 1000000000;
int spins, reads;

int candidates(int self, int *out, bool withTimers) {
  int n = 0;
  for (int i = 0; i < nT; i++) {
    if (i == self) continue;
    if (T[i].st == Runnable) out[n++] = i;
    else if (withTimers && T[i].st == Blocked && T[i].deadline >= 0) out[n++] = i;
  }
  return n;
}
void fire(int i) {  // thread i's timeout expires
  if (T[i].deadline > nowNs) { nowNs = T[i].deadline; reads = 0; }
  T[i].timedOut = true;
  T[i].st = Runnable;
  T[i].deadline = -1;
}
void go(int i) {
  spins = 0;
  if (T[i].st == Blocked) { timeJumpLeft--; fire(i); }
  sym_switch(i);
}
// A thread that goes on and on without waiting: time passes, and the others get their turn.
void spinning() {
  if (nT == 1 || ++spins < 5000) return;
  spins = 0;
  int self = sym_thread_self(), pick = -1;
  for (int k = 1; k < nT && pick < 0; k++) if (T[(self + k) % nT].st == Runnable) pick = (self + k) % nT;
  if (pick < 0)
    for (int i = 0; i < nT; i++)
      if (i != self && T[i].st == Blocked && T[i].deadline >= 0 && (pick < 0 || sym_concretize(T[i].deadline < T[pick].deadline))) pick = i;
  if (pick < 0) return;
  if (T[pick].st == Blocked) fire(pick);
  sym_switch(pick);
}
int64_t readClock() {
  if (++reads >= 500) { reads = 0; nowNs += 1000000; }
  return nowNs;
}
void yieldPoint() {
  spinning();
  if (nT == 1 || preemptLeft <= 0) return;
  int c[MAXT];
  int n = candidates(sym_thread_self(), c, timeJumpLeft > 0);
  if (!n) return;
  int k = (int)sym_choice(n + 1, "sched");
  if (!k) return;
  preemptLeft--;
  go(c[k - 1]);
}
// the current thread cannot run: somebody else must
void blockSelf() {
  spins = 0;
  int self = sym_thread_self();
  for (;;) {
    int c[MAXT];
    int n = candidates(self, c, false);
    if (T[self].st == Runnable) return;
    if (!n) {
      // everything is blocked: quiescence waiters first, then time advances to the earliest deadline
      for (int i = 0; i < nT; i++)
        if (T[i].st == Blocked && T[i].quiesce) { T[i].quiesce = false; T[i].st = Runnable; if (i != self) sym_switch(i); goto again; }
      {
        int64_t best = -1;
        for (int i = 0; i < nT; i++)
          if (T[i].st == Blocked && T[i].deadline >= 0 && (best < 0 || sym_concretize(T[i].deadline < best))) best = T[i].deadline;
        if (best < 0) sym_fail("deadlock: every thread is blocked forever");
        int d[MAXT], m = 0;
        for (int i = 0; i < nT; i++)
          if (T[i].st == Blocked && sym_concretize(T[i].deadline == best)) d[m++] = i;
        int k = m > 1 && preemptLeft >= 0 ? (int)sym_choice(m, "timeout") : 0;
        int w = d[k];
        fire(w);
        if (w != self) sym_switch(w);
      }
    } else {
      int withT = timeJumpLeft > 0 ? candidates(self, c, true) : n;
      int k = 0;
      if (preemptLeft < 0) { while (k < n && c[k] < self) k++; if (k == n) k = 0; }  // one fixed order: the next thread in line
      else if (withT > 1) k = (int)sym_choice(withT, "sched");
      go(c[k]);
    }
  again:
    if (T[self].st == Runnable) return;
  }
}
void waitOn(const void *what, int64_t deadline) {
  int self = sym_thread_self();
  T[self].wait = what;
  T[self].deadline = deadline;
  T[self].timedOut = false;
  T[self].st = Blocked;
  blockSelf();
  T[self].wait = nullptr;
  T[self].deadline = -1;
}
void wakeAll(const void *what) {
  for (int i = 0; i < nT; i++)
    if (T[i].st == Blocked && T[i].wait == what) { T[i].st = Runnable; T[i].deadline = -1; }
}
void wakeOne(const void *what) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == Blocked && T[i].wait == what) c[n++] = i;
  if (!n) return;
  int k = n > 1 && preemptLeft >= 0 ? (int)sym_choice(n, "wake") : 0;
  T[c[k]].st = Runnable;
  T[c[k]].deadline = -1;
}

struct TlsDtor { void (*fn)(void *); void *obj; };
TlsDtor tlsd[MAXT][24];
int nTlsd[MAXT];

void runTlsDtors(int self) {
  while (nTlsd[self] > 0) {
    TlsDtor d = tlsd[self][--nTlsd[self]];
    d.fn(d.obj);
  }
}
void threadMain(void *p) {
  auto *st = (std::thread::_State *)p;
  st->_M_run();
  delete st;
  int self = sym_thread_self();
  runTlsDtors(self);
  sym_hb(&T[self], 2);
  T[self].st = Done;
  wakeAll(&T[self]);
  blockSelf();
  sym_fail("finished thread was scheduled");
}
void lockIt(pthread_mutex_t *m) {
  int self = sym_thread_self();
  while (m->__data.__lock) {
    if (m->__data.__owner == self + 1) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return; }
      sym_fail("deadlock: a thread locks a mutex it already holds");
    }
    waitOn(m, -1);
  }
  sym_hb(m, 1);
  m->__data.__lock = 1;
  m->__data.__owner = self + 1;
  m->__data.__count = 1;
}
void unlockIt(pthread_mutex_t *m) {
  if (!m->__data.__lock || m->__data.__owner != sym_thread_self() + 1) sym_fail("a mutex is unlocked by a thread that does not hold it");
  if (--m->__data.__count) return;
  sym_hb(m, 2);
  m->__data.__lock = 0;
  m->__data.__owner = 0;
  wakeAll(m);
}
int64_t ns(const timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
int condWait(void *c, pthread_mutex_t *m, int64_t deadline) {
  yieldPoint();
  if (!m->__data.__lock || m->__data.__owner != sym_thread_self() + 1) sym_fail("condition wait without holding the mutex");
  if (deadline >= 0 && deadline <= nowNs) {
    unlockIt(m);
    yieldPoint();
    lockIt(m);
    return ETIMEDOUT;
  }
  if (spuriousLeft > 0 && sym_choice(2, "spurious")) {   // a wait may end for no reason
    spuriousLeft--;
    unlockIt(m);
    int o[MAXT], n = candidates(sym_thread_self(), o, false), k = n ? (int)sym_choice(n + 1, "sched") : 0;
    if (k) go(o[k - 1]);
    lockIt(m);
    return 0;
  }
  unlockIt(m);
  waitOn(c, deadline);
  bool to = T[sym_thread_self()].timedOut;
  lockIt(m);
  return to ? ETIMEDOUT : 0;
}
constexpr int64_t sysBase = 1600000000000000000ll;
}  // namespace

extern "C" {
void rt_yield(const char *) { yieldPoint(); }
void rt_set_preempt(int n) { preemptLeft = n; spuriousLeft = (int)sym_cfg("spurious", 0); }
void rt_set_timejump(int n) { timeJumpLeft = n; }
void rt_set_spurious(int n) { spuriousLeft = n; }
int64_t rt_now() { return nowNs; }
void rt_advance(int64_t d) { nowNs += d; }
int rt_live_threads() {
  int n = 0;
  for (int i = 0; i < nT; i++) if (i != sym_thread_self() && T[i].st != Done) n++;
  return n;
}
void rt_wait_others() {
  for (int i = 0; i < nT; i++)
  {
    while (i != sym_thread_self() && T[i].st != Done) waitOn(&T[i], -1);
    sym_hb(&T[i], 1);
  }
}
int rt_wait_quiescent() {
  int self = sym_thread_self();
  int c[MAXT];
  if (candidates(self, c, false)) {
    T[self].quiesce = true;
    waitOn(&T[self].quiesce, -1);
    T[self].quiesce = false;
  }
  return rt_live_threads();
}
void rt_thread_dtors() { runTlsDtors(sym_thread_self()); }

// ---- pthread mutex / condition / once / self
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { yieldPoint(); lockIt(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  yieldPoint();
  if (m->__data.__lock && !(m->__data.__owner == sym_thread_self() + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
  lockIt(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlockIt(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const timespec *t) {
  int64_t d = ns(t);
  if (id == CLOCK_REALTIME) d -= sysBase;
  return condWait(c, m, d < 0 ? 0 : d);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
  int64_t d = ns(t) - sysBase;
  return condWait(c, m, d < 0 ? 0 : d);
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  while (*o == 1) waitOn(o, -1);
  if (*o == 2) { sym_hb(o, 1); return 0; }
  *o = 1;
  f();
  *o = 2;
  sym_hb(o, 2);
  wakeAll(o);
  return 0;
}
pthread_t __wrap_pthread_self() { return (pthread_t)(sym_thread_self() + 1); }
int __wrap_sched_yield() { yieldPoint(); return 0; }
int __wrap_nanosleep(const timespec *t, timespec *) {
  yieldPoint();
  waitOn(nullptr, nowNs + ns(t));
  return 0;
}
int __wrap_usleep(useconds_t us) { yieldPoint(); waitOn(nullptr, nowNs + (int64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned sec) { yieldPoint(); waitOn(nullptr, nowNs + (int64_t)sec * 1000000000); return 0; }
static int lockUntil(pthread_mutex_t *m, int64_t d) {
  yieldPoint();
  while (m->__data.__lock && !(m->__data.__owner == sym_thread_self() + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP)) {
    if (d <= nowNs) return ETIMEDOUT;
    waitOn(m, d);
  }
  lockIt(m);
  return 0;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const timespec *t) { return lockUntil(m, ns(t) - (id == CLOCK_REALTIME ? sysBase : 0)); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) { return lockUntil(m, ns(t) - sysBase); }
// ---- semaphores (the count is kept in the object)
int __wrap_sem_init(int *s, int, unsigned v) { *s = (int)v; return 0; }
int __wrap_sem_destroy(int *) { return 0; }
int __wrap_sem_post(int *s) { yieldPoint(); sym_hb(s, 2); ++*s; wakeAll(s); return 0; }
int __wrap_sem_trywait(int *s) { yieldPoint(); if (*s <= 0) { errno = EAGAIN; return -1; } --*s; sym_hb(s, 1); return 0; }
int __wrap_sem_wait(int *s) { yieldPoint(); while (*s <= 0) waitOn(s, -1); --*s; sym_hb(s, 1); return 0; }
int __wrap_sem_timedwait(int *s, const timespec *t) {
  yieldPoint();
  int64_t d = ns(t) - sysBase;
  while (*s <= 0) { if (d <= nowNs) { errno = ETIMEDOUT; return -1; } waitOn(s, d); }
  --*s;
  sym_hb(s, 1);
  return 0;
}
// ---- atomic access to shared pointers: libstdc++ guards it by a lock chosen by address; one stands for all here
static pthread_mutex_t spLock;
void __wrap__ZNSt10_Sp_lockerC1EPKv(void *, const void *) { yieldPoint(); lockIt(&spLock); }
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void *, const void *, const void *) { yieldPoint(); lockIt(&spLock); }
void __wrap__ZNSt10_Sp_lockerD1Ev(void *) { unlockIt(&spLock); }
char *__wrap_getenv(const char *) { return nullptr; }
// ---- reader/writer locks (state kept in the object)
static void rdlock(pthread_rwlock_t *l, bool rd) {
  int self = sym_thread_self();
  if (rd) {
    while (l->__data.__cur_writer) { if (l->__data.__cur_writer == self + 1) sym_fail("deadlock: reader lock while holding the writer lock"); waitOn(l, -1); }
    sym_hb(l, 1);
    l->__data.__readers++;
  } else {
    while (l->__data.__cur_writer || l->__data.__readers) { if (l->__data.__cur_writer == self + 1) sym_fail("deadlock: writer lock taken twice"); waitOn(l, -1); }
    sym_hb(l, 1);
    l->__data.__cur_writer = self + 1;
  }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { yieldPoint(); rdlock(l, true); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { yieldPoint(); rdlock(l, false); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { yieldPoint(); if (l->__data.__cur_writer) return EBUSY; rdlock(l, true); return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { yieldPoint(); if (l->__data.__cur_writer || l->__data.__readers) return EBUSY; rdlock(l, false); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (l->__data.__cur_writer == sym_thread_self() + 1) l->__data.__cur_writer = 0;
  else if (l->__data.__readers) l->__data.__readers--;
  else sym_fail("a reader/writer lock is unlocked by a thread that does not hold it");
  sym_hb(l, 2);
  wakeAll(l);
  return 0;
}
// ---- std::condition_variable (libstdc++ out-of-line members)
void __wrap__ZNSt18condition_variableC1Ev(void *) {}
void __wrap__ZNSt18condition_variableD1Ev(void *) {}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void *lk) {
  auto *m = *(pthread_mutex_t **)lk;
  condWait(c, m, -1);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) { yieldPoint(); wakeOne(c); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) { yieldPoint(); wakeAll(c); }
// ---- futex of std::future
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *addr, unsigned v, bool hasTimeout, int64_t s, int64_t n) {
  yieldPoint();
  if (*addr != v) return true;
  if (hasTimeout) { int64_t d = s * 1000000000 + n - sysBase; if (d <= nowNs) return false; waitOn(addr, d); }
  else waitOn(addr, -1);
  return !(hasTimeout && T[sym_thread_self()].timedOut);
}
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *addr, unsigned v, bool hasTimeout, int64_t s, int64_t n) {
  yieldPoint();
  if (*addr != v) return true;
  if (hasTimeout) { int64_t d = s * 1000000000 + n; if (d <= nowNs) return false; waitOn(addr, d); }
  else waitOn(addr, -1);
  return !(hasTimeout && T[sym_thread_self()].timedOut);
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *addr) { yieldPoint(); wakeAll(addr); }
// ---- std::thread
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread::native_handle_type *self, void **up, void (*)()) {
  void *st = *up;
  *up = nullptr;
  if (nT >= MAXT) sym_fail("harness: too many threads");
  int t = sym_thread_new(threadMain, st);
  T[t].st = Runnable;
  T[t].deadline = -1;
  nT = t + 1;
  *self = (std::thread::native_handle_type)(t + 1);
  yieldPoint();
}
void __wrap__ZNSt6thread4joinEv(std::thread::native_handle_type *self) {
  int t = (int)*self - 1;
  if (t < 0) sym_fail("join of a thread that is not joinable");
  if (t == sym_thread_self()) sym_fail("deadlock: a thread joins itself");
  yieldPoint();
  while (T[t].st != Done) waitOn(&T[t], -1);
  sym_hb(&T[t], 1);
  *self = 0;
}
void __wrap__ZNSt6thread6detachEv(std::thread::native_handle_type *self) { *self = 0; }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return (unsigned)sym_cfg("cores", 2); }
int __wrap___cxa_thread_atexit(void (*f)(void *), void *o, void *) {
  int self = sym_thread_self();
  if (nTlsd[self] >= 24) sym_fail("harness: too many thread_local destructors");
  tlsd[self][nTlsd[self]++] = {f, o};
  return 0;
}
// ---- clocks
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return readClock(); }
time_t __wrap_time(time_t *t) { time_t v = (time_t)((sysBase + readClock()) / 1000000000); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t id, timespec *t) {
  int64_t v = readClock() + (id == CLOCK_REALTIME ? sysBase : 0);
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}
int __wrap_gettimeofday(timeval *t, void *) { int64_t v = sysBase + readClock(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return sysBase + readClock(); }
}
