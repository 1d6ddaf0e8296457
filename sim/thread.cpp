// pthread and time interposition: every thread is a fiber, every clock is simulated.
#define _GNU_SOURCE 1
#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sched.h>
#include <unistd.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <sys/syscall.h>

namespace sim {
Fiber* new_fiber(void* (*fn)(void*), void* arg, const char* name);
u64 wall_now();

// Overlay used for every mutex: glibc's own layout keeps the kind at offset 16.
struct Mx { int owner; u32 count; int pad0, pad1; int kind; int mag; };
enum { MX_DEAD = 0x5eadbeef };
static Mx* mx(pthread_mutex_t* m, const char* op) {
  mem_check(m, sizeof(*m), true, op);
  Mx* x = (Mx*)m;
  volatile int k = x->kind;   // faults here on a null mutex
  (void)k;
  if (x->mag == (int)MX_DEAD) fail("destroyed-mutex", "%s on a destroyed mutex", op);
  return x;
}
static bool p_mx(Fiber* f) { return ((Mx*)f->wobj)->owner == 0; }
static int mx_kind(Mx* x) { return x->kind & 3; }
static void mx_take(Mx* x) { x->owner = g.cur->id + 1; x->count = 1; hb_acquire(*sync_vc(x, true)); }
static int mx_lock(pthread_mutex_t* m, u64 deadline, bool wall, bool timed) {
  sync_point();
  Mx* x = mx(m, "mutex lock");
  int me = g.cur->id + 1;
  if (x->owner == me) {
    if (mx_kind(x) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    if (mx_kind(x) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (x->owner) {
    if (!block(p_mx, x, deadline, wall, "mutex lock")) return ETIMEDOUT;
    mx(m, "mutex lock (after waiting)");
  }
  (void)timed;
  mx_take(x);
  return 0;
}
static int mx_unlock(pthread_mutex_t* m, bool pt) {
  Mx* x = mx(m, "mutex unlock");
  if (x->owner != g.cur->id + 1) {
    if (mx_kind(x) == PTHREAD_MUTEX_NORMAL) fail("bad-unlock", "mutex unlocked by a thread that does not hold it (owner %d)", x->owner - 1);
    return EPERM;
  }
  if (--x->count) return 0;
  hb_release(*sync_vc(x, true));
  x->owner = 0;
  if (pt) sync_point();
  return 0;
}

struct Cv { u32 wall_inited; int clock; int mag; };
static Cv* cv(pthread_cond_t* c, const char* op) {
  mem_check(c, sizeof(*c), true, op);
  Cv* x = (Cv*)c;
  volatile int k = x->mag; (void)k;
  if (x->mag == (int)MX_DEAD) fail("destroyed-cond", "%s on a destroyed condition variable", op);
  return x;
}
static bool p_cv(Fiber* f) { return f->signaled; }
static u64 ts_ns(const struct timespec* t) {
  if (t->tv_sec < 0) return 0;
  if (t->tv_sec > 9000000000ll) return ~0ull - 1;
  return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, bool wall) {
  sync_point();
  Cv* x = cv(c, "cond wait");
  Fiber* f = g.cur;
  f->signaled = false;
  if (choice_fault(F_SPURIOUS_WAKE, f->id, 1)) { mx_unlock(m, true); mx_lock(m, ~0ull, false, false); return 0; }
  mx_unlock(m, false);
  bool ok = block(p_cv, x, deadline, wall, deadline == ~0ull ? "condition variable" : "condition variable (timed)");
  f->signaled = false;
  mx_lock(m, ~0ull, false, false);
  return ok ? 0 : ETIMEDOUT;
}
static u64 late(u64 dl) {
  if (dl == ~0ull) return dl;
  u32 v = choice_fault(F_LATE_TIMER, self_id(), 4);
  static const u64 d[5] = {0, 50000, 1000000, 20000000, 300000000};
  return dl + d[v];
}
static u64 mono_base = 1000ull * 1000000000ull;   // CLOCK_MONOTONIC at simulated time zero
static u64 from_mono(u64 t) { return t <= mono_base ? 0 : t - mono_base; }
static void maybe_jump() {
  u32 v = choice_fault(F_CLOCK_JUMP, self_id(), 6);
  static const int64_t d[7] = {0, 3600000000000ll, -3600000000000ll, 40000000ll, -40000000ll, 1500000000ll, -1500000000ll};
  if (v) wall_jump_ns(d[v]);
}
u64 late_deadline(u64 dl) { return late(dl); }
static Fiber* fiber_of(pthread_t t) { u64 i = ((u64)t - 0x7e0000000000ull) >> 12; return i < (u64)g.nf ? g.f[i] : nullptr; }
}  // namespace sim
using namespace sim;

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

extern "C" {

// ------------------------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  if (!g.active) { write(2, "simrt: thread created outside a run\n", 36); abort(); }
  RT; sync_point();
  char nm[32]; snprintf(nm, sizeof nm, "t%d", g.nf);
  Fiber* f = new_fiber(fn, arg, nm);
  int d = 0;
  if (a) pthread_attr_getdetachstate(a, &d);
  f->detached = d == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t)(0x7e0000000000ull + ((u64)f->id << 12));
  tracef("create thread %d", f->id);
  sync_point();
  return 0;
}
static bool p_fdone(Fiber* f) { return ((Fiber*)f->wobj)->st == 2; }
static int do_join(pthread_t t, void** r, u64 dl, bool wall) {
  RT; sync_point();
  Fiber* f = fiber_of(t);
  if (!f) return ESRCH;
  if (f == g.cur) return EDEADLK;
  if (f->detached || f->joined) fail("bad-join", "join of a %s thread", f->joined ? "joined" : "detached");
  if (!block(p_fdone, f, dl, wall, "thread join")) return ETIMEDOUT;
  f->joined = true;
  hb_acquire(f->rel);
  if (r) *r = f->ret;
  return 0;
}
int pthread_join(pthread_t t, void** r) { return do_join(t, r, ~0ull, false); }
int pthread_timedjoin_np(pthread_t t, void** r, const struct timespec* ts) { return do_join(t, r, ts_ns(ts), true); }
int pthread_tryjoin_np(pthread_t t, void** r) noexcept { Fiber* f = fiber_of(t); if (f && f->st != 2) return EBUSY; return do_join(t, r, ~0ull, false); }
int pthread_detach(pthread_t t) noexcept {
  RT; sync_point();
  Fiber* f = fiber_of(t);
  if (!f) return ESRCH;
  if (f->joined || f->detached) fail("bad-detach", "detach of a joined or detached thread");
  f->detached = true;
  return 0;
}
pthread_t pthread_self() noexcept { return (pthread_t)(0x7e0000000000ull + ((u64)(g.active && g.cur ? g.cur->id : 0) << 12)); }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_setname_np(pthread_t t, const char* n) noexcept { Fiber* f = fiber_of(t); if (f) strncpy(f->name, n, 31); return 0; }
int pthread_getname_np(pthread_t t, char* n, size_t l) noexcept { Fiber* f = fiber_of(t); snprintf(n, l, "%s", f ? f->name : ""); return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }
int pthread_kill(pthread_t, int) noexcept { return 0; }
int sched_yield() noexcept { if (!g.active || g.rt) return 0; RT; sync_point(); yield_point(K_YIELD); return 0; }

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept {
  if (!g.active || !g.cur) return 0;
  Fiber* f = g.cur;
  if (f->ndtors < 32) { f->dtors[f->ndtors].f = fn; f->dtors[f->ndtors].o = obj; f->ndtors++; }
  return 0;
}
static int nkeys; static void* key0[64];
int pthread_key_create(pthread_key_t* k, void (*)(void*)) noexcept { *k = nkeys++; return nkeys <= 64 ? 0 : EAGAIN; }
int pthread_key_delete(pthread_key_t) noexcept { return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { return g.active && g.cur ? g.cur->keys[k] : key0[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept { (g.active && g.cur ? g.cur->keys : key0)[k] = (void*)v; return 0; }

// ------------------------------------------------------------------ once / static-init guards
static bool p_once(Fiber* f) { return *(volatile int*)f->wobj != 1; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  int* s = (int*)o;
  if (!g.active || g.rt) { if (*s == 0) { *s = 2; fn(); } return 0; }
  RT; sync_point();
  for (;;) {
    if (*s == 2) { hb_acquire(*sync_vc(o, true)); return 0; }
    if (*s == 0) break;
    block(p_once, o, ~0ull, false, "call_once");
  }
  *s = 1;
  struct Undo { int* s; ~Undo() { if (*s == 1) *s = 0; } } u{s};
  { UserScope us; fn(); }
  *s = 2;
  hb_release(*sync_vc(o, true));
  return 0;
}
static bool p_guard(Fiber* f) { return ((volatile char*)f->wobj)[1] == 0; }
int __cxa_guard_acquire(uint64_t* gd) {
  char* c = (char*)gd;
  if (!g.active || g.rt) { return c[0] == 0; }
  RT; sync_point();
  while (c[0] == 0 && c[1]) block(p_guard, gd, ~0ull, false, "static initialisation");
  if (c[0]) { hb_acquire(*sync_vc(gd, true)); return 0; }
  c[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* gd) {
  char* c = (char*)gd;
  c[0] = 1; c[1] = 0;
  if (!g.active || g.rt) return;
  RT; hb_release(*sync_vc(gd, true)); sync_point();
}
void __cxa_guard_abort(uint64_t* gd) { ((char*)gd)[1] = 0; }

// ------------------------------------------------------------------ mutex
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
  int k = 0;
  if (a) pthread_mutexattr_gettype(a, &k);
  if (g.active && !g.rt) { RT; sync_point(); mem_check(m, sizeof *m, true, "mutex init"); }
  memset(m, 0, sizeof *m);
  ((Mx*)m)->kind = k;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (!g.active || g.rt) return 0;
  RT; sync_point();
  Mx* x = mx(m, "mutex destroy");
  if (x->owner) fail("destroy-locked-mutex", "mutex destroyed while held by thread %d", x->owner - 1);
  for (int i = 0; i < g.nf; i++) if (g.f[i]->st == 1 && g.f[i]->has_pred && g.f[i]->wobj == (void*)x) fail("destroy-locked-mutex", "mutex destroyed while thread %d waits for it", i);
  x->mag = MX_DEAD;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!g.active || g.rt) return 0; if (g.nopre) return 0; RT; return mx_lock(m, ~0ull, false, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!g.active || g.rt) return 0; if (g.nopre) return 0; RT; return mx_unlock(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!g.active || g.rt) return 0;
  RT; sync_point();
  Mx* x = mx(m, "mutex trylock");
  if (x->owner) {
    if (x->owner == g.cur->id + 1 && mx_kind(x) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    return EBUSY;
  }
  mx_take(x);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept {
  RT;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { Mx* x = mx(m, "mutex timedlock"); if (x->owner) return EINVAL; }
  return mx_lock(m, late(ts_ns(t)), true, true);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) noexcept {
  RT;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { Mx* x = mx(m, "mutex clocklock"); if (x->owner) return EINVAL; }
  if (c == CLOCK_REALTIME) return mx_lock(m, late(ts_ns(t)), true, true);
  return mx_lock(m, late(from_mono(ts_ns(t))), false, true);
}

// ------------------------------------------------------------------ condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept {
  clockid_t ck = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock(a, &ck);
  if (g.active && !g.rt) { RT; sync_point(); mem_check(c, sizeof *c, true, "cond init"); }
  memset(c, 0, sizeof *c);
  ((Cv*)c)->clock = ck;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (!g.active || g.rt) return 0;
  RT; sync_point();
  Cv* x = cv(c, "cond destroy");
  for (int i = 0; i < g.nf; i++) if (g.f[i]->st == 1 && g.f[i]->has_pred && g.f[i]->wobj == (void*)x && !g.f[i]->signaled) fail("destroy-waited-cond", "condition variable destroyed while thread %d waits on it", i);
  x->mag = MX_DEAD;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { RT; return cv_wait(c, m, ~0ull, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  RT;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  Cv* x = cv(c, "cond timedwait");
  if (x->clock == CLOCK_MONOTONIC) return cv_wait(c, m, late(from_mono(ts_ns(t))), false);
  maybe_jump();
  return cv_wait(c, m, late(ts_ns(t)), true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* t) {
  RT;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  if (ck == CLOCK_REALTIME) return cv_wait(c, m, late(ts_ns(t)), true);
  return cv_wait(c, m, late(from_mono(ts_ns(t))), false);
}
static int cv_wake(pthread_cond_t* c, bool all) {
  sync_point();
  Cv* x = cv(c, "cond signal");
  Fiber* w[MAXF]; int n = 0;
  for (int i = 0; i < g.nf; i++) { Fiber* f = g.f[i]; if (f->st == 1 && f->has_pred && f->pred == p_cv && f->wobj == (void*)x && !f->signaled) w[n++] = f; }
  if (all) for (int i = 0; i < n; i++) w[i]->signaled = true;
  else if (n) w[choice(K_WAKE, g.cur->id, n)]->signaled = true;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!g.active || g.rt) return 0; RT; return cv_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!g.active || g.rt) return 0; RT; return cv_wake(c, true); }

// ------------------------------------------------------------------ rwlock, spin, semaphores, barrier
struct Rw { int writer; int readers; int mag; };
static bool p_rd(Fiber* f) { return ((Rw*)f->wobj)->writer == 0; }
static bool p_wr(Fiber* f) { Rw* r = (Rw*)f->wobj; return r->writer == 0 && r->readers == 0; }
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) noexcept { memset(r, 0, sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept { if (!g.active || g.rt) return 0; RT; sync_point(); mem_check(r, sizeof *r, true, "rwlock"); block(p_rd, r, ~0ull, false, "rwlock read"); ((Rw*)r)->readers++; hb_acquire(*sync_vc(r, true)); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept { if (!g.active || g.rt) return 0; RT; sync_point(); mem_check(r, sizeof *r, true, "rwlock"); block(p_wr, r, ~0ull, false, "rwlock write"); ((Rw*)r)->writer = g.cur->id + 1; hb_acquire(*sync_vc(r, true)); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) noexcept { RT; sync_point(); if (((Rw*)r)->writer) return EBUSY; ((Rw*)r)->readers++; hb_acquire(*sync_vc(r, true)); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) noexcept { RT; sync_point(); Rw* x = (Rw*)r; if (x->writer || x->readers) return EBUSY; x->writer = g.cur->id + 1; hb_acquire(*sync_vc(r, true)); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* r) noexcept {
  if (!g.active || g.rt) return 0;
  RT; Rw* x = (Rw*)r;
  hb_release(*sync_vc(r, true));
  if (x->writer == g.cur->id + 1) x->writer = 0; else if (x->readers > 0) x->readers--;
  sync_point();
  return 0;
}
int pthread_spin_init(pthread_spinlock_t* s, int) noexcept { *(volatile int*)s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
static bool p_spin(Fiber* f) { return *(volatile int*)f->wobj == 0; }
int pthread_spin_lock(pthread_spinlock_t* s) noexcept { RT; sync_point(); block(p_spin, (void*)s, ~0ull, false, "spin lock"); *(volatile int*)s = 1; hb_acquire(*sync_vc((void*)s, true)); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* s) noexcept { RT; sync_point(); if (*(volatile int*)s) return EBUSY; *(volatile int*)s = 1; hb_acquire(*sync_vc((void*)s, true)); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s) noexcept { RT; hb_release(*sync_vc((void*)s, true)); *(volatile int*)s = 0; sync_point(); return 0; }
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); *(volatile int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
static bool p_sem(Fiber* f) { return *(volatile int*)f->wobj > 0; }
static void sem_take(sem_t* s) { (*(volatile int*)s) = *(volatile int*)s - 1; hb_acquire(*sync_vc(s, true)); }
int sem_wait(sem_t* s) { RT; sync_point(); mem_check(s, sizeof(int), true, "semaphore"); block(p_sem, s, ~0ull, false, "semaphore"); sem_take(s); return 0; }
int sem_trywait(sem_t* s) noexcept { RT; sync_point(); if (*(volatile int*)s <= 0) { errno = EAGAIN; return -1; } sem_take(s); return 0; }
int sem_timedwait(sem_t* s, const struct timespec* t) { RT; sync_point(); if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } if (!block(p_sem, s, late(ts_ns(t)), true, "semaphore (timed)")) { errno = ETIMEDOUT; return -1; } sem_take(s); return 0; }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (c == CLOCK_REALTIME) return sem_timedwait(s, t); RT; sync_point(); if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } if (!block(p_sem, s, late(from_mono(ts_ns(t))), false, "semaphore (timed)")) { errno = ETIMEDOUT; return -1; } sem_take(s); return 0; }
int sem_post(sem_t* s) noexcept { RT; sync_point(); mem_check(s, sizeof(int), true, "semaphore"); hb_release(*sync_vc(s, true)); (*(volatile int*)s) = *(volatile int*)s + 1; return 0; }
int sem_getvalue(sem_t* s, int* v) noexcept { *v = *(volatile int*)s; return 0; }

// ------------------------------------------------------------------ time
// the caller is held up inside the call until the clock shows the wanted part of a second (see clock_reads)
static void align(u64 base) {
  if (g.clock_frac == ~0ull) return;
  u64 d = (g.clock_frac + 1000000000ull - (base + g.now) % 1000000000ull) % 1000000000ull;
  g.clock_frac = ~0ull;
  if (d <= 5000000) g.now += d;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!g.active) return (int)syscall(SYS_clock_gettime, c, t);
  RT; sync_point();
  align(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? wall_now() - g.now : mono_base);
  u64 v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) { maybe_jump(); v = wall_now(); }
  else v = mono_base + g.now;
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
int clock_getres(clockid_t, struct timespec* t) noexcept { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (!g.active) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  RT; sync_point(); maybe_jump();
  u64 v = wall_now();
  tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (long)(v % 1000000000ull / 1000);
  return 0;
}
time_t time(time_t* p) noexcept {
  time_t r;
  if (!g.active) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; }
  else { RT; sync_point(); maybe_jump(); r = (time_t)(wall_now() / 1000000000ull); }
  if (p) *p = r;
  return r;
}
static bool p_false(Fiber*) { return false; }
static int do_sleep(u64 dl, bool wall) { RT; sync_point(); block(p_false, nullptr, late(dl), wall, "sleep"); return 0; }
// a signal ends a sleep early; what is left is reported
static bool interrupted_sleep(u64 ns, u64* left) {
  u32 v; { RT; v = ns > 1000 ? choice_fault(F_EINTR, self_id(), 7) : 0; }
  if (!v) return false;
  u64 part = ns / 8 * v, t0 = g.now;
  do_sleep(g.now + part, false);
  u64 el = g.now - t0; *left = el >= ns ? 1 : ns - el;
  errno = EINTR;
  return true;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!g.active) return 0;
  if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
  u64 left;
  if (interrupted_sleep(ts_ns(t), &left)) { if (rem) { rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); } return -1; }
  return do_sleep(g.now + ts_ns(t), false);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (!g.active) return 0;
  if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  if (flags & TIMER_ABSTIME) return c == CLOCK_REALTIME ? do_sleep(ts_ns(t), true) : do_sleep(from_mono(ts_ns(t)), false);
  u64 left;
  if (interrupted_sleep(ts_ns(t), &left)) { if (rem) { rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); } return EINTR; }
  return do_sleep(g.now + ts_ns(t), false);
}
int usleep(useconds_t us) { if (!g.active) return 0; u64 l; if (interrupted_sleep((u64)us * 1000, &l)) return -1; do_sleep(g.now + (u64)us * 1000, false); return 0; }
unsigned sleep(unsigned s) { if (!g.active) return 0; u64 l; if (interrupted_sleep((u64)s * 1000000000ull, &l)) return (unsigned)((l + 999999999ull) / 1000000000ull); do_sleep(g.now + (u64)s * 1000000000ull, false); return 0; }

// ------------------------------------------------------------------ process
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
  if (!g.active) { fprintf(stderr, "assert %s %s:%u\n", e, file, line); _exit(3); }
  g.rt++; g.off++;
  const char* b = strrchr(file, '/');
  fail("assert", "assertion failed: %s (%s, %s)", e, b ? b + 1 : file, fn);
}
void abort() noexcept {
  if (g.active) { g.rt++; g.off++; fail("abort", "abort() called (uncaught exception, libstdc++ check or explicit)"); }
  _exit(3);
}
static unsigned rand_state = 12345;
static int rand_mode = 0;      // 0 varies, 1 always zero, 2 always all ones, 3 mostly zero
int rand() noexcept {
  rand_state = rand_state * 1103515245u + 12345u;
  int v = (int)((rand_state >> 8) & 0x7fffff);
  switch (rand_mode) { case 1: return 0; case 2: return 0x7fffffff; case 3: return (rand_state >> 28) ? 0 : v; default: return v; }
}
void srand(unsigned s) noexcept { rand_state = s; }
pid_t getpid() noexcept { if (g.active) return 4242; return (pid_t)syscall(SYS_getpid); }
// the number of processors is part of the run, not of the machine it runs on
static long n_cpus = 2;
long sysconf(int name) noexcept {
  if (g.active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return n_cpus;
  static long (*real)(int) = nullptr;
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
}
namespace sim { void set_cpus(int n) { n_cpus = n; } void set_rand(int mode) { rand_mode = mode; } }
