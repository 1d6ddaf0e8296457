// Scheduler, choices, simulated time, violations.
#include "rt.h"
#include <stdlib.h>
#include <unistd.h>
#include <link.h>
#include <signal.h>
#include <errno.h>
#include <execinfo.h>
#include <sys/mman.h>

extern "C" char __libc_single_threaded;

namespace sim {

G g = {1};   // hooks off until a run starts
Shared* sh;

const char* kind_names[K_N] = {"preempt", "block", "yield", "wake", "work", "cfg", "latency", "order", "misc",
  "f:short_read", "f:short_write", "f:eagain_read", "f:eagain_write", "f:eintr", "f:delay", "f:stall", "f:rst",
  "f:refuse", "f:connect_timeout", "f:connect_sync_error", "f:accept_error", "f:descriptor_exhaustion", "f:weak_cas",
  "f:spurious_wake", "f:late_timer", "f:clock_jump", "f:disk_full", "f:disk_short_write", "f:open_error",
  "f:mkdir_error", "f:thread_stall", "f:small_buffers", "f:resolve_error", "f:crash", "f:peer_close", "f:pipe_timerfd_error", "f:datagram_loss", "f:datagram_dup", "f:disk_read_error"};

// ---------------------------------------------------------------- random numbers
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
void seed_rng(u64 s) {
  for (int i = 0; i < 4; i++) {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    g.rng[i] = z ^ (z >> 31);
  }
}
u64 rnd() {
  u64* s = g.rng;
  u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
u32 rndn(u32 n) { return n <= 1 ? 0 : (u32)(((rnd() >> 32) * (u64)n) >> 32); }
static u32 geometric(u32 mean) {  // >= 1, mean about `mean`
  if (mean <= 1) return 1;
  // integer approximation, no floating point needed for determinism across libm versions
  u32 n = 1;
  u32 step = mean;
  // sum of a uniform and an occasional tail gives a wide spread
  n += rndn(2 * step);
  while (rndn(8) == 0) n += rndn(4 * step);
  return n;
}

void mix(u64 v) { g.hash = (g.hash ^ v) * 0x100000001b3ull; g.hash ^= g.hash >> 29; }

// ---------------------------------------------------------------- replay table
struct RepEnt { u64 key; u32 val; };
static RepEnt* rep; static u32 rep_cap;
struct PreEnt { u32 actor, points, val; };
static PreEnt* pre; static u32 npre;   // sorted by (actor, points)

static inline u64 rkey(u32 kind, u32 actor, u32 ord) { return ((u64)(kind + 1) << 48) | ((u64)actor << 32) | ord; }
static int cmp_pre(const void* a, const void* b) {
  const PreEnt *x = (const PreEnt*)a, *y = (const PreEnt*)b;
  if (x->actor != y->actor) return x->actor < y->actor ? -1 : 1;
  return x->points < y->points ? -1 : x->points > y->points;
}
void load_replay(const ChoiceRec* c, u32 n) {
  if (rep) rt_free(rep);
  if (pre) rt_free(pre);
  rep_cap = 64;
  while (rep_cap < n * 3 + 16) rep_cap *= 2;
  rep = (RepEnt*)rt_alloc(sizeof(RepEnt) * rep_cap);
  memset(rep, 0, sizeof(RepEnt) * rep_cap);
  pre = (PreEnt*)rt_alloc(sizeof(PreEnt) * (n + 1));
  npre = 0;
  for (u32 i = 0; i < n; i++) {
    if (c[i].kind == K_PREEMPT) { pre[npre].actor = c[i].actor; pre[npre].points = c[i].ord; pre[npre].val = c[i].val; npre++; continue; }
    u64 k = rkey(c[i].kind, c[i].actor, c[i].ord);
    u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (rep_cap - 1);
    while (rep[h].key && rep[h].key != k) h = (h + 1) & (rep_cap - 1);
    rep[h].key = k; rep[h].val = c[i].val;
  }
  if (npre > 1) qsort(pre, npre, sizeof(PreEnt), cmp_pre);
}
static u32 rep_lookup(u32 kind, u32 actor, u32 ord) {
  u64 k = rkey(kind, actor, ord);
  u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 40) & (rep_cap - 1);
  while (rep[h].key) { if (rep[h].key == k) return rep[h].val; h = (h + 1) & (rep_cap - 1); }
  return 0;
}
static u32 pre_start(u32 actor) {
  u32 i = 0;
  while (i < npre && pre[i].actor < actor) i++;
  return i;
}

static void log_choice(u32 kind, u32 actor, u32 ord, u32 val) {
  if (sh->nchoice >= MAXCHOICE) { sh->truncated = 1; return; }
  ChoiceRec& r = sh->choices[sh->nchoice++];
  r.kind = (uint8_t)kind; r.pad = 0; r.actor = (uint16_t)actor; r.ord = ord; r.val = val;
}

static u32 next_ord(Kind k, int actor) { return g.ord[k][actor & (MAXACT - 1)]++; }

u32 choice(Kind k, int actor, u32 n) {
  if (n <= 1) return 0;
  actor &= MAXACT - 1;
  u32 o = next_ord(k, actor);
  u32 v;
  if (g.mode == M_REPLAY) v = rep_lookup(k, actor, o);
  else v = rndn(n);
  if (v) { log_choice(k, actor, o, v); v %= n; }
  return v;
}
// choice whose random value the caller has already drawn
static u32 choice_given(Kind k, int actor, u32 n, u32 rv) {
  if (n <= 1) return 0;
  actor &= MAXACT - 1;
  u32 o = next_ord(k, actor);
  u32 v = g.mode == M_REPLAY ? rep_lookup(k, actor, o) : rv;
  if (v) { log_choice(k, actor, o, v); v %= n; }
  return v;
}
u32 choice_fault(Fault f, int actor, u32 n) {
  if (!g.allowed[f]) return 0;
  actor &= MAXACT - 1;
  Kind k = (Kind)(K_FAULT0 + f);
  u32 o = next_ord(k, actor);
  if (g.calm) return 0;
  u32 v;
  if (g.mode == M_REPLAY) v = rep_lookup(k, actor, o);
  else { if (!g.fprob[f]) return 0; v = (u32)(rnd() >> 32) < g.fprob[f] ? 1 + rndn(n) : 0; }
  if (v) { log_choice(k, actor, o, v); v = 1 + (v - 1) % n; sh->faults[f]++; mix(0xfa0000 + f); }
  return v;
}

u32 choose(u32 n) { RT; return choice(K_WORK, self_id(), n); }
u32 choose_range(u32 lo, u32 hi) { RT; return lo + choice(K_WORK, self_id(), hi - lo + 1); }
bool coin(u32 n) {
  RT;
  if (n <= 1) return true;
  return choice_given(K_WORK, self_id(), 2, rndn(n) == 0) != 0;
}
u32 cfg(u32 n) { RT; return choice(K_CFG, self_id(), n); }
void allow(Fault f) {
  RT;
  if (g.allowed[f]) return;
  g.allowed[f] = true;
  static const u32 probs[] = {0, 0, 0x80000000u, 0x20000000u, 0x08000000u, 0x02000000u};
  g.fprob[f] = probs[rndn(6)];
}
u32 fault(Fault f, u32 n) { RT; return choice_fault(f, self_id(), n); }
void fault_count(Fault f) { sh->faults[f]++; }
u64 injected(Fault f) { return sh->faults[f]; }
void calm(bool on) { g.calm = on; }
bool calmed() { return g.calm; }

// ---------------------------------------------------------------- events / trace
void tracef(const char* fmt, ...) {
  if (!g.trace) return;
  RT;
  u32 left = TRACE_SZ - sh->trace_len;
  if (left < 400) return;
  char* p = sh->trace + sh->trace_len;
  int n = snprintf(p, 64, "%8llu.%03llu ev%-6llu %-10s ", (unsigned long long)(g.now / 1000), (unsigned long long)(g.now % 1000),
                   (unsigned long long)g.evseq, g.cur ? g.cur->name : "-");
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(p + n, 300, fmt, ap);
  va_end(ap);
  if (n > 398) n = 398;
  p[n++] = '\n';
  sh->trace_len += n;
}
void event(const char* fmt, ...) {
  RT;
  char buf[300];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  g.evseq++;
  u64 h = 1469598103934665603ull;
  for (const char* p = buf; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
  mix(h);
  sh->nevents++;
  tracef("%s", buf);
}
void probe(const char* name, u64 n) {
  for (int i = 0; i < NPROBE; i++) {
    if (!sh->probes[i].name[0]) strncpy(sh->probes[i].name, name, 39);
    if (!strncmp(sh->probes[i].name, name, 39)) { sh->probes[i].n += n; return; }
  }
}
void nontrivial() { g.nontriv = true; }
void state_hash(u64 h) { mix(h); }
void note_schedule(u64 h) { g.shash = (g.shash ^ h) * 0x100000001b3ull; g.shash ^= g.shash >> 31; }

static void describe_fibers() {
  for (int i = 0; i < g.nf; i++) {
    Fiber* f = g.f[i];
    if (f->st != 1) continue;
    tracef("  thread %d (%s): %s%s", f->id, f->name, f->has_pred ? "waiting: " : "runnable", f->has_pred ? f->wdesc : "");
  }
}
static void finish(u32 st) {
  sh->hash = g.hash; sh->shash = g.shash; sh->points = g.points; sh->switches = g.switches; sh->simns = g.now; sh->nontriv = g.nontriv;
  __atomic_store_n(&sh->status, st, __ATOMIC_SEQ_CST);
  _exit(0);
}
void vfail(const char* cls, const char* msg) {
  g.rt++; g.off++;
  if (g.in_fail) finish(ST_VIOLATION);
  g.in_fail = true;
  strncpy(sh->cls, cls, sizeof sh->cls - 1);
  int n = snprintf(sh->msg, sizeof sh->msg, "%s", msg);
  Fiber* f = g.cur;
  if (f && n < (int)sizeof sh->msg)
    n += snprintf(sh->msg + n, sizeof sh->msg - n, " [thread %d %s, t=%lluus]", f->id, f->name, (unsigned long long)(g.now / 1000));
  sh->npcs = 0;
  if (f) for (u32 i = 0; i < 16 && i < f->csd; i++) sh->pcs[sh->npcs++] = f->cs[(f->csd - 1 - i) & 63];
  tracef("VIOLATION %s: %s", cls, sh->msg);
  describe_fibers();
  for (const char* p = cls; *p; p++) mix((unsigned char)*p);
  finish(ST_VIOLATION);
  abort();
}
void fail(const char* cls, const char* fmt, ...) {
  g.rt++; g.off++;
  char buf[1600];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  vfail(cls, buf);
}
void harness_error(const char* fmt, ...) {
  g.rt++; g.off++;
  va_list ap; va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  strcpy(sh->cls, "harness-error");
  tracef("HARNESS ERROR %s", sh->msg);
  finish(ST_HARNESS);
  abort();
}

// ---------------------------------------------------------------- TLS of the executable
static char* tls_block; static size_t tls_size; static const char* tls_init; static size_t tls_init_size;
void tls_range(const char** p, size_t* n) { *p = tls_block; *n = tls_size; }
static int find_tls(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      tls_block = (char*)info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz;
      tls_init = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); tls_init_size = info->dlpi_phdr[i].p_filesz;
    }
  return 1;  // first object is the executable
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** save, void* to);
__asm__(
  ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
  "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
  "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
  "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
  ".size sim_switch,.-sim_switch\n"
  ".globl sim_tramp\n.type sim_tramp,@function\nsim_tramp:\n"
  "  .cfi_startproc\n  .cfi_undefined rip\n  xorl %ebp, %ebp\n  call sim_fiber_main\n  ud2\n  .cfi_endproc\n"
  ".size sim_tramp,.-sim_tramp\n");
extern "C" void sim_tramp();

static char* stacks;

static void set_trigger(Fiber* f);
static void switch_to(Fiber* n);

static void fiber_exit(Fiber* f) {
  // thread-local destructors run as user code
  { UserScope us; while (f->ndtors > 0) { f->ndtors--; f->dtors[f->ndtors].f(f->dtors[f->ndtors].o); } }
  f->st = 2;
  hb_release(f->rel);  // clock for joiners
  tracef("thread %d ends", f->id);
  for (;;) yield_point(K_BLOCK);
}
extern "C" void sim_fiber_main() noexcept {
  Fiber* f = g.cur;
  g.rt = 1; g.nopre = 0; g.off = 1 + (g.active ? 0 : 1);
  { UserScope us; f->ret = f->fn(f->arg); }
  fiber_exit(f);
}

Fiber* new_fiber(void* (*fn)(void*), void* arg, const char* name) {
  if (g.nf >= MAXF) harness_error("too many threads");
  Fiber* f = rt_new<Fiber>();
  memset((void*)f, 0, sizeof *f);
  f->id = g.nf; f->st = 1; f->fn = fn; f->arg = arg;
  strncpy(f->name, name, 31);
  f->stack = stacks + (size_t)f->id * STACK_SZ; f->stack_sz = STACK_SZ;
  f->deadline = ~0ull;
  f->tls = (char*)rt_alloc(tls_size + 64);
  memcpy(f->tls, tls_init, tls_init_size);
  memset(f->tls + tls_init_size, 0, tls_size - tls_init_size);
  void** sp = (void**)(f->stack + f->stack_sz - 64);
  sp = (void**)((uintptr_t)sp & ~15ull);
  *--sp = (void*)sim_tramp;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  if (g.cur) { f->vc = g.cur->vc; g.cur->vc.c[g.cur->id]++; }
  f->vc.c[f->id] = 1;
  f->prio = g.mode == M_RANDOM ? 1000 + rndn(1000) : 0;
  f->replay_ix = pre_start(f->id);
  g.f[g.nf++] = f;
  f->slice_end = g.maxslice;
  f->next_mem = g.mean_mem ? geometric(g.mean_mem) : ~0u;
  set_trigger(f);
  return f;
}

static void set_trigger(Fiber* f) {
  u32 t = f->slice_end;
  if (g.mode == M_REPLAY) {
    while (f->replay_ix < npre && pre[f->replay_ix].actor == (u32)f->id && pre[f->replay_ix].points <= f->points) f->replay_ix++;
    if (f->replay_ix < npre && pre[f->replay_ix].actor == (u32)f->id && pre[f->replay_ix].points < t) t = pre[f->replay_ix].points;
  } else if (f->next_mem < t && !g.calm) t = f->next_mem;
  f->trigger = t;
}

static void switch_to(Fiber* n) {
  Fiber* c = g.cur;
  n->slice_end = n->points + g.maxslice;
  if (c == n) { set_trigger(n); return; }
  g.switches++;
  note_schedule(((u64)n->id << 32) ^ n->points);
  mix(((u64)n->id << 32) ^ n->points ^ ((u64)c->points << 8));
  c->rt = g.rt; c->nopre = g.nopre; c->err = errno;
  memcpy(c->tls, tls_block, tls_size);
  memcpy(tls_block, n->tls, tls_size);
  g.cur = n;
  set_trigger(n);
  sim_switch(&c->sp, n->sp);
  // resumed
  Fiber* me = g.cur;
  g.rt = me->rt; g.nopre = me->nopre; g.off = (g.active ? 0 : 1) + g.rt + g.nopre;
  errno = me->err;
}

// ---------------------------------------------------------------- time
struct Ev { u64 at, seq; EvFn fn; void* a; u64 b; };
static Vec<Ev>* evq; static u64 evs;
static bool ev_less(const Ev& x, const Ev& y) { return x.at != y.at ? x.at < y.at : x.seq < y.seq; }
void schedule_event(u64 at, EvFn fn, void* a, u64 b) {
  Ev e; e.at = at < g.now ? g.now : at; e.seq = evs++; e.fn = fn; e.a = a; e.b = b;
  Vec<Ev>& q = *evq;
  q.push_back(e);
  size_t i = q.size() - 1;
  while (i && ev_less(q[i], q[(i - 1) / 2])) { Ev t = q[i]; q[i] = q[(i - 1) / 2]; q[(i - 1) / 2] = t; i = (i - 1) / 2; }
}
u64 next_event_time() { return evq->empty() ? ~0ull : (*evq)[0].at; }
static Ev pop_event() {
  Vec<Ev>& q = *evq;
  Ev r = q[0];
  q[0] = q.back(); q.pop_back();
  size_t i = 0, n = q.size();
  for (;;) {
    size_t l = 2 * i + 1, m = i;
    if (l < n && ev_less(q[l], q[m])) m = l;
    if (l + 1 < n && ev_less(q[l + 1], q[m])) m = l + 1;
    if (m == i) break;
    Ev t = q[i]; q[i] = q[m]; q[m] = t; i = m;
  }
  return r;
}
static void run_due_events() {
  while (!evq->empty() && (*evq)[0].at <= g.now) { Ev e = pop_event(); e.fn(e.a, e.b); }
}
static const u64 WALL_BASE = 1700000000ull * 1000000000ull;
u64 wall_now() { return (u64)((int64_t)(WALL_BASE + g.now) + g.wall_off); }
static u64 mono_deadline(Fiber* f) {
  if (f->deadline == ~0ull) return ~0ull;
  if (!f->dl_wall) return f->deadline;
  int64_t d = (int64_t)f->deadline - (int64_t)WALL_BASE - g.wall_off;
  return d < 0 ? 0 : (u64)d;
}

static inline bool eligible(Fiber* f) {
  if (f->st != 1) return false;
  if (!f->has_pred) return true;
  if (f->pred && f->pred(f)) return true;
  return mono_deadline(f) <= g.now;
}

static void check_limits() {
  if (g.points > g.max_points) {
    describe_fibers();
    fail("livelock", "no end after %llu execution steps", (unsigned long long)g.points);
  }
}

// choose the next thread; `self_ok`: the current one may continue
static Fiber* pick_next(Kind k, bool self_ok, int given) {
  Fiber* c = g.cur;
  for (;;) {
    check_limits();
    run_due_events();
    Fiber* cand[MAXF]; int n = 0; Fiber* stalled = nullptr;
    for (int i = 1; i <= g.nf; i++) {
      Fiber* f = g.f[(c->id + i) % g.nf];
      if (f == c && (!self_ok || c->st != 1)) continue;
      if (!eligible(f)) continue;
      if (f->stall_until > g.points && !g.calm) { if (!stalled || f->stall_until < stalled->stall_until) stalled = f; continue; }
      cand[n++] = f;
    }
    if (n) {
      if (given >= 0) return cand[given % n];
      if (n == 1) return cand[0];
      u32 rv = 0;
      if (g.mode == M_RANDOM && !g.calm) {
        if (g.strat == 1) { for (int i = 1; i < n; i++) if (cand[i]->prio > cand[rv]->prio) rv = i; }
        else if (g.strat == 0) rv = rndn(n);
        else rv = rndn(4) == 0 ? rndn(n) : 0;
      }
      return cand[choice_given(k, c->id, n, rv)];
    }
    if (!self_ok && k == K_YIELD && stalled && c->st == 1) return c;   // a spinning thread does not end a stall
    if (stalled) { stalled->stall_until = 0; return stalled; }
    if (!self_ok && c->st == 1 && eligible(c)) return c;
    // nothing can run: advance time
    u64 t = next_event_time();
    for (int i = 0; i < g.nf; i++) { Fiber* f = g.f[i]; if (f->st == 1 && f->has_pred) { u64 d = mono_deadline(f); if (d < t) t = d; } }
    if (t == ~0ull) {
      describe_fibers();
      char buf[1200]; int o = 0;
      for (int i = 0; i < g.nf && o < 1000; i++) if (g.f[i]->st == 1) o += snprintf(buf + o, 100, " %s:%s;", g.f[i]->name, g.f[i]->wdesc ? g.f[i]->wdesc : "?");
      fail("deadlock", "every thread is blocked for ever:%s", buf);
    }
    if (t > g.max_time) { describe_fibers(); fail("hang", "run did not finish within %llu simulated seconds", (unsigned long long)(g.max_time / 1000000000ull)); }
    if (t > g.now) g.now = t;
    g.points += 10;
  }
}

static void do_preempt(Fiber* f, u32 v) {
  u32 s = (v - 1) >> 6, t = (v - 1) & 63;
  static const u32 stall_len[4] = {0, 300, 4000, 60000};
  if ((s & 3) && g.stall_sum < 1500000) { g.stall_sum += stall_len[s & 3]; f->stall_until = g.points + stall_len[s & 3]; sh->faults[F_THREAD_STALL]++; }
  Fiber* n = pick_next(K_PREEMPT, false, (int)t);
  switch_to(n);
}
static bool others_runnable(Fiber* c) {
  for (int i = 0; i < g.nf; i++) if (g.f[i] != c && eligible(g.f[i]) && g.f[i]->stall_until <= g.points) return true;
  return false;
}
static u32 count_runnable(Fiber* c) {
  u32 n = 0;
  for (int i = 0; i < g.nf; i++) if (g.f[i] != c && eligible(g.f[i]) && g.f[i]->stall_until <= g.points) n++;
  return n;
}
static void random_preempt(Fiber* f) {
  u32 n = count_runnable(f);
  if (!n) return;
  u32 t = rndn(n), s = 0;
  if (g.p_stall && rndn(g.p_stall) == 0) s = 1 + rndn(3);
  if (g.strat == 1) {  // PCT: lower own priority, take the best other one
    f->prio = g.pct_low > 0 ? --g.pct_low : 0;
    int k = 0, best = -1; u32 bp = 0;
    for (int i = 1; i <= g.nf; i++) {
      Fiber* o = g.f[(f->id + i) % g.nf];
      if (o == f || !eligible(o) || o->stall_until > g.points) continue;
      if (best < 0 || o->prio > bp) { best = k; bp = o->prio; }
      k++;
    }
    t = best < 0 ? 0 : best;
  }
  u32 v = 1 + t + 64 * s;
  f->last_pre = f->points;
  log_choice(K_PREEMPT, f->id, f->points, v);
  do_preempt(f, v);
}

// called when points reaches trigger
void slow_point() {
  RT;
  Fiber* f = g.cur;
  check_limits();
  if (g.mode == M_REPLAY) {
    if (f->replay_ix < npre && pre[f->replay_ix].actor == (u32)f->id && pre[f->replay_ix].points == f->points) {
      u32 v = pre[f->replay_ix].val;
      f->replay_ix++;
      log_choice(K_PREEMPT, f->id, f->points, v);
      f->last_pre = f->points;
      if (!g.calm) do_preempt(f, v);
    }
  } else if (f->points >= f->next_mem) {
    f->next_mem = f->points + geometric(g.mean_mem);
    if (!g.calm) random_preempt(f);
  }
  if (f->points >= f->slice_end) {
    g.now += 20000;
    f->slice_end = f->points + g.maxslice;
    if (others_runnable(f)) { Fiber* n = pick_next(K_YIELD, false, 0); switch_to(n); }
  }
  set_trigger(f);
}

void sync_point(u32 cost_ns) {
  // called with g.rt > 0
  if (!g.active || g.nopre) return;
  Fiber* f = g.cur;
  g.points++;
  g.now += cost_ns ? cost_ns : g.op_ns;
  f->points++;
  if (next_event_time() <= g.now) run_due_events();
  if (f->points >= f->trigger) slow_point();
  if (g.mode == M_RANDOM && !g.calm && g.p_sync && f->last_pre != f->points) {
    if (rndn(g.p_sync) == 0) random_preempt(f);
  }
}
void mem_point_slow() { slow_point(); }

bool block(bool (*pred)(Fiber*), void* obj, u64 deadline, bool wall, const char* desc) {
  if (!g.active) harness_error("blocking call outside the simulation: %s", desc);
  if (g.nopre) harness_error("blocking call in a no-preempt scope: %s", desc);
  Fiber* f = g.cur;
  f->pred = pred; f->wobj = obj; f->deadline = deadline; f->dl_wall = wall; f->wdesc = desc; f->has_pred = true;
  bool ok;
  for (;;) {
    run_due_events();
    ok = pred && pred(f);
    if (ok) break;
    if (mono_deadline(f) <= g.now) { ok = false; break; }
    Fiber* n = pick_next(K_BLOCK, true, -1);
    switch_to(n);
  }
  f->has_pred = false; f->pred = nullptr; f->deadline = ~0ull; f->wdesc = nullptr;
  return ok;
}
void yield_point(Kind k) {
  Fiber* f = g.cur;
  if (f->st == 1) {
    g.points++; f->points++; g.now += 200;
    bool stalled = false;
    for (int i = 0; i < g.nf && !stalled; i++) stalled = g.f[i] != f && eligible(g.f[i]) && g.f[i]->stall_until > g.points;
    if (stalled && !others_runnable(f)) g.points += 20;    // waiting for a stalled thread
    else if (!others_runnable(f)) {
      // spinning alone: let time pass faster
      u64 t = next_event_time();
      for (int i = 0; i < g.nf; i++) { Fiber* o = g.f[i]; if (o != f && o->st == 1 && o->has_pred) { u64 d = mono_deadline(o); if (d < t) t = d; } }
      if (t != ~0ull && t > g.now) { u64 d = t - g.now; g.now += d > 100000 ? (d < 10000000 ? 100000 : d / 100) : d; }
      g.points += 20;
    }
    if (g.strat == 1 && g.mode == M_RANDOM) f->prio = g.pct_low > 0 ? --g.pct_low : 0;
  }
  Fiber* n = pick_next(k, false, -1);
  switch_to(n);
}

// ---------------------------------------------------------------- public thread API
struct SpawnArg { std::function<void()> fn; };
extern "C" int pthread_create(unsigned long*, const void*, void* (*)(void*), void*) noexcept;
static void* spawn_main(void* a) {
  std::function<void()>* fn = (std::function<void()>*)a;
  (*fn)();
  delete fn;
  return nullptr;
}
int spawn(const char* name, std::function<void()> fn) {
  RT;
  std::function<void()>* p;
  { UserScope us; g.off++; g.nopre++; p = new std::function<void()>(std::move(fn)); g.nopre--; g.off--; }
  Fiber* f = new_fiber(spawn_main, p, name);
  tracef("spawn thread %d %s", f->id, name);
  sync_point();
  return f->id;
}
static bool p_done(Fiber* f) { return ((Fiber*)f->wobj)->st == 2; }
void join(int t) {
  RT;
  Fiber* o = g.f[t];
  block(p_done, o, ~0ull, false, "join (harness)");
  hb_acquire(o->rel);
  o->joined = true;
}
static bool p_fn(Fiber* f) { return (*f->wfn)(); }
bool wait_until(std::function<bool()> pred, u64 timeout_ms) {
  RT;
  g.cur->wfn = &pred;
  bool r = block(p_fn, nullptr, g.now + timeout_ms * 1000000ull, false, "wait_until (harness)");
  // harness synchronisation is not a happens-before edge of the system under test
  return r;
}
static bool p_never(Fiber*) { return false; }
void sleep_us(u64 us) { RT; block(p_never, nullptr, g.now + us * 1000, false, "sleep (harness)"); }
void yield() { RT; sync_point(); yield_point(K_YIELD); }
int tid() { return self_id(); }
int nlive() { int n = 0; for (int i = 0; i < g.nf; i++) n += g.f[i]->st == 1; return n; }
u64 now_ns() { return g.now; }
u64 now_us() { return g.now / 1000; }
u64 now_ms() { return g.now / 1000000; }
u64 seq() { return ++g.evseq; }
void wall_jump_ns(int64_t d) { g.wall_off += d; tracef("wall clock jumps by %lld ms", (long long)(d / 1000000)); }
void clock_reads(u64 f) { g.clock_frac = f; }
bool idle_system() {
  RT;
  for (int i = 0; i < g.nf; i++) if (g.f[i] != g.cur && eligible(g.f[i])) return false;
  return true;
}
Atomic::Atomic() { g.nopre++; g.off++; }
Atomic::~Atomic() { g.nopre--; g.off--; }
void set_max_steps(u64 n) { g.max_points = n; }
void set_max_time_s(u64 s) { g.max_time = s * 1000000000ull; }

// ---------------------------------------------------------------- happens-before
void hb_acquire(const VC& o) { VC& m = g.cur->vc; for (int i = 0; i < g.nf; i++) if (o.c[i] > m.c[i]) m.c[i] = o.c[i]; }
void hb_release(VC& o) {
  VC& m = g.cur->vc;
  for (int i = 0; i < g.nf; i++) if (m.c[i] > o.c[i]) o.c[i] = m.c[i];
  m.c[g.cur->id]++;
}
enum { SVN = 1 << 15 };
static struct { const void* a; VC* v; } svt[SVN];
static u32 svcount;
VC* sync_vc(const void* addr, bool create) {
  u32 h = (u32)(((u64)(uintptr_t)addr * 0x9e3779b97f4a7c15ull) >> 48) & (SVN - 1);
  while (svt[h].a) { if (svt[h].a == addr) return svt[h].v; h = (h + 1) & (SVN - 1); }
  if (!create) return nullptr;
  if (++svcount > SVN / 2) harness_error("too many synchronisation objects");
  svt[h].a = addr; svt[h].v = (VC*)rt_alloc(sizeof(VC)); memset(svt[h].v, 0, sizeof(VC));
  return svt[h].v;
}
enum { STN = 1 << 13 };
static struct { const void* o; u32 fid, clk; } stt[STN];
// tables of the runtime which hold addresses of user memory without owning it
void rt_tables(u64 lo[2], u64 hi[2]) { lo[0] = (u64)svt; hi[0] = (u64)(svt + SVN); lo[1] = (u64)stt; hi[1] = (u64)(stt + STN); }
static u32 sth(const void* o) {
  u32 h = (u32)(((u64)(uintptr_t)o * 0x9e3779b97f4a7c15ull) >> 48) & (STN - 1);
  while (stt[h].o && stt[h].o != o) h = (h + 1) & (STN - 1);
  return h;
}
static u32 stcount;
void hb_stamp(const void* o) {
  if (!g.active) return;
  u32 h = sth(o);
  if (!stt[h].o && ++stcount > STN * 3 / 4) harness_error("too many stamps");
  stt[h].o = o; stt[h].fid = g.cur->id; stt[h].clk = g.cur->vc.c[g.cur->id];
}
void hb_observe(const void* o, const char* what) {
  if (!g.active) return;
  u32 h = sth(o);
  if (!stt[h].o) return;
  if (g.cur->vc.c[stt[h].fid] < stt[h].clk)
    fail("unordered-publication", "%s: read by thread %d without a happens-before edge from the write by thread %d", what, g.cur->id, (int)stt[h].fid);
}

// ---------------------------------------------------------------- run
static char altstack[65536];
static void on_crash(int sig, siginfo_t* si, void* uc) {
  (void)uc;
  g.rt++; g.off++;
  char b[200];
  if (sig == SIGSEGV && g.cur) {
    char* a = (char*)si->si_addr;
    if (a < g.cur->stack + 4096 && a > g.cur->stack - 65536) vfail("crash", "stack overflow");
  }
  u64 a = (u64)si->si_addr;
  snprintf(b, sizeof b, "signal %d (%s), fault address %s0x%llx", sig, strsignal(sig), a < 65536 ? "(null page) " : "", (unsigned long long)a);
  vfail(sig == SIGVTALRM || sig == SIGXCPU ? "hang" : "crash", b);
}
void core_init() {
  dl_iterate_phdr(find_tls, nullptr);
  if (!tls_size) tls_block = (char*)"";
  stacks = (char*)mmap((void*)STK, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (stacks == MAP_FAILED) { perror("mmap stacks"); _exit(3); }
  for (int i = 0; i < MAXF; i++) mprotect(stacks + (size_t)i * STACK_SZ, 4096, PROT_NONE);
  evq = rt_new<Vec<Ev>>();
  sh = (Shared*)mmap((void*)0x210000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap shared"); _exit(3); }
  __libc_single_threaded = 0;
}
static void* main_fiber(void* p) {
  ((void (*)())p)();
  g.rt++; g.off++;
  tracef("run complete");
  finish(ST_OK);
  return nullptr;
}
void run_child(void (*fn)(), const char* scen) {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGVTALRM, SIGSYS};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_DFL);
  snprintf(sh->scenario, sizeof sh->scenario, "%s", scen);
  // schedule knobs
  static const u32 mems[] = {0, 0, 12, 60, 400, 3000, 20000};
  static const u32 syncs[] = {0, 1, 2, 4, 10, 40, 200};
  static const u32 stl[] = {0, 0, 3, 10, 40};
  static const u32 ops[] = {100, 20, 1000, 5000};
  g.mean_mem = mems[rndn(7)];
  g.p_sync = syncs[rndn(7)];
  if (!g.mean_mem && !g.p_sync) g.p_sync = 6;
  g.p_stall = stl[rndn(5)];
  u32 s = rndn(10);
  g.strat = s < 5 ? 0 : s < 8 ? 1 : 2;
  if (g.strat == 1) {  // few change points
    static const u32 pm[] = {300, 1500, 8000}; static const u32 ps[] = {20, 80, 300};
    g.mean_mem = rndn(2) ? pm[rndn(3)] : 0; g.p_sync = rndn(3) ? ps[rndn(3)] : 0;
    g.pct_low = 900;
  }
  g.maxslice = 20000;
  g.max_points = 6000000; g.max_time = 3600ull * 1000000000ull;
  g.active = true; g.rt = 1; g.nopre = 0; g.off = 1;
  g.hash = 1469598103934665603ull; g.shash = 7;
  g.op_ns = ops[choice(K_CFG, 255, 4)];
  net_reset();
  Fiber* f = new_fiber(main_fiber, (void*)fn, "main");
  g.cur = f;
  memcpy(tls_block, f->tls, tls_size);
  void* dummy;
  sim_switch(&dummy, f->sp);
  abort();
}

}  // namespace sim
