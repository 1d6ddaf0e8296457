// Internal interface of the simulator runtime (never instrumented).
#pragma once
#include <sys/uio.h>
#include "simrt.h"
#include <vector>
#include <deque>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>

namespace sim {

enum { MAXF = 64, MAXACT = 256 };
enum : unsigned long { STACK_SZ = 768 * 1024, STK = 0x200000000000ul, STKSZ = STACK_SZ * MAXF };
enum Kind { K_PREEMPT = 0, K_BLOCK, K_YIELD, K_WAKE, K_WORK, K_CFG, K_LAT, K_ORDER, K_MISC, K_FAULT0, K_N = K_FAULT0 + F_NFAULTS };
extern const char* kind_names[K_N];

struct VC { u32 c[MAXF]; };

struct Fiber {
  int id; int st;               // 0 free, 1 live, 2 done
  void* sp; char* stack; size_t stack_sz;
  u32 points, trigger, slice_end, next_mem, last_pre;
  u64 stall_until;
  bool (*pred)(Fiber*); void* wobj; u64 deadline; bool dl_wall; const char* wdesc; bool timed_out; bool signaled; bool has_pred;
  bool blocked;
  int rt, nopre, err;
  char* tls;
  void* (*fn)(void*); void* arg; void* ret; bool detached, joined;
  VC vc, acq, rel; bool has_rel;
  u32 prio;
  u32 csd; void* cs[64];
  struct Dtor { void (*f)(void*); void* o; } dtors[32]; int ndtors;
  void* keys[64];
  char name[32];
  const std::function<bool()>* wfn;
  u32 replay_ix;
};

struct ChoiceRec { uint8_t kind; uint8_t pad; uint16_t actor; u32 ord; u32 val; };

enum { MAXCHOICE = 400000, TRACE_SZ = 1 << 20, NPROBE = 96 };
enum Status { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_HARNESS };

struct Shared {
  u32 status; u32 nchoice; u32 truncated; u32 nontriv;
  char cls[96]; char msg[2048]; char scenario[64];
  u64 hash, shash, points, switches, simns, nevents;
  u64 faults[F_NFAULTS];
  struct { char name[40]; u64 n; } probes[NPROBE];
  void* pcs[24]; int npcs;
  u32 trace_len; 
  ChoiceRec choices[MAXCHOICE];
  char trace[TRACE_SZ];
};

enum Mode { M_RANDOM, M_REPLAY };

struct G {
  int off;              // hooks disabled when nonzero (inactive, runtime code, no-preempt scope)
  int rt, nopre;
  bool active;
  Fiber* cur;
  Fiber* f[MAXF]; int nf;
  u64 now;              // ns
  u64 points, stall_sum, switches, max_points, max_time;
  Mode mode;
  u64 rng[4];
  // schedule knobs (random mode only)
  u32 mean_mem, p_sync, p_stall; int strat; u32 pct_low;
  u32 maxslice; u32 op_ns;
  bool calm;
  bool allowed[F_NFAULTS]; u32 fprob[F_NFAULTS];
  u32 ord[K_N][MAXACT];
  int64_t wall_off;
  u64 clock_frac = ~0ull;  // see sim::clock_reads
  u64 hash, shash;
  bool trace;
  bool nontriv;
  u64 evseq;
  u64 badcloses;
  u32 sndbuf;
  bool in_fail;
};
extern G g;
extern Shared* sh;

struct RtScope { RtScope() { g.rt++; g.off++; } ~RtScope() { g.rt--; g.off--; } };
#define RT ::sim::RtScope _rts
// leave runtime mode for the duration of a call into user code
struct UserScope { int rt, off; UserScope() { rt = g.rt; off = g.off; g.off -= g.rt; g.rt = 0; } ~UserScope() { g.off += rt - g.rt; g.rt = rt; (void)off; } };

// allocation for the runtime itself
void* rt_alloc(size_t n);
void rt_free(void* p);
template <class T> struct RA {
  typedef T value_type;
  RA() {}
  template <class U> RA(const RA<U>&) {}
  T* allocate(size_t n) { return (T*)rt_alloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { rt_free(p); }
};
template <class T, class U> bool operator==(const RA<T>&, const RA<U>&) { return true; }
template <class T, class U> bool operator!=(const RA<T>&, const RA<U>&) { return false; }
template <class T> using Vec = std::vector<T, RA<T>>;
template <class T> T* rt_new() { return new (rt_alloc(sizeof(T))) T(); }

u64 rnd();
u32 rndn(u32 n);
u32 choice(Kind k, int actor, u32 n);          // uniform in random mode
u32 choice_fault(Fault f, int actor, u32 n);   // 0 none, else 1..n
inline int self_id() { return g.cur ? g.cur->id : 0; }

void sync_point(u32 cost_ns = 0);              // scheduling point at a synchronisation / system call
bool block(bool (*pred)(Fiber*), void* obj, u64 deadline, bool wall, const char* desc);  // false on timeout
void yield_point(Kind k);
void vfail(const char* cls, const char* msg) __attribute__((noreturn));
void harness_error(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(u64 v);

// timed events
typedef void (*EvFn)(void* a, u64 b);
void schedule_event(u64 at, EvFn fn, void* a, u64 b);
u64 next_event_time();

// happens-before
void hb_acquire(const VC& o);
void hb_release(VC& o);
VC* sync_vc(const void* addr, bool create);

// memory
void mem_init();
void mem_check(const void* p, size_t n, bool write, const char* what);
bool in_user_arena(const void* p);
void* caller_pc();
void tls_range(const char** p, size_t* n);
void rt_tables(u64 lo[2], u64 hi[2]);

void net_reset();
void net_process_poll();
bool net_owns_fd(int fd);

// driver <-> core
void core_init();
void run_child(void (*fn)(), const char* scen);   // never returns
void load_replay(const ChoiceRec* c, u32 n);
void seed_rng(u64 s);

// files behind C++ streams
bool is_file_fd(int fd);
ssize_t file_readv(int fd, const ::iovec* v, int n);
ssize_t file_writev(int fd, const ::iovec* v, int n);
}  // namespace sim
