// Allocator with use-after-free / out-of-bounds detection, and the instrumentation entry points
// (__tsan_*) the compiler emits for every memory access and atomic operation.
#include "rt.h"
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <link.h>

namespace sim {

static const u64 UB = 0x100000000000ull, USZ = 1ull << 31;        // user arena
static const u64 SB = 0x110000000000ull;                          // shadow: 1 byte per 16
static const u64 RB = 0x120000000000ull, RSZ = 1ull << 30;        // runtime arena
static u64 utop = UB, rtop = RB;
static bool inited;
static unsigned char* const shadow = (unsigned char*)SB;
static u64 alloc_seq;
// Leak tracking (off unless the scenario asks for it): address and allocation stack of every block.
struct Site { u64 p; void* pc[7]; };
static const u64 LB = 0x130000000000ull, LSZ = 1ull << 30;
static Site* const sites = (Site*)LB;
static bool leak_on; static u64 nsites;

struct Hdr { u64 size; u32 seq; u32 magic; void* pc_alloc; void* pc_free; };  // 32 bytes
enum { MAGIC = 0x51a110c8, MFREED = 0x51adead5 };

static inline u64 rawmap(u64 at, u64 sz) {
  void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { write(2, "simrt: mmap failed\n", 19); _exit(3); }
  return at;
}
void mem_init() {
  if (inited) return;
  inited = true;
  rawmap(UB, USZ); rawmap(SB, USZ / 16); rawmap(RB, RSZ);
}

// runtime arena: size classes with free lists
struct RHdr { u64 cls; u64 size; };
static void* rfree[48];
void* rt_alloc(size_t n) {
  if (!inited) mem_init();
  u64 need = n < 16 ? 16 : n;
  int c = 4; while ((1ull << c) < need) c++;
  char* p;
  if (rfree[c]) { p = (char*)rfree[c]; rfree[c] = *(void**)p; }
  else {
    u64 t = (rtop + 16 + 15) & ~15ull;
    rtop = t + (1ull << c);
    if (rtop > RB + RSZ) { write(2, "simrt: runtime arena full\n", 26); _exit(3); }
    p = (char*)t;
    ((RHdr*)p)[-1].cls = c;
  }
  ((RHdr*)p)[-1].size = n;
  return p;
}
void rt_free(void* p) {
  if (!p) return;
  int c = (int)((RHdr*)p)[-1].cls;
  *(void**)p = rfree[c]; rfree[c] = p;
}
static inline bool in_rt(const void* p) { return (u64)p >= RB && (u64)p < RB + RSZ; }
bool in_user_arena(const void* p) { return (u64)p >= UB && (u64)p < UB + USZ; }

void* caller_pc() { Fiber* f = g.cur; return f && f->csd ? f->cs[(f->csd - 1) & 63] : nullptr; }

static void* user_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  u64 p = (utop + 32 + 16 + align - 1) & ~(u64)(align - 1);
  u64 end = (p + (n ? n : 1) + 15) & ~15ull;
  if (end > UB + USZ) sim::fail("runaway-allocation", "the process has allocated %llu bytes, %llu in this call", (unsigned long long)(utop - UB), (unsigned long long)n);
  utop = end;
  Hdr* h = (Hdr*)p - 1;
  h->size = n; h->seq = (u32)++alloc_seq; h->magic = MAGIC; h->pc_alloc = caller_pc(); h->pc_free = nullptr;
  if (leak_on && nsites < LSZ / sizeof(Site)) {
    Site& t = sites[nsites++]; t.p = p;
    Fiber* f = g.cur;
    for (u32 i = 0; i < 7; i++) t.pc[i] = f && i < f->csd ? f->cs[(f->csd - 1 - i) & 63] : nullptr;
  }
  u64 s = (p - UB) / 16, k = n / 16;
  if (k) memset(shadow + s, 16, k);
  if (n & 15) shadow[s + k] = (unsigned char)(n & 15);
  // fresh memory has arbitrary contents: a fixed non-zero pattern
  memset((void*)p, 0xA5, n > 8192 ? 8192 : n);
  return (void*)p;
}
static void* do_malloc(size_t n, size_t align = 16) {
  if (!inited) mem_init();
  if (g.active && g.rt == 0) { RT; return user_alloc(n, align); }
  if (align > 16) {
    char* b = (char*)rt_alloc(n + align + 32);
    u64 p = ((u64)b + 16 + align) & ~(u64)(align - 1);
    ((RHdr*)p)[-1].cls = 47; ((RHdr*)p)[-1].size = n;
    return (void*)p;  // never freed
  }
  return rt_alloc(n);
}
static size_t usable(void* p) { return in_user_arena(p) ? ((Hdr*)p)[-1].size : ((RHdr*)p)[-1].size; }
static void do_free(void* p) {
  if (!p) return;
  if (in_rt(p)) { if (((RHdr*)p)[-1].cls != 47) rt_free(p); return; }
  if (!in_user_arena(p)) { if (g.active) fail("invalid-free", "free of a pointer that is not from the heap"); return; }
  RT;
  Hdr* h = (Hdr*)p - 1;
  if (((u64)p & 15) || (h->magic != MAGIC && h->magic != MFREED)) fail("invalid-free", "free of a pointer that is not the start of an allocation");
  if (h->magic == MFREED) fail("double-free", "memory freed twice (size %llu)", (unsigned long long)h->size);
  h->magic = MFREED; h->pc_free = caller_pc();
  u64 s = ((u64)p - UB) / 16, k = (h->size + 15) / 16;
  memset(shadow + s, 0xFD, k ? k : 1);
  memset(p, 0xDD, h->size > 4096 ? 4096 : h->size);
}

int live_heap_blocks(size_t lo, size_t hi) {
  int n = 0;
  for (u64 s = 0; s < (utop - UB) / 16;) {  // walk allocations through headers
    u64 p = UB + s * 16;
    Hdr* h = (Hdr*)p;
    if (h->magic == MAGIC && shadow[s + 2] != 0) { if (h->size >= lo && h->size <= hi) n++; }
    s++;
  }
  return n;
}

// ---- memory nobody can reach any more, and memory that grows from round to round
void leak_track() {
  RT;
  if (leak_on) return;
  leak_on = true; nsites = 0;
  rawmap(LB, LSZ);
}
static inline bool site_live(const Site& t) { Hdr* h = (Hdr*)t.p - 1; return h->magic == MAGIC; }
struct Root { u64 lo, hi; };
static Root roots[64]; static int nroots;
static int find_roots(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W) && nroots < 60) {
      u64 a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      roots[nroots].lo = (a + 7) & ~7ull; roots[nroots++].hi = a + info->dlpi_phdr[i].p_memsz;
    }
  return 0;
}
static void __attribute__((noreturn)) report_leak(const char* how, const Site& t, int blocks, u64 bytes) {
  Hdr* h = (Hdr*)t.p - 1;
  if (sh) for (int i = 0; i < 7; i++) sh->pcs[16 + i] = t.pc[i];
  fail("memory-leak", "%s: a block of %llu bytes (allocation %u; %d such blocks, %llu bytes in all)", how, (unsigned long long)h->size, h->seq, blocks, (unsigned long long)bytes);
}
// Only when every other thread has ended. Conservative: a block counts as reachable when any word of
// global data, of the calling thread's stack and thread-local data, or of a reachable block points into it.
void leak_check() {
  RT;
  if (nlive() != 1) harness_error("leak_check with %d threads", nlive());
  for (u64 i = 0; i < nsites; i++) (void)sites[i];
  Vec<u32> live;
  for (u64 i = 0; i < nsites; i++) if (site_live(sites[i])) live.push_back((u32)i);
  Vec<char> seen(live.size(), 0); Vec<u32> work;
  nroots = 0; dl_iterate_phdr(find_roots, nullptr);
  u64 sp = (u64)__builtin_frame_address(0);
  roots[nroots].lo = sp & ~7ull; roots[nroots++].hi = (u64)g.cur->stack + g.cur->stack_sz;
  const char* tb; size_t tn; tls_range(&tb, &tn);
  roots[nroots].lo = ((u64)tb + 7) & ~7ull; roots[nroots++].hi = (u64)tb + tn;
  u64 xlo[2], xhi[2]; rt_tables(xlo, xhi);
  auto scan = [&](u64 lo, u64 hi) {
    for (u64 a = lo; a + 8 <= hi; a += 8) {
      if (a - xlo[0] < xhi[0] - xlo[0] || a - xlo[1] < xhi[1] - xlo[1]) continue;
      u64 w = *(u64*)a;
      if (w - UB >= USZ) continue;
      size_t b = 0, e = live.size();
      while (b < e) { size_t m = (b + e) / 2; if (sites[live[m]].p <= w) b = m + 1; else e = m; }
      if (!b) continue;
      u32 ix = (u32)b - 1; u64 p = sites[live[ix]].p;
      if (w > p + ((Hdr*)p)[-1].size || seen[ix]) continue;
      seen[ix] = 1; work.push_back(ix);
    }
  };
  for (int i = 0; i < nroots; i++) scan(roots[i].lo, roots[i].hi);
  while (!work.empty()) { u32 ix = work.back(); work.pop_back(); u64 p = sites[live[ix]].p; scan(p, p + ((Hdr*)p)[-1].size); }
  int n = 0; u64 bytes = 0; const Site* first = nullptr;
  for (size_t i = 0; i < live.size(); i++) if (!seen[i]) { n++; bytes += ((Hdr*)sites[live[i]].p)[-1].size; if (!first) first = &sites[live[i]]; }
  // prefer a block that no other lost block points to
  if (n > 1) {
    Vec<char> inner(live.size(), 0);
    for (size_t i = 0; i < live.size(); i++) if (!seen[i]) {
      u64 p = sites[live[i]].p, z = ((Hdr*)p)[-1].size;
      for (u64 a = p; a + 8 <= p + z; a += 8) {
        u64 w = *(u64*)a;
        for (size_t j = 0; j < live.size(); j++) if (j != i && !seen[j] && w >= sites[live[j]].p && w <= sites[live[j]].p + ((Hdr*)sites[live[j]].p)[-1].size) inner[j] = 1;
      }
    }
    for (size_t i = 0; i < live.size(); i++) if (!seen[i] && !inner[i]) { first = &sites[live[i]]; break; }
  }
  if (first) report_leak("memory that nothing refers to any more", *first, n, bytes);
}
u64 leak_mark() { return nsites; }
// Blocks allocated in [marks[i], marks[i+1]) that are alive now, by allocation stack; a stack that left blocks
// behind in at least `need` of the rounds is growth.
void leak_growth(const u64* marks, int rounds, int need) {
  RT;
  struct Cnt { u64 key; int rounds, last, blocks; u64 bytes; u32 first; };
  Vec<Cnt> v;
  for (int r = 0; r < rounds; r++)
    for (u64 i = marks[r]; i < marks[r + 1]; i++) {
      if (!site_live(sites[i])) continue;
      u64 k = ((Hdr*)sites[i].p)[-1].size > 0 ? 1469598103934665603ull : 7;
      for (int j = 0; j < 7; j++) k = (k ^ (u64)sites[i].pc[j]) * 1099511628211ull;
      size_t a = 0; while (a < v.size() && v[a].key != k) a++;
      if (a == v.size()) { Cnt c = {k, 0, -1, 0, 0, (u32)i}; v.push_back(c); }
      Cnt& c = v[a];
      if (c.last != r) { c.rounds++; c.last = r; }
      c.blocks++; c.bytes += ((Hdr*)sites[i].p)[-1].size;
    }
  for (auto& c : v) if (c.rounds >= need) {
    char how[96]; snprintf(how, sizeof how, "memory in use grows in %d of %d equal rounds", c.rounds, rounds);
    report_leak(how, sites[c.first], c.blocks, c.bytes);
  }
}

static void bad_access(u64 a, size_t n, bool write, const char* what) {
  unsigned char v = shadow[(a - UB) / 16];
  // find the allocation
  u64 q = a & ~15ull; int back = 0;
  Hdr* h = nullptr;
  while (q > UB && back < 1 << 17) { Hdr* t = (Hdr*)q - 1; if ((u64)t >= UB && (t->magic == MAGIC || t->magic == MFREED) && t->size < USZ && q + t->size + 64 > a) { h = t; break; } q -= 16; back++; }
  if (v == 0xFD || (h && h->magic == MFREED)) {
    if (sh && h) { sh->pcs[20] = h->pc_free; sh->pcs[21] = h->pc_alloc; }
    fail("use-after-free", "%s%s of %zu bytes at offset %lld in a freed block of %lld bytes", what, write ? " write" : " read", n,
         h ? (long long)(a - q) : -1, h ? (long long)h->size : -1);
  }
  fail("heap-overflow", "%s%s of %zu bytes at offset %lld outside a block of %lld bytes", what, write ? " write" : " read", n,
       h ? (long long)(a - q) : -1, h ? (long long)h->size : -1);
}
// Another thread's stack: what lies below its stack pointer, or on the stack of a thread that has ended, no longer exists.
void stack_check(u64 a, size_t n, bool write, const char* what) {
  u64 i = (a - STK) / STACK_SZ;
  if (i >= (u64)g.nf) return;
  Fiber* o = g.f[i];
  if (o == g.cur || (o->st != 2 && a >= (u64)o->sp)) return;
  fail("use-after-return", "%s%s of %zu bytes in the stack of thread %d, which %s", what, write ? " write" : " read", n, o->id,
       o->st == 2 ? "has ended" : "has left that function");
}
void mem_check(const void* p, size_t n, bool write, const char* what) {
  u64 a = (u64)p;
  if (n == 0) return;
  if (a - STK < STKSZ) { stack_check(a, n, write, what); return; }
  if (a - UB >= USZ) return;
  u64 end = a + n;
  for (u64 b = a & ~15ull; b < end; b += 16) {
    unsigned char v = shadow[(b - UB) / 16];
    if (v == 16) continue;
    u64 need = end - b < 16 ? end - b : 16;
    if (v == 0 || v == 0xFD || need > v) bad_access(b < a ? a : b, n, write, what);
  }
}
void slow_point();

#define ALWAYS static inline __attribute__((always_inline))
ALWAYS void mem_point(const void* p, size_t n, bool write) {
  if (__builtin_expect(g.off != 0, 0)) return;
  u64 a = (u64)p;
  if (a - UB < USZ) {
    unsigned char v = shadow[(a - UB) >> 4];
    if (__builtin_expect((a & 15) + n > v || v == 0xFD, 0)) { RT; mem_check(p, n, write, "memory"); }
  }
  Fiber* f = g.cur;
  if (__builtin_expect(a - STK < STKSZ && a - (u64)f->stack >= STACK_SZ, 0)) { RT; stack_check(a, n, write, "memory"); }
  g.points++;
  if (__builtin_expect(++f->points >= f->trigger, 0)) slow_point();
}

}  // namespace sim

using namespace sim;

extern "C" {
void* __libc_malloc(size_t);
void* malloc(size_t n) { return do_malloc(n); }
void free(void* p) { int e = errno; do_free(p); errno = e; }
void* calloc(size_t a, size_t b) { void* p = do_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return do_malloc(n);
  size_t o = usable(p);
  void* q = do_malloc(n);
  memcpy(q, p, o < n ? o : n);
  do_free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return do_malloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_malloc(n, al); }
int posix_memalign(void** r, size_t al, size_t n) { *r = do_malloc(n, al); return 0; }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
void* valloc(size_t n) { return do_malloc(n, 4096); }

// ------------------------------------------------------------------ instrumented string functions
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (g.off || n == 0) return __real_memcpy(d, s, n);
  { RT; mem_check(s, n, false, "memcpy"); mem_check(d, n, true, "memcpy"); }
  mem_point(s, 1, false);
  size_t h = n > 8 ? n / 2 : n;
  __real_memcpy(d, s, h);
  if (h < n) {
    mem_point(d, 1, true);
    { RT; mem_check((const char*)s + h, n - h, false, "memcpy"); mem_check((char*)d + h, n - h, true, "memcpy"); }
    __real_memcpy((char*)d + h, (const char*)s + h, n - h);
  }
  return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (g.off || n == 0) return __real_memmove(d, s, n);
  { RT; mem_check(s, n, false, "memmove"); mem_check(d, n, true, "memmove"); }
  mem_point(s, 1, false);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (g.off || n == 0) return __real_memset(d, c, n);
  { RT; mem_check(d, n, true, "memset"); }
  mem_point(d, 1, true);
  return __real_memset(d, c, n);
}

// ------------------------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g.active && g.cur && !g.rt) { Fiber* f = g.cur; f->cs[f->csd++ & 63] = pc; } }
void __tsan_func_exit() { if (g.active && g.cur && !g.rt) { Fiber* f = g.cur; if (f->csd) f->csd--; } }
#define RW(N) \
  void __tsan_read##N(void* a) { mem_point(a, N, false); } \
  void __tsan_write##N(void* a) { mem_point(a, N, true); } \
  void __tsan_volatile_read##N(void* a) { mem_point(a, N, false); } \
  void __tsan_volatile_write##N(void* a) { mem_point(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N) \
  void __tsan_unaligned_read##N(void* a) { mem_point(a, 1, false); if (!g.off) { RT; mem_check(a, N, false, "memory"); } } \
  void __tsan_unaligned_write##N(void* a) { mem_point(a, 1, true); if (!g.off) { RT; mem_check(a, N, true, "memory"); } }
URW(2) URW(4) URW(8) URW(16)
void __tsan_vptr_update(void** a, void*) { mem_point(a, 8, true); }
void __tsan_vptr_read(void** a) { mem_point(a, 8, false); }
void __tsan_read_range(void* a, unsigned long n) { if (g.off || !n) return; { RT; mem_check(a, n, false, "memory"); } mem_point(a, 1, false); }
void __tsan_write_range(void* a, unsigned long n) { if (g.off || !n) return; { RT; mem_check(a, n, true, "memory"); } mem_point(a, 1, true); }

}  // extern "C"

// atomics: memory order values: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void at_pre(const void* a, size_t n, bool write) {
  mem_check(a, n, write, "atomic");
  sync_point();
  mem_check(a, n, write, "atomic");
}
static void at_load_hb(const void* a, int mo) {
  VC* v = sync_vc(a, false);
  if (!v) return;
  if (is_acq(mo)) hb_acquire(*v);
  else { VC& q = g.cur->acq; for (int i = 0; i < g.nf; i++) if (v->c[i] > q.c[i]) q.c[i] = v->c[i]; }
}
static void at_store_hb(const void* a, int mo, bool rmw) {
  VC* v = sync_vc(a, true);
  if (is_rel(mo)) { if (!rmw) memset(v, 0, sizeof *v); hb_release(*v); return; }
  if (!rmw) memset(v, 0, sizeof *v);
  if (g.cur->has_rel) for (int i = 0; i < g.nf; i++) if (g.cur->rel.c[i] > v->c[i]) v->c[i] = g.cur->rel.c[i];
}
template <class T> static T at_load(const volatile T* a, int mo) {
  if (g.off) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  RT; at_pre((const void*)a, sizeof(T), false);
  T v = *a; at_load_hb((const void*)a, mo);
  return v;
}
template <class T> static void at_store(volatile T* a, T v, int mo) {
  if (g.off) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
  RT; at_pre((const void*)a, sizeof(T), true);
  *a = v; at_store_hb((const void*)a, mo, false);
}
template <class T, class F> static T at_rmw(volatile T* a, int mo, F f) {
  if (g.off) { T o = *a; *a = f(o); return o; }
  RT; at_pre((const void*)a, sizeof(T), true);
  T o = *a; *a = f(o);
  at_load_hb((const void*)a, mo); at_store_hb((const void*)a, mo, true);
  return o;
}
template <class T> static bool at_cas(volatile T* a, T* e, T d, int mo, int fmo, bool weak) {
  if (g.off) { if (*a == *e) { *a = d; return true; } *e = *a; return false; }
  RT; at_pre((const void*)a, sizeof(T), true);
  T cur = *a;
  if (cur == *e && !(weak && choice_fault(F_WEAK_CAS, self_id(), 1))) {
    *a = d; at_load_hb((const void*)a, mo); at_store_hb((const void*)a, mo, true);
    return true;
  }
  at_load_hb((const void*)a, fmo);
  *e = cur;
  return false;
}
extern "C" {
#define ATOMICS(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { return at_load<T>(a, mo); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T) { return v; }); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T o) { return (T)~(o & v); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int f) { return at_cas<T>(a, e, d, mo, f, false); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int f) { return at_cas<T>(a, e, d, mo, f, true); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T d, int mo, int f) { at_cas<T>(a, &e, d, mo, f, false); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (g.off) return;
  RT; sync_point();
  if (is_acq(mo)) hb_acquire(g.cur->acq);
  if (is_rel(mo)) { g.cur->rel = g.cur->vc; g.cur->has_rel = true; g.cur->vc.c[g.cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
