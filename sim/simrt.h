// Public API of the deterministic simulator, used by the scenarios (scen/*.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// Fault kinds. A kind is only ever injected if the scenario allows it and the
// run's swarm configuration enables it.
enum Fault {
  F_SHORT_READ = 0,   // read()/readv() returns fewer bytes than available
  F_SHORT_WRITE,      // write()/writev() accepts fewer bytes than there is room for
  F_WOULDBLOCK_R,     // spurious readiness: socket read returns EAGAIN
  F_WOULDBLOCK_W,     // socket write returns EAGAIN although there is room
  F_EINTR,            // interruptible call (epoll_wait, poll, select, blocking I/O) returns EINTR
  F_DELAY,            // network segment delayed (reordering between connections)
  F_STALL,            // partition: link stops delivering for a while, then heals
  F_RST,              // connection reset by the network
  F_REFUSE,           // connect fails asynchronously
  F_CONN_TIMEOUT,     // connect times out
  F_CONN_SYNC,        // connect fails immediately
  F_ACCEPT_ERR,       // accept() fails (ECONNABORTED, EMFILE, EINTR, EAGAIN)
  F_SOCK_ERR,         // socket()/timerfd_create()/pipe2() fails (EMFILE)
  F_WEAK_CAS,         // compare_exchange_weak fails spuriously
  F_SPURIOUS_WAKE,    // condition variable wakes spuriously
  F_LATE_TIMER,       // timers / sleeps fire late
  F_CLOCK_JUMP,       // wall clock jumps forward or backward
  F_DISK_FULL,        // ENOSPC on a log write
  F_DISK_SHORT,       // short write to a file
  F_OPEN_ERR,         // fopen fails
  F_MKDIR_ERR,        // mkdir fails
  F_THREAD_STALL,     // a thread is descheduled for a long time at an arbitrary instruction
  F_SMALL_BUF,        // tiny kernel socket buffers (counted when chosen)
  F_RESOLVE,          // name resolution failure
  F_CRASH,            // peer process crash: all of its sockets reset / die
  F_PEER_CLOSE,       // peer closes at an arbitrary point
  F_FD_ERR,           // pipe2() / timerfd_create() fails (EMFILE)
  F_LOSS,             // datagram lost
  F_DUP,              // datagram duplicated
  F_DISK_READ,        // EIO on reading a file
  F_NFAULTS
};

// ---- choices ---------------------------------------------------------------
u32 choose(u32 n);                       // workload choice in [0,n); 0 is the simplest
u32 choose_range(u32 lo, u32 hi);        // inclusive
u32 cfg(u32 n);                          // per-run configuration choice in [0,n)
bool coin(u32 n);                        // true with probability 1/n (default false)
void allow(Fault f);                     // let the swarm configuration enable this fault kind
u32 fault(Fault f, u32 n = 1);           // harness-level injection: 0 = no, else 1..n
void fault_count(Fault f);               // count an injection made by other means
void calm(bool on = true);               // stop injecting faults, fair scheduling
bool calmed();

// ---- violations and observation ----------------------------------------------
void fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name, u64 n = 1);  // reach counter
void nontrivial();                        // mark the run as having exercised the property
void state_hash(u64 h);                   // fold a harness-visible state into the run's hash
void note_schedule(u64 h);

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

// ---- time and threads ------------------------------------------------------------
u64 now_ns();
u64 now_us();
u64 now_ms();
u64 seq();                                // global event sequence number
void sleep_us(u64 us);
void clock_reads(u64 frac_ns);     // the next reading of a clock is taken when its part below a second is this (if that is near)
void yield();
int  tid();                               // current simulated thread number
int  nlive();                             // live simulated threads
int  spawn(const char* name, std::function<void()> fn);
void join(int t);
bool wait_until(std::function<bool()> pred, u64 timeout_ms);  // false on timeout
void wall_jump_ns(int64_t d);
bool idle_system();                      // every other thread is blocked

// Scope in which the scheduler does not preempt (harness bookkeeping).
struct Atomic { Atomic(); ~Atomic(); Atomic(const Atomic&) = delete; };
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_ATOMIC ::sim::Atomic SIM_CAT(_sim_atomic_, __LINE__)

// Publication check: stamp() records that the calling thread has just written the
// object; observe() fails if the calling thread is not ordered after the stamp.
void hb_stamp(const void* obj);
void hb_observe(const void* obj, const char* what);

// ---- operating system state --------------------------------------------------------
int  open_fds();                          // number of open simulated descriptors
int  open_fds_inheritable();               // without close-on-exec
int  open_fds_kind(char kind);            // 's' socket 'l' listener 'p' pipe 'e' epoll 't' timerfd 'v' eventfd
u64  bad_closes();                        // close() on a simulated descriptor that was not open
const char* describe_fds();
u32  sndbuf();                            // current socket buffer size
void set_sndbuf(u32 n);
void set_backlog_refuse(bool on);
u64  wire_accepted(int fd);               // bytes ever accepted by the kernel from this fd's end
bool sock_was_reset(int fd);
bool fd_is_open(int fd);
void reserve_fds(int lowest_free);        // descriptors below this are taken by the rest of the process
int  open_addrinfos();                    // results of getaddrinfo() not freed yet
u64  injected(Fault f);                   // faults of this kind injected so far in this run
void rst_fd(int fd);                      // reset the connection behind fd now
int  live_heap_blocks(size_t size_min, size_t size_max);
// memory: with leak_track() on, leak_check() fails if a block is alive that nothing refers to (call it when every
// other thread has ended); leak_growth() fails if one allocation site left live blocks in `need` of the rounds.
void leak_track();
void leak_check();
u64  leak_mark();
void leak_growth(const u64* marks, int rounds, int need);
const char* file_data(const char* path, size_t* len);    // in-memory file contents
void file_clear();
void file_put(const char* path, const char* d, size_t n); // creates or replaces a file
void set_names(const char* host, const char* exe);          // host name and path of the executable
void set_cpus(int n);                                          // number of processors the library is told (default 2)
void set_rand(int mode);                                       // rand(): 0 varies, 1 always zero, 2 all ones, 3 mostly zero
int  file_open_count();                                   // FILE* currently open
int  last_errno();
void set_max_steps(u64 n);
void set_max_time_s(u64 s);                                // simulated time after which a run counts as hung (default one hour)

// scenario registration
struct Scenario { const char* prop; const char* name; void (*fn)(); Scenario* next; u32 weight; };
void reg(Scenario* s);
struct Reg { Scenario s; Reg(const char* p, const char* n, void (*f)(), u32 w = 1) { s.prop = p; s.name = n; s.fn = f; s.weight = w; s.next = 0; reg(&s); } };
#define SIM_SCENARIO(prop, name) \
  static void SIM_CAT(scn_, name)(); static ::sim::Reg SIM_CAT(reg_, name)(prop, #name, SIM_CAT(scn_, name)); \
  static void SIM_CAT(scn_, name)()
#define SIM_SCENARIO_W(prop, name, w) \
  static void SIM_CAT(scn_, name)(); static ::sim::Reg SIM_CAT(reg_, name)(prop, #name, SIM_CAT(scn_, name), w); \
  static void SIM_CAT(scn_, name)()

}  // namespace sim
