// C16: mutexes exclude, timed locks and waits keep their time, a signal is a binary auto-reset event.
#include "common.h"
using namespace scn;

// ---- mutex -----------------------------------------------------------------------------
SIM_SCENARIO_W("C16", mutex, 3) {
  sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_LATE_TIMER);
  sys_api::mutex_t m = sys_api::mutex_create();
  int nt = (int)sim::choose_range(2, 4), per = (int)sim::choose_range(1, 10), done = 0;
  int owner = -1; uint64_t plain = 0, want = 0; int timeouts = 0, held = 0;
  std::vector<int> th;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("locker", [&, t]() {
    for (int i = 0; i < per; i++) {
      uint32_t how = sim::choose(5); bool got = true; uint64_t t0 = sim::now_us(); int32_t ms = 0;
      int owned = 0; { SIM_ATOMIC; owned = owner; }
      (void)owned;
      if (how <= 1) sys_api::mutex_lock(m);
      else if (how == 2) { sys_api::auto_mutex g(m); { SIM_ATOMIC; SIM_CHECK(owner < 0, "not-exclusive", "thread %d is let in while thread %d holds the mutex", t, owner); owner = t; want++; } plain = plain + 1; if (sim::coin(2)) sim::sleep_us(sim::choose(3000)); { SIM_ATOMIC; owner = -1; } continue; }
      else {
        static const int32_t W[] = {0, -1, 1, 2, 5, 20, 999, 1000, 1001, 2500}; ms = W[sim::choose(10)];
        uint64_t h0; { SIM_ATOMIC; h0 = held; }
        got = sys_api::mutex_try_lock(m, ms);
        uint64_t el = sim::now_us() - t0;
        if (!got) {
          SIM_ATOMIC; timeouts++;
          SIM_CHECK(el + 1 >= (uint64_t)(ms > 0 ? ms : 0) * 1000, "timed-early", "mutex_try_lock(%d ms) gave up after %llu us", ms, (unsigned long long)el);
          (void)h0;
        }
      }
      if (!got) { if (sim::coin(2)) sim::sleep_us(sim::choose(500)); continue; }
      { SIM_ATOMIC; SIM_CHECK(owner < 0, "not-exclusive", "thread %d is let in while thread %d holds the mutex", t, owner); owner = t; want++; held++; }
      uint64_t v = plain; if (sim::coin(2)) sim::sleep_us(sim::choose(4000)); plain = v + 1;
      { SIM_ATOMIC; owner = -1; }
      sys_api::mutex_unlock(m);
      if (sim::coin(2)) sim::sleep_us(sim::choose(500));
    }
    SIM_ATOMIC; done++;
  }));
  sim::sleep_us(sim::choose(50000)); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return done == nt; }, 120000), "lock-stuck", "%d of %d threads never get the free mutex", nt - done, nt);
  for (int t : th) sim::join(t);
  SIM_CHECK(plain == want, "not-exclusive", "%llu critical sections, the counter they protect says %llu", (unsigned long long)want, (unsigned long long)plain);
  SIM_CHECK(sys_api::mutex_try_lock(m, 0), "lock-stuck", "nobody holds the mutex, try_lock fails"); 
  bool second = false; int th2 = sim::spawn("other", [&]() { second = sys_api::mutex_try_lock(m, 0); }); sim::join(th2);
  SIM_CHECK(!second, "not-exclusive", "try_lock succeeds on a held mutex");
  sys_api::mutex_unlock(m);
  if (want > 1) sim::nontrivial();
  if (timeouts) sim::probe("timed lock gave up");
  sys_api::mutex_destroy(m);
}

// How long a timed lock or wait lasts must not depend on the wall clock.
SIM_SCENARIO_W("C16", timed_lengths, 2) {
  sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_SPURIOUS_WAKE);
  sys_api::mutex_t m = sys_api::mutex_create(); sys_api::signal_t s = sys_api::signal_create();
  bool use_mutex = sim::coin(2); bool exact = sim::coin(3); int32_t ms = 1 + (int32_t)sim::choose(3) * (int32_t)sim::choose(1500);
  if (sim::coin(6)) { static const int32_t L[] = {100000, 2200000, 3000000, 4300000, 86400000, 2147483647}; ms = L[sim::choose(6)]; sim::set_max_time_s(3000000); }
  if (use_mutex) sys_api::mutex_lock(m);
  bool ended = false, res = true; uint64_t t0 = 0, t1 = 0;
  int th = sim::spawn("waiter", [&]() {
    if (exact) {   // let the end of the call fall exactly on a full second
      struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
      uint64_t f = (1000000000ull - (uint64_t)(ms % 1000) * 1000000ull) % 1000000000ull, d = (f + 1000000000ull - (uint64_t)ts.tv_nsec) % 1000000000ull;
      if (d > 2000000) sim::sleep_us((d - 2000000) / 1000);
      sim::clock_reads(f);
    }
    t0 = sim::now_us(); res = use_mutex ? sys_api::mutex_try_lock(m, ms) : sys_api::signal_timewait(s, ms); t1 = sim::now_us(); SIM_ATOMIC; ended = true; });
  sim::sleep_us(sim::choose(2) ? sim::choose(std::min<uint32_t>((uint32_t)ms, 100000) * 1000) : 0);
  int64_t j = 0;
  if (sim::coin(2)) { static const int64_t J[] = {-3600, -60, -1, 1, 60, 3600}; j = J[sim::choose(6)]; sim::fault_count(sim::F_CLOCK_JUMP); sim::wall_jump_ns(j * 1000000000ll); sim::nontrivial(); }
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return ended; }, (uint64_t)ms + (exact ? 4000 : 2000)), "timed-late", "a %d ms timed %s has not ended 2 s after its time (wall clock jumped by %lld s)", ms, use_mutex ? "lock" : "wait", (long long)j);
  sim::join(th);
  SIM_CHECK(!res, "timed-wrong", "timed %s succeeds although nothing released it", use_mutex ? "lock" : "wait");
  SIM_CHECK(t1 - t0 + 1 >= (uint64_t)ms * 1000, "timed-early", "a %d ms timed %s ended after %llu us (wall clock jumped by %lld s)", ms, use_mutex ? "lock" : "wait", (unsigned long long)(t1 - t0), (long long)j);
  if (use_mutex) sys_api::mutex_unlock(m);
  sys_api::mutex_destroy(m); sys_api::signal_destroy(s);
}

// ---- signal -------------------------------------------------------------------------------
namespace {
struct Op { int kind; /*0 notify 1 wait 2 timewait*/ int32_t ms; bool res; uint64_t inv, ret; int tid; };
// exact: is there an order of the calls, compatible with real time, in which the signal behaves as a binary event?
struct Lin {
  const std::vector<Op>& o; std::set<std::pair<uint32_t, bool>> dead;
  Lin(const std::vector<Op>& h) : o(h) {}
  bool go(uint32_t done, bool lit) {
    uint32_t n = (uint32_t)o.size();
    bool rest = false; uint64_t minret = ~0ull;
    for (uint32_t i = 0; i < n; i++) if (!(done >> i & 1)) { if (o[i].ret != ~0ull) rest = true; minret = std::min(minret, o[i].ret); }
    if (!rest) return true;                      // only calls which never returned are left
    if (!dead.insert(std::make_pair(done, lit)).second) return false;
    for (uint32_t i = 0; i < n; i++) {
      if (done >> i & 1 || o[i].inv > minret) continue;
      bool l = lit;
      if (o[i].kind == 0) l = true;
      else if (o[i].ret == ~0ull || o[i].res) { if (!lit) continue; l = false; }
      else if (lit) continue;                    // gave up: the signal was dark at some moment
      if (go(done | 1u << i, l)) return true;
    }
    return false;
  }
};
}
SIM_SCENARIO_W("C16", signal_event, 5) {
  sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_SPURIOUS_WAKE); sim::allow(sim::F_LATE_TIMER);
  sys_api::signal_t s = sys_api::signal_create();
  std::vector<Op> h; h.reserve(32); int total = (int)sim::choose_range(2, 14), nt = (int)sim::choose_range(2, 4), done = 0;
  bool blocking = sim::coin(2);
  std::vector<int> left(nt); for (int i = 0; i < total; i++) left[sim::choose((uint32_t)nt)]++;
  std::vector<int> th;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("sig", [&, t]() {
    for (; left[t]; left[t]--) {
      Op o; o.tid = t; o.res = true; o.ms = 0; o.ret = ~0ull; int i;
      uint32_t r = sim::choose(blocking ? 5 : 4); o.kind = r < 2 ? 0 : r == 4 ? 1 : 2;
      if (o.kind == 2) { static const int32_t W[] = {0, 0, 1, 3, 10, 100}; o.ms = W[sim::choose(6)]; }
      uint64_t t0 = sim::now_us();
      { SIM_ATOMIC; o.inv = sim::seq(); h.push_back(o); i = (int)h.size() - 1; }
      if (o.kind == 0) sys_api::signal_notify(s);
      else if (o.kind == 1) sys_api::signal_wait(s);
      else o.res = sys_api::signal_timewait(s, o.ms);
      uint64_t el = sim::now_us() - t0;
      { SIM_ATOMIC; h[i].ret = sim::seq(); h[i].res = o.res; sim::event("signal op %d kind %d ms %d -> %d", i, o.kind, o.ms, o.res); }
      if (o.kind == 2 && !o.res) SIM_CHECK(el + 1 >= (uint64_t)o.ms * 1000, "timed-early", "signal_timewait(%d ms) gave up after %llu us", o.ms, (unsigned long long)el);
      if (sim::coin(4)) sim::sleep_us(sim::choose(3000));
    }
    SIM_ATOMIC; done++;
  }));
  sim::sleep_us(sim::choose(100000)); sim::calm();
  // threads left in a wait must be there because the signal is dark
  sim::wait_until([&]() { return done == nt; }, 3000);
  if (done < nt) {
    sim::probe("waiter left blocked");
    SIM_CHECK(!sys_api::signal_timewait(s, 0), "signal-lost", "the signal is lit but %d threads keep waiting for it", nt - done);
    { SIM_ATOMIC; Op o; o.kind = 2; o.ms = 0; o.res = false; o.tid = 99; o.inv = sim::seq(); o.ret = sim::seq() + 1; h.push_back(o); }
  }
  { SIM_ATOMIC; Lin l(h); bool ok = l.go(0, false); if (!ok) for (auto& o : h) sim::event("t%d kind %d ms %d res %d [%llu %llu]", o.tid, o.kind, o.ms, o.res, (unsigned long long)o.inv, (unsigned long long)o.ret);
    SIM_CHECK(ok, "signal-not-event", "no order of the %zu notify/wait calls explains their results", h.size()); }
  sim::nontrivial();
  // release whoever still waits: one notify releases exactly one waiter
  for (int guard = 0; done < nt && guard < 100; guard++) {
    int waiting = 0; uint64_t pend = 0; { SIM_ATOMIC; for (auto& o : h) if (o.ret == ~0ull) waiting++; pend = h.size(); }
    sys_api::signal_notify(s);
    (void)pend;
    SIM_CHECK(sim::wait_until([&]() { SIM_ATOMIC; int w = 0; for (size_t i = 0; i < pend; i++) if (h[i].ret == ~0ull) w++; return w < waiting || !waiting; }, 3000), "signal-lost", "a waiter is not released by notify");
    sim::sleep_us(200000);
  }
  SIM_CHECK(sim::wait_until([&]() { return done == nt; }, 60000), "signal-lost", "threads remain blocked");
  for (int t : th) sim::join(t);
  sys_api::signal_destroy(s);
}

// hand-over: what is written before notify is visible after wait, one waiter per notification, no loss.
SIM_SCENARIO_W("C16", signal_handover, 2) {
  sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_SPURIOUS_WAKE);
  sys_api::signal_t full = sys_api::signal_create(), empty = sys_api::signal_create(); int n = (int)sim::choose_range(1, 20), got = 0; std::vector<int>* box = nullptr;
  int p = sim::spawn("producer", [&]() { for (int i = 0; i < n; i++) { if (i) { if (sim::coin(2)) sys_api::signal_wait(empty); else while (!sys_api::signal_timewait(empty, (int32_t)sim::choose(4))) {} } box = new std::vector<int>(1, i); sim::hb_stamp(box); sys_api::signal_notify(full); } });
  int c = sim::spawn("consumer", [&]() { for (int i = 0; i < n; i++) { if (sim::coin(2)) sys_api::signal_wait(full); else while (!sys_api::signal_timewait(full, (int32_t)sim::choose(4))) {} sim::hb_observe(box, "handed over object"); SIM_CHECK(box && (*box)[0] == i, "signal-wrong", "item %d: woken without it", i); delete box; box = nullptr; { SIM_ATOMIC; got++; } sys_api::signal_notify(empty); } });
  sim::sleep_us(sim::choose(3000)); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return got == n; }, 60000), "signal-lost", "%d of %d hand-overs happened", got, n);
  sim::join(p); sim::join(c);
  sys_api::signal_destroy(full); sys_api::signal_destroy(empty);
  sim::nontrivial();
}
