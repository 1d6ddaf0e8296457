// C24: sleeping lasts its time, the performance counter counts, the wall clock functions show the wall clock.
#include "common.h"
#include <time.h>
using namespace scn;
namespace {
uint64_t wall_us() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return (uint64_t)t.tv_sec * 1000000 + (uint64_t)t.tv_nsec / 1000; }
}

SIM_SCENARIO_W("C24", sleeping, 2) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_CLOCK_JUMP); bool late = sim::coin(2); if (late) { sim::allow(sim::F_LATE_TIMER); sim::allow(sim::F_THREAD_STALL); }
  int n = (int)sim::choose_range(1, 4), done = 0; std::vector<int> th;
  for (int t = 0; t < n; t++) th.push_back(sim::spawn("sleeper", [&]() {
    for (int i = 0; i < 4; i++) {
      static const int32_t M[] = {0, 1, 2, 10, 33, 250, 999, 1000, 1001, 2500, 61000};
      int32_t ms = M[sim::choose(11)]; uint64_t t0 = sim::now_us();
      sys_api::thread_sleep(ms);
      uint64_t el = sim::now_us() - t0;
      SIM_CHECK(el + 1 >= (uint64_t)ms * 1000, "sleep-early", "thread_sleep(%d) returns after %llu us", ms, (unsigned long long)el);
      SIM_CHECK(late || el <= (uint64_t)ms * 1000 + 20000, "sleep-late", "thread_sleep(%d) returns after %llu us", ms, (unsigned long long)el);
      if (sim::coin(3)) sys_api::thread_yield();
    }
    SIM_ATOMIC; done++;
  }));
  while (done < n) { sim::sleep_us(1 + sim::choose(700000)); if (sim::coin(2)) sim::wall_jump_ns(((int64_t)sim::choose(7200) - 3600) * 1000000000ll); }
  for (int t : th) sim::join(t);
  if (sim::injected(sim::F_EINTR)) sim::probe("interrupted sleep");
  sim::nontrivial();
}

SIM_SCENARIO_W("C24", performance_counter, 2) {
  sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_THREAD_STALL);
  sim::set_max_time_s(200000);
  if (sim::coin(3)) sim::sleep_us((uint64_t)sim::choose(2000000));
  if (sim::coin(4)) { sim::sleep_us(1000000 - sim::now_us() % 1000000); sim::clock_reads(0); }   // the first call reads a whole second
  int n = (int)sim::choose_range(1, 4), done = 0, calls = 0; std::vector<int> th;
  int64_t start_us = (int64_t)sim::now_us();
  int64_t lo = INT64_MIN, hi = INT64_MAX;      // bounds of the moment the counter was zero
  int64_t last = INT64_MIN; uint64_t last_end = 0; int64_t first_end = INT64_MAX;
  for (int t = 0; t < n; t++) th.push_back(sim::spawn("caller", [&, t]() {
    for (int i = 0; i < 6; i++) {
      if (sim::coin(3)) { uint64_t s = sim::choose(3) ? sim::choose(3000) : (uint64_t)sim::choose(3000) * 1000000ull; sim::sleep_us(s); }
      if (sim::coin(4)) sim::clock_reads((uint64_t)sim::choose(3) * 999999500ull / 2);
      int64_t prev; uint64_t b; { SIM_ATOMIC; prev = last; b = sim::now_us(); }
      int64_t v = sys_api::performance_time_now();
      SIM_ATOMIC; uint64_t e = sim::now_us(); calls++;
      SIM_CHECK(v >= 0, "counter-negative", "the counter shows %lld", (long long)v);
      SIM_CHECK(v >= prev, "counter-backwards", "the counter shows %lld after %lld", (long long)v, (long long)prev);
      if (v > last) last = v;
      if ((int64_t)e < first_end) first_end = (int64_t)e;
      int64_t l = (int64_t)b - v - 2, h = (int64_t)e - v + 2;
      if (l > lo) lo = l;
      if (h < hi) hi = h;
      SIM_CHECK(lo <= hi, "counter-wrong", "the counter shows %lld us between %llu and %llu us of real time, which does not fit its other readings", (long long)v, (unsigned long long)b, (unsigned long long)e);
      SIM_CHECK(hi >= start_us - 2 && lo <= first_end + 2, "counter-start", "the counter does not start with its first call");
      last_end = e; (void)last_end; (void)t;
    }
    { SIM_ATOMIC; done++; }
  }));
  while (done < n) { sim::sleep_us(100000 + sim::choose(60000000)); if (sim::coin(2)) sim::wall_jump_ns(((int64_t)sim::choose(7200) - 3600) * 1000000000ll); }
  for (int t : th) sim::join(t);
  sim::nontrivial();
}

SIM_SCENARIO_W("C24", wall_clock, 1) {
  sim::allow(sim::F_THREAD_STALL);
  int n = (int)sim::choose_range(1, 3), done = 0; std::vector<int> th; uint64_t jumps = 0; int judged = 0;
  for (int t = 0; t < n; t++) th.push_back(sim::spawn("caller", [&]() {
    for (int i = 0; i < 6; i++) {
      if (sim::coin(2)) sim::sleep_us(sim::choose(3000000));
      uint64_t j0 = jumps, b = wall_us();
      if (sim::coin(2)) {
        int64_t v = sys_api::utc_time_now(); uint64_t e = wall_us();
        if (jumps == j0) { judged++; SIM_CHECK(v >= (int64_t)b - 1 && v <= (int64_t)e + 1, "utc-wrong", "utc_time_now returns %lld between %llu and %llu", (long long)v, (unsigned long long)b, (unsigned long long)e); }
      } else {
        static const char* F[] = {"%Y-%m-%d %H:%M:%S", "%Y%m%d-%H%M%S", "%H", "%s", "%Y_%m_%d-%H:%M:%S"};
        const char* f = F[sim::choose(5)]; char buf[64], x[64]; memset(buf, '#', sizeof buf);
        sys_api::local_time_now(buf, 40, f); uint64_t e = wall_us();
        if (jumps == j0) {
          judged++; bool ok = false;
          for (uint64_t s = b / 1000000; s <= e / 1000000 && !ok; s++) { time_t tt = (time_t)s; struct tm tm; localtime_r(&tt, &tm); strftime(x, sizeof x, f, &tm); ok = !strncmp(x, buf, 40); }
          buf[63] = 0;
          SIM_CHECK(ok, "local-wrong", "local_time_now returns \"%.40s\", it is \"%s\"", buf, x);
          for (int k = 40; k < 63; k++) SIM_CHECK(buf[k] == '#', "local-overflow", "local_time_now writes behind its buffer");
        }
      }
    }
    SIM_ATOMIC; done++;
  }));
  while (done < n) { sim::sleep_us(1 + sim::choose(700000)); if (sim::coin(2)) { SIM_ATOMIC; sim::wall_jump_ns(((int64_t)sim::choose(7200000) - 3600000) * 1000003ll); jumps++; } }
  for (int t : th) sim::join(t);
  if (judged) sim::nontrivial();
}
