// C05: timers never fire early, keep firing, and never fire after deletion.
#include "common.h"
using namespace scn;

namespace {
struct T { Looper::event_id_t id; uint32_t ms; uint64_t born, last; int fired; bool alive, paused; uint64_t resumed; };
struct W { Looper* lp; std::vector<T*> t; int created, maxn; bool quiet; int slow; };

void make(W* w, uint32_t ms);
void fire(W* w, T* x, Looper::event_id_t id, void* param) {
  {
    SIM_ATOMIC;
    uint64_t now = sim::now_ns(), per = x->ms * 1000000ull;
    sim::event("timer ms=%u fire %d", x->ms, x->fired + 1);
    SIM_CHECK(x->alive, "fired-after-delete", "timer (%u ms) fired after it was deleted", x->ms);
    SIM_CHECK(!x->paused, "fired-while-disabled", "timer (%u ms) fired while it was disabled", x->ms);
    SIM_CHECK(id == x->id && param == (void*)x, "wrong-arguments", "timer called with id %u, expected %u", id, x->id);
    x->fired++; x->last = now;
    SIM_CHECK(now >= x->born + per * (uint64_t)x->fired, "timer-early", "firing %d of a %u ms timer happens %llu us after its creation", x->fired, x->ms, (unsigned long long)((now - x->born) / 1000));
  }
  if (w->quiet) return;
  switch (sim::choose(10)) {
    case 1: if (w->created < w->maxn) make(w, 1 + sim::choose(40)); break;
    case 2: { { SIM_ATOMIC; x->alive = false; } w->lp->delete_event(id); if (sim::coin(2) && w->created < w->maxn) make(w, 1 + sim::choose(40)); break; }
    case 3: { T* y = nullptr; { SIM_ATOMIC; y = w->t[sim::choose((uint32_t)w->t.size())]; if (!y->alive) y = nullptr; else y->alive = false; } if (y) { w->lp->delete_event(y->id); if (sim::coin(2) && w->created < w->maxn) make(w, 1 + sim::choose(40)); } break; }
    case 4: if (w->slow) sim::sleep_us(sim::choose((uint32_t)w->slow)); break;
    case 5: { T* y = w->t[sim::choose((uint32_t)w->t.size())]; if (y->alive && !y->paused) { w->lp->disable_read(y->id); y->paused = true; } break; }
    case 6: { T* y = w->t[sim::choose((uint32_t)w->t.size())]; if (y->alive && y->paused) { y->paused = false; w->lp->enable_read(y->id); } break; }
    case 7: if (sim::fault(sim::F_CLOCK_JUMP)) { int64_t d = (int64_t)sim::choose(2000000) - 1000000; sim::wall_jump_ns(d * 1000000); } break;
    default: break;
  }
  // the captured state must have survived deletion
  SIM_ATOMIC; SIM_CHECK(x->ms > 0 && x->ms < 100000, "callback-destroyed", "state captured by the timer callback was destroyed");
}
void make(W* w, uint32_t ms) {
  T* x = new T(); x->ms = ms; x->fired = 0; x->alive = true; x->paused = false; x->id = 0;
  { SIM_ATOMIC; w->created++; w->t.push_back(x); x->born = sim::now_ns(); }
  std::string own(40, 'k');
  x->id = w->lp->register_timer_event(ms, x, [w, x, own](Looper::event_id_t id, void* p) {
    fire(w, x, id, p);
    SIM_CHECK(own == std::string(40, 'k'), "callback-destroyed", "state captured by the timer callback was destroyed");
  });
  SIM_CHECK(x->id != Looper::INVALID_EVENT_ID, "timer-create", "timer could not be created");
}
}

SIM_SCENARIO_W("C05", loop_timers, 5) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_LATE_TIMER); sim::allow(sim::F_CLOCK_JUMP);
  W* w = new W(); w->created = 0; w->maxn = 4 + (int)sim::choose(25); w->quiet = false; w->slow = sim::coin(2) ? 60000 : 0;
  int n = (int)sim::choose_range(1, 6);
  uint64_t run_ms = 20 + sim::choose(400);
  bool up = false, ended = false;
  int t = sim::spawn("loop", [&, w]() {
    w->lp = Looper::create_looper();
    for (int i = 0; i < n; i++) make(w, sim::coin(4) ? 1000 + sim::choose(1500) : 1 + sim::choose(60));
    up = true;
    w->lp->loop();
    for (T* x : w->t) if (x->alive) { { SIM_ATOMIC; x->alive = false; } w->lp->delete_event(x->id); }
    Looper::destroy_looper(w->lp);
    ended = true;
  });
  sim::wait_until([&]() { return up; }, 10000);
  sim::sleep_us(run_ms * 1000);
  sim::calm();
  w->quiet = true;
  sim::sleep_us(500000);   // longer than the longest injected lateness
  // a live timer keeps firing at its rate once the loop is idle
  size_t m = w->t.size();
  std::vector<int> base; std::vector<uint64_t> last;
  for (size_t i = 0; i < m; i++) base.push_back(w->t[i]->fired);
  uint64_t window = 6000;
  sim::sleep_us(window * 1000);
  int total = 0;
  for (size_t i = 0; i < m; i++) {
    SIM_ATOMIC;
    T* x = w->t[i];
    total += x->fired;
    if (!x->alive || x->paused) continue;
    int got = x->fired - base[i], want = (int)(window / x->ms);
    SIM_CHECK(got >= want - 2, "timer-lost", "a %u ms timer fired %d times in %llu ms of an idle loop", x->ms, got, (unsigned long long)window);
    SIM_CHECK(got <= want + 2, "timer-rate", "a %u ms timer fired %d times in %llu ms", x->ms, got, (unsigned long long)window);
  }
  w->lp->push_stop_request();
  sim::join(t);
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors open after every timer was deleted: %s", sim::open_fds(), sim::describe_fds());
  SIM_CHECK(ended, "harness", "loop thread");
  if (total > 2) sim::nontrivial();
}

// Every period keeps its length, from one millisecond to the largest one (49 days), also next to faster timers.
SIM_SCENARIO_W("C05", every_period, 1) {
  sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_EINTR);
  static const uint32_t P[] = {1, 2, 9, 10, 99, 255, 256, 999, 1000, 1001, 1999, 2147, 2148, 4294, 4295, 10000, 32767, 32768, 59999, 60000, 65535, 65536, 100000, 999999,
    1000000, 2147483, 2147484, 3600000, 4294967, 4294968, 8589935, 16777216, 86400000, 536870912, 1000000000, 2147483647, 2147483648u, 4000000000u, 4294967295u};
  struct L { uint32_t ms; uint64_t born; uint64_t fired; Looper::event_id_t id; };
  int n = (int)sim::choose_range(1, 3); std::vector<L*> ts; bool up = false; Looper* lp = nullptr; uint32_t longest = 0;
  for (int i = 0; i < n; i++) { L* x = new L(); x->ms = sim::coin(3) ? 1 + sim::choose(20000) * sim::choose(200000) : P[sim::choose(sizeof(P) / sizeof(P[0]))]; x->fired = 0; ts.push_back(x); if (x->ms > longest) longest = x->ms; }
  sim::set_max_time_s((uint64_t)longest / 1000 + 7200);
  // bounded work: a timer that would fire more than 300 times until the longest one is due is made slower
  for (L* x : ts) while (longest / x->ms > 300) x->ms = x->ms * 2 + 1;
  int t = sim::spawn("loop", [&]() {
    lp = Looper::create_looper();
    for (L* x : ts) { { SIM_ATOMIC; x->born = sim::now_ns(); }
      x->id = lp->register_timer_event(x->ms, x, [x](Looper::event_id_t, void*) {
        SIM_ATOMIC; x->fired++;
        SIM_CHECK(sim::now_ns() >= x->born + x->ms * 1000000ull * x->fired, "timer-early", "firing %llu of a %u ms timer happens %llu us after its creation", (unsigned long long)x->fired, x->ms, (unsigned long long)((sim::now_ns() - x->born) / 1000));
        if (sim::fault(sim::F_CLOCK_JUMP)) sim::wall_jump_ns(((int64_t)sim::choose(2000000) - 1000000) * 1000000); }); }
    up = true; lp->loop();
    for (L* x : ts) lp->delete_event(x->id);
    Looper::destroy_looper(lp);
  });
  sim::wait_until([&]() { return up; }, 10000);
  sim::sleep_us((uint64_t)longest * 1000 + 3000000); sim::calm(); sim::sleep_us(1000000);
  for (L* x : ts) { SIM_ATOMIC; uint64_t el = (sim::now_ns() - x->born) / 1000000, want = (el > 4000 ? el - 4000 : 0) / x->ms;
    SIM_CHECK(x->fired >= want, "timer-lost", "a %u ms timer fired %llu times in %llu ms", x->ms, (unsigned long long)x->fired, (unsigned long long)el); }
  lp->push_stop_request(); sim::join(t); sim::nontrivial();
}
