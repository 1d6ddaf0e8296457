// C17: a created thread runs its function exactly once; join waits for its end, a timed join that gives up can be
// repeated; detached threads release everything themselves.
#include "common.h"
using namespace scn;
namespace {
struct T { int id; thread_t h; bool detached; int started, ended; uint32_t work; thread_id_t self; std::string name; bool joined; std::string seen_name; std::vector<int>* result; };
}
SIM_SCENARIO_W("C17", create_join, 4) {
  bool stalls = sim::coin(2), late = sim::coin(2);
  if (stalls) sim::allow(sim::F_THREAD_STALL);
  if (late) sim::allow(sim::F_LATE_TIMER);
  sim::allow(sim::F_SPURIOUS_WAKE); sim::allow(sim::F_CLOCK_JUMP);
  int n = (int)sim::choose_range(1, 5); std::vector<T*> ts; int base = sim::nlive();
  int joiners = 0; std::vector<int> jt;
  for (int i = 0; i < n; i++) {
    T* t = new T(); t->id = i; t->h = nullptr; t->detached = sim::coin(3); t->started = t->ended = 0; t->joined = false; t->result = nullptr;
    t->work = sim::coin(2) ? 0 : sim::choose(sim::coin(3) ? 200000 : 20000); if (!sim::coin(4)) { t->name = "thread-"; t->name += (char)('a' + i); if (sim::coin(4)) t->name += std::string(40, 'x'); }
    ts.push_back(t);
    std::string nm = t->name;
    sys_api::thread_function fn = [ts, t, i](void* p) {
      { SIM_ATOMIC; SIM_CHECK(p == (void*)t, "thread-param", "thread %d gets another parameter", i); SIM_CHECK(t->started == 0, "thread-twice", "thread %d runs twice", i); t->started++;
        t->self = sys_api::thread_get_current_id(); t->seen_name = sys_api::thread_get_current_name(); }
      if (t->work) sim::sleep_us(t->work); else if (sim::coin(2)) sim::yield();
      SIM_CHECK(sys_api::thread_get_current_id() == t->self, "thread-id", "the id of thread %d changes", i);
      t->result = new std::vector<int>(3, i); sim::hb_stamp(t->result);
      SIM_ATOMIC; t->ended++; sim::event("thread %d ends", i);
    };
    const char* cn = t->name.empty() ? (sim::coin(2) ? nullptr : "") : t->name.c_str();
    char* tmp = nullptr; if (cn) { tmp = strdup(cn); cn = tmp; }
    if (t->detached) sys_api::thread_create_detached(fn, t, cn); else { t->h = sys_api::thread_create(fn, t, cn); SIM_CHECK(t->h, "thread-create", "no handle"); }
    if (tmp) { memset(tmp, '#', strlen(tmp)); free(tmp); }      // the name must have been copied
    if (t->h && sim::coin(2)) { thread_id_t id = sys_api::thread_get_id(t->h); SIM_CHECK(id != std::this_thread::get_id(), "thread-id", "id of thread %d is that of its creator", i); }
    if (t->h) { joiners++; auto join = [&, t, i]() {
        for (int k = 0; ; k++) {
          int32_t ms = sim::coin(2) ? -1 : sim::coin(3) ? 0 : (int32_t)sim::choose(40); uint64_t t0 = sim::now_us(); int ended0; thread_id_t hid = sys_api::thread_get_id(t->h);
          bool done0; { SIM_ATOMIC; ended0 = t->ended; done0 = t->ended && sim::now_us() == 0; } (void)done0; (void)ended0;
          bool r = sys_api::thread_join(t->h, ms); uint64_t el = sim::now_us() - t0;
          SIM_CHECK(r || ms >= 0, "join-wrong", "an unlimited join returns false");
          if (r && ms >= 0) SIM_CHECK(stalls || late || el <= (uint64_t)ms * 1000 + 20000, "join-late", "join(%d ms) returned after %llu us", ms, (unsigned long long)el);
          if (r) { SIM_CHECK(t->ended == 1 && t->started == 1, "join-early", "join of thread %d returns although it has not ended (started %d ended %d)", i, t->started, t->ended);
            SIM_CHECK(hid == t->self, "thread-id", "the id of thread %d differs from what it sees itself", i);
            sim::hb_observe(t->result, "result of a joined thread"); SIM_CHECK((*t->result)[2] == i, "join-early", "result"); SIM_ATOMIC; t->joined = true; break; }
          SIM_CHECK(el + 1 >= (uint64_t)ms * 1000, "join-early", "join(%d ms) gave up after %llu us", ms, (unsigned long long)el);
          SIM_CHECK(stalls || late || el <= (uint64_t)ms * 1000 + 20000, "join-late", "join(%d ms) gave up after %llu us", ms, (unsigned long long)el);
          sim::probe("timed join gave up");
        } };
      if (sim::coin(2)) join(); else jt.push_back(sim::spawn("joiner", join)); }
  }
  SIM_CHECK(!strcmp(sys_api::thread_get_current_name(), "<UNNAME>"), "thread-name", "main thread is called %s", sys_api::thread_get_current_name());
  sim::sleep_us(sim::choose(30000)); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { for (auto t : ts) if (!t->ended || (t->h && !t->joined)) return false; return true; }, 120000), "thread-lost", "a thread never ends or cannot be joined");
  for (int j : jt) sim::join(j);
  // every library thread is gone
  SIM_CHECK(sim::wait_until([&]() { return sim::nlive() <= base; }, 5000), "thread-lost", "%d threads remain", sim::nlive() - base);
  for (auto t : ts) {
    SIM_CHECK(t->started == 1 && t->ended == 1, "thread-twice", "thread %d: started %d ended %d", t->id, t->started, t->ended);
    SIM_CHECK(t->seen_name == t->name, "thread-name", "thread %d is called %s, not %s", t->id, t->seen_name.c_str(), t->name.c_str());
    delete t->result; delete t;
  }
  sim::nontrivial();
}

// Everything a thread needs is released, joined or detached: repeated rounds do not grow the heap.
SIM_SCENARIO_W("C17", released, 2) {
  sim::allow(sim::F_THREAD_STALL);
  bool det = sim::coin(2); int rounds = (int)sim::choose_range(2, 5); int base = sim::nlive(); std::vector<int> heap;
  for (int r = 0; r < rounds + 1; r++) {
    int n = 2, ended = 0; std::vector<thread_t> h;
    for (int i = 0; i < n; i++) { auto fn = [&](void*) { if (sim::coin(2)) sim::sleep_us(sim::choose(500)); SIM_ATOMIC; ended++; }; if (det) sys_api::thread_create_detached(fn, nullptr, "a name which needs memory of its own"); else h.push_back(sys_api::thread_create(fn, nullptr, "a name which needs memory of its own")); }
    for (auto t : h) { bool ok = sys_api::thread_join(t, sim::coin(2) ? -1 : 100000); SIM_CHECK(ok, "thread-lost", "join"); }
    bool cf = r < rounds;
    if (det) { sim::calm(); SIM_CHECK(sim::wait_until([&]() { return ended == n && sim::nlive() <= base; }, 60000), "thread-lost", "detached threads do not end"); if (cf) sim::calm(false); }
    h.clear(); h.shrink_to_fit();
    heap.push_back(sim::live_heap_blocks(1, 100000));
  }
  for (size_t i = 2; i < heap.size(); i++) SIM_CHECK(heap[i] <= heap[1], "thread-leak", "heap blocks after each round of %s threads: %d %d .. %d", det ? "detached" : "joined", heap[0], heap[1], heap[i]);
  sim::nontrivial();
}
