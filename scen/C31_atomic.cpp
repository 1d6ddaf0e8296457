// C31: the atomic helpers act in one indivisible step: every concurrent history has a sequential explanation.
#include "common.h"
#include <cy_core.h>
#include <functional>
#include <set>
#include <string>
#include <vector>
using namespace cyclone;

namespace {
struct Op { int kind; uint64_t a, b; bool res; uint64_t val; int from, to; bool open; };   // 0 cas, 1 greater, 2 smaller, 3 load, 4 store
template <typename T> struct Model {
  static bool less(uint64_t x, uint64_t y) { return (T)x < (T)y; }
  // the result the sequential definition gives; *v is the value
  static bool apply(const Op& o, uint64_t* v) {
    switch (o.kind) {
      case 0: { bool r = *v == o.a; if (r) *v = o.b; return r == o.res; }
      case 1: { bool r = less(*v, o.a); if (r) *v = o.b; return r == o.res; }
      case 2: { bool r = less(o.a, *v); if (r) *v = o.b; return r == o.res; }
      case 3: return *v == o.val;
      default: *v = o.b; return true;
    }
  }
};
template <typename T> bool explain(const std::vector<Op>& h, uint64_t init, uint64_t fin) {
  std::set<std::pair<uint32_t, uint64_t>> dead;
  std::function<bool(uint32_t, uint64_t)> go = [&](uint32_t done, uint64_t v) -> bool {
    if (done == (1u << h.size()) - 1) return v == fin;
    if (dead.count({done, v})) return false;
    int first_end = 1 << 30;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) first_end = std::min(first_end, h[i].to);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].from > first_end) continue;
      uint64_t w = v;
      if (Model<T>::apply(h[i], &w) && go(done | 1u << i, w)) return true;
    }
    dead.insert({done, v});
    return false;
  };
  return go(0, init);
}
template <typename T> void history(const std::vector<T>& pool, bool order) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_THREAD_STALL);
  sim::set_cpus(1 + (int)sim::cfg(4));
  std::atomic<T>* obj = new std::atomic<T>();
  auto any = [&]() -> T { return pool[sim::choose((uint32_t)pool.size())]; };
  T init = any();
  *obj = init;
  std::vector<Op>* h = new std::vector<Op>();
  int* clock = new int(0);
  int nt = 2 + (int)sim::choose(3), total = 0;
  std::vector<int> th;
  for (int t = 0; t < nt; t++) {
    std::vector<Op> plan;
    int n = 1 + (int)sim::choose(4);
    for (int k = 0; k < n && total < 14; k++, total++) {
      Op o; o.kind = order ? (int)sim::choose(5) : (sim::coin(2) ? 0 : 3 + (int)sim::choose(2)); if (o.kind >= 3 && sim::coin(2)) o.kind = order ? 1 + (int)sim::choose(2) : 0;
      o.a = (uint64_t)any(); o.b = (o.kind == 1 || o.kind == 2) && sim::coin(2) ? o.a : (uint64_t)any(); o.res = false; o.val = 0; o.open = true;
      plan.push_back(o);
    }
    th.push_back(sim::spawn("actor", [=]() {
      for (Op o : plan) {
        { SIM_ATOMIC; o.from = (*clock)++; }
        T a = (T)o.a, b = (T)o.b;
        switch (o.kind) {
          case 0: o.res = atomic_compare_exchange(*obj, a, b); break;
          case 1: o.res = atomic_greater_exchange(*obj, a, b); break;
          case 2: o.res = atomic_smaller_exchange(*obj, a, b); break;
          case 3: o.val = (uint64_t)obj->load(); break;
          default: obj->store(b);
        }
        SIM_ATOMIC; o.to = (*clock)++; h->push_back(o);
      }
    }));
  }
  for (int t : th) sim::join(t);
  T fin = obj->load();
  SIM_ATOMIC;
  bool ok = explain<T>(*h, (uint64_t)init, (uint64_t)fin);
  std::string s;
  if (!ok) for (const Op& o : *h) { char b[160]; static const char* nm[] = {"compare", "greater", "smaller", "load", "store"}; snprintf(b, sizeof b, " %s[%d,%d](%llx,%llx)=%d/%llx", nm[o.kind], o.from, o.to, (unsigned long long)o.a, (unsigned long long)o.b, (int)o.res, (unsigned long long)o.val); s += b; }
  SIM_CHECK(ok, "not-atomic", "no order of the operations explains the history from %llx to %llx:%s", (unsigned long long)(uint64_t)init, (unsigned long long)(uint64_t)fin, s.c_str());
  if (h->size() > 2) sim::nontrivial();
}
template <typename T> std::vector<T> small() {
  std::vector<T> v = {(T)0, (T)1, (T)2, (T)3};
  if (sim::coin(2)) { v = {std::numeric_limits<T>::lowest(), (T)-1, (T)0, std::numeric_limits<T>::max(), (T)((uint64_t)1 << (sizeof(T) * 8 - 1)), (T)5}; }
  return v;
}
}

SIM_SCENARIO_W("C31", numbers, 5) {
  switch (sim::choose(4)) {
    case 0: history<int32_t>(small<int32_t>(), true); break;
    case 1: history<int64_t>(small<int64_t>(), true); break;
    case 2: history<uint32_t>(small<uint32_t>(), true); break;
    default: history<uint64_t>(small<uint64_t>(), true); break;
  }
}
SIM_SCENARIO_W("C31", flags, 1) { history<bool>({false, true}, false); }
// locks and counters built from the helpers
SIM_SCENARIO_W("C31", handover, 2) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_THREAD_STALL);
  sim::set_cpus(1 + (int)sim::cfg(4));
  atomic_uint32_t* owner = new atomic_uint32_t(0);
  int* inside = new int(0); int* rounds = new int(0);
  int nt = 2 + (int)sim::choose(3), per = 1 + (int)sim::choose(3);
  std::vector<int> th;
  for (int t = 1; t <= nt; t++) th.push_back(sim::spawn("actor", [=]() {
    for (int k = 0; k < per; k++) {
      while (!atomic_compare_exchange<uint32_t>(*owner, 0, (uint32_t)t)) sim::sleep_us(1 + sim::choose(20));
      { SIM_ATOMIC; SIM_CHECK(++*inside == 1, "not-atomic", "two threads own the flag"); }
      if (sim::coin(2)) sim::sleep_us(sim::choose(50));
      { SIM_ATOMIC; --*inside; ++*rounds; }
      SIM_CHECK(atomic_compare_exchange<uint32_t>(*owner, (uint32_t)t, 0), "not-atomic", "the owner cannot give the flag back");
    }
  }));
  for (int t : th) sim::join(t);
  SIM_CHECK(*rounds == nt * per && owner->load() == 0, "not-atomic", "%d of %d rounds", *rounds, nt * per);
  sim::nontrivial();
}
