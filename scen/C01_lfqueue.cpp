// C01: the lock-free queue is a linearizable bounded FIFO.
#include <bits/stdc++.h>
#include <simrt.h>
#define private public
#include <cy_core.h>
#include <core/cyc_lf_queue.h>
#undef private

using namespace cyclone;

namespace {

struct Op { int kind; /*0 push 1 pop*/ int tid; bool ok; int val; uint64_t inv, res; };

struct History {
  std::vector<Op> ops;
  int begin(int kind, int tid, int val) { SIM_ATOMIC; Op o; o.kind = kind; o.tid = tid; o.ok = false; o.val = val; o.inv = sim::seq(); o.res = ~0ull; ops.push_back(o); return (int)ops.size() - 1; }
  void end(int i, bool ok, int val) { SIM_ATOMIC; ops[i].ok = ok; ops[i].val = val; ops[i].res = sim::seq(); }
};

// exact linearizability test for short histories (search over linearisation orders, memoised)
struct Lin {
  const std::vector<Op>& o; uint32_t cap; std::set<std::pair<uint32_t, std::vector<int>>> dead;
  uint32_t budget;
  Lin(const std::vector<Op>& h, uint32_t c) : o(h), cap(c), budget(200000) {}
  bool go(uint32_t done, std::vector<int>& q) {
    uint32_t n = (uint32_t)o.size();
    if (done == (1u << n) - 1) return true;
    if (budget == 0) return true;
    budget--;
    if (dead.count(std::make_pair(done, q))) return false;
    uint64_t minres = ~0ull;
    for (uint32_t i = 0; i < n; i++) if (!(done & (1u << i))) minres = std::min(minres, o[i].res);
    for (uint32_t i = 0; i < n; i++) {
      if ((done & (1u << i)) || o[i].inv > minres) continue;
      const Op& p = o[i];
      if (p.kind == 0) {
        if (p.ok) { if (q.size() >= cap) continue; q.push_back(p.val); bool r = go(done | (1u << i), q); q.pop_back(); if (r) return true; }
      } else {
        if (p.ok) { if (q.empty() || q[0] != p.val) continue; std::vector<int> q2(q.begin() + 1, q.end()); if (go(done | (1u << i), q2)) return true; }
        else { if (!q.empty()) continue; if (go(done | (1u << i), q)) return true; }
      }
    }
    dead.insert(std::make_pair(done, q));
    return false;
  }
};

// necessary conditions, any length
void check_history(const History& H, uint32_t cap, const std::vector<int>& drained) {
  const std::vector<Op>& o = H.ops;
  struct V { const Op* push; const Op* pop; int drain; };
  std::vector<V> v;
  auto at = [&v](int x) -> V& { if ((size_t)x >= v.size()) v.resize(x + 1, V{nullptr, nullptr, -1}); return v[x]; };
  for (const Op& p : o) if (p.kind == 0) at(p.val).push = &p;
  for (const Op& p : o) if (p.kind == 1 && p.ok) {
    SIM_CHECK(p.val >= 0 && (size_t)p.val < v.size() && v[p.val].push, "queue-invented", "pop returned %d which was never pushed", p.val);
    SIM_CHECK(!v[p.val].pop, "queue-duplicate", "value %d popped twice", p.val);
    v[p.val].pop = &p;
  }
  for (size_t i = 0; i < drained.size(); i++) {
    int x = drained[i];
    SIM_CHECK(x >= 0 && (size_t)x < v.size() && v[x].push, "queue-invented", "drain returned %d which was never pushed", x);
    SIM_CHECK(!v[x].pop && v[x].drain < 0, "queue-duplicate", "value %d delivered twice", x);
    v[x].drain = (int)i;
  }
  int lost = 0;
  for (size_t x = 0; x < v.size(); x++) {
    if (!v[x].push) continue;
    bool out = v[x].pop || v[x].drain >= 0;
    if (v[x].push->ok && !out) lost = (int)x + 1;
    SIM_CHECK(v[x].push->ok || !out, "queue-rejected-delivered", "push of %d reported full but the value was delivered", (int)x);
  }
  SIM_CHECK(!lost, "queue-lost", "value %d was accepted and never delivered", lost - 1);
  // FIFO: a pushed entirely before b must not come out entirely after b
  for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v.size(); b++) {
    if (a == b || !v[a].push || !v[b].push || !v[a].push->ok || !v[b].push->ok) continue;
    if (v[a].push->res > v[b].push->inv) continue;
    bool bad = false;
    if (v[b].pop && v[a].pop) bad = v[b].pop->res < v[a].pop->inv;
    else if (v[b].pop && v[a].drain >= 0) bad = true;
    else if (v[b].drain >= 0 && v[a].drain >= 0) bad = v[b].drain < v[a].drain;
    SIM_CHECK(!bad, "queue-order", "value %d was pushed before %d but delivered after it", (int)a, (int)b);
  }
  // full / empty answers must have been true at some moment of the call
  std::vector<uint64_t> ts;
  for (const Op& p : o) { ts.push_back(p.inv); ts.push_back(p.res); }
  for (const Op& p : o) {
    if (p.ok) continue;
    bool possible = false;
    for (uint64_t t : ts) {
      if (t < p.inv || t > p.res) continue;
      int64_t hi = 0, lo = 0;
      for (const Op& q : o) {
        if (!q.ok) continue;
        if (q.kind == 0) { if (q.inv <= t) hi++; if (q.res <= t) lo++; }
        else { if (q.res <= t) hi--; if (q.inv <= t) lo--; }
      }
      if (p.kind == 0 ? hi >= (int64_t)cap : lo <= 0) { possible = true; break; }
    }
    if (p.kind == 0) SIM_CHECK(possible, "queue-false-full", "push of %d reported full although the queue never held %u items during the call", p.val, cap);
    else SIM_CHECK(possible, "queue-false-empty", "pop reported empty although the queue held an item during the whole call");
  }
  // A push in progress owns a slot before its element becomes visible, so "full" counts pushes in
  // progress (checked above) and takes no part in the sequential order of the visible queue.
  std::vector<Op> vis;
  for (const Op& p : o) if (p.kind == 1 || p.ok) vis.push_back(p);
  if (vis.size() <= 18) {
    Lin L(vis, cap); std::vector<int> q;
    SIM_CHECK(L.go(0, q), "queue-not-linearizable", "no sequential order of the %d operations explains the results", (int)vis.size());
    sim::probe("exact_linearizability_search");
  }
}

// elements of one word and of several
struct Wide {
  int* a; uint64_t pad[3]; int* b;
  Wide() : a(nullptr), b(nullptr) {}
  Wide(int* p) : a(p), b(p) { pad[0] = pad[1] = pad[2] = (uint64_t)p * 3; }
};
inline int* got(int* p) { return p; }
inline int* got(const Wide& w) { SIM_CHECK(w.a == w.b && (!w.a || (w.pad[0] == (uint64_t)w.a * 3 && w.pad[2] == w.pad[0])), "queue-corrupt", "an element was popped in pieces of two"); return w.a; }
// The counters after 2^31, 2^32, ... operations: set when they are the free-running counters they seem to be.
template <class T> auto preset(T* q, uint32_t now, uint32_t v) -> decltype(q->m_writeIndex = v, q->m_readIndex = v, q->m_maximumReadIndex = v, true) {
  if (q->m_writeIndex != now || q->m_readIndex != now || q->m_maximumReadIndex != now) return false;
  if (sizeof(q->m_writeIndex) != 4) return false;
  q->m_writeIndex = v; q->m_readIndex = v; q->m_maximumReadIndex = v; return true;
}
inline bool preset(...) { return false; }

template <uint32_t Q, class E = int*> void run_queue(int nprod, int ncons, int per, bool mixed) {
  typedef LockFreeQueue<E, Q> Queue;
  static Queue* q; q = new Queue();
  static History* H; H = new History();
  static std::vector<int>* pool; pool = new std::vector<int>(512);
  static int* active; active = new int(0);
  int next = 0;
  std::vector<int> th;
  uint32_t cap = Q - 1;
  // starting offset, so that counters wrap around the ring
  bool far = sim::coin(3);
  int warm = far ? (int)(Q + 1 + sim::choose(Q)) : (int)sim::choose(2 * Q);
  for (int i = 0; i < warm; i++) { int x = 0; int* p = &x; q->push(p); E r = nullptr; q->pop(r); SIM_CHECK(got(r) == &x, "queue-order", "sequential push/pop returned the wrong element"); }
  static const uint32_t far_at[] = {0xffffffffu, 0x7fffffffu, 0xffffu, 0xffu};
  if (far && preset(q, (uint32_t)warm, far_at[sim::choose(4)] - sim::choose(2 * Q))) sim::probe("counters preset");
  int pre = (int)sim::choose(Q);
  for (int i = 0; i < pre; i++) {
    int val = next++; (*pool)[val] = val;
    int h = H->begin(0, 0, val);
    bool ok = q->push(&(*pool)[val]);
    H->end(h, ok, val);
    SIM_CHECK(ok, "queue-false-full", "sequential push %d of %u refused", i, cap);
  }
  auto do_push = [](int me, int val) {
    int* cell; { SIM_ATOMIC; cell = &(*pool)[val]; *cell = val; sim::hb_stamp(cell); }
    int h = H->begin(0, me, val);
    bool ok = q->push(cell);
    H->end(h, ok, val);
    if (!ok) sim::probe("push_full");
  };
  auto do_pop = [](int me) {
    int h = H->begin(1, me, -1);
    E e = nullptr;
    bool ok = q->pop(e);
    int* r = got(e);
    if (ok) { SIM_ATOMIC; SIM_CHECK(r >= &(*pool)[0] && r < &(*pool)[0] + pool->size(), "queue-invented", "pop returned a pointer that was never pushed"); sim::hb_observe(r, "queue element"); }
    H->end(h, ok, ok ? *r : -1);
    if (!ok) sim::probe("pop_empty");
    return ok;
  };
  for (int p = 0; p < nprod; p++) {
    int base = next; next += per;
    th.push_back(sim::spawn("producer", [=]() { for (int i = 0; i < per; i++) { do_push(p, base + i); if (mixed && sim::coin(3)) do_pop(p); } }));
  }
  for (int c = 0; c < ncons; c++) {
    int n = per * nprod / ncons + 1 + (int)sim::choose(3);
    th.push_back(sim::spawn("consumer", [=]() { for (int i = 0; i < n; i++) do_pop(100 + c); }));
  }
  for (int t : th) sim::join(t);
  sim::calm();
  std::vector<int> drained;
  uint32_t left = q->size();
  for (;;) { E e = nullptr; if (!q->pop(e)) break; int* r = got(e); drained.push_back(*r); SIM_CHECK(drained.size() <= 2 * Q, "queue-invented", "the queue yields more than it can hold"); }
  { SIM_ATOMIC;
    check_history(*H, cap, drained);
    SIM_CHECK(left == drained.size(), "queue-size", "quiescent size() is %u but %d items are queued", left, (int)drained.size());
    uint64_t h = 0;
    for (const Op& p : H->ops) h = h * 1000003 + (uint64_t)(p.val + 2) * 4 + p.kind * 2 + p.ok;
    sim::state_hash(h);
  }
  // the queue is empty and quiescent: it must accept exactly its capacity
  for (uint32_t i = 0; i < cap; i++) SIM_CHECK(q->push(&(*pool)[i]), "queue-false-full", "an empty queue refused item %u of %u", i, cap);
  SIM_CHECK(!q->push(&(*pool)[0]), "queue-overfull", "the queue accepted more than its capacity");
  for (uint32_t i = 0; i < cap; i++) { E r = nullptr; SIM_CHECK(q->pop(r) && got(r) == &(*pool)[i], "queue-order", "quiescent FIFO order broken at %u", i); }
  sim::nontrivial();
}

}  // namespace

SIM_SCENARIO_W("C01", queue_mpmc, 6) {
  sim::allow(sim::F_WEAK_CAS);
  int np = (int)sim::choose_range(1, 3), nc = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 6);
  bool mixed = sim::coin(2);
  switch (sim::cfg(5)) {
    case 0: run_queue<2>(np, nc, per, mixed); break;
    case 1: run_queue<4>(np, nc, per, mixed); break;
    case 2: run_queue<8>(np, nc, per, mixed); break;
    case 3: run_queue<4, Wide>(np, nc, per, mixed); break;
    default: run_queue<16>(np, nc, per, mixed); break;
  }
}
// few operations: the exact search always applies
SIM_SCENARIO_W("C01", queue_tiny, 4) {
  sim::allow(sim::F_WEAK_CAS);
  int np = (int)sim::choose_range(1, 2), nc = (int)sim::choose_range(1, 2), per = (int)sim::choose_range(1, 3);
  if (sim::cfg(2)) run_queue<2>(np, nc, per, false); else run_queue<4>(np, nc, per, false);
}
