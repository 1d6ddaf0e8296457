// C19: statistics: extremes are exact under concurrent updates, a period value counts exactly what lies in its window.
#include "common.h"
#include <utility/cyu_statistics.h>
#include <deque>
using namespace scn;

namespace {
template <typename T> void minmax_run(std::function<T()> gen, T lowest, T highest) {
  bool init = sim::coin(3); T iv = gen();
  MinMaxValue<T>* v = init ? new MinMaxValue<T>(iv) : new MinMaxValue<T>();
  T done_max = init ? iv : lowest, done_min = init ? iv : highest, any_max = done_max, any_min = done_min; int updates = 0;
  if (!init) SIM_CHECK(v->max() == lowest && v->min() == highest, "minmax-wrong", "extremes without any value");
  int nt = (int)sim::choose_range(1, 4), left = nt; std::vector<int> th;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("upd", [&]() {
    for (uint32_t k = sim::choose(8); k; k--) { T x = gen(); { SIM_ATOMIC; any_max = std::max(any_max, x); any_min = std::min(any_min, x); } v->update(x); SIM_ATOMIC; done_max = std::max(done_max, x); done_min = std::min(done_min, x); updates++; }
    SIM_ATOMIC; left--;
  }));
  int rd = sim::spawn("read", [&]() {
    T lmax = lowest, lmin = highest;
    for (int k = 0; k < 6; k++) {
      T a, b; { SIM_ATOMIC; a = done_max; b = done_min; }
      T x = v->max(), n = v->min();
      SIM_ATOMIC;
      SIM_CHECK(x >= a && x <= any_max, "minmax-wrong", "maximum lies outside the values passed before and during the call");
      SIM_CHECK(n <= b && n >= any_min, "minmax-wrong", "minimum lies outside the values passed before and during the call");
      SIM_CHECK(x >= lmax && n <= lmin, "minmax-wrong", "maximum decreases or minimum increases"); lmax = x; lmin = n;
    }
  });
  for (int t : th) sim::join(t);
  sim::join(rd);
  SIM_CHECK(v->max() == any_max && v->min() == any_min, "minmax-wrong", "extremes of %d values are wrong at the end (updates lost)", updates);
  if (updates > 1) sim::nontrivial();
  delete v;
}
}
SIM_SCENARIO_W("C19", minmax, 3) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_THREAD_STALL);
  switch (sim::choose(5)) {
    case 0: minmax_run<int32_t>([]() { return (int32_t)sim::choose(20) - 10; }, std::numeric_limits<int32_t>::lowest(), std::numeric_limits<int32_t>::max()); break;
    case 1: minmax_run<size_t>([]() { return (size_t)sim::choose(50); }, 0, std::numeric_limits<size_t>::max()); break;
    case 2: minmax_run<int64_t>([]() { return ((int64_t)sim::choose(9) - 4) * 3000000000ll; }, std::numeric_limits<int64_t>::lowest(), std::numeric_limits<int64_t>::max()); break;
    case 3: minmax_run<float>([]() { return ((float)sim::choose(9) - 4) * 0.5f; }, std::numeric_limits<float>::lowest(), std::numeric_limits<float>::max()); break;
    default: minmax_run<uint16_t>([]() { return (uint16_t)(65530 + sim::choose(6)); }, 0, 65535); break;
  }
}

// Exact window arithmetic with given times, one thread.
SIM_SCENARIO_W("C19", period_exact, 3) {
  int32_t period = 1 + (int32_t)sim::choose(3) * (int32_t)sim::choose(1000); PeriodValue<int64_t, false> p(period); PeriodValue<int64_t, true> q(period);
  SIM_CHECK(p.get_time_period() == period, "period-wrong", "period %d", p.get_time_period());
  std::deque<std::pair<int64_t, int64_t>> m; int64_t t = 1 + sim::choose(5); int n = (int)sim::choose_range(1, 150); uint32_t style = sim::choose(3);
  for (int i = 0; i < n; i++) {
    if (sim::coin(3)) t += style == 0 ? sim::choose(3) : style == 1 ? sim::choose((uint32_t)period / 4 + 2) : sim::coin(8) ? sim::choose((uint32_t)period * 2 + 2) : 0;
    if (!sim::coin(5)) { int64_t v = 1 + sim::choose(1000); p.push(v, t); q.push(v, t); m.push_back(std::make_pair(t, v)); }
    else {
      if (sim::coin(2)) t += sim::choose((uint32_t)period + 2);
      while (!m.empty() && m.front().first < t - period) m.pop_front();
      int64_t s = 0; for (auto& x : m) s += x.second;
      auto r = p.sum_and_counts(t), r2 = q.sum_and_counts(t);
      SIM_CHECK(r.first == s && r.second == (int32_t)m.size(), "period-wrong", "window of %d ms at %lld: sum %lld count %d, expected %lld and %zu", period, (long long)t, (long long)r.first, r.second, (long long)s, m.size());
      SIM_CHECK(r2 == r, "period-wrong", "locked and unlocked variant differ");
      SIM_CHECK(p.total_counts() == m.size(), "period-wrong", "%zu values kept after a query, %zu lie in the window", p.total_counts(), m.size());
    }
    SIM_CHECK(p.total_counts() >= 0 && p.total_counts() <= (size_t)i + 1, "period-wrong", "%zu values kept of %d pushed", p.total_counts(), i + 1);
  }
  sim::nontrivial();
}

// Concurrent pushes and queries on simulated time.
SIM_SCENARIO_W("C19", period_concurrent, 4) {
  sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_CLOCK_JUMP); sim::allow(sim::F_LATE_TIMER);
  sys_api::performance_time_now();
  int32_t period = 1 + (int32_t)sim::choose(200); PeriodValue<int64_t>* p = new PeriodValue<int64_t>(period);
  struct P { int64_t v; uint64_t inv, res; }; std::vector<P> h; h.reserve(400);
  auto ms = []() { return (int64_t)(sys_api::performance_time_now() / 1000); };
  bool many = sim::coin(2); int nt = (int)sim::choose_range(1, 3), done = 0, nr = (int)sim::choose_range(1, 2), queries = 0; uint64_t seqno = 0; std::vector<int> th;
  std::map<int, std::pair<int64_t, int64_t>> tm;    // push index -> (earliest, latest) time stamp
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("push", [&]() {
    uint32_t burst = 1 + sim::choose(40);
    for (uint32_t k = burst; k; k--) {
      int i; int64_t a = ms(), v = 1 + sim::choose(100);
      { SIM_ATOMIC; P x = {v, sim::seq(), ~0ull}; h.push_back(x); i = (int)h.size() - 1; tm[i] = std::make_pair(a, (int64_t)1 << 60); }
      p->push(v);
      int64_t b = ms(); { SIM_ATOMIC; h[i].res = sim::seq(); tm[i].second = b; }
      if (sim::coin(5)) sim::sleep_us(sim::choose((uint32_t)period * 700));
    }
    SIM_ATOMIC; done++;
  }));
  for (int r = 0; r < nr; r++) th.push_back(sim::spawn("query", [&]() {
    for (uint32_t k = 1 + sim::choose(many ? 40 : 8); k; k--) {
      if (many && sim::coin(3)) sim::sleep_us(sim::choose((uint32_t)period * 300));
      int64_t a = ms(); uint64_t inv; { SIM_ATOMIC; inv = sim::seq(); }
      if (sim::coin(2)) { size_t c = p->total_counts(); SIM_ATOMIC; SIM_CHECK(c <= h.size(), "period-wrong", "total_counts() is %zu, only %zu values were pushed", c, h.size()); continue; }
      auto s = p->sum_and_counts();
      int64_t b = ms(); uint64_t res; { SIM_ATOMIC; res = sim::seq(); queries++; }
      SIM_ATOMIC;
      int64_t lo = 0, hi = 0; int clo = 0, chi = 0;
      for (size_t i = 0; i < h.size(); i++) {
        if (h[i].inv > res) continue;
        if (tm[(int)i].second >= a - period) { hi += h[i].v; chi++; }                              // may be in the window
        if (h[i].res < inv && tm[(int)i].first >= b - period) { lo += h[i].v; clo++; }             // must be
      }
      SIM_CHECK(s.second >= clo && s.second <= chi && s.first >= lo && s.first <= hi, "period-wrong", "window of %d ms: sum %lld count %d, possible are sums %lld..%lld counts %d..%d", period, (long long)s.first, s.second, (long long)lo, (long long)hi, clo, chi);
      if (sim::coin(2)) { SIM_ATOMIC; seqno++; }
    }
  }));
  for (int t : th) sim::join(t);
  // far in the future the window is empty
  sim::sleep_us((uint64_t)period * 1000 + 2000000);
  auto s = p->sum_and_counts();
  SIM_CHECK(s.first == 0 && s.second == 0 && p->total_counts() == 0, "period-wrong", "values remain in the window after it has passed");
  if (queries && h.size() > 1) sim::nontrivial();
  delete p;
}

// The queue behind it: FIFO with growth, or with a fixed capacity that drops the oldest.
SIM_SCENARIO_W("C19", ring_queue, 2) {
  size_t fixed = sim::coin(2) ? 0 : 1 + sim::choose(40); RingQueue<std::string>* q = new RingQueue<std::string>(fixed); std::deque<std::string> m; int n = (int)sim::choose_range(1, 200), ctr = 0; uint32_t bias = 1 + sim::choose(4);
  if (fixed) SIM_CHECK(q->capacity() == fixed, "ringqueue-wrong", "capacity %zu, wanted %zu", q->capacity(), fixed);
  for (int i = 0; i < n; i++) {
    switch (sim::choose(5 + bias)) {
      case 0: { size_t k = 1 + (sim::coin(3) ? sim::choose(20) : 0); q->pop(k); for (size_t j = 0; j < k && !m.empty(); j++) m.pop_front(); break; }
      case 1: { if (sim::coin(20)) { q->reset(); m.clear(); } break; }
      case 2: { size_t at = 0; int stop = (int)sim::choose(60); q->walk([&](size_t ix, const std::string& v) { SIM_CHECK(ix == at && at < m.size() && v == m[at], "ringqueue-wrong", "walk: element %zu", ix); at++; return (int)at < stop || stop > 50; }); if (stop > 50) SIM_CHECK(at == m.size(), "ringqueue-wrong", "walk visits %zu of %zu", at, m.size()); break; }
      case 3: { size_t at = m.size(); int seen = 0, stop = (int)sim::choose(60); q->walk_reserve([&](size_t ix, const std::string& v) { SIM_CHECK(at > 0 && ix == at - 1 && v == m[ix], "ringqueue-wrong", "walk_reserve: element %zu", ix); at--; seen++; return seen < stop || stop > 50; }); if (stop > 50) SIM_CHECK(at == 0, "ringqueue-wrong", "walk_reserve leaves %zu", at); break; }
      default: { std::string s = "value " + std::to_string(ctr++); q->push(s); m.push_back(s); if (fixed && m.size() > fixed) m.pop_front(); break; }
    }
    SIM_CHECK(q->size() == m.size() && q->empty() == m.empty(), "ringqueue-wrong", "size %zu, expected %zu", q->size(), m.size());
    SIM_CHECK(q->get_free_size() == q->capacity() - q->size(), "ringqueue-wrong", "free %zu capacity %zu size %zu", q->get_free_size(), q->capacity(), q->size());
    if (!m.empty()) { SIM_CHECK(q->front() == m.front() && q->back() == m.back(), "ringqueue-wrong", "front or back"); size_t k = sim::choose((uint32_t)m.size()); SIM_CHECK(q->get(k) == m[k], "ringqueue-wrong", "element %zu of %zu", k, m.size()); }
  }
  delete q;
  sim::nontrivial();
}
