// C20: the turn of the workers after 2^31 connections. The counter behind it is set close to that value through the
// private part of the class; when it is not there under its name the scenario only checks the usual turn.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <memory>
#include <atomic>
#include <thread>
#include <mutex>
#include <functional>
#include <algorithm>
#include <tuple>
#include <sstream>
#include <condition_variable>
#include <unordered_map>
#define private public
#include "common_net.h"
#undef private
using namespace scn;

namespace {
template <class T> auto preset(T* s, int v) -> decltype(s->m_next_workthread_id = v, true) { s->m_next_workthread_id = v; return true; }
inline bool preset(...) { return false; }
}

SIM_SCENARIO_W("C20", many_accepts, 1) {
  allow_net_timing();
  int nw = (int)sim::choose_range(1, 5), np = (int)sim::choose_range(2, 8);
  Srv srv; std::vector<int> per((size_t)nw, 0);
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; SIM_ATOMIC; per[(size_t)k->worker]++; };
  static const int V[] = {0, 2147483647, 2147483645, -1, -3};
  if (preset(srv.s, V[sim::choose(5)])) sim::probe("counter of the turns preset");
  SIM_CHECK(srv.start(nw) && srv.up(), "start-failed", "server");
  std::vector<Raw*> rs;
  for (int i = 0; i < np; i++) { Raw* r = new Raw(); rs.push_back(r); SIM_CHECK(r->connect(srv.ports[0], 3), "connect-failed", "peer %d", r->err); }
  SIM_CHECK(sim::wait_until([&]() { int n = 0; for (int x : per) n += x; return n == np; }, 60000), "not-accepted", "%d of %d connections accepted", srv.total, np);
  { SIM_ATOMIC; int lo = 1 << 30, hi = 0; for (int x : per) { lo = std::min(lo, x); hi = std::max(hi, x); }
    // the turn may jump once, when the counter wraps
    SIM_CHECK(hi - lo <= 2, "unfair", "of %d connections one worker got %d, another %d", srv.total, lo, hi); }
  for (Raw* r : rs) { r->close(); delete r; }
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
  if (nw > 1) sim::nontrivial();
}

// hundreds of connections, one group after the other: each group of as many connections as there are workers gives
// every worker exactly one
SIM_SCENARIO_W("C20", many_turns, 1) {
  int nw = (int)sim::choose_range(2, 7), groups = (520 + (int)sim::choose(100)) / nw;
  if (sim::coin(3)) groups = (int)sim::choose_range(3, 20);
  Srv srv; std::vector<int> per((size_t)nw, 0); int got = 0;
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; SIM_ATOMIC; per[(size_t)k->worker]++; got++; };
  SIM_CHECK(srv.start(nw) && srv.up(), "start-failed", "server");
  sim::set_max_time_s(3600);
  for (int g = 0; g < groups; g++) {
    std::vector<Raw*> rs;
    for (int i = 0; i < nw; i++) { Raw* r = new Raw(); rs.push_back(r); SIM_CHECK(r->connect(srv.ports[0], 3), "connect-failed", "peer %d", r->err); }
    SIM_CHECK(sim::wait_until([&]() { return got == (g + 1) * nw; }, 60000), "not-accepted", "%d of %d connections accepted", got, (g + 1) * nw);
    { SIM_ATOMIC; for (int i = 0; i < nw; i++) SIM_CHECK(per[(size_t)i] == g + 1, "unfair", "after %d rounds worker %d got %d connections", g + 1, i, per[(size_t)i]); }
    for (Raw* r : rs) { r->close(); delete r; }
  }
  SIM_CHECK(sim::wait_until([&]() { return srv.live == 0; }, 60000), "close-missing", "%d connections without close callback", srv.live);
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
  sim::nontrivial();
}
