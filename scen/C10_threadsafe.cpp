// C10: the operations documented as thread safe can be called from any thread while the connection is being closed.
#include "common_net.h"
using namespace scn;

SIM_SCENARIO_W("C10", server_api_vs_close, 6) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL);
  pick_sndbuf();
  int np = (int)sim::choose_range(1, 3), nt = (int)sim::choose_range(1, 3);
  bool past_stop = sim::coin(4);       // the threads go on while the server is stopped and joined
  int ender = (int)sim::choose(past_stop ? 2 : 4);     // 0 peer close, 1 peer reset, 2 shutdown_connection by a thread, 3 shutdown by the worker
  Srv srv;
  std::vector<TcpConnectionPtr> box;   // what the application threads hold
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (!k->peer_port) srv.consume = false; SIM_ATOMIC; box.push_back(k->ptr); };
  srv.on_msg = [&](SConn* k) { if (ender == 3) k->ptr->shutdown(); else if (k->tx.frames < 8 && sim::coin(2)) srv.send(k, 1u, 0, std::min<uint32_t>(frame_len(), 5000)); };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 2)) && srv.up(), "start-failed", "server");
  std::vector<int> th; bool stop = false;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("api", [&, t]() {
    std::map<int, int> last;
    for (int i = 0; i < 40 && !stop; i++) {
      TcpConnectionPtr c;
      { SIM_ATOMIC; if (!box.empty()) c = box[sim::choose((uint32_t)box.size())]; }
      if (!c) { sim::sleep_us(500); continue; }
      switch (sim::choose(6)) {
        case 0: case 1: { std::string d(1 + std::min<uint32_t>(frame_len(), 5000), (char)('a' + t)); c->send(d.data(), d.size()); sim::probe("sends by other threads"); break; }
        case 2: { int st; { SIM_ATOMIC; st = (int)c->get_state(); } SIM_CHECK(st >= last[c->get_id()] && st >= TcpConnection::kConnected && st <= TcpConnection::kDisconnected, "state-backwards", "state of connection %d went from %d to %d", c->get_id(), last[c->get_id()], st); last[c->get_id()] = st; break; }
        case 3: SIM_CHECK(c->get_id() > 0 && c->get_local_addr().get_port() == srv.ports[0] && c->get_looper() != nullptr, "attributes", "attributes of connection %d", c->get_id()); break;
        case 4: if (ender == 2) { srv.s->shutdown_connection(c); sim::probe("shutdowns by other threads"); } break;
        default: if (sim::coin(2)) { SIM_ATOMIC; c.reset(); if (box.size() > 1) box.erase(box.begin()); } else sim::sleep_us(sim::choose(600)); break;
      }
      if (sim::coin(3)) sim::sleep_us(sim::choose(300));
    }
  }));
  std::vector<Raw*> rs; std::vector<int> pt;
  for (int i = 0; i < np; i++) {
    Raw* r = new Raw(); rs.push_back(r);
    pt.push_back(sim::spawn("peer", [r, &srv, ender]() {
      if (!r->connect(srv.ports[0], 1)) return;
      std::string junk(8192, 0); sockaddr_in a; socklen_t l = sizeof a; getsockname(r->fd, (sockaddr*)&a, &l);
      int port = ntohs(a.sin_port);
      for (int j = 0, m = (int)sim::choose(4) + 1; j < m; j++) { if (!r->send(frame((uint32_t)port, 0, j, sim::choose(300)))) break; struct pollfd q = {r->fd, POLLIN, 0}; if (::poll(&q, 1, (int)sim::choose(5)) > 0) { if (::recv(r->fd, &junk[0], 1 + sim::choose(8000), 0) <= 0) break; } sim::sleep_us(sim::choose(2000)); }
      if (ender == 1) r->reset();
      else if (ender >= 2) for (int j = 0; j < 400; j++) { struct pollfd q = {r->fd, POLLIN, 0}; if (::poll(&q, 1, 20) > 0 && ::recv(r->fd, &junk[0], junk.size(), 0) <= 0) break; }
      r->close();
    }));
  }
  for (int t : pt) sim::join(t);
  if (!past_stop && sim::coin(2)) sim::calm();
  if (past_stop) { srv.stop_join(); srv.check_all_closed(); if (srv.total) sim::nontrivial(); }
  for (int t : th) sim::join(t);
  { SIM_ATOMIC; stop = true; }
  sim::calm();
  bool ok = sim::wait_until([&]() { return srv.live == 0; }, 60000);
  SIM_CHECK(ok, "close-missing", "%d connections have no close callback although their peers are gone", srv.live);
  if (srv.total) sim::nontrivial();
  box.clear();
  if (!past_stop) { srv.stop_join(); srv.check_all_closed(); }
  srv.destroy();
  for (Raw* r : rs) delete r;
  check_fds();
}

// Client: send / get_connection_state / get_param from other threads while the connection ends.
SIM_SCENARIO_W("C10", client_api_vs_close, 3) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL);
  pick_sndbuf();
  Srv srv; int nt = (int)sim::choose_range(1, 3); int ender = (int)sim::choose(3);
  srv.consume = true;
  srv.on_conn = [&](SConn* k) { k->rx.stream = 3; srv.send(k, 2u, 0, 20); };
  srv.consume = false;
  srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().discard(1 + sim::choose((uint32_t)k->ptr->get_input_buf().size())); if (ender == 0 && sim::coin(3)) k->ptr->shutdown(); else if (k->tx.frames < 20) srv.send(k, 2u, 0, sim::choose(100)); };
  SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
  Cli c(9);
  c.rx.stream = 2;
  c.on_msg = [&](Cli*) { if (ender == 1 && c.msgs >= 2) c.c->disconnect(); };
  c.start(srv.ports[0]);
  SIM_CHECK(sim::wait_until([&]() { return c.oks || c.fails; }, 60000), "connect-failed", "no connect result");
  std::vector<int> th;
  if (c.was_ok) for (int t = 0; t < nt; t++) th.push_back(sim::spawn("api", [&]() {
    int last = TcpConnection::kConnecting;
    for (int i = 0; i < 25; i++) {
      switch (sim::choose(4)) {
        case 0: case 1: { std::string d(1 + std::min<uint32_t>(frame_len(), 3000), 'q'); c.c->send(d.data(), d.size()); sim::probe("sends by other threads"); break; }
        case 2: { int st = c.c->get_connection_state(); SIM_CHECK(st >= last && st <= TcpConnection::kDisconnected, "state-backwards", "client state went from %d to %d", last, st); last = st; break; }
        default: SIM_CHECK(c.c->get_param() == &c && c.c->get_server_address().get_port() == srv.ports[0], "attributes", "client attributes changed");
      }
      if (sim::coin(3)) sim::sleep_us(sim::choose(500));
    }
  }));
  if (ender == 2) { sim::sleep_us(sim::choose(8000)); SConn* k = srv.conns.empty() ? nullptr : srv.conns.begin()->second; if (k) srv.s->shutdown_connection(k->ptr); }
  for (int t : th) sim::join(t);
  if (c.was_ok) sim::nontrivial();
  sim::calm();
  c.stop();
  srv.stop_join(); srv.check_all_closed(); srv.destroy();
  check_fds();
}
