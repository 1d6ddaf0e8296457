// C13: descriptors are conserved: everything opened is closed exactly once and promptly, whichever step failed.
#include "common_net.h"
using namespace scn;

// Rounds of connections on one server: after each round the server holds exactly what it held before.
SIM_SCENARIO_W("C13", server_rounds, 5) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  int nw = (int)sim::choose_range(1, 2), nports = (int)sim::choose_range(1, 2);
  Srv srv; srv.consume = false;
  srv.on_conn = [&](SConn* k) { if (sim::coin(3)) srv.send(k, 4u, 0, frame_len()); if (sim::coin(6)) k->ptr->shutdown(); };
  srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); if (sim::coin(4)) k->ptr->shutdown(); else if (k->tx.frames < 6 && sim::coin(2) && k->ptr->get_state() == TcpConnection::kConnected) srv.send(k, 4u, 0, frame_len()); };
  SIM_CHECK(srv.start(nw, nports) && srv.up(), "start-failed", "server");
  sim::sleep_us(100000);
  int base = sim::open_fds();
  int rounds = (int)sim::choose_range(1, 3);
  for (int r = 0; r < rounds; r++) {
    int np = (int)sim::choose_range(1, 4); std::vector<int> th;
    for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&]() {
      Raw p; std::string junk(4096, 0);
      if (!p.connect(srv.ports[sim::choose((uint32_t)nports)], 1)) return;
      for (uint32_t j = sim::choose(3); j; j--) p.send(std::string(1 + sim::choose(300), 'z'));
      if (sim::coin(2)) { struct pollfd q = {p.fd, POLLIN, 0}; if (::poll(&q, 1, (int)sim::choose(20)) > 0) { ssize_t n = ::recv(p.fd, &junk[0], junk.size(), 0); (void)n; } }
      if (sim::coin(4)) { sim::fault_count(sim::F_PEER_CLOSE); p.reset(); } else p.close();
    }));
    for (int t : th) sim::join(t);
    sim::calm();
    bool ok = sim::wait_until([&]() { return sim::open_fds() == base && srv.live == 0; }, 60000);
    SIM_CHECK(ok, "descriptor-leak", "%d descriptors are open although every peer is gone, %d were open before the round: %s", sim::open_fds(), base, sim::describe_fds());
    SIM_CHECK(sim::bad_closes() == 0, "double-close", "a descriptor was closed that was not open");
    if (r + 1 < rounds) sim::calm(false);
  }
  if (srv.total) sim::nontrivial();
  srv.stop_join(); srv.check_all_closed();
  SIM_CHECK(sim::open_fds_kind('s') == 0 && sim::open_fds_kind('l') == 0, "descriptor-leak", "sockets open after join: %s", sim::describe_fds());
  srv.destroy();
  check_fds();
}

// Servers that fail to bind or to start, are never started, or are started and stopped again and again.
SIM_SCENARIO_W("C13", server_cycles, 3) {
  allow_net_timing(); sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_ACCEPT_ERR);
  int n = (int)sim::choose_range(1, 3);
  TcpServer* holder = nullptr;
  if (sim::coin(3)) { holder = new TcpServer(); holder->bind(Address((uint16_t)5001, true), false); }
  int base = sim::open_fds();
  for (int i = 0; i < n; i++) {
    TcpServer* s = new TcpServer();
    int bound = 0, tried = 0;
    for (uint32_t b = sim::choose(4); b; b--) { uint16_t port = (uint16_t)(5000 + sim::choose(3)); int before = sim::open_fds(); bool ok = s->bind(Address(port, true), sim::coin(2)); tried++; bound += ok; SIM_CHECK(sim::open_fds() == before + (ok ? 1 : 0), "descriptor-leak", "bind returned %d and changed the number of open descriptors by %d", ok, sim::open_fds() - before); }
    int conn = 0, clo = 0; bool started = false;
    s->m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr) { SIM_ATOMIC; conn++; };
    s->m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { SIM_ATOMIC; clo++; };
    switch (sim::choose(4)) {
      case 0: break;                                                     // never started
      case 1: { int b = sim::open_fds(); SIM_CHECK(!s->start(0) && !s->start(100000), "start-wrong", "start with a wrong thread count succeeds"); SIM_CHECK(sim::open_fds() == b, "descriptor-leak", "failed start leaves descriptors"); break; }
      default: started = s->start((int)sim::choose_range(1, 2)); SIM_CHECK(started, "start-failed", "server"); SIM_CHECK(!s->start(1), "start-wrong", "second start succeeds"); SIM_CHECK(!s->bind(Address((uint16_t)5009, true)), "start-wrong", "bind while running succeeds");
    }
    if (started) {
      for (uint32_t p = bound ? sim::choose(3) : 0; p; p--) { Raw r; if (r.connect((uint16_t)s->get_bind_address(0).get_port(), 1)) { if (sim::coin(2)) r.send("hello"); r.close(); } }
      if (bound && sim::coin(3)) { size_t ix = sim::choose((uint32_t)bound); s->stop_listen(ix); if (sim::coin(2)) s->stop_listen(ix); }
      sim::sleep_us(sim::choose(2000));
      s->stop();
      bool joined = false; int j = sim::spawn("joiner", [&]() { s->join(); SIM_ATOMIC; joined = true; });
      SIM_CHECK(sim::wait_until([&]() { return joined; }, 60000), "join-hangs", "join");
      sim::join(j);
      SIM_CHECK(conn == clo, "close-missing", "%d connected, %d closed after join", conn, clo);
      sim::nontrivial();
    }
    delete s;
    SIM_CHECK(sim::open_fds() == base, "descriptor-leak", "after destroying the server: %s", sim::describe_fds());
    (void)tried;
  }
  delete holder;
  check_fds();
}

// Clients created, connected, refused, timed out, disconnected and released in every state on one loop.
SIM_SCENARIO_W("C13", client_cycles, 4) {
  allow_net_timing(); sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_CONN_TIMEOUT); sim::allow(sim::F_RST);
  bool with_srv = !sim::coin(4);
  Srv srv; srv.consume = false;
  srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); if (sim::coin(3)) k->ptr->shutdown(); };
  srv.on_conn = [&](SConn* k) { if (sim::coin(4)) k->ptr->shutdown(); };
  bool up = false;
  if (with_srv) { do up = srv.start(1); while (!up && srv.ports.empty()); SIM_CHECK(up && srv.up(), "start-failed", "server"); }
  int n = (int)sim::choose_range(1, 4); int released = 0;
  int th = sim::spawn("loop", [&]() {
    Looper* lp = Looper::create_looper();
    int base = sim::open_fds();
    (void)base;
    for (int i = 0; i < n; i++) {
      int how = (int)sim::choose(5), closed = 0, okc = 0, fails = 0; uint32_t retry = sim::coin(2) ? 1 + sim::choose(50) : 0;
      TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, i);
      TcpConnectionPtr conn;
      c->m_listener.on_connected = [&](TcpClientPtr, TcpConnectionPtr cn, bool ok) -> uint32_t { if (ok) { okc++; conn = cn; cn->send("abc", 3); if (how == 3) c->disconnect(); } else { fails++; if (how == 4) c->disconnect(); } return !ok && fails < 4 ? retry : 0; };
      c->m_listener.on_close = [&](TcpClientPtr, TcpConnectionPtr) { closed++; };
      c->m_listener.on_message = [&](TcpClientPtr, TcpConnectionPtr cn) { cn->get_input_buf().reset(); };
      bool r = c->connect(Address("127.0.0.1", 5000));
      if (r && sim::coin(2)) c->send("cached", 6);
      Looper::event_id_t t = Looper::INVALID_EVENT_ID;
      t = lp->register_timer_event(5, nullptr, [](Looper::event_id_t, void*) {});
      int steps = (int)sim::choose(12);
      for (int s = 0; s < steps; s++) { lp->step(); if (sim::coin(2)) sim::sleep_us(sim::choose(20000)); }
      // release in whatever state it is; a connected one must be closed first
      if (conn && conn->get_state() != TcpConnection::kDisconnected) { if (how != 2) c->disconnect(); for (int s = 0; s < 4000 && conn->get_state() != TcpConnection::kDisconnected; s++) { lp->step(); sim::sleep_us(20000); if (s == 2000) c->disconnect(); } SIM_CHECK(conn->get_state() == TcpConnection::kDisconnected, "close-missing", "client does not close"); }
      else if (how == 1) c->disconnect();
      SIM_CHECK(closed == okc, "close-missing", "%d connected, %d close callbacks", okc, closed);
      lp->delete_event(t);
      conn.reset(); c.reset();
      { SIM_ATOMIC; released++; }
      // nothing of the client may run later
      for (int s = 0; s < 2; s++) { lp->step(); sim::sleep_us(60000); }
    }
    lp->step();
    Looper::destroy_looper(lp);
  });
  sim::join(th);
  sim::calm();
  if (with_srv) {
    bool ok = sim::wait_until([&]() { return srv.live == 0; }, 200000);
    SIM_CHECK(ok, "close-missing", "%d connections remain at the server although their clients are released", srv.live);
    srv.stop_join(); srv.check_all_closed();
  }
  srv.destroy();
  sim::nontrivial();
  check_fds();
}

// Timers, loops, worker threads and pipes.
SIM_SCENARIO_W("C13", loops_and_timers, 2) {
  sim::allow(sim::F_FD_ERR); sim::allow(sim::F_EINTR);
  int n = (int)sim::choose_range(1, 6);
  WorkThread* w = nullptr;
  int started = 0;
  sim::calm(); w = new WorkThread();
  w->set_on_start([&]() { SIM_ATOMIC; started++; return !sim::coin(3); });
  w->start("w"); sim::calm(false);
  Looper* lp; sim::calm(); lp = Looper::create_looper(); sim::calm(false);
  int base = sim::open_fds_kind('t');
  std::vector<Looper::event_id_t> ids, users; std::vector<socket_t> ports; int fired = 0, alive = 0;
  Pipe* mine[3]; sim::calm(); for (auto& p : mine) p = new Pipe(); sim::calm(false);
  int pipes = sim::open_fds_kind('p');
  auto touch = [&](Looper::event_id_t e) { switch (sim::choose(4)) { case 0: lp->disable_read(e); break; case 1: lp->enable_read(e); break; case 2: lp->disable_all(e); break; default: lp->disable_write(e); } };
  for (int i = 0; i < n * 4; i++) {
    if (sim::coin(2)) {
      int before = sim::open_fds();
      Looper::event_id_t t = lp->register_timer_event(1 + sim::choose(20), nullptr, [&](Looper::event_id_t, void*) { fired++; });
      int d = sim::open_fds() - before; (void)d;
      if (t != Looper::INVALID_EVENT_ID) { ids.push_back(t); alive++; } else sim::probe("timer creation failed");
    } else if (sim::coin(3)) {
      if (!ids.empty() && sim::coin(2)) touch(ids[sim::choose((uint32_t)ids.size())]);
      else if (!users.empty() && sim::coin(2)) touch(users[sim::choose((uint32_t)users.size())]);
      else if (users.size() < 3) { socket_t f = mine[users.size()]->get_read_port(); users.push_back(lp->register_event(f, Looper::kRead, nullptr, [](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, nullptr)); }
      else { for (auto u : users) lp->delete_event(u); users.clear(); }
    } else if (!ids.empty()) { uint32_t k = sim::choose((uint32_t)ids.size()); lp->delete_event(ids[k]); ids.erase(ids.begin() + k); alive--; }
    SIM_CHECK(sim::open_fds_kind('t') == base + alive, "descriptor-leak", "%d timers exist, %d timer descriptors are open", alive, sim::open_fds_kind('t') - base);
    SIM_CHECK(sim::open_fds_kind('p') == pipes, "descriptor-leak", "%d pipe descriptors of the user are open, %d were: a registration does not own its descriptor", sim::open_fds_kind('p'), pipes);
    if (sim::coin(3)) { lp->step(); sim::sleep_us(2000); }
  }
  for (auto t : ids) { if (sim::coin(2)) touch(t); lp->delete_event(t); }
  for (auto u : users) lp->delete_event(u);
  SIM_CHECK(sim::open_fds_kind('p') == pipes, "descriptor-leak", "%d pipe descriptors of the user are open, %d were: a registration does not own its descriptor", sim::open_fds_kind('p'), pipes);
  for (auto p : mine) delete p;
  SIM_CHECK(sim::open_fds_kind('t') == base, "descriptor-leak", "%d timer descriptors are open after deleting every timer", sim::open_fds_kind('t') - base);
  Looper::destroy_looper(lp);
  Looper* wl = w->get_looper();
  if (wl && started) sim::wait_until([&]() { return started > 0; }, 1000);
  sim::nontrivial();
  // a worker whose start callback refuses ends by itself
  bool joined = false;
  int j = sim::spawn("joiner", [&]() { w->join(); SIM_ATOMIC; joined = true; });
  sim::calm();
  sim::wait_until([&]() { return joined; }, 500);
  if (!joined) w->get_looper()->push_stop_request();
  SIM_CHECK(sim::wait_until([&]() { return joined; }, 60000), "join-hangs", "worker");
  sim::join(j);
  delete w;
  check_fds();
}

// Nothing the library keeps open is inherited by programs the application starts.
SIM_SCENARIO_W("C13", inheritance, 1) {
  allow_net_timing();
  int nw = (int)sim::choose_range(1, 2), nports = (int)sim::choose_range(1, 2), n = (int)sim::choose_range(1, 3), ok = 0;
  Looper* lp = Looper::create_looper();
  { // while the connection is not made yet
    bool over = false; TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, 0);
    c->m_listener.on_connected = [&](TcpClientPtr, TcpConnectionPtr, bool) -> uint32_t { over = true; return 0; };
    if (c->connect(Address("127.0.0.1", 4999))) {
      SIM_CHECK(sim::open_fds_inheritable() == 0, "descriptor-inherited", "%d descriptors stay open in programs started by this one (marked +): %s", sim::open_fds_inheritable(), sim::describe_fds());
      sim::calm();
      for (int s = 0; s < 40000 && !over; s++) { lp->step(); sim::sleep_us(5000); }
      sim::calm(false);
      SIM_CHECK(over, "no-result", "no result of a connect to a port where nobody listens");
    }
    c.reset();
  }
  Srv srv; srv.consume = false; srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); };
  SIM_CHECK(srv.start(nw, nports) && srv.up(), "start-failed", "server");
  WorkThread* w = new WorkThread(); w->start("w");
  Looper::event_id_t t = lp->register_timer_event(3, nullptr, [](Looper::event_id_t, void*) {});
  sim::calm(); Pipe* pp = new Pipe(); sim::calm(false);
  std::vector<TcpClientPtr> cs;
  for (int i = 0; i < n; i++) {
    TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, i); cs.push_back(c);
    c->m_listener.on_connected = [&](TcpClientPtr, TcpConnectionPtr, bool y) -> uint32_t { ok += y; return 0; };
    SIM_CHECK(c->connect(Address("127.0.0.1", srv.ports[sim::choose((uint32_t)nports)])), "connect-failed", "connect fails at once");
  }
  sim::calm();
  for (int s = 0; s < 5000 && (ok < n || srv.total < n); s++) { lp->step(); sim::sleep_us(3000); }
  SIM_CHECK(ok == n && srv.total == n, "connect-failed", "%d of %d clients are connected, the server has %d", ok, n, srv.total);
  SIM_CHECK(sim::open_fds_inheritable() == 0, "descriptor-inherited", "%d descriptors stay open in programs started by this one (marked +): %s", sim::open_fds_inheritable(), sim::describe_fds());
  for (auto& c : cs) c->disconnect();
  auto closed = [&]() { for (auto& c : cs) if (c->get_connection_state() != TcpConnection::kDisconnected) return false; return true; };
  for (int s = 0; s < 5000 && !closed(); s++) { lp->step(); sim::sleep_us(3000); }
  SIM_CHECK(closed(), "close-missing", "clients do not close");
  lp->delete_event(t); cs.clear(); lp->step(); delete pp;
  w->get_looper()->push_stop_request(); w->join(); delete w;
  Looper::destroy_looper(lp);
  srv.stop_join(); srv.check_all_closed(); srv.destroy();
  sim::nontrivial(); check_fds();
}
