// C20: accepting: every connection goes to exactly one worker in turn with a unique id, on every bound port; failing
// accepts and stopping to listen on one port never disturb anything else.
#include "common_net.h"
using namespace scn;

namespace {
struct P { int port_index; int myport; std::string err; bool conn, refused, dead, done; FrameRx rx; int sent; P() : port_index(0), myport(0), conn(false), refused(false), dead(false), done(false), rx(0, "peer"), sent(0) {} };
}

SIM_SCENARIO_W("C20", accept_everywhere, 6) {
  allow_net_timing(); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL);
  int nports = (int)sim::choose_range(1, 3), nw = sim::coin(12) ? (int)sim::choose_range(5, 32) : (int)sim::choose_range(1, 4), np = (int)sim::choose_range(1, 9);
  bool badbind = sim::coin(3), anyport = sim::coin(3);
  Srv srv;
  srv.nw = nw; srv.wtid.resize(nw); srv.wstarted.assign(nw, 0); srv.wloop.assign(nw, nullptr);
  srv.setup();
  for (int i = 0; i < nports; i++) {
    if (anyport && i == nports - 1) {
      SIM_CHECK(srv.s->bind(Address("127.0.0.1", 0), true), "start-failed", "bind to any port");
      uint16_t p = srv.s->get_bind_address((size_t)i).get_port();
      SIM_CHECK(p, "wrong-address", "the address of a socket bound to any port has no port");
      srv.ports.push_back(p);
    } else {
      SIM_CHECK(srv.s->bind(Address((uint16_t)(5000 + i), true), sim::coin(2)), "start-failed", "bind to port %d", 5000 + i);
      srv.ports.push_back((uint16_t)(5000 + i));
      // a bind that fails takes no place in the list
      if (badbind) SIM_CHECK(!srv.s->bind(Address((uint16_t)(5000 + i), true), false), "start-failed", "port %d can be bound twice", 5000 + i);
    }
  }
  for (int i = 0; i < nports; i++) {
    Address a = srv.s->get_bind_address((size_t)i);
    SIM_CHECK(a.get_port() == srv.ports[(size_t)i], "wrong-address", "bind address %d has port %d instead of %d", i, a.get_port(), srv.ports[(size_t)i]);
  }
  SIM_CHECK(srv.s->get_bind_address((size_t)nports).get_port() == 0, "wrong-address", "an address is reported for an index which was not bound");
  std::set<int> ids; std::vector<int> per((size_t)nw, 0);
  srv.on_conn = [&](SConn* k) {
    k->rx.stream = (uint32_t)k->peer_port;
    SIM_ATOMIC; SIM_CHECK(k->id > 0 && ids.insert(k->id).second, "id-reused", "connection id %d is not new", k->id);
    per[(size_t)k->worker]++;
    int lp = k->ptr->get_local_addr().get_port();
    SIM_CHECK(!k->peer_port || std::find(srv.ports.begin(), srv.ports.end(), lp) != srv.ports.end(), "wrong-address", "local port %d of connection %d", lp, k->id);
  };
  srv.consume = false;
  srv.on_msg = [&](SConn* k) { if (!k->peer_port) return; srv.drain(k); while (k->tx.frames < k->rx.frames && k->ptr->get_state() == TcpConnection::kConnected) srv.send(k, (uint32_t)k->peer_port, 9, sim::choose(60)); };
  int stop_at = sim::coin(2) ? (int)sim::choose((uint32_t)nports) : -1;   // this port is no longer listened on at some moment
  bool stopped = false;
  srv.on_mcmd = [&](Packet*) { srv.s->stop_listen((size_t)stop_at); SIM_ATOMIC; stopped = true; };
  srv.on_wcmd = [&](int, Packet*) { srv.s->stop_listen((size_t)stop_at); SIM_ATOMIC; stopped = true; };
  SIM_CHECK(srv.s->start(nw) && srv.up(), "start-failed", "server");
  SIM_CHECK(srv.s->get_work_thread_counts() == nw, "attributes", "number of workers");

  std::vector<P> ps((size_t)np); std::vector<int> th;
  auto run_peer = [&](P* p, Raw* r, int rounds) {
    for (int j = 0; j < rounds && !p->dead; j++) {
      if (!r->send(frame((uint32_t)p->myport, 0, p->sent, sim::choose(200)))) { p->dead = true; break; }
      p->sent++;
      while (p->rx.frames < p->sent && !p->dead) if (r->recv(p->rx, 4096) <= 0) p->dead = true;
    }
  };
  bool second = false; int ready = 0;
  for (int i = 0; i < np; i++) { P* p = &ps[(size_t)i]; p->port_index = (int)sim::choose((uint32_t)nports); th.push_back(sim::spawn("peer", [&, p]() {
    if (sim::coin(2)) sim::sleep_us(sim::choose(5000));
    Raw r;
    if (!r.connect(srv.ports[(size_t)p->port_index], 1)) { p->refused = true; }
    else {
      p->conn = true; sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l); p->myport = ntohs(a.sin_port); p->rx.stream = (uint32_t)p->myport;
      run_peer(p, &r, (int)sim::choose(3));
    }
    { SIM_ATOMIC; ready++; }
    sim::wait_until([&]() { return second; }, 600000);
    // faults are over: a connection which was served must still be served
    if (p->conn && !p->dead) run_peer(p, &r, 1);
    r.close(); SIM_ATOMIC; p->done = true;
  })); }
  int st = -1;
  if (stop_at >= 0) {
    int how = (int)sim::choose(4);
    st = sim::spawn("stopper", [&, how]() {
      sim::sleep_us(sim::choose(12000));
      if (how == 0) { char b = 0; srv.s->send_master_message(77, 1, &b); }
      else if (how == 1) { Packet* q = Packet::alloc_packet(); q->build_from_memory(4, 77, 0, nullptr); srv.s->send_work_message((int32_t)sim::choose((uint32_t)nw), q); Packet::free_packet(q); }
      else { srv.s->stop_listen((size_t)stop_at); if (how == 2) srv.s->stop_listen((size_t)stop_at); SIM_ATOMIC; stopped = true; }
    });
  }
  if (sim::coin(2)) sim::sleep_us(sim::choose(30000));
  if (sim::coin(3)) { Address a = srv.s->get_bind_address(0); SIM_CHECK(a.get_port() == srv.ports[0] || stop_at == 0, "wrong-address", "bind address while running: port %d", a.get_port()); }
  bool fine = sim::wait_until([&]() { return ready == np; }, 3000);
  sim::calm();
  if (st >= 0) sim::join(st);
  // a connection in the queue of the kernel is accepted although accepts failed before
  if (!fine) fine = sim::wait_until([&]() { return ready == np; }, 60000);
  { SIM_ATOMIC; for (auto& p : ps) if (!p.dead && p.conn && p.rx.frames < p.sent) SIM_CHECK(fine, "not-accepted", "a peer of port %d gets no answer on its connection 60 s after the faults stopped", srv.ports[(size_t)p.port_index]); }
  SIM_CHECK(fine, "harness", "peers do not get ready");
  if (stop_at >= 0) SIM_CHECK(sim::wait_until([&]() { return stopped && sim::open_fds_kind('l') == nports - 1; }, 20000), "still-listening", "%d of %d sockets listen after one was to be closed", sim::open_fds_kind('l'), nports);
  { SIM_ATOMIC; second = true; }
  SIM_CHECK(sim::wait_until([&]() { for (auto& p : ps) if (!p.done) return false; return true; }, 60000), "not-accepted", "an established connection is not served any more");
  for (int t : th) sim::join(t);
  int established = 0;
  for (auto& p : ps) if (p.conn) established++;
  // every port still accepts, the stopped one does not
  int late = 0, want_late = 0;
  for (int i = 0; i < nports; i++) {
    Raw r; bool ok = r.connect(srv.ports[(size_t)i], 1);
    if (i == stop_at) { SIM_CHECK(!ok, "still-listening", "port %d accepts although listening on it was stopped", srv.ports[(size_t)i]); continue; }
    SIM_CHECK(ok, "not-accepted", "port %d refuses connections: %d", srv.ports[(size_t)i], r.err);
    want_late++;
    P p; sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l); p.myport = ntohs(a.sin_port); p.rx.stream = (uint32_t)p.myport;
    int done = 0;
    int t = sim::spawn("late", [&]() { run_peer(&p, &r, 1); SIM_ATOMIC; done = 1; });
    SIM_CHECK(sim::wait_until([&]() { return done; }, 60000), "not-accepted", "a connection to port %d is not served within 60 s", srv.ports[(size_t)i]);
    sim::join(t);
    SIM_CHECK(!p.dead, "not-accepted", "a connection to port %d is closed although nothing fails any more", srv.ports[(size_t)i]);
    SConn* k = srv.by_port(p.myport);
    SIM_CHECK(k && k->ptr->get_local_addr().get_port() == srv.ports[(size_t)i], "wrong-address", "connection of port %d", srv.ports[(size_t)i]);
    late++; r.close();
  }
  SIM_CHECK(sim::wait_until([&]() { return srv.live == 0; }, 60000), "close-missing", "%d connections without close callback", srv.live);
  { SIM_ATOMIC;
    SIM_CHECK(srv.total <= established + late, "connected-twice", "%d connections reported, %d were made", srv.total, established + late);
    int lo = 1 << 30, hi = 0; for (int x : per) { lo = std::min(lo, x); hi = std::max(hi, x); }
    SIM_CHECK(hi - lo <= 1, "unfair", "of %d connections one worker got %d, another %d", srv.total, lo, hi);
    for (auto& p : ps) if (p.conn && p.rx.frames) SIM_CHECK(srv.by_port(p.myport), "connected-twice", "answered connection is unknown");
    if (srv.total > 1 && nw > 1) sim::nontrivial();
  }
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}

// shutdown_connection from any thread ends exactly the connection it names
SIM_SCENARIO_W("C20", close_named, 2) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  int nw = (int)sim::choose_range(1, 3), np = (int)sim::choose_range(2, 6);
  Srv srv; std::set<int> named;
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (sim::coin(6)) { { SIM_ATOMIC; named.insert(k->peer_port); } srv.s->shutdown_connection(k->ptr); } };
  srv.on_mcmd = [&](Packet* p) { int port; memcpy(&port, p->get_packet_content(), 4); SConn* k = srv.by_port(port); srv.s->shutdown_connection(k->ptr); };
  srv.on_wcmd = srv.on_mcmd ? std::function<void(int, Packet*)>([&](int, Packet* p) { srv.on_mcmd(p); }) : nullptr;
  SIM_CHECK(srv.start(nw) && srv.up(), "start-failed", "server");
  std::vector<int> ports((size_t)np, 0), th; std::vector<char> eof((size_t)np, 0), quit((size_t)np, 0); int up = 0; bool go = false;
  for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&, i]() {
    Raw r; SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "peer %d", r.err);
    sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l);
    { SIM_ATOMIC; ports[(size_t)i] = ntohs(a.sin_port); up++; }
    std::string b(100, 0);
    for (;;) {
      struct pollfd pf = {r.fd, POLLIN, 0};
      int n = ::poll(&pf, 1, 50);
      if (n > 0) { ssize_t m = ::recv(r.fd, &b[0], 100, 0); if (m == 0) { SIM_ATOMIC; eof[(size_t)i] = 1; break; } SIM_CHECK(m > 0 || errno == EINTR || errno == EAGAIN, "reset-instead-of-end", "error %d at the peer of a connection which was shut down", errno); }
      SIM_ATOMIC; if (go) break;
    }
    r.close(); SIM_ATOMIC; quit[(size_t)i] = 1;
  }));
  SIM_CHECK(sim::wait_until([&]() { return up == np && srv.total == np; }, 60000), "not-accepted", "%d of %d connections reported", srv.total, np);
  int n = (int)sim::choose_range(1, (uint32_t)np);
  std::vector<int> ts;
  for (int i = 0; i < n; i++) {
    int port = ports[sim::choose((uint32_t)np)]; { SIM_ATOMIC; named.insert(port); }
    int how = (int)sim::choose(4);
    if (how == 0) srv.s->send_master_message(20, 4, (const char*)&port);
    else if (how == 1) { Packet* q = Packet::alloc_packet(); q->build_from_memory(4, 20, 4, (const char*)&port); srv.s->send_work_message((int32_t)sim::choose((uint32_t)nw), q); Packet::free_packet(q); }
    else if (how == 2) srv.s->shutdown_connection(srv.by_port(port)->ptr);
    else ts.push_back(sim::spawn("closer", [&, port]() { TcpConnectionPtr c = srv.by_port(port)->ptr; srv.s->shutdown_connection(c); if (sim::coin(3)) srv.s->shutdown_connection(c); }));
  }
  for (int t : ts) sim::join(t);
  sim::calm();
  bool ok = sim::wait_until([&]() { for (int i = 0; i < np; i++) if (named.count(ports[(size_t)i]) && (!eof[(size_t)i] || !srv.by_port(ports[(size_t)i])->closed)) return false; return true; }, 60000);
  SIM_CHECK(ok, "close-missing", "a connection which was to be shut down is still open after 60 s");
  sim::sleep_us(500000);
  for (int i = 0; i < np; i++) { SConn* k = srv.by_port(ports[(size_t)i]); SIM_ATOMIC; SIM_CHECK(named.count(ports[(size_t)i]) ? k->closed == 1 : !k->closed && !eof[(size_t)i], "closed-wrong", "connection %d was %snamed but is %sclosed", k->id, named.count(ports[(size_t)i]) ? "" : "not ", k->closed ? "" : "not "); }
  { SIM_ATOMIC; go = true; if ((int)named.size() < np) sim::nontrivial(); }
  for (int t : th) sim::join(t);
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}

// the address of a server can be bound again: at once after a server with connections is gone, and (sharing) while it still runs
SIM_SCENARIO_W("C20", port_again, 2) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  bool share = sim::coin(2); int np = (int)sim::choose_range(1, 4), nports = (int)sim::choose_range(1, 3);
  auto ready = [](Srv& s) {
    s.on_conn = [](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; };
    s.consume = false;
    s.on_msg = [&s](SConn* k) { s.drain(k); while (k->tx.frames < k->rx.frames && k->ptr->get_state() == TcpConnection::kConnected) s.send(k, (uint32_t)k->peer_port, 9, sim::choose(60)); };
  };
  auto open = [nports](Raw& r, P& p) -> bool {
    if (!r.connect((uint16_t)(5000 + sim::choose((uint32_t)nports)), 1)) return false;
    sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l); p.myport = ntohs(a.sin_port); p.rx.stream = (uint32_t)p.myport;
    return true;
  };
  auto turn = [](Raw& r, P& p) -> bool {   // one request and its answer
    if (!r.send(frame((uint32_t)p.myport, 0, p.sent, sim::choose(100)))) return false;
    p.sent++;
    while (p.rx.frames < p.sent) if (r.recv(p.rx, 4096) <= 0) return false;
    return true;
  };
  Srv a; ready(a);
  SIM_CHECK(a.start((int)sim::choose_range(1, 3), nports) && a.up(), "start-failed", "first server");
  std::vector<Raw> rs((size_t)np); std::vector<P> ps((size_t)np); int up = 0, done = 0; bool go = false; std::vector<int> th;
  for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&, i]() {
    Raw& r = rs[(size_t)i]; P& p = ps[(size_t)i];
    SIM_CHECK(open(r, p) && turn(r, p), "not-accepted", "a peer of the first server is not served (%d)", r.err);
    { SIM_ATOMIC; up++; }
    sim::wait_until([&]() { return go; }, 600000);
    // the server ends first, or the peer does
    if (sim::coin(3)) r.close();
    else { while (r.recv(p.rx, 4096) > 0) {} r.close(); }
    SIM_ATOMIC; done++;
  }));
  SIM_CHECK(sim::wait_until([&]() { return up == np; }, 60000), "not-accepted", "%d of %d peers are served", up, np);
  Srv b; ready(b); b.nw = (int)sim::choose_range(1, 3); b.wtid.resize((size_t)b.nw); b.wstarted.assign((size_t)b.nw, 0); b.wloop.assign((size_t)b.nw, nullptr); b.setup();
  auto bind_b = [&](const char* when) {
    for (int i = 0; i < nports; i++) {
      SIM_CHECK(b.s->bind(Address((uint16_t)(5000 + i), true)), "start-failed", "port %d cannot be bound again %s", 5000 + i, when);
      b.ports.push_back((uint16_t)(5000 + i));
    }
    SIM_CHECK(b.s->start(b.nw) && b.up(), "start-failed", "second server");
  };
  int served = 0;
  auto newcomers = [&](int n, bool only_b) {
    for (int i = 0; i < n; i++) {
      Raw r; P p; int ok = -1;
      int t = sim::spawn("newcomer", [&]() { bool x = open(r, p) && turn(r, p); SIM_ATOMIC; ok = x; });
      SIM_CHECK(sim::wait_until([&]() { return ok >= 0; }, 60000) && ok, "not-accepted", "a new connection is not served (%d)", r.err);
      sim::join(t);
      bool ia = a.by_port(p.myport) != nullptr, ib = b.by_port(p.myport) != nullptr;
      SIM_CHECK(ia + ib == 1 && (ib || !only_b), "connected-twice", "a new connection is known to %d servers", ia + ib);
      { SIM_ATOMIC; served++; }
      r.close();
    }
  };
  auto end_a = [&](bool gone) { { SIM_ATOMIC; go = true; } a.stop_join(); if (gone) { a.check_all_closed(); a.destroy(); } };
  if (share) {
    SIM_CHECK(!b.s->bind(Address((uint16_t)(5000 + sim::choose((uint32_t)nports)), true), false), "start-failed", "the port of a running server can be bound without sharing");
    bind_b("while the first server runs");
    sim::calm();
    newcomers((int)sim::choose_range(1, 4), false);
    end_a(sim::coin(2));
  } else {
    end_a(sim::coin(2));
    sim::calm();
    bind_b("after its server has stopped");
  }
  newcomers((int)sim::choose_range(1, 3), true);
  SIM_CHECK(sim::wait_until([&]() { return done == np; }, 60000), "close-missing", "peers of the first server see no end");
  for (int t : th) sim::join(t);
  for (int i = 0; i < nports; i++) SIM_CHECK(b.s->get_bind_address((size_t)i).get_port() == 5000 + i, "wrong-address", "bind address of the second server");
  sim::nontrivial();
  if (a.s) { a.check_all_closed(); a.destroy(); }
  b.stop_join(); b.check_all_closed(); b.destroy(); check_fds();
}
