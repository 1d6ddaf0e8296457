// C11: stop + join of a server always ends, closes every connection exactly once, and releases the ports.
#include "common_net.h"
using namespace scn;

SIM_SCENARIO_W("C11", stop_any_time, 6) {
  allow_net_timing(); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL);
  pick_sndbuf();
  int np = (int)sim::choose(6), nports = (int)sim::choose_range(1, 2);
  int stopper = (int)sim::choose(4);    // who stops: 0 main thread, 1 two threads, 2 master thread command, 3 at once after start
  bool listen_stop = sim::coin(4);
  Srv srv;
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (!k->peer_port) srv.consume = false; if (sim::coin(3)) srv.send(k, 4u, 0, frame_len()); if (sim::coin(8)) k->ptr->shutdown(); };
  srv.on_msg = [&](SConn* k) { if (k->tx.frames < 8 && sim::coin(2) && k->ptr->get_state() == TcpConnection::kConnected) srv.send(k, 4u, 0, frame_len()); };
  srv.on_mcmd = [&](Packet*) { srv.s->stop(); };
  int nw = (int)sim::choose_range(1, 3);
  SIM_CHECK(srv.start(nw, nports), "start-failed", "server");
  if (stopper != 3) SIM_CHECK(srv.up(), "start-failed", "server");
  bool stopped = false; int ended = 0, connected = 0; 
  std::vector<int> th;
  for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&]() {
    Raw r; std::string junk(8192, 0);
    if (sim::coin(2)) sim::sleep_us(sim::choose(8000));
    if (r.connect(srv.ports[sim::choose((uint32_t)nports)], 1)) {
      { SIM_ATOMIC; connected++; }
      sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l);
      int port = ntohs(a.sin_port); bool open = true;
      for (int j = 0, m = (int)sim::choose(4); j < m && open; j++) { open = r.send(frame((uint32_t)port, 0, j, std::min<uint32_t>(frame_len(), 2000))); if (sim::coin(2)) sim::sleep_us(sim::choose(5000)); }
      // read until the server ends the connection
      while (open) { ssize_t n = ::recv(r.fd, &junk[0], junk.size(), 0); if (n == 0 || (n < 0 && errno != EINTR)) break; }
      r.close();
    }
    SIM_ATOMIC; ended++;
  }));
  if (stopper != 3 && np && sim::coin(2)) sim::wait_until([&]() { return srv.total > 0; }, 500);
  if (stopper != 3 && !sim::coin(3)) sim::sleep_us(sim::choose(30000));
  if (listen_stop) srv.s->stop_listen(sim::choose((uint32_t)nports));
  int t2 = -1;
  if (stopper == 2) { char b = 0; srv.s->send_master_message((uint16_t)(10 + sim::choose(3)), 1, &b); SIM_CHECK(sim::wait_until([&]() { return true; }, 1), "x", "x"); }
  else if (stopper == 1) { t2 = sim::spawn("stopper", [&]() { srv.s->stop(); if (sim::coin(2)) srv.s->stop(); }); srv.s->stop(); }
  else srv.s->stop();
  if (t2 >= 0) sim::join(t2);
  if (sim::coin(2)) sim::calm();
  bool joined = false;
  int j = sim::spawn("joiner", [&]() { srv.s->join(); SIM_ATOMIC; joined = true; srv.joined = true; });
  if (!sim::calmed()) { sim::sleep_us(sim::choose(200000)); sim::calm(); }
  bool ok = sim::wait_until([&]() { return joined; }, 120000);
  SIM_CHECK(ok, "join-hangs", "join has not returned 120 s after stop (%d of %d connections without close callback)", srv.live, srv.total);
  sim::join(j);
  srv.check_all_closed();
  // no peer is left connected
  ok = sim::wait_until([&]() { return ended == np; }, 60000);
  SIM_CHECK(ok, "peer-stuck", "%d peers still see an open connection after join", np - ended);
  for (int t : th) sim::join(t);
  { SIM_ATOMIC; if (srv.total) sim::nontrivial(); sim::probe("connections open at stop", (sim::u64)srv.total); stopped = true; (void)stopped; }
  // the ports are free: connecting fails, a new server can take them
  for (int i = 0; i < nports; i++) { Raw r; SIM_CHECK(!r.connect(srv.ports[i], 1), "still-listening", "port %d accepts connections after join", srv.ports[i]); }
  SIM_CHECK(sim::open_fds_kind('l') == 0, "still-listening", "%d listening sockets after join", sim::open_fds_kind('l'));
  srv.destroy();
  if (sim::coin(3)) {
    Srv again; SIM_CHECK(again.start(1, nports) && again.up(), "port-kept", "a new server cannot use the ports");
    again.on_conn = [&](SConn* k) { k->rx.stream = 1; };
    Raw r; SIM_CHECK(r.connect(again.ports[0], 1), "port-kept", "a new server does not accept: %d", r.err);
    r.close(); again.stop_join(); again.check_all_closed(); again.destroy();
  }
  check_fds();
}

// a stop from a worker thread is refused: the server goes on serving, and a stop from elsewhere still ends it
SIM_SCENARIO_W("C11", refused_stop, 1) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  int nw = (int)sim::choose_range(1, 3), np = (int)sim::choose_range(1, 3), where = (int)sim::choose(5), refused = 0;
  Srv srv;
  auto refuse = [&](int w) { if (w != where && sim::coin(2)) return; srv.s->stop(); SIM_ATOMIC; refused++; };
  srv.on_wstart = [&](int, Looper*) { refuse(0); };
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; refuse(1); };
  srv.consume = false;
  srv.on_msg = [&](SConn* k) { refuse(2); srv.drain(k); while (k->tx.frames < k->rx.frames && k->ptr->get_state() == TcpConnection::kConnected) srv.send(k, (uint32_t)k->peer_port, 9, 5); };
  srv.on_cls = [&](SConn*) { refuse(3); };
  srv.on_wcmd = [&](int, Packet*) { refuse(4); };
  SIM_CHECK(srv.start(nw, 1), "start-failed", "server");
  bool early = sim::coin(4);
  if (!early) {
    SIM_CHECK(srv.up(), "start-failed", "server");
    for (int i = 0; i < np; i++) {
      Packet* q = Packet::alloc_packet(); q->build_from_memory(4, 77, 0, nullptr); srv.s->send_work_message((int32_t)sim::choose((uint32_t)nw), q); Packet::free_packet(q);
      Raw r; SIM_CHECK(r.connect(srv.ports[0], 3), "stopped-by-refused", "the server does not accept after a refused stop: %d", r.err);
      sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l);
      FrameRx rx((uint32_t)ntohs(a.sin_port), "peer"); bool got = false, dead = false;
      int t = sim::spawn("peer", [&]() { if (!r.send(frame(rx.stream, 0, 0, 20))) dead = true; while (!dead && !rx.frames) if (r.recv(rx, 512) <= 0) dead = true; SIM_ATOMIC; got = rx.frames > 0; if (dead) got = false; });
      sim::wait_until([&]() { return got || dead; }, 60000);
      SIM_CHECK(got && !dead, "stopped-by-refused", "the server does not serve a connection after a refused stop");
      sim::join(t); r.close();
    }
    if (sim::coin(2)) SIM_CHECK(sim::wait_until([&]() { return srv.live == 0; }, 60000), "close-missing", "connections stay open");
  }
  bool joined = false, told = false;
  // (a worker of another server is not a worker of this one)
  TcpServer* other = sim::coin(3) ? new TcpServer() : nullptr;
  if (other) {
    other->m_listener.on_work_thread_command = [&](TcpServer*, int32_t, Packet*) { srv.s->stop(); SIM_ATOMIC; told = true; };
    SIM_CHECK(other->bind(Address((uint16_t)5100, true)) && other->start(1), "start-failed", "second server");
  }
  int j = sim::spawn("joiner", [&]() {
    if (other) { Packet* q = Packet::alloc_packet(); q->build_from_memory(4, 77, 0, nullptr); other->send_work_message(0, q); Packet::free_packet(q); sim::wait_until([&]() { return told; }, 60000); }
    else srv.s->stop();
    srv.s->join(); SIM_ATOMIC; joined = true; srv.joined = true; });
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return joined; }, 120000), "join-hangs", "join has not returned 120 s after stop%s (%d stops from workers were refused before)", other ? " by a worker of another server" : "", refused);
  sim::join(j); srv.check_all_closed(); srv.destroy();
  if (other) { other->stop(); other->join(); delete other; }
  check_fds();
  if (refused) sim::nontrivial();
}

// Every callback of the listener is optional: whatever is not set, the rest of the server does its work.
SIM_SCENARIO_W("C11", callbacks_unset, 2) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_PEER_CLOSE);
  int nw = (int)sim::choose_range(1, 3), np = (int)sim::choose_range(0, 4), conn = 0, clo = 0, got = 0, wc = 0, mc = 0, ms = 0, ws = 0, wsent = 0, msent = 0, sent = 0;
  bool h[7]; for (bool& x : h) x = sim::coin(2);
  TcpServer* s = new TcpServer(); int stopped = 0;
  if (h[0]) s->m_listener.on_master_thread_start = [&](TcpServer* sv, Looper*) { SIM_ATOMIC; SIM_CHECK(sv == s, "wrong-object", "server"); ms++; };
  if (h[1]) s->m_listener.on_work_thread_start = [&](TcpServer*, int32_t, Looper*) { SIM_ATOMIC; ws++; };
  if (h[2]) s->m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { { SIM_ATOMIC; conn++; } if (sim::coin(2)) c->send("hello", 5); if (sim::coin(5)) c->shutdown(); };
  if (h[3]) s->m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr c) { { SIM_ATOMIC; got += (int)c->get_input_buf().size(); } c->get_input_buf().reset(); if (sim::coin(5)) c->shutdown(); };
  if (h[4]) s->m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { SIM_ATOMIC; clo++; };
  if (h[5]) s->m_listener.on_work_thread_command = [&](TcpServer*, int32_t, Packet* p) { SIM_ATOMIC; SIM_CHECK(p->get_packet_size() == 3, "message-corrupt", "command"); wc++; };
  if (h[6]) s->m_listener.on_master_thread_command = [&](TcpServer*, Packet*) { SIM_ATOMIC; mc++; };
  SIM_CHECK(s->bind(Address((uint16_t)5000, true)) && s->start(nw), "start-failed", "server");
  if (sim::coin(2)) sim::sleep_us(sim::choose(2000));
  std::vector<int> th; int linked = 0;
  for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&]() {
    Raw p; if (!p.connect(5000, 4)) return;
    { SIM_ATOMIC; linked++; }
    for (uint32_t k = sim::choose(4); k; k--) { std::string b(1 + sim::choose(500), (char)109); { SIM_ATOMIC; sent += (int)b.size(); } if (!p.send(b)) break; }
    if (sim::coin(3)) { char x[64]; struct pollfd q = {p.fd, POLLIN, 0}; if (::poll(&q, 1, 20) > 0) { ssize_t n = ::recv(p.fd, x, sizeof x, 0); (void)n; } }
    if (sim::coin(5)) { sim::fault_count(sim::F_PEER_CLOSE); p.reset(); } else p.close();
  }));
  for (uint32_t k = sim::choose(5); k; k--) {
    Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 20, 3, "cmd");
    if (sim::coin(2)) { s->send_master_message(p); msent++; } else { s->send_work_message((int32_t)sim::choose((uint32_t)nw), p); wsent++; }
    Packet::free_packet(p);
  }
  bool wait = sim::coin(2);
  if (wait) for (int t : th) sim::join(t);
  if (sim::coin(2)) { sim::calm(); sim::sleep_us(200000); }
  s->stop();
  int j = sim::spawn("joiner", [&]() { s->join(); SIM_ATOMIC; stopped = 1; });
  if (!wait) { sim::sleep_us(sim::choose(5000)); sim::calm(); for (int t : th) sim::join(t); }
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return stopped; }, 60000), "join-hangs", "join has not returned 60 s after stop of a server without some callbacks");
  sim::join(j);
  { SIM_ATOMIC;
    if (h[0]) SIM_CHECK(ms == 1, "master-start", "master start callback called %d times", ms);
    if (h[1]) SIM_CHECK(ws == nw, "worker-start", "%d worker start callbacks of %d workers", ws, nw);
    if (h[2] && h[4]) SIM_CHECK(conn == clo, "close-missing", "%d connected, %d closed", conn, clo);
    if (h[5]) SIM_CHECK(wc == wsent, "message-lost", "%d of %d commands handled", wc, wsent);
    if (h[6]) SIM_CHECK(mc == msent, "message-lost", "%d of %d master commands handled", mc, msent);
    SIM_CHECK(got <= sent, "stream-duplicate", "%d bytes received of %d", got, sent); }
  delete s;
  sim::nontrivial();
  check_fds();
}

// The calls around a server's life in any order: what cannot be done is refused and changes nothing, stop and join
// return at once when there is nothing to stop.
SIM_SCENARIO_W("C11", odd_calls, 1) {
  allow_net_timing();
  Srv srv; int nw = (int)sim::choose_range(1, 3), nport = 0, cmds = 0, seen = 0; bool run = !sim::coin(3);
  srv.nw = nw; srv.wtid.resize((size_t)nw); srv.wstarted.assign((size_t)nw, 0); srv.wloop.assign((size_t)nw, nullptr);
  srv.setup();
  srv.on_mcmd = [&](Packet* p) { SIM_ATOMIC; SIM_CHECK(p->get_packet_size() == 3 && !memcmp(p->get_packet_content(), "abc", 3), "message-corrupt", "early command"); seen++; };
  for (int i = 0, n = (int)sim::choose(8); i < n; i++) switch (sim::choose(6)) {
    case 0: srv.s->stop(); break;
    case 1: srv.s->join(); break;
    case 2: { static const int bad[] = {0, -1, 33, 1000000, -2147483647 - 1}; int k = bad[sim::choose(5)]; SIM_CHECK(!srv.s->start(k), "start-wrong", "start with %d workers succeeds", k); break; }
    case 3: if (nport < 3) { SIM_CHECK(srv.s->bind(Address((uint16_t)(5000 + nport), true), sim::coin(2)), "start-failed", "bind"); srv.ports.push_back((uint16_t)(5000 + nport)); nport++; } break;
    case 4: SIM_CHECK(!srv.s->bind(Address("192.0.2.77", 80), true), "start-wrong", "bind to an address of another machine succeeds"); break;
    default: { SIM_ATOMIC; cmds++; } srv.s->send_master_message(33, 3, "abc"); break;
  }
  SIM_CHECK(srv.s->get_work_thread_counts() == 0, "attributes", "%d workers before the start", srv.s->get_work_thread_counts());
  SIM_CHECK(!srv.master_started && !seen, "callback-before-start", "callbacks before the start");
  if (run) {
    SIM_CHECK(srv.s->start(nw), "start-failed", "start with %d workers and %d ports", nw, nport);
    if (sim::coin(2)) { SIM_CHECK(!srv.s->start(1 + (int)sim::choose(3)), "start-wrong", "a second start succeeds"); }
    if (sim::coin(2)) { SIM_CHECK(!srv.s->bind(Address((uint16_t)6000, true)), "start-wrong", "bind of a running server succeeds"); }
    SIM_CHECK(srv.s->get_work_thread_counts() == nw, "attributes", "%d workers instead of %d", srv.s->get_work_thread_counts(), nw);
    if (!sim::coin(3)) {
      SIM_CHECK(srv.up(), "start-failed", "server");
      for (int i = 0; i < nport; i++) { Raw r; SIM_CHECK(r.connect(srv.ports[(size_t)i], 3), "connect-failed", "port %d: %d", srv.ports[(size_t)i], r.err); r.close(); }
      SIM_CHECK(sim::wait_until([&]() { return srv.total == nport && srv.live == 0 && seen == cmds; }, 60000), "command-lost", "%d connections, %d open, %d of %d commands", srv.total, srv.live, seen, cmds);
      sim::nontrivial();
    }
    for (int i = 0, n = 1 + (int)sim::choose(3); i < n; i++) srv.s->stop();
    if (sim::coin(3)) SIM_CHECK(!srv.s->start(1), "start-wrong", "start while stopping succeeds");
    sim::calm();
    srv.join_only(60000);
    SIM_CHECK(seen <= cmds, "message-duplicate", "%d early commands of %d handled", seen, cmds);
  }
  for (int i = 0, n = (int)sim::choose(4); i < n; i++) { if (sim::coin(2)) srv.s->stop(); else srv.s->join(); }
  srv.check_all_closed(); srv.destroy();
  SIM_CHECK(sim::open_fds_kind('l') == 0, "still-listening", "%d listening sockets", sim::open_fds_kind('l'));
  check_fds();
}

// a great number of connections at once: each is served, ended and reported like a single one
SIM_SCENARIO_W("C11", crowd, 1) {
  allow_net_timing(); if (sim::coin(2)) sim::allow(sim::F_THREAD_STALL);
  static const int sizes[] = {30, 80, 150, 280};
  int n = 2 + (int)sim::choose((uint32_t)sizes[sim::coin(8) ? sim::choose(4) : sim::choose(2)]), nw = (int)sim::choose_range(1, 3);
  Srv srv; srv.consume = false; int answered = 0;
  bool by_server = sim::coin(2);
  srv.on_msg = [&](SConn* k) {
    RingBuf& rb = k->ptr->get_input_buf(); char b[16]; size_t m = rb.memcpy_out(b, sizeof b);
    { SIM_ATOMIC; answered++; }
    if (b[0] == 'e') k->ptr->send(b, m);
    else if (by_server) srv.s->shutdown_connection(k->ptr); else k->ptr->shutdown();
  };
  SIM_CHECK(srv.start(nw, 1) && srv.up(), "start-failed", "server");
  std::vector<int> fds((size_t)n, -1); std::vector<char> gone((size_t)n, 0);
  for (int& fd : fds) { Raw r; SIM_CHECK(r.connect(srv.ports[0], 200), "not-accepted", "the server does not accept with %d connections open", srv.live); fd = r.fd; r.fd = -1; if (sim::coin(20)) sim::sleep_us(sim::choose(2000)); }
  SIM_CHECK(sim::wait_until([&]() { return srv.total == n; }, 600000), "not-connected", "%d of %d connections were reported", srv.total, n);
  int leaving = (int)sim::choose(4), left = 0, asked = 0;
  for (int i = 0; i < n; i++) {
    char b = 0;
    if (leaving && sim::choose(4) < (uint32_t)leaving) { if (sim::coin(2)) { b = 'q'; SIM_CHECK(::send(fds[i], &b, 1, MSG_NOSIGNAL) == 1, "connection-lost", "connection %d of %d", i, n); asked++; } else { ::shutdown(fds[i], SHUT_WR); } gone[i] = 1; left++; }
    else if (sim::coin(3)) { b = 'e'; SIM_CHECK(::send(fds[i], &b, 1, MSG_NOSIGNAL) == 1, "connection-lost", "connection %d of %d", i, n); asked++; gone[i] = 2; }
  }
  bool early = sim::coin(3);    // the server is stopped while they leave
  if (!early) {
    for (int i = 0; i < n; i++) if (gone[i]) {
      char b = 0; ssize_t m; do m = ::recv(fds[i], &b, 1, 0); while (m < 0 && errno == EINTR);
      if (gone[i] == 1) SIM_CHECK(m == 0, "peer-stuck", "connection %d of %d should have ended: recv %d", i, n, (int)m);
      else SIM_CHECK(m == 1 && b == 'e', "connection-lost", "connection %d of %d was not answered: recv %d", i, n, (int)m);
    }
    for (int i = 0; i < n; i++) if (gone[i] == 1) { ::close(fds[i]); fds[i] = -1; }
    SIM_CHECK(sim::wait_until([&]() { return srv.live == n - left; }, 60000), "not-closed", "%d connections are open, %d of %d peers have left", srv.live, left, n);
    SIM_CHECK(answered == asked, "message-lost", "%d of %d messages were seen", answered, asked);
  }
  bool joined = false;
  srv.s->stop();
  int j = sim::spawn("joiner", [&]() { srv.s->join(); SIM_ATOMIC; joined = true; srv.joined = true; });
  if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
  sim::calm();
  for (int i = 0; i < n; i++) if (fds[i] >= 0) { char b[16]; ssize_t m; do m = ::recv(fds[i], b, sizeof b, 0); while (m > 0 || (m < 0 && errno == EINTR)); ::close(fds[i]); }
  SIM_CHECK(sim::wait_until([&]() { return joined; }, 120000), "join-hangs", "join has not returned 120 s after stop (%d of %d connections without close callback)", srv.live, srv.total);
  sim::join(j);
  srv.check_all_closed();
  srv.destroy();
  check_fds();
  sim::nontrivial();
}
