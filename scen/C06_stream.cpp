// C06: TCP byte streams are complete, ordered and unmodified in both directions under every segmentation
// and transient condition, and transient conditions never close a connection.
#include "common_net.h"
using namespace scn;

// A server and raw peers; both sides stream framed messages at once.
SIM_SCENARIO_W("C06", server_streams, 5) {
  allow_net_timing();
  pick_sndbuf();
  int nw = (int)sim::choose_range(1, 2), nc = (int)sim::choose_range(1, 3);
  Srv srv;
  bool greet = sim::coin(2);
  uint32_t reply_every = sim::choose(4);
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (greet) for (uint32_t n = 1 + sim::choose(3); n; n--) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); };
  srv.on_msg = [&](SConn* k) { if (reply_every && k->tx.frames < 12 && k->msgs % reply_every == 0) for (uint32_t n = 1 + sim::choose(2); n; n--) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); };
  srv.on_cls = [&](SConn* k) { srv.drain(k); };
  SIM_CHECK(srv.start(nw), "start-failed", "server start failed");
  SIM_CHECK(srv.up(), "start-failed", "server threads not started");
  struct C { Raw r; int port; FrameRx rx; uint64_t sent; int frames; bool wdone, bad; C() : port(0), rx(0, "peer"), sent(0), frames(0), wdone(false), bad(false) {} };
  std::vector<C*> cs; std::vector<int> ths;
  for (int i = 0; i < nc; i++) {
    C* c = new C(); cs.push_back(c);
    SIM_CHECK(c->r.connect(srv.ports[0], 3), "connect-failed", "cannot connect: %d", c->r.err);
    sockaddr_in a; socklen_t l = sizeof a; getsockname(c->r.fd, (sockaddr*)&a, &l); c->port = ntohs(a.sin_port);
    c->rx.stream = 100000u + (uint32_t)c->port;
    int nm = (int)sim::choose_range(1, 6);
    ths.push_back(sim::spawn("peer-w", [c, nm]() {
      for (int j = 0; j < nm; j++) { std::string f = frame((uint32_t)c->port, 0, j, frame_len()); if (!c->r.send(f)) { c->bad = true; break; } { SIM_ATOMIC; c->sent += f.size(); c->frames++; } if (sim::coin(3)) sim::sleep_us(sim::choose(3000)); }
      SIM_ATOMIC; c->wdone = true;
    }));
    ths.push_back(sim::spawn("peer-r", [c]() { for (;;) { if (sim::coin(5)) sim::sleep_us(sim::choose(5000)); int r = c->r.recv(c->rx, 1 + sim::choose(20000)); if (r <= 0) { if (r < 0) c->bad = true; return; } } }));
  }
  sim::sleep_us(sim::choose(60000));
  sim::calm();
  bool ok = sim::wait_until([&]() {
    for (C* c : cs) { if (c->bad) return true; if (!c->wdone) return false; SConn* k = srv.by_port(c->port); if (!k || srv.offered(k) != c->sent || c->rx.bytes != k->tx.bytes) return false; }
    return true; }, 120000);
  {
    SIM_ATOMIC;
    for (C* c : cs) {
      SConn* k = srv.by_port(c->port);
      SIM_CHECK(k, "connection-missing", "connection of port %d was never reported", c->port);
      SIM_CHECK(!k->closed && !c->r.eof && !c->bad, "closed-by-transient", "connection %d was closed although neither side closed it (peer saw end=%d errno=%d)", k->id, c->r.eof, c->r.err);
      SIM_CHECK(srv.offered(k) == c->sent, "stream-lost", "peer sent %llu bytes, server received %llu", (unsigned long long)c->sent, (unsigned long long)srv.offered(k));
      SIM_CHECK(c->rx.bytes == k->tx.bytes, "stream-lost", "server sent %llu bytes, peer received %llu", (unsigned long long)k->tx.bytes, (unsigned long long)c->rx.bytes);
      if (c->sent && k->tx.bytes) sim::nontrivial();
      sim::probe("bytes checked", c->sent + k->tx.bytes);
    }
    SIM_CHECK(ok, "stuck", "streams not complete");
  }
  for (C* c : cs) ::shutdown(c->r.fd, SHUT_RDWR);
  for (int t : ths) sim::join(t);
  for (C* c : cs) c->r.close();
  srv.stop_join();
  srv.check_all_closed();
  srv.destroy();
  for (C* c : cs) delete c;
  check_fds();
}

// Library client and library server, both directions, also through the client's cache before the connection is made.
SIM_SCENARIO_W("C06", client_server, 4) {
  allow_net_timing();
  pick_sndbuf();
  int nc = (int)sim::choose_range(1, 2);
  Srv srv;
  uint32_t reply_every = sim::choose(3);
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (sim::coin(2)) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); };
  srv.on_msg = [&](SConn* k) { if (reply_every && k->tx.frames < 10 && k->msgs % reply_every == 0) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 2)), "start-failed", "server start failed");
  SIM_CHECK(srv.up(), "start-failed", "server threads not started");
  std::vector<Cli*> cs;
  for (int i = 0; i < nc; i++) {
    Cli* c = new Cli(i); cs.push_back(c);
    int quota = (int)sim::choose_range(1, 6), burst = 1 + (int)sim::choose(3);
    int cached = (int)sim::choose(4);
    c->on_start = [c, cached, &srv](Cli*) {
      c->connect_ret = c->c->connect(Address("127.0.0.1", srv.ports[0]));
      SIM_CHECK(c->connect_ret, "connect-failed", "connect");
      sockaddr_in a; socklen_t l = sizeof a; (void)l; (void)a;
      for (int j = 0; j < cached; j++) c->send(7u, 0, frame_len());
    };
    c->on_ok = [c, burst, quota](Cli*) { c->rx.stream = 100000u + c->conn->get_local_addr().get_port(); for (int j = 0; j < burst && c->tx.frames < quota; j++) c->send(7u, 0, frame_len()); };
    c->on_msg = [c, quota](Cli*) { if (c->tx.frames < quota) c->send(7u, 0, frame_len()); };
  }
  srv.on_conn = [&](SConn* k) { k->rx.stream = 7u; if (sim::coin(2)) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); };
  for (Cli* c : cs) c->start(srv.ports[0]);
  sim::sleep_us(sim::choose(60000));
  sim::calm();
  auto peer = [&](Cli* c) -> SConn* { return c->conn ? srv.by_port(c->conn->get_local_addr().get_port()) : nullptr; };
  bool ok = sim::wait_until([&]() {
    for (Cli* c : cs) { if (!c->was_ok) return false; SConn* k = peer(c); if (!k || srv.offered(k) != c->tx.bytes || c->rx.bytes != k->tx.bytes) return false; }
    return true; }, 120000);
  {
    SIM_ATOMIC;
    for (Cli* c : cs) {
      SIM_CHECK(c->was_ok, "connect-failed", "client %d is not connected (%d failures)", c->id, c->fails);
      SConn* k = peer(c);
      SIM_CHECK(k && !k->closed && !c->closed, "closed-by-transient", "the connection of client %d was closed although neither side closed it", c->id);
      SIM_CHECK(srv.offered(k) == c->tx.bytes, "stream-lost", "client sent %llu bytes, server received %llu", (unsigned long long)c->tx.bytes, (unsigned long long)srv.offered(k));
      SIM_CHECK(c->rx.bytes == k->tx.bytes, "stream-lost", "server sent %llu bytes, client received %llu", (unsigned long long)k->tx.bytes, (unsigned long long)c->rx.bytes);
      sim::probe("bytes checked", c->tx.bytes + k->tx.bytes);
      if (c->tx.bytes && k->tx.bytes) sim::nontrivial();
    }
    SIM_CHECK(ok, "stuck", "streams not complete");
  }
  for (Cli* c : cs) c->stop();
  srv.stop_join();
  srv.check_all_closed();
  srv.destroy();
  for (Cli* c : cs) delete c;
  check_fds();
}

// A peer that ends its own direction and goes on reading still gets every reply which was accepted before the end was seen.
SIM_SCENARIO_W("C06", half_closed_peer, 2) {
  allow_net_timing();
  pick_sndbuf();
  bool client = sim::coin(3), slow = sim::coin(2);
  int nm = (int)sim::choose_range(1, 4), per = (int)sim::choose_range(1, 3);
  Srv srv; Cli c(1); Raw r; FrameRx rx(8u, "peer"); SConn* k = nullptr; int l = -1;
  if (client) {
    l = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(6000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    SIM_CHECK(::bind(l, (sockaddr*)&a, sizeof a) == 0 && ::listen(l, 16) == 0, "start-failed", "listen");
    c.rx.stream = 3;
    c.on_msg = [&](Cli*) { int seen = c.rx.frames; while (c.tx.frames < seen * per) c.send(8u, 0, std::min<uint32_t>(frame_len(), 20000)); };
    c.start(6000);
    int fd; do fd = ::accept(l, nullptr, nullptr); while (fd < 0 && errno == EINTR);
    SIM_CHECK(fd >= 0, "connect-failed", "accept"); r.fd = fd;
  } else {
    srv.consume = false;
    srv.on_conn = [&](SConn* s) { s->rx.stream = 3; SIM_ATOMIC; k = s; };
    srv.on_msg = [&](SConn* s) { srv.drain(s); while (s->tx.frames < s->rx.frames * per) srv.send(s, 8u, 0, frame_len()); };
    SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
    SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "connect");
  }
  bool done = false, reading = !slow; uint64_t sent = 0;
  int rt = sim::spawn("peer-r", [&]() { sim::wait_until([&]() { return reading; }, 600000); for (;;) { if (sim::coin(4)) sim::sleep_us(sim::choose(20000)); if (r.recv(rx, 1 + sim::choose(9000)) <= 0) { SIM_ATOMIC; done = true; return; } } });
  for (int i = 0; i < nm; i++) { std::string f = frame(3, 0, i, sim::choose(300)); sent += f.size(); SIM_CHECK(r.send(f), "closed-by-transient", "the peer cannot send: %d", r.err); if (sim::coin(3)) sim::sleep_us(sim::choose(3000)); }
  ::shutdown(r.fd, SHUT_WR);
  if (slow) { sim::sleep_us(sim::choose(60000)); SIM_ATOMIC; reading = true; }
  sim::calm();
  bool ok = sim::wait_until([&]() { return done; }, 120000);
  {
    SIM_ATOMIC; uint64_t out = client ? c.tx.bytes : k ? k->tx.bytes : 0, in = client ? c.rx.bytes : k ? k->rx.bytes : 0;
    SIM_CHECK(ok, "stuck", "the peer has ended its direction and never sees the end of the stream (%llu of %llu bytes arrived)", (unsigned long long)rx.bytes, (unsigned long long)out);
    SIM_CHECK(in == sent, "stream-lost", "the peer sent %llu bytes, %llu were offered", (unsigned long long)sent, (unsigned long long)in);
    SIM_CHECK(r.eof && rx.bytes == out, "stream-lost", "%llu bytes were accepted before the end of the peer's direction was read, %llu arrived, then %s (errno %d)", (unsigned long long)out, (unsigned long long)rx.bytes, r.eof ? "the end" : "an error", r.err);
    if (out) sim::nontrivial();
    sim::probe("bytes checked", out + in);
  }
  SIM_CHECK(sim::wait_until([&]() { return client ? c.closed == 1 : k->closed == 1; }, 60000), "close-missing", "no close callback");
  sim::join(rt); r.close(); if (l >= 0) ::close(l);
  if (client) c.stop();
  else { srv.stop_join(); srv.check_all_closed(); }
  srv.destroy();
  check_fds();
}

// What a peer sends while a graceful shutdown waits for it to read is offered like all other input.
SIM_SCENARIO_W("C06", input_while_closing, 1) {
  allow_net_timing();
  pick_sndbuf();
  Srv srv; SConn* k = nullptr; srv.consume = sim::coin(2);
  srv.on_conn = [&](SConn* s) { s->rx.stream = 3; for (int i = 0; i < 40 && s->tx.bytes < sim::sndbuf() * 3ull; i++) srv.send(s, 8u, 0, sim::sndbuf() / 2); s->ptr->shutdown(); SIM_ATOMIC; k = s; };
  srv.on_msg = [&](SConn* s) { srv.drain(s); };
  SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
  Raw r; FrameRx rx(8u, "peer");
  SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "connect");
  SIM_CHECK(sim::wait_until([&]() { return k && !k->in_cb; }, 60000), "connection-missing", "connection not reported");
  sim::sleep_us(2000000);
  uint64_t sent = 0; int nm = (int)sim::choose_range(1, 5);
  if (k->ptr->get_state() == TcpConnection::kDisconnecting) {
    for (int i = 0; i < nm; i++) { std::string f = frame(3, 0, i, sim::choose(300)); sent += f.size(); SIM_CHECK(r.send(f), "closed-by-transient", "the peer cannot send: %d", r.err); if (sim::coin(3)) sim::sleep_us(sim::choose(3000)); }
    if (sim::coin(2)) { sim::calm(); SIM_CHECK(sim::wait_until([&]() { return k->rx.bytes == sent; }, 60000), "stream-lost", "the peer sent %llu bytes to a connection which is closing, %llu were offered", (unsigned long long)sent, (unsigned long long)k->rx.bytes); }
    sim::nontrivial();
  }
  sim::calm();
  while (r.recv(rx, 9000) > 0) {}
  SIM_CHECK(sim::wait_until([&]() { return k->closed == 1; }, 60000), "close-missing", "no close callback after the shutdown");
  { SIM_ATOMIC; SIM_CHECK(!r.eof || rx.bytes == k->tx.bytes, "stream-lost", "%llu bytes were accepted before the shutdown, %llu arrived", (unsigned long long)k->tx.bytes, (unsigned long long)rx.bytes); }
  r.close(); srv.stop_join(); srv.check_all_closed(); srv.destroy();
  check_fds();
}
