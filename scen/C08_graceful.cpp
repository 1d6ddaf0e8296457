// C08: a graceful shutdown first delivers everything that was accepted for sending, then the peer sees a clean end of stream.
#include "common_net.h"
using namespace scn;

// Server side: the connection is shut down by its own worker, by another thread, by the stop of the server or by a command.
SIM_SCENARIO_W("C08", server_shutdown, 6) {
  allow_net_timing();
  pick_sndbuf();
  int how = (int)sim::choose(5);          // 0 in the message callback, 1 shutdown_connection by another thread, 2 server stop, 3 worker command, 4 in the connected callback
  int before = (int)sim::choose(5), nt = how == 4 ? 0 : (int)sim::choose(3);
  Srv srv;
  SConn* k = nullptr; std::map<int, int> must; bool asked = false; bool more = sim::coin(3);
  // requests repeated while the first is being carried out, and a peer that ends its own direction meanwhile, change nothing
  int again = sim::coin(2) ? (int)sim::choose(3) : 0, repeats = sim::coin(2) ? (int)sim::choose(4) : 0; bool half = sim::coin(3), hold = sim::coin(2), stopped = false, reading = !hold;
  auto once_more = [&]() { for (int i = 0; i < again; i++) { if (sim::coin(2)) k->ptr->shutdown(); else srv.s->shutdown_connection(k->ptr); sim::probe("request repeated"); } };
  auto ask = [&]() { SIM_ATOMIC; must = k->tx.next; for (auto& m : must) if (m.first) m.second = 0; asked = true; };   // only the caller's own messages are surely before the request
  srv.on_conn = [&](SConn* c) {
    c->rx.stream = 3;
    if (how == 4) { { SIM_ATOMIC; k = c; } for (int i = 0; i < before; i++) srv.send(c, 6u, 0, frame_len()); ask(); c->ptr->shutdown(); once_more(); return; }
    SIM_ATOMIC; k = c;
  };
  srv.on_msg = [&](SConn* c) {
    srv.drain(c);
    if (how != 0 || asked || c->rx.frames < 1) return;
    for (int i = 0; i < before; i++) srv.send(c, 6u, 0, frame_len());
    ask();
    if (sim::coin(2)) c->ptr->shutdown(); else srv.s->shutdown_connection(c->ptr);
    once_more();
    if (more) srv.send(c, 6u, 0, 20);
  };
  srv.on_wcmd = [&](int, Packet*) { for (int i = 0; i < before; i++) srv.send(k, 6u, 0, frame_len()); ask(); k->ptr->shutdown(); once_more(); };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 2)) && srv.up(), "start-failed", "server");
  Raw r;
  SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "connect");
  FrameRx rx(6u, "peer"); bool done = false;
  int rt = sim::spawn("peer-r", [&]() { sim::wait_until([&]() { return reading; }, 600000); for (;;) { if (sim::coin(4)) sim::sleep_us(sim::choose(20000)); if (r.recv(rx, 1 + sim::choose(9000)) <= 0) { SIM_ATOMIC; done = true; return; } } });
  SIM_CHECK(sim::wait_until([&]() { return k != nullptr; }, 60000), "connection-missing", "connection not reported");
  std::vector<int> th; std::vector<int> returned(nt + 1, 0);
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("sender", [&, t]() { int n = (int)sim::choose(4); for (int i = 0; i < n; i++) { if (k->closed) return; srv.send(k, 6u, t + 1, frame_len()); if (!asked) returned[t] = i + 1; if (sim::coin(2)) sim::sleep_us(sim::choose(3000)); } }));
  if (sim::coin(2)) sim::sleep_us(sim::choose(5000));
  std::map<int, int> must_other;
  if (how == 0) { SIM_CHECK(r.send(frame(3, 0, 0, sim::choose(100))), "connect-failed", "request"); }
  else if (how == 1) { for (int i = 0; i < before; i++) srv.send(k, 6u, 0, frame_len()); { SIM_ATOMIC; must_other.clear(); for (int t = 0; t < nt; t++) must_other[t + 1] = returned[t]; } ask(); srv.s->shutdown_connection(k->ptr); }
  else if (how == 2) { for (int i = 0; i < before; i++) srv.send(k, 6u, 0, frame_len()); { SIM_ATOMIC; for (int t = 0; t < nt; t++) must_other[t + 1] = returned[t]; } ask(); srv.s->stop(); }
  else if (how == 3) { Packet* p = Packet::alloc_packet(); p->build_from_memory(6, 100, 0, nullptr); srv.s->send_work_message(k->worker, p); Packet::free_packet(p); }
  if (repeats || half || hold) SIM_CHECK(sim::wait_until([&]() { return asked; }, 60000), "stuck", "the request to shut down is not carried out");
  if (half) { if (sim::coin(2)) sim::sleep_us(sim::choose(3000)); ::shutdown(r.fd, SHUT_WR); sim::probe("peer ends its direction meanwhile"); }
  for (int i = 0; i < repeats; i++) {
    if (sim::coin(2)) sim::sleep_us(sim::choose(3000));
    if (how != 2 && !stopped && sim::coin(3)) { srv.s->stop(); stopped = true; }
    else srv.s->shutdown_connection(k->ptr);
    sim::probe("request repeated");
  }
  if (hold) { sim::sleep_us(sim::choose(30000)); SIM_ATOMIC; reading = true; }
  for (int t : th) sim::join(t);
  sim::calm();
  bool ok = sim::wait_until([&]() { return done; }, 120000);
  {
    SIM_ATOMIC;
    SIM_CHECK(ok, "no-end-of-stream", "the peer never sees the end of the stream (%llu of %llu bytes arrived)", (unsigned long long)rx.bytes, (unsigned long long)k->tx.bytes);
    SIM_CHECK(r.eof, "reset-instead-of-end", "the peer sees error %d instead of a clean end of stream (%llu bytes arrived)", r.err, (unsigned long long)rx.bytes);
    SIM_CHECK(rx.buf.empty(), "message-truncated", "the stream ends inside a message (%zu bytes of it arrived)", rx.buf.size());
    for (auto& m : must) SIM_CHECK(rx.next[m.first] >= m.second, "accepted-bytes-lost", "sender %d: %d messages were sent before the shutdown, %d arrived", m.first, m.second, rx.next[m.first]);
    for (auto& m : must_other) SIM_CHECK(rx.next[m.first] >= m.second, "accepted-bytes-lost", "sender %d: %d messages were sent before the shutdown, %d arrived", m.first, m.second, rx.next[m.first]);
    if (rx.frames) sim::nontrivial();
    sim::probe("messages flushed", (sim::u64)rx.frames);
  }
  SIM_CHECK(sim::wait_until([&]() { return k->closed == 1; }, 60000), "close-missing", "no close callback after the shutdown");
  sim::join(rt); r.close();
  if (how == 2 || stopped) srv.join_only(60000); else srv.stop_join();
  srv.check_all_closed(); srv.destroy(); check_fds();
}

// Client side: TcpClient::disconnect and TcpConnection::shutdown after sends, against a raw peer.
SIM_SCENARIO_W("C08", client_disconnect, 4) {
  allow_net_timing();
  pick_sndbuf();
  int cached = (int)sim::choose(3), n = (int)sim::choose(5), how = (int)sim::choose(3);
  int l = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(6000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  SIM_CHECK(::bind(l, (sockaddr*)&a, sizeof a) == 0 && ::listen(l, 16) == 0, "start-failed", "listen");
  Cli c(4); int must = -1; int sent = 0, again = sim::coin(2) ? (int)sim::choose(3) : 0; bool half = sim::coin(3), hold = sim::coin(2);
  c.on_start = [&](Cli*) { c.connect_ret = c.c->connect(Address("127.0.0.1", 6000)); for (int i = 0; i < cached; i++) { c.send(8u, 0, frame_len()); sent++; } };
  auto bye = [&]() { { SIM_ATOMIC; must = sent; } for (int i = 0; i <= again; i++) if (how == 1 || (i && sim::coin(2))) c.conn->shutdown(); else c.c->disconnect(); if (sim::coin(3)) c.send(8u, 0, 10); };
  c.on_ok = [&](Cli*) { for (int i = 0; i < n; i++) { c.send(8u, 0, frame_len()); sent++; } if (how != 2) bye(); };
  c.on_msg = [&](Cli*) { if (how == 2 && must < 0 && c.rx.frames == 1) { c.send(8u, 0, frame_len()); sent++; bye(); } };
  c.start(6000);
  int fd; do fd = ::accept(l, nullptr, nullptr); while (fd < 0 && errno == EINTR);
  SIM_CHECK(fd >= 0, "connect-failed", "accept");
  Raw r; r.fd = fd; FrameRx rx(8u, "peer");
  if (how == 2) { c.rx.stream = 2; r.send(frame(2, 0, 0, 4)); }
  if (half || hold) {
    SIM_CHECK(sim::wait_until([&]() { return must >= 0; }, 60000), "stuck", "the client does not disconnect");
    if (half) { if (sim::coin(2)) sim::sleep_us(sim::choose(3000)); ::shutdown(r.fd, SHUT_WR); sim::probe("peer ends its direction meanwhile"); }
    if (hold) sim::sleep_us(sim::choose(30000));
    if (sim::coin(2) && !c.closed) { bool pd = false; c.post([&]() { if (c.conn->get_state() != TcpConnection::kDisconnected) c.c->disconnect(); SIM_ATOMIC; pd = true; }); SIM_CHECK(sim::wait_until([&]() { return pd; }, 60000), "stuck", "the client's loop does not run"); sim::probe("request repeated"); }
  }
  if (sim::coin(2)) sim::calm();
  for (;;) { if (sim::coin(4)) sim::sleep_us(sim::choose(20000)); if (r.recv(rx, 1 + sim::choose(9000)) <= 0) break; }
  {
    SIM_ATOMIC;
    SIM_CHECK(r.eof, "reset-instead-of-end", "the peer sees error %d instead of a clean end of stream (%llu bytes arrived)", r.err, (unsigned long long)rx.bytes);
    SIM_CHECK(rx.buf.empty(), "message-truncated", "the stream ends inside a message (%zu bytes of it arrived)", rx.buf.size());
    SIM_CHECK(must >= 0 && rx.next[0] >= must, "accepted-bytes-lost", "%d messages were sent before disconnect, %d arrived", must, rx.next[0]);
    if (rx.frames) sim::nontrivial();
  }
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return c.closed == 1; }, 60000), "close-missing", "no close callback after disconnect");
  r.close(); ::close(l);
  c.stop();
  check_fds();
}
