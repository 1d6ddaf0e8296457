// C07: messages sent on one connection by several threads at once arrive whole and in the order of each sender.
#include "common_net.h"
using namespace scn;

static void sender_body(std::function<void(int, uint32_t)> snd, int me, int n) {
  for (int i = 0; i < n; i++) {
    snd(me, frame_len());
    switch (sim::choose(6)) { case 1: sim::sleep_us(sim::choose(2000)); break; case 2: sim::yield(); break; case 3: if (sim::coin(4)) sim::sleep_us(20000); break; default: break; }
  }
}

// server connection: several threads and the owning worker (in connection callbacks and worker commands)
SIM_SCENARIO_W("C07", server_senders, 5) {
  allow_net_timing();
  pick_sndbuf();
  int nt = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 5);
  int own = (int)sim::choose(6), cmds = (int)sim::choose(4);
  bool two = sim::coin(4);
  Srv srv;
  std::vector<SConn*> ready;
  int owner_sent = 0;
  srv.on_conn = [&](SConn* k) {
    k->rx.stream = 1;
    { SIM_ATOMIC; ready.push_back(k); }
    for (int i = 0; i < own / 2; i++) { srv.send(k, 5u, 0, frame_len()); owner_sent++; }
  };
  srv.on_msg = [&](SConn* k) { if (owner_sent < own) { owner_sent++; srv.send(k, 5u, 0, frame_len()); } };
  srv.on_wcmd = [&](int i, Packet*) { for (SConn* k : ready) if (k->worker == i) srv.send(k, 5u, 0, frame_len()); };
  SIM_CHECK(srv.start(two ? 2 : 1) && srv.up(), "start-failed", "server");
  Raw r;
  SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "connect");
  FrameRx rx(5u, "peer");
  bool rdone = false, rbad = false;
  int rt = sim::spawn("peer-r", [&]() { for (;;) { if (sim::coin(5)) sim::sleep_us(sim::choose(4000)); if (r.recv(rx, 1 + sim::choose(9000)) <= 0) { SIM_ATOMIC; rdone = true; rbad = r.err != 0; return; } } });
  int wt = sim::spawn("peer-w", [&]() { for (int i = 0; i < own; i++) { if (!r.send(frame(1, 0, i, 1 + sim::choose(60)))) return; sim::sleep_us(sim::choose(2000)); } });
  SIM_CHECK(sim::wait_until([&]() { return !ready.empty(); }, 60000), "connection-missing", "connection not reported");
  SConn* k = ready[0];
  std::vector<int> th;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("sender", [&, t]() { sender_body([&](int me, uint32_t l) { srv.send(k, 5u, me, l); }, t + 1, per); }));
  for (int i = 0; i < cmds; i++) { Packet* p = Packet::alloc_packet(); p->build_from_memory(6, 100, 0, nullptr); srv.s->send_work_message(k->worker, p); Packet::free_packet(p); sim::sleep_us(sim::choose(3000)); }
  for (int t : th) sim::join(t);
  sim::join(wt);
  sim::calm();
  sim::wait_until([&]() { return rdone || (k->tx.next[0] >= cmds && rx.bytes == k->tx.bytes && srv.offered(k) == k->rx.bytes); }, 3000);
  bool ok = sim::wait_until([&]() { return rdone || rx.bytes == k->tx.bytes; }, 120000);
  {
    SIM_ATOMIC;
    SIM_CHECK(!rdone && !k->closed, "closed-by-transient", "connection closed while sending (peer saw end, error %d)", rbad);
    SIM_CHECK(ok && rx.bytes == k->tx.bytes, "stream-lost", "%llu bytes sent, %llu arrived", (unsigned long long)k->tx.bytes, (unsigned long long)rx.bytes);
    for (auto& s : k->tx.next) SIM_CHECK(rx.next[s.first] == s.second, "stream-lost", "sender %d: %d messages sent, %d arrived", s.first, s.second, rx.next[s.first]);
    if (k->tx.next.size() >= 2) sim::nontrivial();
    sim::probe("messages checked", (sim::u64)rx.frames);
  }
  ::shutdown(r.fd, SHUT_RDWR);
  sim::join(rt); r.close();
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}

// library client: its own loop and other threads use TcpClient::send / TcpConnection::send
SIM_SCENARIO_W("C07", client_senders, 3) {
  allow_net_timing();
  pick_sndbuf();
  int nt = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 5), own = (int)sim::choose(4), cached = (int)sim::choose(3);
  Srv srv;
  srv.on_conn = [&](SConn* k) { k->rx.stream = 5u; };
  srv.on_msg = [&](SConn* k) { if (k->tx.frames < own) srv.send(k, 9u, 0, sim::choose(50)); };
  srv.on_cls = [&](SConn* k) { srv.drain(k); };
  SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
  Cli c(3);
  c.on_start = [&](Cli*) { c.rx.stream = 9u; c.connect_ret = c.c->connect(Address("127.0.0.1", srv.ports[0])); for (int i = 0; i < cached; i++) c.send(5u, 0, frame_len()); };
  c.on_ok = [&](Cli*) { for (int i = 0; i < own; i++) c.send(5u, 0, frame_len()); };
  c.on_msg = [&](Cli*) { c.send(5u, 0, frame_len()); };
  c.start(srv.ports[0]);
  SIM_CHECK(sim::wait_until([&]() { return c.was_ok && c.conn; }, 60000), "connect-failed", "client not connected (%d failures)", c.fails);
  std::vector<int> th;
  for (int t = 0; t < nt; t++) th.push_back(sim::spawn("sender", [&, t]() {
    sender_body([&](int me, uint32_t l) {
      std::string f; { SIM_ATOMIC; f = frame(5u, me, c.tx.next[me]++, l); c.tx.frames++; c.tx.bytes += f.size(); }
      if (sim::coin(2)) c.c->send(f.data(), f.size()); else c.conn->send(f.data(), f.size());
    }, t + 1, per); }));
  for (int t : th) sim::join(t);
  sim::calm();
  auto conn = [&]() -> SConn* { SIM_ATOMIC; return srv.conns.empty() ? nullptr : srv.conns.begin()->second; };
  bool ok = sim::wait_until([&]() { SConn* k = conn(); return k && (k->closed || (srv.offered(k) == c.tx.bytes && c.rx.bytes == k->tx.bytes)); }, 120000);
  SConn* k = conn();
  SIM_CHECK(k, "connection-missing", "server never reported the connection");
  SIM_CHECK(!k->closed && !c.closed, "closed-by-transient", "connection closed while sending");
  SIM_CHECK(ok, "stream-lost", "%llu bytes sent, %llu arrived", (unsigned long long)c.tx.bytes, (unsigned long long)srv.offered(k));
  c.stop();
  SIM_CHECK(sim::wait_until([&]() { return k->closed == 1; }, 60000), "close-missing", "server does not notice the end of the connection");
  { SIM_ATOMIC; for (auto& s : c.tx.next) SIM_CHECK(k->rx.next[s.first] == s.second, "stream-lost", "sender %d: %d messages sent, %d arrived", s.first, s.second, k->rx.next[s.first]);
    if (c.tx.next.size() >= 2) sim::nontrivial(); sim::probe("messages checked", (sim::u64)k->rx.frames); }
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}
