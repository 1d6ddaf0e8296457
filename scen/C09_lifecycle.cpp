// C09: life cycle of connections under peer closes, half closes, resets and shutdowns at any moment.
#include "common_net.h"
using namespace scn;

namespace {
struct Peer { Raw r; FrameRx rx; int port; bool connected, ended; Peer() : rx(0, "peer"), port(0), connected(false), ended(false) {} };
// one raw peer with random behaviour; ends its connection in one of several ways
void peer_life(Peer* p, uint16_t port, uint32_t kinds) {
  p->connected = p->r.connect(port, 1);
  if (!p->connected) { SIM_ATOMIC; p->ended = true; return; }
  { sockaddr_in a; socklen_t l = sizeof a; getsockname(p->r.fd, (sockaddr*)&a, &l); SIM_ATOMIC; p->port = ntohs(a.sin_port); p->rx.stream = 100000u + (uint32_t)p->port; }
  int seq = 0; bool open = true, wr = true;
  for (int steps = (int)sim::choose(7); steps > 0 && open; steps--) {
    switch (sim::choose(6)) {
      case 0: case 1: if (wr && !p->r.send(frame((uint32_t)p->port, 0, seq++, std::min<uint32_t>(frame_len(), 3000)))) open = false; break;
      case 2: sim::sleep_us(sim::choose(5000)); break;
      case 3: { struct pollfd q = {p->r.fd, POLLIN, 0}; if (::poll(&q, 1, (int)sim::choose(30)) > 0 && p->r.recv(p->rx, 1 + sim::choose(4000)) <= 0) open = false; break; }
      case 4: if (sim::coin(3)) { ::shutdown(p->r.fd, SHUT_WR); wr = false; } break;
      default: sim::yield();
    }
  }
  switch (sim::choose(kinds)) {
    case 0: break;                                                            // close below
    case 1: sim::fault_count(sim::F_PEER_CLOSE); p->r.reset(); break;        // RST
    case 2: ::shutdown(p->r.fd, SHUT_WR); while (p->r.recv(p->rx) > 0) {} break;
    case 3: ::shutdown(p->r.fd, SHUT_RDWR); break;
    case 4: sim::sleep_us(sim::choose(100000)); break;
    default: while (p->r.recv(p->rx) > 0) {} break;                          // wait for the server to close (or for calm to force it)
  }
  p->r.close();
  SIM_ATOMIC; p->ended = true;
}
}  // namespace

SIM_SCENARIO_W("C09", server_chaos, 6) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  int np = (int)sim::choose_range(1, 5);
  uint32_t mood = sim::cfg(4);       // how eager the server is to shut connections down
  Srv srv;
  auto act = [&](SConn* k, bool in_conn) {
    switch (sim::choose(mood == 0 ? 3 : 6)) {
      case 0: break;
      case 1: case 2: for (uint32_t n = 1 + sim::choose(2); n && k->tx.frames < 10 && k->ptr->get_state() == TcpConnection::kConnected; n--) srv.send(k, 100000u + (uint32_t)k->peer_port, 0, frame_len()); break;
      case 3: k->ptr->shutdown(); break;
      case 4: srv.s->shutdown_connection(k->ptr); break;
      default: { std::string d(1 + sim::choose(3000), 'x'); if (!in_conn) k->ptr->shutdown(); k->ptr->shutdown(); k->ptr->send(d.data(), k->ptr->get_state() == TcpConnection::kConnected ? 0 : d.size()); }
    }
    srv.see_state(k);
  };
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; k->ptr->set_param(k); k->ptr->set_name("scn"); if (!k->peer_port) srv.consume = false; if (sim::coin(3)) act(k, true); };
  srv.on_msg = [&](SConn* k) { SIM_CHECK(k->ptr->get_param() == k && !strcmp(k->ptr->get_name(), "scn"), "user-data", "parameter or name of connection %d changed", k->id); if (sim::coin(2)) act(k, false); };
  srv.on_cls = [&](SConn* k) { SIM_CHECK(k->ptr->get_param() == k, "user-data", "parameter of connection %d changed", k->id); if (sim::coin(3)) { std::string d(10, 'y'); k->ptr->send(d.data(), d.size()); k->ptr->shutdown(); srv.s->shutdown_connection(k->ptr); } };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 3)) && srv.up(), "start-failed", "server");
  std::vector<Peer*> ps; std::vector<int> th;
  bool stop_mon = false;
  for (int i = 0; i < np; i++) { Peer* p = new Peer(); ps.push_back(p); th.push_back(sim::spawn("peer", [p, &srv]() { peer_life(p, srv.ports[0], 6); })); if (sim::coin(3)) sim::sleep_us(sim::choose(3000)); }
  int mon = sim::coin(2) ? sim::spawn("monitor", [&]() { for (int i = 0; i < 60 && !stop_mon; i++) { std::vector<SConn*> v; { SIM_ATOMIC; for (auto& c : srv.conns) v.push_back(c.second); } for (SConn* k : v) { SIM_ATOMIC; srv.see_state(k); } sim::sleep_us(50 + sim::choose(2000)); } }) : -1;
  sim::sleep_us(sim::choose(200000));
  // peers still connected and silent are woken by the server closing everything it has
  sim::calm();
  sim::wait_until([&]() { for (Peer* p : ps) if (!p->ended) return false; return true; }, 1000);
  bool all = false;
  for (int i = 0; i < 300 && !all; i++) {
    { std::vector<SConn*> v; { SIM_ATOMIC; for (auto& c : srv.conns) v.push_back(c.second); } for (SConn* k : v) if (!k->closed) srv.s->shutdown_connection(k->ptr); }
    all = sim::wait_until([&]() { for (Peer* p : ps) if (!p->ended) return false; return true; }, 200);
  }
  if (!all) for (Peer* p : ps) { SIM_ATOMIC; SIM_CHECK(p->ended, "peer-stuck", "the peer of port %d never sees the connection end", p->port); }
  for (int t : th) sim::join(t);
  // every connection has ended on the other side: the server must notice
  bool ok = sim::wait_until([&]() { return srv.live == 0; }, 60000);
  SIM_CHECK(ok, "close-missing", "%d connections have no close callback although their peers are gone", srv.live);
  { SIM_ATOMIC; stop_mon = true; }
  if (mon >= 0) sim::join(mon);
  int seen = srv.total;
  { SIM_ATOMIC; if (seen) sim::nontrivial(); sim::probe("connections", (sim::u64)seen); int conn = 0; for (Peer* p : ps) conn += p->connected; SIM_CHECK(seen <= np, "connected-twice", "%d connections reported, %d peers", seen, np); }
  srv.stop_join();
  srv.check_all_closed();
  { SIM_ATOMIC; SIM_CHECK(srv.total <= np, "connected-twice", "%d connections reported, %d peers", srv.total, np); for (auto& k : srv.conns) SIM_CHECK(k.second->ptr.use_count() == 1, "reference-kept", "the server keeps %ld references to the closed connection %d", k.second->ptr.use_count() - 1, k.first); }
  srv.destroy();
  for (Peer* p : ps) delete p;
  check_fds();
}

// Every accepted peer is reported exactly once when nothing is reset.
SIM_SCENARIO_W("C09", every_peer_reported, 2) {
  allow_net_timing();
  int np = (int)sim::choose_range(1, 6);
  Srv srv;
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 3)) && srv.up(), "start-failed", "server");
  std::vector<Raw*> rs; std::vector<int> ports;
  for (int i = 0; i < np; i++) { Raw* r = new Raw(); SIM_CHECK(r->connect(srv.ports[0], 1), "connect-failed", "connect"); sockaddr_in a; socklen_t l = sizeof a; getsockname(r->fd, (sockaddr*)&a, &l); ports.push_back(ntohs(a.sin_port)); rs.push_back(r); if (sim::coin(2)) r->send(frame((uint32_t)ports.back(), 0, 0, sim::choose(100))); }
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return srv.total == np; }, 60000), "connection-missing", "%d of %d connections are reported", srv.total, np);
  { SIM_ATOMIC; for (int p : ports) { SConn* k = srv.by_port(p); SIM_CHECK(k && k->ptr->get_local_addr().get_port() == srv.ports[0], "wrong-address", "no connection with peer port %d", p); } sim::nontrivial(); }
  std::vector<int> order; for (int i = 0; i < np; i++) order.push_back(i);
  for (int i = np - 1; i > 0; i--) std::swap(order[i], order[sim::choose((uint32_t)i + 1)]);
  for (int i : order) {
    rs[i]->close();
    SConn* k = srv.by_port(ports[i]);
    SIM_CHECK(sim::wait_until([&]() { return k->closed == 1; }, 30000), "close-missing", "close of peer port %d is not reported", ports[i]);
    SIM_ATOMIC; for (int j : order) if (rs[j]->fd >= 0) SIM_CHECK(!srv.by_port(ports[j])->closed, "closed-wrong", "connection of port %d is closed although its peer is open", ports[j]);
  }
  srv.stop_join(); srv.check_all_closed(); srv.destroy();
  for (Raw* r : rs) delete r;
  check_fds();
}

// Library client against peers that close or reset at any time, and the client shutting down in its own callbacks.
SIM_SCENARIO_W("C09", client_chaos, 4) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  int l = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(6000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  SIM_CHECK(::bind(l, (sockaddr*)&a, sizeof a) == 0 && ::listen(l, 16) == 0, "start-failed", "listen");
  Cli c(4);
  auto act = [&](bool) {
    switch (sim::choose(6)) {
      case 0: break;
      case 1: case 2: for (uint32_t n = 1 + sim::choose(3); n && c.tx.frames < 12; n--) c.send(8u, 0, frame_len()); break;
      case 3: c.c->disconnect(); break;
      case 4: c.conn->shutdown(); break;
      default: c.c->disconnect(); c.send(8u, 0, 5); c.c->disconnect();
    }
  };
  c.on_start = [&](Cli*) { c.rx.stream = 2; c.connect_ret = c.c->connect(Address("127.0.0.1", 6000)); for (uint32_t i = sim::choose(3); i; i--) c.send(8u, 0, frame_len()); };
  c.on_ok = [&](Cli*) { if (sim::coin(2)) act(true); };
  c.on_msg = [&](Cli*) { if (sim::coin(2)) act(false); };
  c.on_cls = [&](Cli*) { if (sim::coin(3)) { c.conn->send("zz", 2); c.conn->shutdown(); c.c->disconnect(); } };
  c.start(6000);
  struct pollfd q = {l, POLLIN, 0};
  int fd = -1;
  for (int i = 0; i < 500 && fd < 0; i++) if (::poll(&q, 1, 200) > 0) fd = ::accept(l, nullptr, nullptr);
  SIM_CHECK(fd >= 0, "connect-failed", "accept");
  Raw r; r.fd = fd; std::string junk(4096, 0); int seq = 0; bool open = true;
  for (int steps = (int)sim::choose(8); steps > 0 && open; steps--) {
    switch (sim::choose(4)) {
      case 0: case 1: if (!r.send(frame(2, 0, seq++, std::min<uint32_t>(frame_len(), 2000)))) open = false; break;
      case 2: sim::sleep_us(sim::choose(5000)); break;
      default: { struct pollfd pq = {fd, POLLIN, 0}; if (::poll(&pq, 1, 20) > 0 && ::recv(fd, &junk[0], 1 + sim::choose(4000), 0) <= 0) open = false; }
    }
  }
  switch (sim::choose(4)) { case 0: break; case 1: r.reset(); break; case 2: ::shutdown(fd, SHUT_WR); for (int i = 0; i < 200; i++) { struct pollfd pq = {fd, POLLIN, 0}; if (::poll(&pq, 1, 50) <= 0 || ::recv(fd, &junk[0], 4096, 0) <= 0) break; } break; default: sim::sleep_us(sim::choose(50000)); }
  r.close(); ::close(l);
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return c.closed || c.fails; }, 60000), "close-missing", "the client gets no close callback although its peer is gone (connected %d)", c.was_ok);
  sim::sleep_us(600000);
  { SIM_ATOMIC; SIM_CHECK(c.oks + c.fails == 1 && c.closed == c.oks, "close-missing", "client callbacks: %d connected, %d failed, %d closed", c.oks, c.fails, c.closed); SIM_CHECK(c.c->get_connection_state() == TcpConnection::kDisconnected, "state-wrong", "client state after close"); if (c.closed) sim::nontrivial(); }
  c.stop();
  check_fds();
}
