// C25: objects that are gone leave no memory behind, and a server or loop that lives on does not grow.
// After a round every object the application created has been destroyed; a heap block that nothing refers to any
// more (no word of global data, of the remaining stack or of any reachable block) is lost for good.
#include "common_net.h"
#include <utility/cyu_statistics.h>
#include <stdarg.h>
using namespace scn;
namespace {
// what `fn` does happens in its own thread, so that nothing on the remaining stack refers to it
void round(const char* name, std::function<void()> fn) {
  { int t = sim::spawn(name, std::move(fn)); sim::join(t); }
  SIM_CHECK(sim::wait_until([]() { return sim::nlive() == 1; }, 60000), "thread-lost", "%d threads remain after the objects are gone", sim::nlive() - 1);
  sim::leak_check();
}
void junk_peer(const std::vector<uint16_t>& ports) {
  Raw p; std::string junk(4096, 0);
  if (!p.connect(ports[sim::choose((uint32_t)ports.size())], 1)) return;
  for (uint32_t j = sim::choose(4); j; j--) p.send(std::string(1 + sim::choose(700), 'z'));
  if (sim::coin(2)) { struct pollfd q = {p.fd, POLLIN, 0}; if (::poll(&q, 1, (int)sim::choose(20)) > 0) { ssize_t n = ::recv(p.fd, &junk[0], junk.size(), 0); (void)n; } }
  if (sim::coin(4)) { sim::fault_count(sim::F_PEER_CLOSE); p.reset(); } else p.close();
}
Packet* cmd(uint16_t id, const std::string& b) { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, id, (uint16_t)b.size(), b.data()); return p; }
void server_round() {
  int nw = (int)sim::choose_range(1, 3), nports = (int)sim::choose_range(1, 2), np = (int)sim::choose(5), nc = (int)sim::choose(4);
  Srv srv; srv.consume = sim::coin(2);
  srv.on_conn = [&](SConn* k) { if (sim::coin(2)) k->ptr->start_read_statistics(1000); if (sim::coin(2)) k->ptr->start_write_statistics(1000); if (sim::coin(4)) { k->ptr->start_read_statistics(500); k->ptr->start_write_statistics(500); k->ptr->start_read_statistics(1000); } if (sim::coin(3)) srv.send(k, 4u, 0, frame_len()); if (sim::coin(6)) k->ptr->shutdown(); };
  srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); if (sim::coin(4)) k->ptr->shutdown(); else if (k->tx.frames < 6 && sim::coin(2) && k->ptr->get_state() == TcpConnection::kConnected) srv.send(k, 4u, 0, frame_len()); };
  srv.consume = false;
  int got = 0;
  srv.on_wcmd = [&](int, Packet*) { SIM_ATOMIC; got++; };
  srv.on_mcmd = [&](Packet*) { SIM_ATOMIC; got++; };
  if (!srv.start(nw, nports)) { srv.destroy(); return; }
  SIM_CHECK(srv.up(), "start-failed", "server");
  std::vector<int> th;
  for (int i = 0; i < np; i++) th.push_back(sim::spawn("peer", [&]() { junk_peer(srv.ports); }));
  for (int i = 0; i < nc; i++) th.push_back(sim::spawn("commander", [&]() {
    for (uint32_t j = 1 + sim::choose(4); j; j--) {
      std::string b(sim::coin(2) ? sim::choose(40) : sim::choose(3000), 'c');
      std::vector<Packet*> ps; for (uint32_t k = sim::coin(3) ? 2 : 1; k; k--) ps.push_back(cmd(9, b));
      if (sim::coin(4)) srv.s->send_master_message(ps[0]);
      else if (ps.size() > 1) srv.s->send_work_message((int32_t)sim::choose((uint32_t)nw), (const Packet**)&ps[0], (int32_t)ps.size());
      else srv.s->send_work_message((int32_t)sim::choose((uint32_t)nw), ps[0]);
      for (auto p : ps) Packet::free_packet(p);
      if (sim::coin(3)) sim::sleep_us(sim::choose(500));
    } }));
  if (sim::coin(4)) srv.s->stop_listen(sim::choose((uint32_t)nports));
  bool early = sim::coin(2);                       // stop while peers and commands are under way
  if (!early) for (int t : th) sim::join(t);
  else sim::sleep_us(sim::choose(3000));
  srv.s->stop();
  if (early) for (int t : th) sim::join(t);
  srv.join_only(120000); srv.check_all_closed();
  if (srv.total || got) sim::nontrivial();
  srv.destroy();
}
void client_round(int n) {
  Looper* lp = Looper::create_looper();
  for (int i = 0; i < n; i++) {
    int how = (int)sim::choose(5), closed = 0, okc = 0, fails = 0; uint32_t retry = sim::coin(2) ? 1 + sim::choose(50) : 0;
    TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, i);
    TcpConnectionPtr conn;
    c->m_listener.on_connected = [&](TcpClientPtr, TcpConnectionPtr cn, bool ok) -> uint32_t {
      if (ok) { okc++; conn = cn; if (sim::coin(3)) { cn->start_write_statistics(500); cn->start_read_statistics(500); } std::string b(sim::choose(3000), 'd'); cn->send(b.data(), b.size()); if (how == 3) c->disconnect(); } else { fails++; if (how == 4) c->disconnect(); }
      return !ok && fails < 4 ? retry : 0; };
    if (sim::coin(4)) c->m_listener.on_connected = nullptr;
    c->m_listener.on_close = [&](TcpClientPtr, TcpConnectionPtr) { closed++; };
    c->m_listener.on_message = [&](TcpClientPtr, TcpConnectionPtr cn) { cn->get_input_buf().reset(); };
    bool r = c->connect(sim::coin(6) ? Address("127.0.0.1", 5099) : Address("127.0.0.1", 5000));
    if (r && sim::coin(2)) { std::string b(sim::choose(3000), 'e'); c->send(b.data(), b.size()); }
    Looper::event_id_t t = lp->register_timer_event(5, nullptr, [](Looper::event_id_t, void*) {});
    for (int s = (int)sim::choose(12); s > 0; s--) { lp->step(); if (sim::coin(2)) sim::sleep_us(sim::choose(20000)); }
    if (c->get_connection_state() != TcpConnection::kDisconnected) {
      if (how != 2 || !conn) c->disconnect();
      for (int s = 0; s < 4000 && c->get_connection_state() != TcpConnection::kDisconnected; s++) { lp->step(); sim::sleep_us(20000); if (s == 2000) c->disconnect(); }
      SIM_CHECK(c->get_connection_state() == TcpConnection::kDisconnected, "close-missing", "client does not close");
    } else if (how == 1) c->disconnect();
    if (okc) sim::nontrivial();
    lp->delete_event(t);
    conn.reset(); c.reset();
    for (int s = 0; s < 2; s++) { lp->step(); sim::sleep_us(60000); }
  }
  Looper::destroy_looper(lp);
}
void worker_round() {
  WorkThread* w = new WorkThread(); int got = 0; bool started = false;
  std::string name(sim::choose(60), 'w');
  bool refuse = sim::coin(6), run = !sim::coin(5);
  w->set_on_start([&, name]() { SIM_ATOMIC; started = true; return !refuse; });
  w->set_on_message([&](Packet*) { { SIM_ATOMIC; got++; } if (sim::coin(8)) sim::sleep_us(sim::choose(300)); });
  auto some = [&](int n) { while (n-- > 0) {
    std::string b(sim::coin(2) ? sim::choose(60) : sim::choose(5000), 'p');
    if (sim::coin(2)) w->send_message(5, (uint16_t)b.size(), b.data());
    else { std::vector<Packet*> ps; for (uint32_t k = 1 + sim::choose(3); k; k--) { Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, 6, (uint16_t)b.size(), b.data()); ps.push_back(p); } w->send_message((const Packet**)&ps[0], (int32_t)ps.size()); for (auto p : ps) Packet::free_packet(p); }
    if (sim::coin(3)) sim::sleep_us(sim::choose(200)); } };
  if (sim::coin(3)) some(1 + (int)sim::choose(3));
  if (run) {
    w->start(name.c_str());
    std::vector<int> th;
    for (uint32_t i = sim::choose(3); i; i--) th.push_back(sim::spawn("sender", [&]() { some((int)sim::choose(5)); }));
    if (sim::coin(2)) for (int t : th) sim::join(t);
    if (!refuse) w->get_looper()->push_stop_request();
    if (sim::coin(2)) some(1 + (int)sim::choose(3));               // messages it will not handle any more
    for (int t : th) { bool j = true; (void)j; sim::join(t); }
    w->join();
  }
  if (got || !run) sim::nontrivial();
  delete w;
}
void packets_and_buffers() {
  std::vector<Packet*> ps; std::vector<RingBuf*> rs; LockFreeQueue<std::string*, 8>* q = new LockFreeQueue<std::string*, 8>();
  Pipe* pp; sim::calm(); pp = new Pipe(); sim::calm(false);
  for (uint32_t i = 3 + sim::choose(20); i; i--) {
    switch (sim::choose(7)) {
      case 0: ps.push_back(Packet::alloc_packet()); break;
      case 1: if (!ps.empty()) { std::string b(sim::choose(4000), 'x'); ps[sim::choose((uint32_t)ps.size())]->build_from_memory(sim::coin(2) ? 4 : 4 + sim::choose(2000), 3, (uint16_t)b.size(), b.data(), sim::coin(2) ? (uint16_t)b.size() : 0, b.data()); } break;
      case 2: if (!ps.empty()) { uint32_t k = sim::choose((uint32_t)ps.size()); Packet::free_packet(ps[k]); ps.erase(ps.begin() + k); } break;
      case 3: if (!ps.empty()) ps[sim::choose((uint32_t)ps.size())]->clean(); break;
      case 4: rs.push_back(new RingBuf(sim::coin(2) ? 0 : sim::choose(5000))); break;
      case 5: if (!rs.empty()) { RingBuf* r = rs[sim::choose((uint32_t)rs.size())]; std::string b(sim::choose(9000), 'y'); r->memcpy_into(b.data(), b.size()); if (sim::coin(3)) r->normalize(); if (sim::coin(3)) r->discard(sim::choose(5000)); if (sim::coin(3)) { RingBuf* o = rs[sim::choose((uint32_t)rs.size())]; if (o != r) r->moveto(*o, sim::choose(5000)); } } break;
      default: if (!ps.empty() && !rs.empty()) {
        Packet* p = ps[sim::choose((uint32_t)ps.size())]; RingBuf* r = rs[sim::choose((uint32_t)rs.size())];
        std::string b(sim::choose(3000), 'z'); Packet* s = Packet::alloc_packet(); s->build_from_memory(4, 9, (uint16_t)b.size(), b.data());
        if (sim::coin(2)) { r->reset(); size_t cut = sim::coin(3) ? sim::choose((uint32_t)s->get_memory_size()) : s->get_memory_size(); r->memcpy_into(s->get_memory_buf(), cut); p->build_from_ringbuf(4, *r); }
        else { ssize_t n = pp->write(s->get_memory_buf(), s->get_memory_size()); if (n == (ssize_t)s->get_memory_size()) p->build_from_pipe(4, *pp); }
        Packet::free_packet(s); }
    }
  }
  for (auto p : ps) Packet::free_packet(p);
  for (auto r : rs) delete r;
  delete q; delete pp;
  sim::nontrivial();
}
void loops_and_timers() {
  Looper* lp = Looper::create_looper(); std::vector<Looper::event_id_t> ids; Pipe* mine[2]; int fired = 0, used = 0;
  sim::calm(); for (auto& p : mine) p = new Pipe(); sim::calm(false);
  std::string big(200, 'b');
  for (uint32_t i = 2 + sim::choose(14); i; i--) {
    switch (sim::choose(5)) {
      case 0: case 1: { auto e = lp->register_timer_event(1 + sim::choose(20), nullptr, [&, big](Looper::event_id_t, void*) { fired += (int)big.size(); }); if (e != Looper::INVALID_EVENT_ID) ids.push_back(e); break; }
      case 2: if (used < 2) { auto e = lp->register_event(mine[used++]->get_read_port(), sim::coin(2) ? Looper::kRead : 0, nullptr, [big](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, [big](Looper::event_id_t, socket_t, Looper::event_t, void*) {}); if (e != Looper::INVALID_EVENT_ID) ids.push_back(e); } break;
      case 3: if (!ids.empty()) { uint32_t k = sim::choose((uint32_t)ids.size()); lp->delete_event(ids[k]); ids.erase(ids.begin() + k); } break;
      default: lp->step(); sim::sleep_us(sim::choose(10000));
    }
  }
  if (sim::coin(2)) { sim::calm(); int th = sim::spawn("stopper", [&]() { sim::sleep_us(sim::choose(3000)); lp->push_stop_request(); }); lp->loop(); sim::join(th); }
  if (sim::coin(2)) for (auto e : ids) lp->delete_event(e);      // or the loop is destroyed with everything registered
  Looper::destroy_looper(lp);
  for (auto p : mine) delete p;
  sim::nontrivial();
}
void threads_and_locks() {
  std::vector<sys_api::mutex_t> ms; std::vector<sys_api::signal_t> ss; std::vector<thread_t> ts; int ended = 0, n = 0;
  for (uint32_t i = 1 + sim::choose(3); i; i--) { ms.push_back(sys_api::mutex_create()); ss.push_back(sys_api::signal_create()); }
  for (uint32_t i = 1 + sim::choose(4); i; i--) {
    std::string big(300, 't'); n++;
    auto fn = [&, big](void*) { { sys_api::auto_mutex l(ms[0]); sim::yield(); } sys_api::signal_notify(ss[0]); if (sim::coin(2)) sim::sleep_us(sim::choose(2000)); SIM_ATOMIC; ended += (int)big.size() / 300; };
    std::string name(sim::choose(40), 'n');
    if (sim::coin(3)) sys_api::thread_create_detached(fn, nullptr, sim::coin(4) ? nullptr : name.c_str()); else ts.push_back(sys_api::thread_create(fn, nullptr, name.c_str()));
  }
  sys_api::signal_timewait(ss[0], (int32_t)sim::choose(5));
  for (auto t : ts) { while (sim::coin(2)) if (sys_api::thread_join(t, (int32_t)sim::choose(4))) { t = nullptr; break; } if (t) sys_api::thread_join(t); }
  SIM_CHECK(sim::wait_until([&]() { return ended == n && sim::nlive() == 2; }, 60000), "thread-lost", "threads do not end");
  { PeriodValue<int64_t> locked(50); PeriodValue<int32_t, false> plain; auto fixed = new PeriodValue<int32_t>(5); MinMaxValue<int32_t> mm;
    for (uint32_t i = sim::choose(100); i; i--) { locked.push(i); plain.push((int)i); fixed->push((int)i); mm.update((int)i); if (sim::coin(20)) { sim::sleep_us(sim::choose(20000)); locked.sum_and_counts(); plain.sum_and_counts(); } }
    delete fixed; }
  for (auto m : ms) sys_api::mutex_destroy(m);
  for (auto s : ss) sys_api::signal_destroy(s);
  sim::nontrivial();
}
void log_round() {
  set_log_filename("log/", "app.log"); set_log_threshold(L_TRACE);
  std::vector<int> th; int done = 0;
  for (uint32_t t = 1 + sim::choose(3); t; t--) th.push_back(sim::spawn("log", [&]() {
    for (uint32_t k = 1 + sim::choose(4); k; k--) { std::string b(sim::coin(2) ? sim::choose(100) : sim::choose(9000), 'l'); CY_LOG(sim::coin(2) ? L_INFO : L_ERROR, "%s", b.c_str()); }
    SIM_ATOMIC; done++; }));
  for (int t : th) sim::join(t);
  SIM_CHECK(sim::file_open_count() == 0, "memory-leak", "%d files are open after logging", sim::file_open_count());
  sim::nontrivial();
}
}  // namespace

// A server that has been stopped, joined and destroyed, whatever was under way.
SIM_SCENARIO_W("C25", server_gone, 4) {
  sim::leak_track();
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  for (uint32_t r = 1 + sim::choose(2); r; r--) { round("server", server_round); sim::calm(false); }
}
// Clients released in whatever state, refused, timed out, retrying.
SIM_SCENARIO_W("C25", client_gone, 3) {
  sim::leak_track();
  allow_net_timing(); sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_CONN_TIMEOUT); sim::allow(sim::F_RST);
  bool with_srv = !sim::coin(4);
  round("client", [&]() {
    Srv srv; srv.consume = false;
    srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); if (sim::coin(3)) k->ptr->shutdown(); };
    srv.on_conn = [&](SConn* k) { if (sim::coin(4)) k->ptr->shutdown(); };
    bool up = false;
    if (with_srv) { do up = srv.start(1); while (!up && srv.ports.empty()); SIM_CHECK(up && srv.up(), "start-failed", "server"); }
    int n = (int)sim::choose_range(1, 4);
    int th = sim::spawn("loop", [&]() { client_round(n); });
    sim::join(th);
    sim::calm();
    if (with_srv) { srv.stop_join(120000); srv.check_all_closed(); }
    srv.destroy();
  });
}
// More messages than the queue of a worker holds: those refused leave nothing behind.
void overflow_round() {
  WorkThread* w = new WorkThread();
  bool in_stall = false, release = false;
  w->set_on_message([&](Packet* p) { if (p->get_packet_id() != 65000) return; { SIM_ATOMIC; in_stall = true; } sim::wait_until([&]() { return release; }, 3600000); });
  w->start("brim");
  w->send_message(65000, 2, "go");
  SIM_CHECK(sim::wait_until([&]() { return in_stall; }, 20000), "message-lost", "the first message of a worker was not handled within 20 s");
  int n = 65535 + (int)sim::choose(30);
  Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, 7, 3, "abc");
  const Packet* three[3] = {p, p, p};
  for (int i = 0; i < n; i++) switch (i < 65530 ? 0 : (int)sim::choose(3)) {
    case 0: w->send_message(7, 3, "abc"); break;
    case 1: w->send_message(p); break;
    default: w->send_message(three, 3);
  }
  Packet::free_packet(p);
  { SIM_ATOMIC; release = true; }
  w->get_looper()->push_stop_request(); w->join(); delete w;
}
// Worker threads, loops, timers, packets, buffers, threads and locks.
SIM_SCENARIO_W("C25", parts_gone, 5) {
  sim::leak_track();
  sim::allow(sim::F_EINTR); sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_SPURIOUS_WAKE);
  switch (sim::cfg(7)) {
    case 0: case 1: if (!sim::choose(150)) { round("overflow", overflow_round); break; } round("workers", []() { for (uint32_t i = 1 + sim::choose(2); i; i--) worker_round(); }); break;
    case 2: round("packets", packets_and_buffers); break;
    case 3: sim::allow(sim::F_FD_ERR); round("loops", []() { loops_and_timers(); }); break;
    case 4: round("threads", threads_and_locks); break;
    case 5: sim::allow(sim::F_OPEN_ERR); sim::allow(sim::F_DISK_FULL); sim::allow(sim::F_MKDIR_ERR); round("log", log_round); break;
    default: round("mixed", []() { worker_round(); packets_and_buffers(); threads_and_locks(); });
  }
}
// A server that lives on: what ended connections and handled commands used is given back.
SIM_SCENARIO_W("C25", server_lives_on, 3) {
  sim::leak_track();
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  const int R = 6; uint64_t marks[R + 1]; int nw = (int)sim::choose_range(1, 2), conns = (int)sim::choose_range(1, 3);
  int live = 0, total = 0, got = 0;
  TcpServer* s = new TcpServer();
  s->m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { { SIM_ATOMIC; live++; total++; } if (sim::coin(2)) c->start_read_statistics(1000); if (sim::coin(3)) { std::string b(sim::choose(3000), 'h'); c->send(b.data(), b.size()); } };
  s->m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr c) { std::string b; b.resize(c->get_input_buf().size()); c->get_input_buf().memcpy_out(&b[0], b.size()); if (c->get_state() == TcpConnection::kConnected && sim::coin(2)) c->send(b.data(), b.size()); if (sim::coin(6)) c->shutdown(); };
  s->m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { SIM_ATOMIC; live--; };
  s->m_listener.on_work_thread_command = [&](TcpServer*, int32_t, Packet*) { SIM_ATOMIC; got++; };
  SIM_CHECK(s->bind(Address((uint16_t)5000, true)) && s->start(nw), "start-failed", "server");
  sim::sleep_us(200000);
  std::vector<uint16_t> ports(1, 5000);
  for (int r = 0; r < R; r++) {
    sim::calm(false);
    marks[r] = sim::leak_mark();
    { std::vector<int> th; int sent = got; 
      for (int i = 0; i < conns; i++) th.push_back(sim::spawn("peer", [&]() { junk_peer(ports); }));
      for (uint32_t i = sim::choose(3); i; i--) { std::string b(sim::choose(2000), 'c'); Packet* p = cmd(8, b); s->send_work_message((int32_t)sim::choose((uint32_t)nw), p); Packet::free_packet(p); sent++; }
      for (int t : th) sim::join(t);
      sim::calm();
      SIM_CHECK(sim::wait_until([&]() { return live == 0 && got == sent && sim::open_fds_kind('s') == 0; }, 120000), "close-missing", "%d connections remain, %d of %d commands handled", live, got, sent);
      sim::sleep_us(50000);
    }
    marks[r + 1] = sim::leak_mark();
  }
  sim::leak_growth(marks, R, 4);
  if (total) sim::nontrivial();
  s->stop(); s->join(); delete s;
}
// The same for one loop: timers, events and clients come and go.
SIM_SCENARIO_W("C25", loop_lives_on, 2) {
  sim::leak_track();
  allow_net_timing(); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC);
  const int R = 6; uint64_t marks[R + 1]; int base[R];
  Srv srv; srv.consume = false; srv.on_msg = [&](SConn* k) { k->ptr->get_input_buf().reset(); };
  Looper* lp = Looper::create_looper(); int n = (int)sim::choose_range(1, 4); Pipe pp; int fired = 0;
  WorkThread* w = new WorkThread(); int got = 0, sent = 0; w->set_on_message([&](Packet*) { SIM_ATOMIC; got++; }); w->start("w");
  for (int r = 0; r < R; r++) {
    marks[r] = sim::leak_mark(); (void)base;
    { std::vector<Looper::event_id_t> ids;
      for (int i = 0; i < n; i++) { std::string big(100, 'q'); ids.push_back(lp->register_timer_event(1 + sim::choose(5), nullptr, [&, big](Looper::event_id_t, void*) { fired++; })); }
      auto e = lp->register_event(pp.get_read_port(), Looper::kRead, nullptr, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, nullptr);
      TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, r);
      c->m_listener.on_connected = [](TcpClientPtr, TcpConnectionPtr, bool) -> uint32_t { return 0; };
      c->connect(Address("127.0.0.1", 5077));                    // nobody listens there
      for (uint32_t k = 1 + sim::choose(4); k; k--) { w->send_message(1, 4, "abcd"); sent++; }
      for (int k = 0; k < 6; k++) { lp->step(); sim::sleep_us(sim::choose(9000)); }
      c->disconnect(); c.reset();
      for (auto t : ids) lp->delete_event(t);
      lp->delete_event(e);
      sim::calm(); SIM_CHECK(sim::wait_until([&]() { return got == sent; }, 60000), "message-lost", "%d of %d", got, sent);
      for (int k = 0; k < 2; k++) { lp->register_timer_event(1, nullptr, [lp](Looper::event_id_t id, void*) { lp->delete_event(id); }); sim::sleep_us(3000); lp->step(); lp->step(); }
      sim::sleep_us(20000); sim::calm(false); }
    marks[r + 1] = sim::leak_mark();
  }
  sim::leak_growth(marks, R, 4);
  w->get_looper()->push_stop_request(); w->join(); delete w;
  Looper::destroy_looper(lp);
  sim::nontrivial();
}
