// C21: commands between the threads of a server: exactly once, intact, in each sender's order, on the right thread, also
// from start callbacks and up to the stop.
#include "common_net.h"
using namespace scn;

namespace {
struct Cmds {
  Srv* srv; int nw, budget; bool stopped; std::map<std::pair<int, int>, int> tx, rx;     // (sender, target) -> next; target -1: master
  std::map<std::pair<int, int>, int> sure;                                               // sent before the stop
  int pend; std::map<int, int> master_seen;
  Cmds() : srv(nullptr), nw(0), budget(0), stopped(false), pend(0) {}
  static uint32_t st(int sender, int target, int seq) { return (uint32_t)(sender * 640000 + (target + 1) * 10000 + seq); }
  static uint16_t id(int sender, int seq) { uint32_t k = (uint32_t)(sender * 977 + seq * 131); return k % 5 == 0 ? (uint16_t)(65535 - k % 7) : k % 5 == 1 ? (uint16_t)TcpServer::kCustomMasterThreadCmdID_Begin : (uint16_t)(10 + k % 3000); }
  std::string body(int sender, int target, int* seq) {
    SIM_ATOMIC; *seq = tx[std::make_pair(sender, target)]++;
    int t[3] = {sender, target, *seq}; std::string s((const char*)t, sizeof t), p; fill(p, st(sender, target, *seq), 0, pick_size(sim::coin(40) ? 65000 : 1500));
    pend++; return s + p;
  }
  Packet* make(int sender, int target, size_t hs) { int q; std::string s = body(sender, target, &q); Packet* p = Packet::alloc_packet(); p->build_from_memory(hs, id(sender, q), (uint16_t)s.size(), s.data()); return p; }
  // one call of the api
  void send(int sender) {
    { SIM_ATOMIC; if (budget <= 0) return; budget--; }
    int target = (int)sim::choose((uint32_t)nw + 1) - 1;
    size_t hs = sim::coin(4) ? 4 + sim::choose(12) : 4;
    int n = 1;
    if (target < 0) {
      if (sim::coin(2)) { Packet* p = make(sender, target, hs); srv->s->send_master_message(p); Packet::free_packet(p); }
      else { int q; std::string s = body(sender, target, &q); srv->s->send_master_message(id(sender, q), (uint16_t)s.size(), s.data()); }
    } else if (sim::coin(2)) { Packet* p = make(sender, target, hs); srv->s->send_work_message(target, p); Packet::free_packet(p); }
    else {
      n = 1 + (int)sim::choose(sim::coin(5) ? 16 : 4); std::vector<Packet*> ps;
      for (int i = 0; i < n; i++) ps.push_back(make(sender, target, hs));
      srv->s->send_work_message(target, (const Packet**)&ps[0], n);
      for (Packet* p : ps) Packet::free_packet(p);
    }
    SIM_ATOMIC; if (!stopped) sure[std::make_pair(sender, target)] += n;
  }
  void recv(int me, Packet* p) {
    { SIM_ATOMIC;
      SIM_CHECK(p->get_packet_size() >= 12, "message-corrupt", "command of %d bytes, at least 12 were sent", (int)p->get_packet_size());
      int t[3]; memcpy(t, p->get_packet_content(), 12);
      SIM_CHECK(t[0] >= 0 && t[0] < 64 && t[1] >= -1 && t[1] < nw && t[2] >= 0 && t[2] < 10000, "message-corrupt", "garbled command");
      SIM_CHECK(t[1] == me, "wrong-thread", "a command for thread %d is handled by thread %d", t[1], me);
      SIM_CHECK(p->get_packet_id() == id(t[0], t[2]), "message-corrupt", "command %d of sender %d has another identifier", t[2], t[0]);
      for (int i = 12; i < p->get_packet_size(); i++) SIM_CHECK((unsigned char)p->get_packet_content()[i] == pat(st(t[0], t[1], t[2]), (uint64_t)(i - 12)), "message-corrupt", "byte %d of command %d differs", i, t[2]);
      int& n = rx[std::make_pair(t[0], me)];
      SIM_CHECK(t[2] == n, t[2] < n ? "message-duplicate" : "message-lost", "thread %d handles command %d of sender %d, expected %d", me, t[2], t[0], n);
      n++; pend--; sim::event("command %d/%d at %d", t[0], t[2], me);
    }
    if (sim::coin(3)) send(me + 1);                // senders 0: master, 1..: workers
    if (sim::coin(10)) sim::sleep_us(sim::choose(400));
  }
};
}

SIM_SCENARIO_W("C21", commands, 6) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  int nw = sim::coin(12) ? (int)sim::choose_range(5, 32) : (int)sim::choose_range(1, 4), nsend = (int)sim::choose(4), np = (int)sim::choose(4);
  bool early = sim::coin(2), during_stop = sim::coin(2);
  Srv srv; Cmds c; c.srv = &srv; c.nw = nw; c.budget = (int)sim::choose_range(10, 60);
  srv.on_conn = [&](SConn* k) { k->rx.stream = (uint32_t)k->peer_port; if (sim::coin(2)) c.send(k->worker + 1); };
  srv.on_msg = [&](SConn* k) { if (sim::coin(2)) c.send(k->worker + 1); };
  srv.on_cls = [&](SConn* k) { if (sim::coin(3)) c.send(k->worker + 1); };
  srv.on_wcmd = [&](int i, Packet* p) { SIM_CHECK(!srv.joined, "callback-after-join", "command after join"); c.recv(i, p); };
  srv.on_mcmd = [&](Packet* p) { SIM_CHECK(!srv.joined, "callback-after-join", "command after join"); c.recv(-1, p); };
  if (early) {
    srv.on_mstart = [&](Looper*) { for (int i = 0, n = (int)sim::choose(3); i < n; i++) c.send(0); };
    srv.on_wstart = [&](int w, Looper*) { for (int i = 0, n = (int)sim::choose(3); i < n; i++) c.send(w + 1); };
  }
  SIM_CHECK(srv.start(nw), "start-failed", "server");
  if (sim::coin(2)) SIM_CHECK(srv.up(), "start-failed", "server");
  std::vector<int> th; int ended = 0; bool quit = false;
  for (int i = 0; i < nsend; i++) th.push_back(sim::spawn("sender", [&, i]() {
    for (int j = 0, n = 1 + (int)sim::choose(8); j < n && !quit; j++) { c.send(40 + i); if (sim::coin(3)) sim::sleep_us(sim::choose(500)); }
    SIM_ATOMIC; ended++;
  }));
  std::vector<int> peers; int pe = 0;
  for (int i = 0; i < np; i++) peers.push_back(sim::spawn("peer", [&]() {
    Raw r; if (r.connect(srv.ports[0], 3)) { sockaddr_in a; socklen_t l = sizeof a; getsockname(r.fd, (sockaddr*)&a, &l); for (int j = 0; j < 2; j++) if (!r.send(frame(ntohs(a.sin_port), 0, j, sim::choose(50)))) break; r.close(); }
    SIM_ATOMIC; pe++;
  }));
  for (int i = 0, n = (int)sim::choose(3); i < n; i++) c.send(63);
  if (!during_stop) {
    sim::wait_until([&]() { return ended == nsend && pe == np; }, 3000); sim::calm();
    SIM_CHECK(sim::wait_until([&]() { return ended == nsend && pe == np && srv.up(1); }, 60000), "harness", "senders");
    bool ok = sim::wait_until([&]() { return c.pend == 0; }, 60000);
    SIM_CHECK(ok, "message-lost", "%d commands not handled 60 s after they were sent", c.pend);
    // an idle server still reacts
    for (int i = 0; i < 3; i++) { c.budget++; c.send(63); }
    SIM_CHECK(sim::wait_until([&]() { return c.pend == 0; }, 60000), "message-lost", "a command to an idle thread is not handled");
  } else if (sim::coin(2)) sim::sleep_us(sim::choose(3000));
  std::map<std::pair<int, int>, int> sure;
  { SIM_ATOMIC; sure = c.sure; c.stopped = true; }
  srv.s->stop();
  // senders are still active; the api may be used until join
  if (during_stop) { quit = sim::coin(2); sim::wait_until([&]() { return ended == nsend && pe == np; }, 50); sim::calm(); SIM_CHECK(sim::wait_until([&]() { return ended == nsend && pe == np; }, 60000), "harness", "senders"); }
  for (int t : th) sim::join(t);
  for (int t : peers) sim::join(t);
  srv.join_only(60000);
  srv.check_all_closed();
  { SIM_ATOMIC;
    for (auto& s : sure) SIM_CHECK(c.rx[s.first] >= s.second, "message-lost", "thread %d has handled %d commands of sender %d, %d were sent before the stop", s.first.second, c.rx[s.first], s.first.first, s.second);
    int n = 0; for (auto& r : c.rx) n += r.second;
    if (n > 2) sim::nontrivial(); sim::probe("commands handled", (sim::u64)n); }
  srv.destroy(); check_fds();
}
