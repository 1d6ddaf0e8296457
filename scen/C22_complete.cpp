// C22: the send-complete callback and the statistics of a connection tell the truth about what the kernel accepted.
#include "common_net.h"
using namespace scn;

namespace {
// what one connection (of a server or a client) does with its send-complete callback
struct Sender {
  TcpConnectionPtr c; thread_id_t tid; uint64_t own, all_done, completes, complete_seq, last_send_seq; int chain, in_complete; bool strict, closed, ended_in_cb; int period; uint64_t in_total; size_t max_in; uint64_t done, max_pending, started_in, started_out;
  std::function<void()> more;          // sends one more message on the own thread
  Sender() : own(0), all_done(0), completes(0), complete_seq(0), last_send_seq(0), chain(0), in_complete(0), strict(true), closed(false), ended_in_cb(false), period(0), in_total(0), max_in(0), done(0), max_pending(0), started_in(0), started_out(0) {}
  void attach(TcpConnectionPtr cn, bool stats) {
    c = cn; tid = sys_api::thread_get_current_id();
    if (stats) { period = sim::coin(3) ? 50 : 3600000; c->start_read_statistics(period); c->start_write_statistics(period); if (sim::coin(4)) { c->start_read_statistics(1); c->start_write_statistics(1); } { SIM_ATOMIC; started_out = sim::wire_accepted(c->get_socket()); } }
    c->set_on_send_complete([this](TcpConnectionPtr k) {
      { SIM_ATOMIC;
        SIM_CHECK(k == c && sys_api::thread_get_current_id() == tid, "wrong-thread", "send-complete of another connection or on another thread");
        SIM_CHECK(!closed, "complete-after-close", "send-complete after the close callback");
        SIM_CHECK(k->get_state() == TcpConnection::kConnected || k->get_state() == TcpConnection::kDisconnecting, "state-wrong", "send-complete in state %d", k->get_state());
        uint64_t w = sim::wire_accepted(k->get_socket());
        SIM_CHECK(w >= own, "complete-early", "send-complete although the kernel has accepted %llu of %llu bytes", (unsigned long long)w, (unsigned long long)own);
        if (strict) SIM_CHECK(w == own, "complete-early", "the kernel has accepted %llu bytes, %llu were sent", (unsigned long long)w, (unsigned long long)own);
        completes++; complete_seq = sim::seq(); in_complete++; sim::event("send complete"); }
      if (chain > 0 && k->get_state() == TcpConnection::kConnected) { chain--; for (int i = 0, n = 1 + (int)sim::choose(2); i < n; i++) more(); }
      if (period > 1000 && (completes < 30 || completes % 16 == 0)) { std::pair<size_t, int32_t> s = k->get_write_statistics(); SIM_ATOMIC; uint64_t w = sim::wire_accepted(k->get_socket()) - started_out; SIM_CHECK(s.first == w, "stats-wrong", "write statistics report %zu bytes, the kernel has accepted %llu", s.first, (unsigned long long)w); SIM_CHECK(s.second >= (w ? 1 : 0) && (uint64_t)s.second <= w, "stats-wrong", "%d writes of %llu bytes", s.second, (unsigned long long)w); }
      SIM_ATOMIC; in_complete--;
    });
  }
  void sent(size_t n, bool own_thread) { SIM_ATOMIC; last_send_seq = sim::seq(); all_done += n; if (own_thread) own += n; }
  // the call has returned: what the kernel has not accepted waits, and the next write starts with at least that
  void handed(size_t n) { SIM_ATOMIC; done += n; uint64_t w = sim::wire_accepted(c->get_socket()); if (done > w) max_pending = std::max(max_pending, done - w); }
  // input of this connection, before and after it was consumed
  void input(uint64_t total, size_t waiting) {
    size_t m = c->get_readebuf_max_size();
    SIM_ATOMIC; in_total = total; max_in = std::max(max_in, waiting);
    SIM_CHECK(m >= max_in && m >= 1024, "stats-wrong", "largest input is reported as %zu bytes, %zu were waiting", m, max_in);
    SIM_CHECK(m <= std::max<size_t>(1024, (size_t)total), "stats-wrong", "largest input is reported as %zu bytes, only %llu ever arrived", m, (unsigned long long)total);
  }
  void in_stats(uint64_t total, const char* when) {
    if (!period) { std::pair<size_t, int32_t> z = c->get_read_statistics(); SIM_CHECK(z.first == 0 && z.second == 0, "stats-wrong", "statistics which were not started report %zu", z.first); return; }
    std::pair<size_t, int32_t> s = c->get_read_statistics();
    SIM_ATOMIC; total -= started_in;
    if (period > 1000) { SIM_CHECK(s.first == total, "stats-wrong", "read statistics report %zu bytes %s, %llu arrived", s.first, when, (unsigned long long)total); SIM_CHECK(s.second >= (total ? 1 : 0) && (uint64_t)s.second <= total, "stats-wrong", "%d reads of %llu bytes", s.second, (unsigned long long)total); }
    else SIM_CHECK(s.first <= total, "stats-wrong", "read statistics report %zu bytes %s, %llu arrived", s.first, when, (unsigned long long)total);
  }
};
}

SIM_SCENARIO_W("C22", server_complete, 5) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  pick_sndbuf();
  int nth = sim::coin(2) ? (int)sim::choose_range(1, 2) : 0, msgs = (int)sim::choose_range(1, 6), in = (int)sim::choose(5);
  bool stats = sim::coin(2), end_in_cb = sim::coin(4);
  Srv srv; Sender s; SConn* k = nullptr; s.strict = nth == 0; s.chain = (int)sim::choose(5);
  // own-thread bytes are counted before the call: send-complete can only come afterwards
  auto own_send = [&](int) { std::string f; { SIM_ATOMIC; f = frame(7, 0, k->tx.next[0]++, k->tx.bytes > max_frame() * 4ull ? 0 : frame_len()); k->tx.bytes += f.size(); } s.sent(f.size(), true); k->ptr->send(f.data(), f.size()); s.handed(f.size()); };
  s.more = [&]() { own_send(0); };
  srv.on_conn = [&](SConn* q) { q->rx.stream = 9; s.attach(q->ptr, stats); k = q; for (int i = 0, n = (int)sim::choose(3); i < n; i++) own_send(0); };
  srv.consume = false;
  srv.on_msg = [&](SConn* q) {
    s.input(q->rx.bytes + q->ptr->get_input_buf().size(), q->ptr->get_input_buf().size());
    if (sim::coin(q->msgs < 40 ? 2 : 30)) s.in_stats(srv.offered(q), "in the message callback");
    if (!sim::coin(3)) srv.drain(q);
    if (sim::coin(3) && k->tx.bytes < max_frame() * 4ull) own_send(0);
  };
  srv.on_cls = [&](SConn*) { SIM_ATOMIC; s.closed = true; };
  int todo = msgs; bool closing = false;
  srv.on_wcmd = [&](int, Packet* p) {
    if (p->get_packet_id() == 30) { own_send(0); SIM_ATOMIC; todo--; }
    else { { SIM_ATOMIC; closing = true; } s.in_stats(srv.offered(k), "before the end"); k->ptr->shutdown(); }
  };
  SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
  Raw r; SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "peer %d", r.err);
  SIM_CHECK(sim::wait_until([&]() { return k != nullptr; }, 60000), "connection-missing", "no connection");
  FrameRx rx(7, "peer"); bool rdone = false;
  int rd = sim::spawn("reader", [&]() { while (r.recv(rx, sim::coin(6) ? 1 + sim::choose(20) : 20000) > 0) if (sim::coin(4)) sim::sleep_us(sim::choose(2000)); SIM_ATOMIC; rdone = true; });
  uint64_t insent = 0; bool wdone = false;
  int wr = sim::spawn("writer", [&]() { for (int i = 0; i < in; i++) { std::string f = frame(9, 0, i, std::min<uint32_t>(frame_len(), std::min<uint32_t>(5000, max_frame() / 4))); if (!r.send(f)) break; { SIM_ATOMIC; insent += f.size(); } if (sim::coin(3)) sim::sleep_us(sim::choose(1500)); } SIM_ATOMIC; wdone = true; });
  std::vector<int> th; int ended = 0;
  for (int t = 0; t < nth; t++) th.push_back(sim::spawn("sender", [&, t]() {
    for (int i = 0, n = 1 + (int)sim::choose(4); i < n; i++) {
      std::string f; { SIM_ATOMIC; f = frame(7, 1 + t, k->tx.next[1 + t]++, std::min<uint32_t>(frame_len(), std::min<uint32_t>(3000, max_frame() / 2))); k->tx.bytes += f.size(); }
      s.sent(f.size(), false); k->ptr->send(f.data(), f.size()); s.handed(f.size());
      if (sim::coin(3)) sim::sleep_us(sim::choose(1000));
    }
    SIM_ATOMIC; ended++;
  }));
  for (int i = 0; i < msgs; i++) { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 30, 0, nullptr); srv.s->send_work_message(0, p); Packet::free_packet(p); if (sim::coin(2)) sim::sleep_us(sim::choose(2000)); }
  sim::wait_until([&]() { return ended == nth && wdone && !todo; }, 2000); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return ended == nth && wdone && !todo; }, 60000), "harness", "senders");
  for (int t : th) sim::join(t);
  sim::join(wr);
  // everything is handed over and reported
  bool ok = sim::wait_until([&]() { return !s.in_complete && sim::wire_accepted(k->ptr->get_socket()) == k->tx.bytes && srv.offered(k) == insent && (!k->tx.bytes || s.complete_seq > s.last_send_seq); }, 60000);
  { SIM_ATOMIC;
    uint64_t w = sim::wire_accepted(k->ptr->get_socket());
    SIM_CHECK(!rdone && !k->closed, "closed-by-transient", "the connection was closed");
    SIM_CHECK(w == k->tx.bytes && srv.offered(k) == insent, "stream-lost", "the kernel has accepted %llu of %llu bytes", (unsigned long long)w, (unsigned long long)k->tx.bytes);
    SIM_CHECK(ok, "complete-missing", "no send-complete 60 s after the last message was handed to the kernel"); }
  sim::sleep_us(20000);                  // the thread finishes counting
  size_t wm = k->ptr->get_writebuf_max_size();
  SIM_CHECK(wm >= 1024 && wm <= std::max<uint64_t>(1024, k->tx.bytes), "stats-wrong", "largest output is reported as %zu bytes, %llu were sent", wm, (unsigned long long)k->tx.bytes);
  SIM_CHECK(wm >= s.max_pending, "stats-wrong", "largest output is reported as %zu bytes, %llu were waiting", wm, (unsigned long long)s.max_pending);
  std::pair<size_t, int32_t> st = k->ptr->get_write_statistics();
  if (s.period > 1000) SIM_CHECK(st.first + s.started_out == k->tx.bytes, "stats-wrong", "write statistics report %zu bytes, %llu were sent", st.first, (unsigned long long)k->tx.bytes);
  if (s.period == 50) {      // the window is over
    sim::sleep_us(200000);
    st = k->ptr->get_write_statistics(); SIM_CHECK(st.first == 0 && st.second == 0, "stats-wrong", "write statistics of 50 ms report %zu bytes after 200 ms of silence", st.first);
    st = k->ptr->get_read_statistics(); SIM_CHECK(st.first == 0 && st.second == 0, "stats-wrong", "read statistics of 50 ms report %zu bytes after 200 ms of silence", st.first);
  }
  { SIM_ATOMIC; if (s.completes) sim::nontrivial(); sim::probe("send-complete calls", s.completes); }
  // the connection ends in its send-complete callback, or by a command
  (void)end_in_cb;
  { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 31, 0, nullptr); srv.s->send_work_message(0, p); Packet::free_packet(p); }
  SIM_CHECK(sim::wait_until([&]() { return s.closed && rdone; }, 60000), "close-missing", "the connection does not end");
  sim::join(rd); r.close();
  SIM_CHECK(rx.bytes == k->tx.bytes && rx.buf.empty(), "stream-lost", "%llu of %llu bytes arrived", (unsigned long long)rx.bytes, (unsigned long long)k->tx.bytes);
  s.c.reset();
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}

// sending piece by piece from the send-complete callback, the last callback shuts the connection down
SIM_SCENARIO_W("C22", chained_pieces, 3) {
  allow_net_timing();
  pick_sndbuf();
  bool client_side = sim::coin(2); int pieces = (int)sim::choose_range(1, 8), left = pieces; bool last_with_data = sim::coin(3);
  Srv srv; Cli c(1); SConn* k = nullptr; TcpConnectionPtr cn; uint64_t sent = 0; int seq = 0; bool shut = false; int completes = 0;
  auto piece = [&]() { std::string f; { SIM_ATOMIC; f = frame(3, 0, seq++, std::min<uint32_t>(frame_len(), max_frame() / 8)); sent += f.size(); } cn->send(f.data(), f.size()); };
  auto begin = [&](TcpConnectionPtr x) {
    cn = x;
    x->set_on_send_complete([&](TcpConnectionPtr q) {
      { SIM_ATOMIC; completes++; SIM_CHECK(!shut || q->get_state() == TcpConnection::kDisconnecting, "complete-after-close", "send-complete after the connection was shut down without pending data");
        SIM_CHECK(sim::wire_accepted(q->get_socket()) == sent, "complete-early", "the kernel has accepted %llu of %llu bytes at send-complete", (unsigned long long)sim::wire_accepted(q->get_socket()), (unsigned long long)sent); }
      if (shut) return;
      if (left > 0) { left--; piece(); if (sim::coin(4)) piece(); }
      else { if (last_with_data) piece(); { SIM_ATOMIC; shut = true; } if (client_side) c.c->disconnect(); else q->shutdown(); }
    });
    piece();
  };
  bool drained = false; srv.on_cls = [&](SConn* q) { srv.drain(q); SIM_ATOMIC; drained = true; };
  srv.on_conn = [&](SConn* q) { k = q; q->rx.stream = 3; if (!client_side) begin(q->ptr); };
  SIM_CHECK(srv.start(1) && srv.up(), "start-failed", "server");
  FrameRx rx(3, "peer"); Raw r; int rd = -1; bool rdone = false;
  if (client_side) { c.on_ok = [&](Cli* q) { begin(q->conn); }; c.start(srv.ports[0]); }
  else { SIM_CHECK(r.connect(srv.ports[0], 3), "connect-failed", "peer %d", r.err); rd = sim::spawn("reader", [&]() { while (r.recv(rx, 1 + sim::choose(9000)) > 0) if (sim::coin(4)) sim::sleep_us(sim::choose(2000)); SIM_ATOMIC; rdone = true; }); }
  sim::wait_until([&]() { return shut; }, 3000); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return shut && drained; }, 60000), "complete-missing", "%d of %d pieces sent after 60 s, %d send-complete callbacks", pieces - left, pieces, completes);
  if (client_side) { SIM_CHECK(sim::wait_until([&]() { return c.closed == 1; }, 60000), "close-missing", "no close callback of the client"); SIM_ATOMIC; SIM_CHECK(k->rx.bytes == sent, "stream-lost", "the server got %llu of %llu bytes", (unsigned long long)k->rx.bytes, (unsigned long long)sent); }
  else { SIM_CHECK(sim::wait_until([&]() { return rdone; }, 60000), "close-missing", "no end of stream"); sim::join(rd); SIM_CHECK(rx.bytes == sent && rx.buf.empty() && r.eof, "stream-lost", "the peer got %llu of %llu bytes", (unsigned long long)rx.bytes, (unsigned long long)sent); r.close(); }
  { SIM_ATOMIC; sim::nontrivial(); }
  cn.reset(); if (client_side) c.stop();
  srv.stop_join(); srv.check_all_closed(); srv.destroy(); check_fds();
}
