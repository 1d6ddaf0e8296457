// C12: outcome of TcpClient::connect, retries, disconnect and messages sent while connecting.
#include "common_net.h"
using namespace scn;

namespace {
// raw listener which accepts everything and checks the bytes of every connection
struct RawSrv {
  int fd, th; uint16_t port; bool stop; int accepted; uint64_t since = 0; std::vector<FrameRx*> rx; std::vector<int> eofs; bool any_end;
  RawSrv() : fd(-1), th(-1), port(6000), stop(false), accepted(0), any_end(false) {}
  void open() {
    do fd = ::socket(AF_INET, SOCK_STREAM, 0); while (fd < 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &on, sizeof on);
    SIM_CHECK(::bind(fd, (sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 16) == 0, "harness", "listen");
    since = sim::now_ns();
    th = sim::spawn("raw-server", [this]() {
      std::vector<int> hs; std::vector<Raw*> raws;
      for (;;) {
        struct pollfd q[20]; int n = 0; q[n].fd = fd; q[n].events = POLLIN; q[n++].revents = 0;
        for (Raw* r : raws) { q[n].fd = r->fd; q[n].events = POLLIN; q[n++].revents = 0; }
        int k = ::poll(q, n, 50);
        if (stop) break;
        if (k <= 0) continue;
        if (q[0].revents) { int c = ::accept(fd, nullptr, nullptr); if (c >= 0) { Raw* r = new Raw(); r->fd = c; raws.push_back(r); SIM_ATOMIC; rx.push_back(new FrameRx(8u, "peer")); accepted++; } }
        for (int i = 1; i < n; i++) if (q[i].revents) { Raw* r = raws[i - 1]; if (r->fd >= 0 && r->recv(*rx[i - 1], 4096) <= 0) r->close(); }
      }
      for (Raw* r : raws) { r->close(); delete r; }
      ::close(fd);
    });
  }
  void end() { if (th >= 0) { { SIM_ATOMIC; stop = true; } sim::join(th); } for (FrameRx* r : rx) delete r; rx.clear(); }
};
}  // namespace

SIM_SCENARIO_W("C12", connect_retry, 6) {
  allow_net_timing(); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_TIMEOUT); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_LATE_TIMER); sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_CLOCK_JUMP);
  static const uint32_t rs[] = {0, 1, 20, 300, 5000, 70000};
  uint32_t retry = rs[sim::cfg(6)]; int tries = (int)sim::choose_range(1, 6);
  int listen_at = (int)sim::choose(4);           // 0 before, 1 late, 2 never, 3 much later
  int cancel = (int)sim::choose(8);              // 0 never, 1 at a random time, 2 in the failed callback, 3 release the client in the failed callback, 4 disconnect and connect again, 5 the same in the failed callback, 6 connect in the failed callback if that is possible, 7 connect while a retry waits
  RawSrv ls;
  if (listen_at == 0) ls.open();
  Cli c(11); c.retry_ms = retry; c.max_tries = tries;
  int cached = 0, after = 0; bool disc = false, released = false; int results_at_disc = 0; bool again = false; int sync_false = 0;
  std::vector<uint64_t> fail_times; uint64_t conn_from = 0, last_at = 0, last_faults = 0;
  auto faults = []() { uint64_t n = 0; for (int f = 0; f < sim::F_NFAULTS; f++) n += sim::injected((sim::Fault)f); return n; };
  // the send cache belongs to the connection being made; disconnect drops it
  auto cache = [&]() { for (uint32_t n = sim::choose(3); n; n--) { c.send(8u, 0, std::min<uint32_t>(frame_len(), 9000)); SIM_ATOMIC; cached++; } };
  auto do_connect = [&]() -> bool {
    for (int i = 0; i < 4; i++) {
      { SIM_ATOMIC; conn_from = last_at = sim::now_ns(); last_faults = faults(); }
      size_t before = c.oks + fail_times.size();
      bool ok = c.c->connect(Address("127.0.0.1", 6000));
      SIM_CHECK(c.oks + fail_times.size() == before, "result-during-connect", "connection result reported inside connect()");
      SIM_CHECK(c.c->get_connection_state() == (ok ? TcpConnection::kConnecting : TcpConnection::kDisconnected), "state-wrong", "connect returned %d, state %d", ok, c.c->get_connection_state());
      SIM_CHECK(c.c->get_server_address().get_port() == 6000 || !ok, "attributes", "server address");
      if (ok) { cache(); return true; }
      SIM_ATOMIC; sync_false++;
    }
    return false;
  };
  bool started_ok = false, start_done = false, ok_done = false;
  c.on_start = [&](Cli*) { bool r = do_connect(); SIM_ATOMIC; started_ok = r; start_done = true; };
  c.on_fail = [&](Cli*) {
    SIM_CHECK(started_ok && (!disc || again), "callback-after-disconnect", "connection result reported after disconnect");
    SIM_CHECK(c.fails <= 1 || again || retry > 0, "unasked-retry", "attempt %d although the callback asked for no retry", c.fails);
    SIM_CHECK(c.fails <= tries || again, "unasked-retry", "attempt %d although the callback asked for no retry after attempt %d", c.fails, tries);
    uint64_t now = sim::now_ns();
    if (!fail_times.empty() && !again) SIM_CHECK(now - fail_times.back() >= (uint64_t)retry * 1000000ull, "retry-early", "result %d comes %llu us after the failure before, the retry delay is %u ms", c.fails, (unsigned long long)(now - fail_times.back()) / 1000, retry);
    // an attempt of which nothing went wrong on the way to a listening server has succeeded
    if (ls.since && ls.since < last_at && faults() == last_faults) sim::fail("false-failure", "failure %d reported although the server listens and no fault occurred during this attempt", c.fails);
    fail_times.push_back(now); last_at = now; last_faults = faults();
    if (cancel == 2 && sim::coin(2)) { c.c->disconnect(); SIM_ATOMIC; disc = true; cached = 0; c.tx = TxLog(); SIM_CHECK(c.c->get_connection_state() == TcpConnection::kDisconnected, "state-wrong", "state after disconnect"); c.fails = c.max_tries; if (sim::coin(2)) c.force_ret = retry; }
    if ((cancel == 5 || (cancel == 6 && c.c->get_connection_state() == TcpConnection::kDisconnected)) && !again && sim::coin(2)) {
      if (cancel == 5) c.c->disconnect();
      { SIM_ATOMIC; again = disc = true; c.fails = 0; if (cancel == 5) { cached = 0; c.tx = TxLog(); } }   // only a disconnect drops what was to be sent
      started_ok = do_connect(); c.force_ret = started_ok && sim::coin(2) ? retry : 0;
      sim::probe("connect in the failed callback");
    }
    if (cancel == 3 && sim::coin(2)) { SIM_ATOMIC; released = true; disc = true; TcpClientPtr p; p.swap(c.c); }
  };
  c.on_ok = [&](Cli*) {
    SIM_CHECK(started_ok && (!disc || again), "callback-after-disconnect", "connection reported after disconnect");
    if (!fail_times.empty() && !again) SIM_CHECK(sim::now_ns() - fail_times.back() >= (uint64_t)retry * 1000000ull, "retry-early", "connected %llu us after the failure before, the retry delay is %u ms", (unsigned long long)(sim::now_ns() - fail_times.back()) / 1000, retry);
    SIM_CHECK(c.c->get_connection_state() == TcpConnection::kConnected, "state-wrong", "state %d after success", c.c->get_connection_state());
    SIM_CHECK(c.conn->get_peer_addr().get_port() == 6000, "result-wrong", "reported as connected to port %d", c.conn->get_peer_addr().get_port());
    for (uint32_t n = sim::choose(3); n; n--) { c.send(8u, 0, std::min<uint32_t>(frame_len(), 9000)); SIM_ATOMIC; after++; }
    SIM_ATOMIC; ok_done = true;
  };
  c.start(6000);
  if (listen_at == 1 || listen_at == 3) { sim::sleep_us(sim::choose(listen_at == 1 ? 30000 : 2000000)); ls.open(); }
  SIM_CHECK(sim::wait_until([&]() { return c.started; }, 60000), "harness", "client thread");
  if (cancel == 1 || cancel == 4) {
    sim::sleep_us(sim::choose(sim::coin(2) ? 2000000 : 20000));
    bool pd = false;
    c.post([&]() {
      bool was = c.was_ok;
      c.c->disconnect();
      if (!was) { SIM_ATOMIC; disc = true; results_at_disc = c.oks + (int)fail_times.size(); cached = 0; c.tx = TxLog(); SIM_CHECK(c.c->get_connection_state() == TcpConnection::kDisconnected, "state-wrong", "state %d after disconnect while not connected", c.c->get_connection_state()); }
      if (!was && cancel == 4) { again = true; c.fails = 0; started_ok = do_connect(); }
      SIM_ATOMIC; pd = true;
    });
    SIM_CHECK(sim::wait_until([&]() { return pd; }, 60000), "stuck", "the client's loop does not run");
    if (disc && cancel == 1) { int r = results_at_disc; sim::sleep_us(6000000); SIM_CHECK(c.oks + (int)fail_times.size() == r, "callback-after-disconnect", "%d connection results after disconnect", c.oks + (int)fail_times.size() - r); sim::nontrivial(); }
  } else if (cancel == 7) {
    for (int i = 0; i < 40 && !c.was_ok && !c.fails; i++) sim::sleep_us(sim::choose(50000));
    sim::sleep_us(sim::choose(sim::coin(2) ? 2000 : 400000));
    bool pd = false;
    c.post([&]() {
      if (c.fails && !c.was_ok && c.c->get_connection_state() == TcpConnection::kDisconnected) {
        { SIM_ATOMIC; again = disc = true; c.fails = 0; }
        started_ok = do_connect(); sim::probe("connect while a retry waits");
      }
      SIM_ATOMIC; pd = true;
    });
    SIM_CHECK(sim::wait_until([&]() { return pd; }, 60000), "stuck", "the client's loop does not run");
  } else if (sim::coin(2)) sim::sleep_us(sim::choose(1000000));
  sim::calm();
  if (cancel == 2 && disc && !released) { int r = c.oks + (int)fail_times.size(); sim::sleep_us(200000 + retry * 2500ull); SIM_CHECK(c.oks + (int)fail_times.size() == r, "callback-after-disconnect", "%d connection results after disconnect", c.oks + (int)fail_times.size() - r); sim::nontrivial(); }
  if (started_ok && (!disc || again) && !c.closed) {
    // every attempt ends (a lost one after the kernel's 127 s) and asked-for retries are made
    uint64_t lim = 140000ull * (uint64_t)(tries + 1) + (uint64_t)retry * 10 * (uint64_t)tries;
    bool ok = sim::wait_until([&]() { if (c.in_cb) return false; return c.was_ok || c.fails >= c.max_tries || (c.fails && !retry) || disc != again || !started_ok; }, lim);
    SIM_CHECK(ok, "no-result", "no final connection result (%d failures, asked for %d attempts, retry delay %u ms)", c.fails, c.max_tries, retry);
    if (!c.was_ok && !released && (!retry || c.fails >= c.max_tries)) { sim::sleep_us(500000); size_t r = fail_times.size(); sim::sleep_us(2000000 + retry * 3000); SIM_CHECK(c.oks + fail_times.size() == r, "unasked-retry", "another attempt after the callback asked for none"); SIM_CHECK(released || c.c->get_connection_state() == TcpConnection::kDisconnected, "state-wrong", "state after the last failure"); }
    if (listen_at == 0 && c.fails == 0 && !disc) SIM_CHECK(c.was_ok, "no-result", "not connected");
    if (c.was_ok && c.tx.frames && !c.closed && cancel != 1 && cancel < 4) {
      SIM_CHECK(sim::wait_until([&]() { return ok_done; }, 60000), "stuck", "the connected callback does not end");
      ok = sim::wait_until([&]() { uint64_t b = 0; for (FrameRx* r : ls.rx) b += r->bytes; return b >= c.tx.bytes; }, 60000);
      SIM_ATOMIC; FrameRx* best = nullptr; for (FrameRx* r : ls.rx) if (!best || r->bytes > best->bytes) best = r;
      SIM_CHECK(best && best->bytes == c.tx.bytes && best->next[0] == cached + after, "cached-lost", "%d messages sent while connecting and %d later, %d arrived", cached, after, best ? best->next[0] : 0);
      if (cached) sim::probe("cached messages delivered", (sim::u64)cached);
    }
    sim::nontrivial();
  }
  { SIM_ATOMIC; if (sync_false) sim::probe("connect failed at once", (sim::u64)sync_false); if (c.fails) sim::probe("failed attempts", (sim::u64)c.fails); if (c.was_ok) sim::probe("successful attempts"); }
  c.stop();
  ls.end();
  check_fds();
}

// A client whose callbacks are not all set: a failed attempt is not repeated, what is sent arrives, ends are noticed.
SIM_SCENARIO_W("C12", callbacks_unset, 2) {
  allow_net_timing(); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_SOCK_ERR);
  bool h1 = sim::coin(2), h2 = sim::coin(2), h3 = sim::coin(2); int okc = 0, fails = 0, closed = 0, got = 0;
  RawSrv ls; bool listening = sim::coin(2); if (listening) ls.open();
  bool done = false;
  int th = sim::spawn("loop", [&]() {
    Looper* lp; sim::calm(); lp = Looper::create_looper(); sim::calm(false);
    for (int round = 0; round < 2; round++) {
      int ok0 = okc, cl0 = closed;
      TcpClientPtr c = std::make_shared<TcpClient>(lp, nullptr, round); TcpConnectionPtr conn;
      if (h1) c->m_listener.on_connected = [&](TcpClientPtr, TcpConnectionPtr cn, bool ok) -> uint32_t { SIM_ATOMIC; if (ok) { okc++; conn = cn; } else fails++; return 0; };
      if (h2) c->m_listener.on_message = [&](TcpClientPtr, TcpConnectionPtr cn) { got += (int)cn->get_input_buf().size(); cn->get_input_buf().reset(); };
      if (h3) c->m_listener.on_close = [&](TcpClientPtr, TcpConnectionPtr) { closed++; };
      bool r = c->connect(Address("127.0.0.1", 6000)); int acc0 = ls.accepted; bool sent = false, was = false, gone = false;
      if (r) { std::string f = frame(8u, 0, 0, 100); c->send(f.data(), f.size()); sent = true; }
      for (int k = 0; k < 400; k++) {
        lp->step();
        TcpConnection::State st = c->get_connection_state();
        if (st == TcpConnection::kConnected) was = true;
        if (st == TcpConnection::kDisconnected) gone = true;
        SIM_CHECK(!(gone && st != TcpConnection::kDisconnected), "unasked-retry", "another attempt is made although no callback asked for one");
        if (r && k > 20 && (was || gone)) { if (was && k > 120) break; if (gone && k > 200) break; }
        if (!r && k > 60) break;
        sim::sleep_us(5000);
      }
      if (was && sent && !gone) {
        sim::calm(); int n = 0;
        for (int k = 0; k < 2000 && !n; k++) { lp->step(); sim::sleep_us(10000); SIM_ATOMIC; for (FrameRx* x : ls.rx) n += x->frames; }
        SIM_CHECK(n >= 1 && ls.accepted >= acc0, "cached-lost", "what was sent while connecting has not arrived"); sim::calm(false);
      }
      if (h1) SIM_CHECK(okc - ok0 == (was ? 1 : 0), "no-result", "connected %d, reported %d", was, okc - ok0);
      if (c->get_connection_state() != TcpConnection::kDisconnected) {
        c->disconnect();
        for (int k = 0; k < 4000 && c->get_connection_state() != TcpConnection::kDisconnected; k++) { lp->step(); sim::sleep_us(20000); if (k == 2000) c->disconnect(); }
        SIM_CHECK(c->get_connection_state() == TcpConnection::kDisconnected, "close-missing", "the client does not close");
      }
      if (h3) SIM_CHECK(closed - cl0 == (was ? 1 : 0), "close-missing", "connected %d, %d close callbacks", was, closed - cl0);
      conn.reset(); c.reset();
      for (int k = 0; k < 2; k++) { lp->step(); sim::sleep_us(60000); }
      if (was) break;                 // the raw server checks one stream
    }
    Looper::destroy_looper(lp);
    SIM_ATOMIC; done = true;
  });
  SIM_CHECK(sim::wait_until([&]() { return done; }, 600000), "stuck", "the client thread does not end");
  sim::join(th); sim::calm(); ls.end(); sim::nontrivial(); (void)fails;
  check_fds();
}
