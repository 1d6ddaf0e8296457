// Shared by the network scenarios: framed streams with full content checking, an instrumented
// TcpServer whose callbacks check the connection life cycle, and raw (harness) TCP peers.
#pragma once
#include "common.h"
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <arpa/inet.h>

namespace scn {

// ---- framed streams ---------------------------------------------------------------
// frame: A5 sender seq(2) len(4) payload. Payload and header depend on (stream, sender, seq), so any
// lost, duplicated, reordered, torn, interleaved or misdirected byte is noticed.
enum { FH = 8 };
inline std::string frame(uint32_t stream, int sender, int seq, uint32_t len) {
  std::string s(FH, 0);
  s[0] = (char)0xA5; s[1] = (char)sender; s[2] = (char)(seq >> 8); s[3] = (char)seq;
  s[4] = (char)(len >> 24); s[5] = (char)(len >> 16); s[6] = (char)(len >> 8); s[7] = (char)len;
  std::string p; fill(p, stream * 4096u + (uint32_t)sender * 64u + (uint32_t)seq * 131071u, 0, len);
  return s + p;
}
struct FrameRx {
  uint32_t stream; std::string buf; std::map<int, int> next; int frames; uint64_t bytes; const char* who;
  FrameRx(uint32_t s = 0, const char* w = "") : stream(s), frames(0), bytes(0), who(w) {}
  void feed(const char* d, size_t n) {
    SIM_ATOMIC;
    buf.append(d, n); bytes += n;
    size_t at = 0;
    while (buf.size() - at >= FH) {
      const unsigned char* h = (const unsigned char*)buf.data() + at;
      SIM_CHECK(h[0] == 0xA5, "stream-corrupt", "%s stream %u: byte %llu is not a message start (lost, duplicated or interleaved bytes)", who, stream, (unsigned long long)(bytes - buf.size() + at));
      int sender = h[1], seq = h[2] << 8 | h[3];
      uint32_t len = (uint32_t)h[4] << 24 | h[5] << 16 | h[6] << 8 | h[7];
      SIM_CHECK(len < 400000, "stream-corrupt", "%s stream %u: message length %u", who, stream, len);
      SIM_CHECK(seq == next[sender], seq < next[sender] ? "stream-duplicate" : "stream-lost", "%s stream %u: message %d of sender %d arrives, expected %d", who, stream, seq, sender, next[sender]);
      if (buf.size() - at < FH + len) { verify(h + FH, buf.size() - at - FH, sender, seq); break; }
      verify(h + FH, len, sender, seq);
      next[sender]++; frames++;
      sim::event("%s rx stream %u sender %d seq %d len %u", who, stream, sender, seq, len);
      at += FH + len;
    }
    buf.erase(0, at);
  }
  void verify(const unsigned char* p, size_t n, int sender, int seq) {
    uint32_t st = stream * 4096u + (uint32_t)sender * 64u + (uint32_t)seq * 131071u;
    for (size_t i = 0; i < n; i++) SIM_CHECK(p[i] == pat(st, i), "stream-corrupt", "%s stream %u: byte %zu of message %d of sender %d differs", who, stream, i, seq, sender);
  }
};
// numbers of messages handed to send(), per stream and sender
struct TxLog {
  std::map<int, int> next; int frames; uint64_t bytes;
  TxLog() : frames(0), bytes(0) {}
};
// kernel buffer size of this run; bounds the message sizes so that a run stays short
inline uint32_t& max_frame() { static uint32_t m; return m; }
inline void pick_sndbuf() {
  static const uint32_t b[] = {65536, 2000, 300, 40, 9, 400000};   // (400000: one read may return more than 64 KB)
  uint32_t n = b[sim::cfg(6)];
  if (n != 65536) sim::set_sndbuf(n);
  max_frame() = n > 65536 ? 220000 : std::min<uint32_t>(90000, n * 60);
}
inline uint32_t frame_len() {
  uint32_t n, m = max_frame() ? max_frame() : 90000;
  switch (sim::choose(8)) {
    case 0: n = 0; break; case 1: n = sim::choose(8); break; case 2: case 3: n = sim::choose(200); break; case 4: case 5: n = sim::choose(1500); break;
    case 6: n = sim::choose(6000); break; default: n = sim::coin(3) ? 60000 + sim::choose(m > 90000 ? 160000 : 30000) : sim::choose(20000);
  }
  return std::min(n, m);
}

// ---- raw peers -----------------------------------------------------------------------
struct Raw {
  int fd; int err; bool eof;
  Raw() : fd(-1), err(0), eof(false) {}
  bool connect(uint16_t port, int tries = 1) {
    for (int i = 0; i < tries; i++) {
      fd = ::socket(AF_INET, SOCK_STREAM, 0);
      if (fd < 0) return false;
      sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      int r;
      do r = ::connect(fd, (sockaddr*)&a, sizeof a); while (r < 0 && errno == EINTR);
      if (r == 0 || errno == EISCONN) return true;
      err = errno;
      ::close(fd); fd = -1;
      if (i + 1 < tries) sim::sleep_us(20000);
    }
    return false;
  }
  // false when the connection broke
  bool send(const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      size_t k = s.size() - at;
      if (sim::coin(3)) k = 1 + sim::choose((uint32_t)std::min<size_t>(k, 300));
      ssize_t r = ::send(fd, s.data() + at, k, MSG_NOSIGNAL);
      if (r < 0) { if (errno == EINTR) continue; err = errno; return false; }
      at += (size_t)r;
    }
    return true;
  }
  // >0 bytes, 0 end of stream, <0 error
  int recv(FrameRx& rx, size_t max = 65536) {
    std::string b(max, 0);
    for (;;) {
      ssize_t r = ::recv(fd, &b[0], max, 0);
      if (r < 0 && errno == EINTR) continue;
      if (r == 0) { eof = true; return 0; }
      if (r < 0) { err = errno; return -1; }
      rx.feed(b.data(), (size_t)r);
      return (int)r;
    }
  }
  void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
  void reset() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; } }
};

// ---- instrumented server ------------------------------------------------------------
struct SConn {
  int id, worker, connected, closed, msgs; thread_id_t tid; TcpConnectionPtr ptr; FrameRx rx; TxLog tx; int last_state; bool in_cb; int peer_port; bool shut; uint64_t closed_at; RingBuf* held;
  SConn() : id(0), worker(-1), connected(0), closed(0), msgs(0), rx(0, "server"), last_state(0), in_cb(false), peer_port(0), shut(false), closed_at(0), held(nullptr) {}
};
struct Srv {
  TcpServer* s; int nw; std::vector<uint16_t> ports;
  std::map<int, SConn*> conns; std::vector<thread_id_t> wtid; std::vector<int> wstarted; int master_started; thread_id_t mtid; Looper* mloop;
  std::vector<Looper*> wloop;
  int live, total; bool consume; bool joined;
  std::function<void(SConn*)> on_conn, on_msg, on_cls;
  std::function<void(int, Packet*)> on_wcmd; std::function<void(Packet*)> on_mcmd; std::function<void(Looper*)> on_mstart; std::function<void(int, Looper*)> on_wstart;
  Srv() : s(new TcpServer()), nw(0), master_started(0), mloop(nullptr), live(0), total(0), consume(true), joined(false) {}
  ~Srv() { for (auto& k : conns) { delete k.second->held; delete k.second; } }

  SConn* look(TcpConnectionPtr c) { auto it = conns.find(c->get_id()); return it == conns.end() ? nullptr : it->second; }
  SConn* by_port(int p) { SIM_ATOMIC; for (auto& k : conns) if (k.second->peer_port == p) return k.second; return nullptr; }
  void see_state(SConn* c) {
    TcpConnection::State st = c->ptr->get_state();
    SIM_ATOMIC;
    SIM_CHECK((int)st >= c->last_state, "state-backwards", "connection %d went from state %d to %d", c->id, c->last_state, (int)st);
    c->last_state = (int)st;
  }
  void common(SConn* c, int idx, const char* what) {
    SIM_ATOMIC;
    SIM_CHECK(idx == c->worker, "wrong-thread", "%s of connection %d reports worker %d, it belongs to %d", what, c->id, idx, c->worker);
    SIM_CHECK(sys_api::thread_get_current_id() == c->tid, "wrong-thread", "%s of connection %d runs on another thread than its worker", what, c->id);
  }
  void setup() {
    s->m_listener.on_master_thread_start = [this](TcpServer* sv, Looper* lp) {
      { SIM_ATOMIC; SIM_CHECK(sv == s && master_started == 0 && lp != nullptr, "master-start", "master start callback: call %d", master_started + 1); master_started++; mtid = sys_api::thread_get_current_id(); mloop = lp; }
      if (on_mstart) on_mstart(lp);
    };
    s->m_listener.on_work_thread_start = [this](TcpServer* sv, int32_t i, Looper* lp) {
      { SIM_ATOMIC; SIM_CHECK(sv == s && i >= 0 && i < nw && lp != nullptr && wstarted[i] == 0, "worker-start", "start callback of worker %d", i); wstarted[i]++; wtid[i] = sys_api::thread_get_current_id(); wloop[i] = lp;
        for (int k = 0; k < nw; k++) SIM_CHECK(k == i || !wstarted[k] || wtid[k] != wtid[i], "worker-start", "two workers on one thread"); }
      if (on_wstart) on_wstart(i, lp);
    };
    s->m_listener.on_work_thread_command = [this](TcpServer* sv, int32_t i, Packet* p) {
      { SIM_ATOMIC; SIM_CHECK(sv == s && i >= 0 && i < nw && sys_api::thread_get_current_id() == wtid[i], "wrong-thread", "command of worker %d handled on another thread", i); }
      if (on_wcmd) on_wcmd(i, p);
    };
    s->m_listener.on_master_thread_command = [this](TcpServer* sv, Packet* p) {
      { SIM_ATOMIC; SIM_CHECK(sv == s && sys_api::thread_get_current_id() == mtid, "wrong-thread", "master command handled on another thread"); }
      if (on_mcmd) on_mcmd(p);
    };
    s->m_listener.on_connected = [this](TcpServer* sv, int32_t i, TcpConnectionPtr c) {
      SConn* k;
      { SIM_ATOMIC;
        SIM_CHECK(sv == s && i >= 0 && i < nw, "wrong-thread", "worker index %d", i);
        SIM_CHECK(!joined, "callback-after-join", "connection callback after join returned");
        SIM_CHECK(wstarted[i] && sys_api::thread_get_current_id() == wtid[i], "wrong-thread", "connected callback on another thread than worker %d", i);
        SIM_CHECK(conns.find(c->get_id()) == conns.end(), "connected-twice", "connection id %d is reported as connected again", c->get_id());
        k = new SConn(); k->id = c->get_id(); k->worker = i; k->tid = wtid[i]; k->ptr = c; k->connected = 1; k->rx = FrameRx(0, "server");
        SIM_CHECK(c->get_state() == TcpConnection::kConnected, "state-wrong", "new connection is in state %d", c->get_state());
        SIM_CHECK(c->get_looper() == wloop[i], "wrong-thread", "connection belongs to another loop");
        SIM_CHECK(c->get_owner() && c->get_owner()->get_connection_owner_type() == TcpConnection::Owner::kServer, "wrong-owner", "owner type");
        k->peer_port = c->get_peer_addr().get_port(); k->last_state = TcpConnection::kConnected;
        SIM_CHECK(k->peer_port == 0 ? !strcmp(c->get_peer_addr().get_ip(), "0.0.0.0") : !strcmp(c->get_peer_addr().get_ip(), "127.0.0.1"), "wrong-address", "peer address %s:%d", c->get_peer_addr().get_ip(), k->peer_port);
        k->in_cb = true; live++; total++; conns[k->id] = k; sim::event("srv connected id=%d worker=%d", k->id, i); }
      if (on_conn) on_conn(k);
      SIM_ATOMIC; k->in_cb = false;
    };
    s->m_listener.on_message = [this](TcpServer*, int32_t i, TcpConnectionPtr c) {
      SConn* k;
      { SIM_ATOMIC; k = look(c);
        SIM_CHECK(k, "message-before-connected", "message callback of connection %d before its connected callback", c->get_id());
        common(k, i, "message");
        SIM_CHECK(!k->closed, "message-after-close", "message callback of connection %d after its close callback", k->id);
        SIM_CHECK(!k->in_cb, "nested-callback", "message callback of connection %d inside another callback", k->id);
        SIM_CHECK(c->get_input_buf().size() > 0, "empty-message", "message callback of connection %d without data", k->id);
        k->msgs++; k->in_cb = true; }
      see_state(k);
      if (consume) take(k);
      if (on_msg) on_msg(k);
      SIM_ATOMIC; k->in_cb = false;
    };
    s->m_listener.on_close = [this](TcpServer*, int32_t i, TcpConnectionPtr c) {
      SConn* k;
      { SIM_ATOMIC; k = look(c);
        SIM_CHECK(k, "close-before-connected", "close callback of connection %d before its connected callback", c->get_id());
        common(k, i, "close");
        SIM_CHECK(!joined, "callback-after-join", "connection callback after join returned");
        SIM_CHECK(k->closed == 0, "closed-twice", "close callback of connection %d called twice", k->id);
        SIM_CHECK(c->get_state() == TcpConnection::kDisconnected, "state-wrong", "connection in state %d in its close callback", c->get_state());
        k->closed++; live--; k->closed_at = sim::now_ns(); sim::event("srv close id=%d", k->id); }
      if (on_cls) on_cls(k);
      SIM_ATOMIC;
    };
  }
  // consume input the way applications do: peek, copy, discard, normalize, move
  void take(SConn* k) {
    RingBuf& rb = k->ptr->get_input_buf();
    for (int guard = 0; guard < 8 && !rb.empty(); guard++) {
      size_t n = rb.size(), m;
      std::string d;
      switch (sim::choose(6)) {
        case 0: { d.resize(n); m = rb.memcpy_out(&d[0], n); break; }
        case 1: { m = 1 + sim::choose((uint32_t)n); d.resize(m); m = rb.memcpy_out(&d[0], m); break; }
        case 2: { d.resize(n); m = rb.peek(0, &d[0], n); rb.discard(m); break; }
        case 3: { m = 1 + sim::choose((uint32_t)n); d.resize(m); m = rb.peek(0, &d[0], m); rb.discard(m); break; }
        case 4: { const char* p = (const char*)rb.normalize(); d.assign(p, n); m = rb.discard(n); break; }
        default: { if (!k->held) k->held = new RingBuf(); m = rb.moveto(*k->held, n); d.resize(m); k->held->memcpy_out(&d[0], m); break; }
      }
      SIM_CHECK(m == d.size() && m > 0, "stream-lost", "input buffer returned %zu bytes of %zu", m, d.size());
      k->rx.feed(d.data(), m);
      if (sim::coin(6)) return;      // leave the rest for the next event
    }
    if (!rb.empty()) { std::string d(rb.size(), 0); size_t m = rb.memcpy_out(&d[0], d.size()); k->rx.feed(d.data(), m); }
  }
  // bytes offered to the application: taken or waiting in the input buffer
  uint64_t offered(SConn* k) { return k->rx.bytes + k->ptr->get_input_buf().size(); }
  // leftover input is only seen at the next message event; the owner thread drains it at the end
  void drain(SConn* k) { RingBuf& rb = k->ptr->get_input_buf(); if (!rb.empty()) { std::string d(rb.size(), 0); size_t m = rb.memcpy_out(&d[0], d.size()); k->rx.feed(d.data(), m); } }

  bool start(int workers, int nports = 1) {
    nw = workers; wtid.resize(nw); wstarted.assign(nw, 0); wloop.assign(nw, nullptr);
    setup();
    for (int i = 0; i < nports; i++) { uint16_t p = (uint16_t)(5000 + i); if (!s->bind(Address(p, true))) return false; ports.push_back(p); }
    return s->start(workers);
  }
  bool up(uint64_t ms = 20000) { return sim::wait_until([this]() { if (!master_started) return false; for (int x : wstarted) if (!x) return false; return true; }, ms); }
  void send(SConn* k, uint32_t stream, int sender, uint32_t len) {
    if (max_frame() && k->tx.bytes > max_frame() * 16ull) len = 0;   // keeps runs with tiny kernel buffers short
    std::string f; { SIM_ATOMIC; f = frame(stream, sender, k->tx.next[sender]++, len); k->tx.frames++; k->tx.bytes += f.size(); }
    k->ptr->send(f.data(), f.size());
  }
  // stop and join, which must end
  void stop_join(uint64_t ms = 60000) {
    s->stop();
    join_only(ms);
  }
  void join_only(uint64_t ms) {
    bool* done = new bool(false);
    int j = sim::spawn("joiner", [this, done]() { s->join(); SIM_ATOMIC; *done = true; joined = true; });
    if (!sim::calmed()) { sim::sleep_us(sim::choose(100000)); sim::calm(); }
    bool ok = sim::wait_until([done]() { return *done; }, ms);
    SIM_CHECK(ok, "join-hangs", "join has not returned %llu s after stop (%d connections without close callback)", (unsigned long long)(ms / 1000), live);
    sim::join(j);
    delete done;
  }
  void check_all_closed() {
    SIM_ATOMIC;
    for (auto& k : conns) {
      SIM_CHECK(k.second->closed == 1, "close-missing", "connection %d: %d close callbacks after join", k.first, k.second->closed);
      SIM_CHECK(k.second->ptr->get_state() == TcpConnection::kDisconnected, "state-wrong", "connection %d in state %d after join", k.first, k.second->ptr->get_state());
    }
  }
  void destroy() {
    for (auto& k : conns) k.second->ptr.reset();
    delete s; s = nullptr;
  }
};
// ---- library client on its own loop thread --------------------------------------------
struct Cli {
  int id, th; Looper* lp; TcpClientPtr c; TcpConnectionPtr conn; uint16_t port; thread_id_t tid; bool started, in_cb, connect_ret, done;
  int pp[2]; Looper::event_id_t pe; std::vector<std::function<void()>> todo; bool quitting;
  int oks, fails, closed, msgs; bool was_ok; FrameRx rx; TxLog tx; bool consume; uint32_t retry_ms; int max_tries; int64_t force_ret; uint64_t fail_at;
  std::function<void(Cli*)> on_start, on_ok, on_fail, on_msg, on_cls;
  Cli(int i = 0) : id(i), th(-1), lp(nullptr), port(0), started(false), in_cb(false), connect_ret(false), done(false), pe(0), quitting(false), oks(0), fails(0), closed(0), msgs(0), was_ok(false), rx(0, "client"), consume(true), retry_ms(0), max_tries(1), force_ret(-1), fail_at(0) {}
  void attach() {
    c = std::make_shared<TcpClient>(lp, this, id);
    c->m_listener.on_connected = [this](TcpClientPtr cl, TcpConnectionPtr cn, bool ok) -> uint32_t {
      { SIM_ATOMIC; SIM_CHECK(cl == c, "wrong-object", "client callback with another client");
        SIM_CHECK(sys_api::thread_get_current_id() == tid, "wrong-thread", "client callback on another thread");
        SIM_CHECK(!was_ok, "connected-after-success", "client %d: connection result reported again after success", id);
        SIM_CHECK(ok == (cn != nullptr), "result-wrong", "client %d: success=%d but connection %s", id, ok, cn ? "given" : "missing");
        in_cb = true;
        if (ok) { was_ok = true; oks++; conn = cn; sim::event("cli %d connected", id); }
        else { fails++; fail_at = sim::now_ns(); sim::event("cli %d connect failed", id); } }
      if (ok) { if (on_ok) on_ok(this); } else if (on_fail) on_fail(this);
      SIM_ATOMIC; in_cb = false;
      if (force_ret >= 0) { uint32_t r = (uint32_t)force_ret; force_ret = -1; return r; }
      return !ok && fails < max_tries ? retry_ms : 0u;
    };
    c->m_listener.on_message = [this](TcpClientPtr cl, TcpConnectionPtr cn) {
      { SIM_ATOMIC; SIM_CHECK(cl == c && cn == conn, "wrong-object", "client message callback with another object");
        SIM_CHECK(sys_api::thread_get_current_id() == tid, "wrong-thread", "client callback on another thread");
        SIM_CHECK(was_ok && !closed, "message-order", "client %d: message callback while not connected (connected %d closed %d)", id, was_ok, closed);
        SIM_CHECK(!in_cb, "nested-callback", "client %d: message callback inside another callback", id);
        SIM_CHECK(cn->get_input_buf().size() > 0, "empty-message", "client %d: message callback without data", id);
        msgs++; in_cb = true; }
      if (consume) { RingBuf& rb = cn->get_input_buf(); std::string d(rb.size(), 0); size_t m = rb.memcpy_out(&d[0], d.size()); rx.feed(d.data(), m); }
      if (on_msg) on_msg(this);
      SIM_ATOMIC; in_cb = false;
    };
    c->m_listener.on_close = [this](TcpClientPtr cl, TcpConnectionPtr cn) {
      { SIM_ATOMIC; SIM_CHECK(cl == c && cn == conn, "wrong-object", "client close callback with another object or before its connected callback");
        SIM_CHECK(sys_api::thread_get_current_id() == tid, "wrong-thread", "client callback on another thread");
        SIM_CHECK(was_ok, "close-before-connected", "client %d: close callback before the connected callback", id);
        SIM_CHECK(closed == 0, "closed-twice", "client %d: close callback twice", id);
        SIM_CHECK(cn->get_state() == TcpConnection::kDisconnected, "state-wrong", "client %d: state %d in the close callback", id, cn->get_state());
        closed++; sim::event("cli %d closed", id); }
      if (on_cls) on_cls(this);
      if (quitting) lp->push_stop_request();
    };
  }
  // runs in its own thread until stop()
  void start(uint16_t p) {
    port = p;
    th = sim::spawn("client", [this]() {
      lp = Looper::create_looper(); tid = sys_api::thread_get_current_id();
      SIM_CHECK(::pipe(pp) == 0, "harness", "pipe");
      { int fl = fcntl(pp[0], F_GETFL, 0); fcntl(pp[0], F_SETFL, fl | O_NONBLOCK); }
      pe = lp->register_event(pp[0], Looper::kRead, nullptr, [this](Looper::event_id_t, socket_t, Looper::event_t, void*) { run_posted(); }, nullptr);
      attach();
      if (on_start) on_start(this);
      else connect_ret = c->connect(Address("127.0.0.1", port));
      started = true;
      lp->loop();
      SIM_CHECK(!c || c->get_connection_state() == TcpConnection::kDisconnected, "state-wrong", "client %d: state %d at the end", id, c->get_connection_state());
      lp->delete_event(pe); ::close(pp[0]); ::close(pp[1]);
      conn.reset(); c.reset();
      Looper::destroy_looper(lp);
      SIM_ATOMIC; lp = nullptr; done = true;
    });
  }
  void send(uint32_t stream, int sender, uint32_t len) {
    std::string f; { SIM_ATOMIC; f = frame(stream, sender, tx.next[sender]++, len); tx.frames++; tx.bytes += f.size(); }
    if (conn) conn->send(f.data(), f.size()); else c->send(f.data(), f.size());
  }
  // run fn in the client's loop thread
  void post(std::function<void()> fn) { { SIM_ATOMIC; todo.push_back(fn); } char b = 1; while (::write(pp[1], &b, 1) < 0 && errno == EINTR) {} }
  void run_posted() {
    char b[16]; while (::read(pp[0], b, sizeof b) > 0) {}
    for (;;) { std::function<void()> f; { SIM_ATOMIC; if (todo.empty()) break; f = todo.front(); todo.erase(todo.begin()); } f(); }
  }
  // end the client the documented way: disconnect, wait for the close callback, leave the loop
  void stop() {
    SIM_CHECK(sim::wait_until([this]() { return started; }, 60000), "harness", "client thread not started");
    post([this]() {
      quitting = true;
      if (c && c->get_connection_state() != TcpConnection::kDisconnected) c->disconnect();
      if (!c || c->get_connection_state() == TcpConnection::kDisconnected) lp->push_stop_request();
    });
    SIM_CHECK(sim::wait_until([this]() { return done; }, 120000), "close-missing", "client %d: no close callback 120 s after disconnect (state %d)", id, c ? (int)c->get_connection_state() : -1);
    sim::join(th);
  }
};
inline void allow_net_timing() {
  sim::allow(sim::F_SHORT_READ); sim::allow(sim::F_SHORT_WRITE); sim::allow(sim::F_WOULDBLOCK_R); sim::allow(sim::F_WOULDBLOCK_W);
  sim::allow(sim::F_EINTR); sim::allow(sim::F_DELAY); sim::allow(sim::F_STALL); sim::allow(sim::F_SMALL_BUF); sim::allow(sim::F_WEAK_CAS);
}
inline void check_fds() {
  SIM_ATOMIC;
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end: %s", sim::open_fds(), sim::describe_fds());
  SIM_CHECK(sim::bad_closes() == 0, "double-close", "%llu descriptors were closed that were not open", (unsigned long long)sim::bad_closes());
}
}  // namespace scn
