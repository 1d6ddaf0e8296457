// C23: the socket, pipe and name helpers report what really happened, keep their time and leave nothing behind.
#include "common_net.h"
#include <netinet/tcp.h>
#include <fcntl.h>
using namespace scn;
namespace {
uint64_t inj(std::initializer_list<sim::Fault> l) { uint64_t n = 0; for (auto f : l) n += sim::injected(f); return n; }
sockaddr_in lo(uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
// made without faults: a harness socket
socket_t quiet_listener(uint16_t port) {
  bool c = sim::calmed(); sim::calm();
  socket_t s = ::socket(AF_INET, SOCK_STREAM, IPPROTO_TCP); sockaddr_in a = lo(port);
  if (::bind(s, (sockaddr*)&a, sizeof a) || ::listen(s, 16)) sim::fail("harness", "cannot listen");
  ::fcntl(s, F_SETFL, O_NONBLOCK); sim::calm(c);
  return s;
}
int drain_accept(socket_t l) { bool c = sim::calmed(); sim::calm(); int n = 0; for (;;) { socket_t s = ::accept(l, nullptr, nullptr); if (s < 0) break; ::close(s); n++; } sim::calm(c); return n; }
// the lowest free descriptor of a process that has many open
void busy_process() { if (sim::coin(3)) sim::reserve_fds(100 + (int)sim::choose(3) * 600 + (int)sim::choose(700)); }
}

// check_connect tells within its time whether the other end accepts.
SIM_SCENARIO_W("C23", reachable, 4) {
  sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_TIMEOUT); sim::allow(sim::F_DELAY); sim::allow(sim::F_STALL); sim::allow(sim::F_EINTR); sim::allow(sim::F_CLOCK_JUMP);
  busy_process();
  socket_t l = quiet_listener(1978);
  int n = (int)sim::choose_range(1, 6), yes = 0;
  for (int i = 0; i < n; i++) {
    bool listening = !sim::coin(4);
    static const int T[] = {500, -1, 0, 1, 20, 150, 999, 1000, 1500, 3000, 30000};
    int ms = T[sim::choose(11)];
    sockaddr_in a = lo(listening ? 1978 : 1979), keep = a;
    int fds = sim::open_fds(); uint64_t bad = sim::bad_closes();
    uint64_t hard0 = inj({sim::F_SOCK_ERR, sim::F_CONN_SYNC, sim::F_REFUSE, sim::F_CONN_TIMEOUT}), slow0 = inj({sim::F_DELAY, sim::F_STALL}), sig0 = inj({sim::F_EINTR});
    uint64_t t0 = sim::now_us();
    bool r = socket_api::check_connect(a, ms);
    uint64_t el = sim::now_us() - t0;
    bool hard = inj({sim::F_SOCK_ERR, sim::F_CONN_SYNC, sim::F_REFUSE, sim::F_CONN_TIMEOUT}) != hard0, slow = inj({sim::F_DELAY, sim::F_STALL}) != slow0;
    if (inj({sim::F_EINTR}) != sig0) sim::probe("interrupted check_connect");
    SIM_CHECK(sim::open_fds() == fds, "descriptor-leak", "check_connect leaves %d descriptors open (result %d)", sim::open_fds() - fds, (int)r);
    SIM_CHECK(sim::bad_closes() == bad, "double-close", "check_connect closes a descriptor that is not open");
    SIM_CHECK(!memcmp(&a, &keep, sizeof a), "address-changed", "check_connect changes the address");
    SIM_CHECK(ms < 0 || el <= (uint64_t)ms * 1000 + 50000, "check-late", "check_connect(%d ms) returns after %llu us", ms, (unsigned long long)el);
    if (r) {
      yes++;
      SIM_CHECK(listening, "false-true", "check_connect says yes, but nobody listens there");
      int k = drain_accept(l);
      SIM_CHECK(k == 1, "false-true", "check_connect says yes, %d connections arrived", k);
    } else {
      SIM_CHECK(!listening || hard || (ms >= 0 && el + 1000 >= (uint64_t)ms * 1000), "false-no", "check_connect(%d ms) says no after %llu us although nothing failed", ms, (unsigned long long)el);
      SIM_CHECK(!listening || hard || slow || (ms >= 0 && ms < 500), "false-no", "check_connect(%d ms) says no after %llu us although nothing failed or was slow", ms, (unsigned long long)el);
      sim::sleep_us(5000000); drain_accept(l);
      if (hard) sim::probe("check_connect failed for a reason"); else if (!listening) sim::probe("nobody listened"); else sim::probe("check_connect timed out");
    }
  }
  ::close(l);
  if (yes) sim::nontrivial();
  check_fds();
}

// The local and remote names of a connection, and the modes of a socket.
SIM_SCENARIO_W("C23", names_and_modes, 2) {
  sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_DELAY); sim::allow(sim::F_RST);
  busy_process();
  socket_t l = quiet_listener(2000 + (uint16_t)sim::choose(3));
  sockaddr_in la; SIM_CHECK(socket_api::getsockname(l, la), "name-wrong", "getsockname fails on a bound socket");
  SIM_CHECK(la.sin_addr.s_addr == htonl(INADDR_LOOPBACK), "name-wrong", "address of the listener");
  int n = (int)sim::choose_range(1, 4);
  for (int i = 0; i < n; i++) {
    int fds = sim::open_fds(); uint64_t e0 = inj({sim::F_SOCK_ERR});
    socket_t c = socket_api::create_socket();
    SIM_CHECK((c == INVALID_SOCKET) == (inj({sim::F_SOCK_ERR}) != e0), "create-wrong", "create_socket returns %d, failures injected %d", (int)c, (int)(inj({sim::F_SOCK_ERR}) - e0));
    if (c == INVALID_SOCKET) continue;
    bool nb = sim::coin(2), ce = sim::coin(2), early = sim::coin(2);
    auto modes = [&]() {
      for (int k = 0; k < 3; k++) { bool v = k == 2 ? nb : sim::coin(2); SIM_CHECK(socket_api::set_nonblock(c, v), "mode-wrong", "set_nonblock fails"); SIM_CHECK(((fcntl(c, F_GETFL, 0) & O_NONBLOCK) != 0) == v, "mode-wrong", "set_nonblock(%d) has not set the mode", (int)v); }
      for (int k = 0; k < 3; k++) { bool v = k == 2 ? ce : sim::coin(2); SIM_CHECK(socket_api::set_close_onexec(c, v), "mode-wrong", "set_close_onexec fails"); SIM_CHECK(((fcntl(c, F_GETFD, 0) & FD_CLOEXEC) != 0) == v, "mode-wrong", "set_close_onexec(%d) has not set the mode", (int)v); }
      SIM_CHECK(((fcntl(c, F_GETFL, 0) & O_NONBLOCK) != 0) == nb, "mode-wrong", "the blocking mode is not kept");
    };
    if (early) modes();
    sockaddr_in none; SIM_CHECK(!socket_api::getpeername(c, none), "name-wrong", "an unconnected socket has a peer");
    if (!early) { nb = false; }
    SIM_CHECK(socket_api::connect(c, la), "connect-wrong", "connect to a listener fails");
    socket_t s = INVALID_SOCKET; sockaddr_in ca; memset(&ca, 0, sizeof ca);
    for (int k = 0; k < 500 && (s = ::accept(l, nullptr, nullptr)) < 0; k++) sim::sleep_us(10000);
    if (s >= 0) {
      Address sp(true, s), sl(false, s), cl(false, c);
      SIM_CHECK(socket_api::getsockname(c, ca), "name-wrong", "getsockname fails on a connected socket");
      sockaddr_in pa;
      bool est = false; for (int k = 0; k < 500 && !(est = socket_api::getpeername(c, pa)); k++) sim::sleep_us(10000);
      if (est && !sim::sock_was_reset(c)) {
        Address cp(true, c);
        if (!sim::sock_was_reset(c)) { SIM_CHECK(pa.sin_port == la.sin_port && pa.sin_addr.s_addr == la.sin_addr.s_addr, "name-wrong", "the client's peer is %s:%d", cp.get_ip(), cp.get_port()); SIM_CHECK(cp == Address(la), "name-wrong", "address of the peer"); }
      }
      if (!sim::sock_was_reset(s)) {
        SIM_CHECK(sp == cl && sp.get_port() == ntohs(ca.sin_port) && !strcmp(sp.get_ip(), "127.0.0.1"), "name-wrong", "the server sees %s:%d, the client is %s:%d", sp.get_ip(), sp.get_port(), cl.get_ip(), cl.get_port());
        SIM_CHECK(sl == Address(la) && sl.get_port() == ntohs(la.sin_port), "name-wrong", "local address of the accepted socket");
        Address copy(sp), as; as = sp;
        SIM_CHECK(copy == sp && as == sp && !(copy < sp) && !(sp < copy) && std::hash<Address>()(copy) == std::hash<Address>()(sp) && !strcmp(as.get_ip(), sp.get_ip()), "name-wrong", "a copy of an address differs from it");
        SIM_CHECK((sp < sl) != (sl < sp) || sp == sl, "name-wrong", "two different addresses are not ordered");
        sim::nontrivial();
      }
      ::close(s);
    }
    if (!early) { nb = sim::coin(2); modes(); }
    socket_api::close_socket(c);
    SIM_CHECK(sim::open_fds() == fds, "descriptor-leak", "%d descriptors remain", sim::open_fds() - fds);
  }
  ::close(l);
  check_fds();
}

// Pipes of both kinds are byte queues that never block; a failed creation leaves nothing.
SIM_SCENARIO_W("C23", pipes, 3) {
  sim::allow(sim::F_FD_ERR); sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_ACCEPT_ERR); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_DELAY); sim::allow(sim::F_SHORT_READ); sim::allow(sim::F_SHORT_WRITE); sim::allow(sim::F_WOULDBLOCK_R); sim::allow(sim::F_WOULDBLOCK_W);
  int fds = sim::open_fds(); uint64_t bad = sim::bad_closes();
  bool sock = sim::coin(2); int tries = 0;
  Pipe* p = nullptr; pipe_port_t h[2] = {12345, 12346}; bool ok = false;
  for (; tries < 4 && !ok; tries++) {
    uint64_t e0 = inj({sim::F_FD_ERR, sim::F_SOCK_ERR, sim::F_ACCEPT_ERR, sim::F_CONN_SYNC});
    if (sock) ok = Pipe::construct_socket_pipe(h);
    else { p = new Pipe(); ok = sim::fd_is_open(p->get_read_port()) && sim::fd_is_open(p->get_write_port()); }
    bool failed = inj({sim::F_FD_ERR, sim::F_SOCK_ERR, sim::F_ACCEPT_ERR, sim::F_CONN_SYNC}) != e0;
    SIM_CHECK(ok != failed, "pipe-create", "creation of a pipe %s, failures injected: %d", ok ? "succeeds" : "fails", (int)failed);
    if (ok) { SIM_CHECK(sim::open_fds() == fds + 2, "descriptor-leak", "a pipe uses %d descriptors", sim::open_fds() - fds); break; }
    sim::probe("pipe creation failed");
    if (sock) { SIM_CHECK(h[0] == INVALID_SOCKET && h[1] == INVALID_SOCKET, "pipe-create", "handles %d %d after a failed creation", (int)h[0], (int)h[1]); if (sim::coin(2)) Pipe::destroy_socket_pipe(h); }
    else {
      char c; SIM_CHECK(p->read(&c, 1) < 0 && p->write("x", 1) < 0, "pipe-create", "a pipe that could not be created transfers data");
      delete p; p = nullptr;
    }
    SIM_CHECK(sim::open_fds() == fds, "descriptor-leak", "%d descriptors remain of a pipe that could not be created", sim::open_fds() - fds);
    SIM_CHECK(sim::bad_closes() == bad, "double-close", "a pipe that could not be created closes descriptors that are not its own");
  }
  if (!ok) { check_fds(); return; }
  socket_t rd = sock ? h[0] : p->get_read_port(), wr = sock ? h[1] : p->get_write_port();
  SIM_CHECK((fcntl(rd, F_GETFL, 0) & O_NONBLOCK) && (fcntl(wr, F_GETFL, 0) & O_NONBLOCK), "pipe-blocks", "a pipe end is in blocking mode");
  SIM_CHECK((fcntl(rd, F_GETFD, 0) & FD_CLOEXEC) && (fcntl(wr, F_GETFD, 0) & FD_CLOEXEC), "pipe-inherited", "a pipe end is inherited by child processes");
  uint64_t total = 1 + sim::choose(sim::coin(3) ? 200000 : 4000), sent = 0, got = 0; int empty = 0, full = 0;
  auto wfn = [&]() {
    std::string b;
    while (sent < total) {
      size_t k = 1 + pick_size(9000); if (k > total - sent) k = (size_t)(total - sent);
      fill(b, 7, sent, k);
      ssize_t r = sock ? socket_api::write(wr, b.data(), k) : p->write(b.data(), k);
      int e = socket_api::get_lasterror();
      if (r < 0) { SIM_CHECK(socket_api::is_lasterror_WOULDBLOCK(), "pipe-write", "write fails with %d", e); full++; sim::sleep_us(200 + sim::choose(3000)); continue; }
      SIM_CHECK(r > 0 && (size_t)r <= k, "pipe-write", "%d of %d bytes written", (int)r, (int)k);
      sent += (uint64_t)r;
      if (sim::coin(6)) sim::sleep_us(sim::choose(3000));
    }
  };
  auto rfn = [&]() {
    std::vector<char> b(9000);
    while (got < total) {
      size_t k = 1 + pick_size(8990);
      ssize_t r = sock ? socket_api::read(rd, b.data(), k) : p->read(b.data(), k);
      int e = socket_api::get_lasterror();
      if (r < 0) { SIM_CHECK(socket_api::is_lasterror_WOULDBLOCK(), "pipe-read", "read fails with %d", e); empty++; sim::sleep_us(200 + sim::choose(3000)); continue; }
      SIM_CHECK(r > 0 && (size_t)r <= k, "pipe-read", "%d bytes read, %d wanted", (int)r, (int)k);
      for (ssize_t i = 0; i < r; i++) SIM_CHECK((unsigned char)b[(size_t)i] == pat(7, got + (uint64_t)i), "pipe-data", "byte %llu is wrong", (unsigned long long)(got + (uint64_t)i));
      got += (uint64_t)r;
      if (sim::coin(6)) sim::sleep_us(sim::choose(3000));
    }
  };
  bool wd = false, rdd = false;
  int a = sim::spawn("writer", [&]() { wfn(); SIM_ATOMIC; wd = true; }), c = sim::spawn("reader", [&]() { rfn(); SIM_ATOMIC; rdd = true; });
  sim::sleep_us(sim::choose(100000)); sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return wd && rdd; }, 600000), "pipe-blocks", "%llu bytes written, %llu read of %llu, then nothing moves", (unsigned long long)sent, (unsigned long long)got, (unsigned long long)total);
  sim::join(a); sim::join(c);
  if (full) sim::probe("pipe was full");
  if (empty) sim::probe("pipe was empty");
  if (sock) { Pipe::destroy_socket_pipe(h); SIM_CHECK(h[0] == INVALID_SOCKET && h[1] == INVALID_SOCKET, "pipe-destroy", "handles remain"); Pipe::destroy_socket_pipe(h); } else delete p;
  SIM_CHECK(sim::open_fds() == fds && sim::bad_closes() == bad, "descriptor-leak", "%d descriptors of the pipe remain, %d wrong closes", sim::open_fds() - fds, (int)(sim::bad_closes() - bad));
  sim::nontrivial();
}

// Datagrams arrive whole or not at all, with the address of their sender.
SIM_SCENARIO_W("C23", datagrams, 2) {
  sim::allow(sim::F_SOCK_ERR); sim::allow(sim::F_LOSS); sim::allow(sim::F_DUP); sim::allow(sim::F_DELAY); sim::allow(sim::F_EINTR); sim::allow(sim::F_WOULDBLOCK_W);
  auto mk = [&]() { socket_t s; do s = socket_api::create_socket(true); while (s == INVALID_SOCKET); return s; };
  int n = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 8);
  socket_t rx = mk(); sockaddr_in ra = lo(3000);
  SIM_CHECK(socket_api::bind(rx, ra), "bind-wrong", "cannot bind a datagram socket");
  SIM_CHECK(socket_api::set_nonblock(rx, true), "mode-wrong", "set_nonblock");
  std::vector<socket_t> tx; std::vector<sockaddr_in> from; std::vector<std::vector<uint32_t>> sent((size_t)n), seen((size_t)n);
  for (int i = 0; i < n; i++) { socket_t s = mk(); sockaddr_in a = lo((uint16_t)(3001 + i)); SIM_CHECK(socket_api::bind(s, a), "bind-wrong", "bind"); tx.push_back(s); from.push_back(a); }
  uint64_t got = 0; bool stop = false;
  int r = sim::spawn("receiver", [&]() {
    std::vector<char> b(3000);
    while (!stop) {
      sockaddr_in a; memset(&a, 0xee, sizeof a);
      ssize_t k = socket_api::recvfrom(rx, b.data(), b.size(), a);
      if (k < 0) { SIM_CHECK(socket_api::is_lasterror_WOULDBLOCK() || socket_api::get_lasterror() == EINTR, "recv-wrong", "recvfrom fails with %d", socket_api::get_lasterror()); sim::sleep_us(500); continue; }
      int w = -1; for (int i = 0; i < n; i++) if (a.sin_port == from[(size_t)i].sin_port && a.sin_addr.s_addr == from[(size_t)i].sin_addr.s_addr) w = i;
      SIM_CHECK(w >= 0, "sender-wrong", "a datagram from port %d, which nobody uses", (int)ntohs(a.sin_port));
      SIM_CHECK(k >= 1, "datagram-torn", "empty datagram");
      uint32_t ix = (unsigned char)b[0];
      SIM_CHECK(ix < sent[(size_t)w].size() && (size_t)k == sent[(size_t)w][ix], "datagram-torn", "%d bytes received of a datagram", (int)k);
      for (ssize_t i = 1; i < k; i++) SIM_CHECK((unsigned char)b[(size_t)i] == pat((uint32_t)w * 100 + ix, (uint64_t)i), "datagram-torn", "byte %d of a datagram is wrong", (int)i);
      SIM_ATOMIC; seen[(size_t)w][ix]++; got++;
    }
  });
  int total = 0;
  for (int k = 0; k < per; k++) for (int i = 0; i < n; i++) {
    uint32_t len = 1 + pick_size(2000); std::string b; fill(b, (uint32_t)i * 100 + (uint32_t)k, 0, len); b[0] = (char)k;
    { SIM_ATOMIC; sent[(size_t)i].push_back(len); seen[(size_t)i].push_back(0); }
    ssize_t w; do { w = socket_api::sendto(tx[(size_t)i], b.data(), len, ra); } while (w < 0 && socket_api::is_lasterror_WOULDBLOCK());
    SIM_CHECK(w == (ssize_t)len, "send-wrong", "sendto returns %d of %u", (int)w, len); total++;
    if (sim::coin(3)) sim::sleep_us(sim::choose(3000));
  }
  sim::calm(); sim::sleep_us(2000000); { SIM_ATOMIC; stop = true; } sim::join(r);
  if (!sim::injected(sim::F_LOSS)) for (int i = 0; i < n; i++) for (int k = 0; k < per; k++) SIM_CHECK(seen[(size_t)i][(size_t)k] >= 1, "datagram-lost", "datagram %d of sender %d is lost although the network lost none", k, i);
  if (!sim::injected(sim::F_DUP)) SIM_CHECK(got <= (uint64_t)total, "datagram-twice", "%llu datagrams received, %d sent", (unsigned long long)got, total);
  for (socket_t s : tx) socket_api::close_socket(s);
  socket_api::close_socket(rx);
  if (got) sim::nontrivial();
  check_fds();
}

// Resolving a name fills in the address only, also with mixed address families, and gives the result back.
SIM_SCENARIO_W("C23", resolve, 1) {
  sim::allow(sim::F_RESOLVE);
  int n = (int)sim::choose_range(1, 8);
  for (int i = 0; i < n; i++) {
    static const char* N[] = {"localhost", "www.example.com", "10.1.2.3", "host.invalid", "v6only.example.com", "127.0.0.1", "a.b"};
    uint32_t w = sim::choose(7); sockaddr_in a = lo((uint16_t)sim::choose(65536)); a.sin_addr.s_addr = 0x01020304; sockaddr_in k = a;
    uint64_t e0 = inj({sim::F_RESOLVE});
    bool r = socket_api::resolve_hostname(N[w], a); bool failed = inj({sim::F_RESOLVE}) != e0;
    SIM_CHECK(r == (!failed && w != 3 && w != 4), "resolve-wrong", "resolving %s returns %d", N[w], (int)r);
    SIM_CHECK(a.sin_port == k.sin_port && a.sin_family == k.sin_family, "resolve-wrong", "resolving changes the port or the family");
    if (r) { in_addr want; want.s_addr = htonl(0x0a000001); if (w == 0 || w == 5) want.s_addr = htonl(INADDR_LOOPBACK); if (w == 2) ::inet_pton(AF_INET, N[w], &want); SIM_CHECK(a.sin_addr.s_addr == want.s_addr, "resolve-wrong", "%s resolves to %08x", N[w], ntohl(a.sin_addr.s_addr)); sim::nontrivial(); }
    else SIM_CHECK(a.sin_addr.s_addr == k.sin_addr.s_addr, "resolve-wrong", "a failed resolution changes the address");
    SIM_CHECK(sim::open_addrinfos() == 0, "resolve-leak", "%d results of the resolver are not given back", sim::open_addrinfos());
  }
}

// Socket options: each call sets what it names, on that socket only, and reports it.
SIM_SCENARIO_W("C23", options, 1) {
  enum { N = 4, O = 7 };
  socket_t fd[N]; int want[N][O], lt[N]; memset(want, 0, sizeof want); memset(lt, 0, sizeof lt);
  for (int i = 0; i < N; i++) {
    fd[i] = socket_api::create_socket(i == 3); SIM_CHECK(fd[i] != INVALID_SOCKET, "socket-wrong", "create_socket fails");
    want[i][0] = !!(fcntl(fd[i], F_GETFL, 0) & O_NONBLOCK); want[i][1] = !!(fcntl(fd[i], F_GETFD, 0) & FD_CLOEXEC);
  }
  auto look = [&](int i, int o) -> int {
    int v = 0; socklen_t l = sizeof v; struct linger g = {0, 0}; socklen_t gl = sizeof g;
    switch (o) {
      case 0: return !!(fcntl(fd[i], F_GETFL, 0) & O_NONBLOCK);
      case 1: return !!(fcntl(fd[i], F_GETFD, 0) & FD_CLOEXEC);
      case 2: ::getsockopt(fd[i], SOL_SOCKET, SO_REUSEADDR, &v, &l); return !!v;
      case 3: ::getsockopt(fd[i], SOL_SOCKET, SO_REUSEPORT, &v, &l); return !!v;
      case 4: ::getsockopt(fd[i], SOL_SOCKET, SO_KEEPALIVE, &v, &l); return !!v;
      case 5: ::getsockopt(fd[i], IPPROTO_TCP, TCP_NODELAY, &v, &l); return !!v;
      default: ::getsockopt(fd[i], SOL_SOCKET, SO_LINGER, &g, &gl); SIM_CHECK(g.l_linger == lt[i], "option-wrong", "linger time %d, set to %d", g.l_linger, lt[i]); return !!g.l_onoff;
    }
  };
  static const char* const names[] = {"set_nonblock", "set_close_onexec", "set_reuse_addr", "set_reuse_port", "set_keep_alive", "set_nodelay", "set_linger"};
  for (uint32_t k = 5 + sim::choose(25); k; k--) {
    int i = (int)sim::choose(3), o = (int)sim::choose(O); bool on = sim::coin(2), r = false;
    switch (o) {
      case 0: r = socket_api::set_nonblock(fd[i], on); break;
      case 1: r = socket_api::set_close_onexec(fd[i], on); break;
      case 2: r = socket_api::set_reuse_addr(fd[i], on); break;
      case 3: r = socket_api::set_reuse_port(fd[i], on); break;
      case 4: r = socket_api::set_keep_alive(fd[i], on); break;
      case 5: r = socket_api::set_nodelay(fd[i], on); break;
      default: { uint16_t t = (uint16_t)(1 + sim::choose(60000)); r = socket_api::set_linger(fd[i], on, t); lt[i] = on ? t : 0; }
    }
    want[i][o] = on;
    SIM_CHECK(r, "option-wrong", "%s(%d) fails", names[o], on);
    for (int a = 0; a < N; a++) for (int b = 0; b < O; b++) SIM_CHECK(look(a, b) == want[a][b], "option-wrong", "after %s(socket %d, %d) the setting of %s of socket %d is %d, it should be %d", names[o], i, on, names[b], a, look(a, b), want[a][b]);
  }
  for (int i = 0; i < N; i++) { socket_api::close_socket(fd[i]); 
    bool on = sim::coin(2);
    SIM_CHECK(!socket_api::set_nonblock(fd[i], on) && !socket_api::set_close_onexec(fd[i], on) && !socket_api::set_reuse_addr(fd[i], on) && !socket_api::set_reuse_port(fd[i], on) && !socket_api::set_keep_alive(fd[i], on) &&
              !socket_api::set_nodelay(fd[i], on) && !socket_api::set_linger(fd[i], on, 3), "option-wrong", "an option of a closed socket can be set"); }
  sim::nontrivial(); check_fds();
}

// an address says what it was made from, whatever the memory it is made in held before
SIM_SCENARIO_W("C23", addresses, 1) {
  struct In { uint32_t ip; uint16_t port; Address* a; };
  std::vector<In> v;
  for (int i = 0, n = (int)sim::choose_range(2, 12); i < n; i++) {
    In x; x.ip = sim::coin(3) ? htonl(INADDR_LOOPBACK) : sim::choose(0xffffffffu); x.port = sim::coin(4) ? (uint16_t)(65535 - sim::choose(3)) : (uint16_t)sim::choose(65536);
    if (!v.empty() && sim::coin(3)) { x.ip = v[sim::choose((uint32_t)v.size())].ip; }
    if (!v.empty() && sim::coin(3)) { x.port = v[sim::choose((uint32_t)v.size())].port; }
    unsigned char* b = (unsigned char*)&x.ip; char text[32]; snprintf(text, sizeof text, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]);
    void* mem = ::operator new(sizeof(Address)); memset(mem, (int)sim::choose(256), sizeof(Address));
    sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = x.ip; s.sin_port = htons(x.port);
    switch (sim::choose(5)) {
      case 0: x.a = new (mem) Address(text, x.port); break;
      case 1: x.a = new (mem) Address(s); break;
      case 2: { Address o(s); x.a = new (mem) Address(o); break; }
      case 3: { Address o(s); x.a = new (mem) Address(); SIM_CHECK(x.a->get_port() == 0 && !x.a->get_sockaddr_in().sin_addr.s_addr, "name-wrong", "the empty address has a port or ip"); *x.a = o; break; }
      default: { bool lo = sim::coin(2); x.ip = lo ? htonl(INADDR_LOOPBACK) : 0; x.a = new (mem) Address(x.port, lo); snprintf(text, sizeof text, lo ? "127.0.0.1" : "0.0.0.0"); break; }
    }
    const sockaddr_in& g = x.a->get_sockaddr_in();
    SIM_CHECK(g.sin_family == AF_INET && g.sin_addr.s_addr == x.ip && ntohs(g.sin_port) == x.port && x.a->get_port() == x.port, "name-wrong", "address made from %s:%d has port %d", text, x.port, x.a->get_port());
    SIM_CHECK(!strcmp(x.a->get_ip(), text), "name-wrong", "address made from %s shows the ip %.31s", text, x.a->get_ip());
    v.push_back(x);
  }
  for (auto& p : v) for (auto& q : v) {
    bool same = p.ip == q.ip && p.port == q.port;
    SIM_CHECK((*p.a == *q.a) == same, "name-wrong", "addresses compare %s", same ? "unequal" : "equal");
    SIM_CHECK(!(*p.a < *q.a && *q.a < *p.a) && ((*p.a < *q.a || *q.a < *p.a) == !same), "name-wrong", "addresses have no order");
    if (same) SIM_CHECK(std::hash<Address>()(*p.a) == std::hash<Address>()(*q.a), "name-wrong", "equal addresses have different hash values");
    for (auto& r : v) SIM_CHECK(!(*p.a < *q.a && *q.a < *r.a) || *p.a < *r.a, "name-wrong", "the order of addresses is not transitive");
  }
  for (auto& p : v) { p.a->~Address(); ::operator delete(p.a); }
  sim::nontrivial();
}
