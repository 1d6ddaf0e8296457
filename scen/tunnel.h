// Two ends of a tunnel through a proxy program; each sends frames which must arrive at the other end.
#pragma once
#include "common_net.h"
#include <cy_core.h>
#include <cy_crypt.h>
#include <cy_event.h>
#include <cy_network.h>
#include <utility/cyu_simple_opt.h>
#include <utility/cyu_statistics.h>
#include <utility/cyu_string_util.h>
#include <bits/stdc++.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <strings.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
namespace scn {
struct TEnd {
  Raw raw; FrameRx rx; int stream, plan, sent; std::vector<int> th; bool eof, lost, half, done_sending, reading, slow, quit;
  TEnd(int st, const char* who) : rx((uint32_t)st, who), stream(0), plan(0), sent(0), eof(false), lost(false), half(false), done_sending(false), reading(false), slow(false), quit(false) {}
};
struct Tunnel {
  int id; TEnd a, b; bool refused, established; int patience;   // in ms
  explicit Tunnel(int i) : id(i), a(i * 2 + 1, "near end"), b(i * 2, "far end"), refused(false), established(false), patience(60000) { a.stream = i * 2; b.stream = i * 2 + 1; }
  bool excused() const { return sim::injected(sim::F_RST) || sim::injected(sim::F_ACCEPT_ERR); }
  // e.quit: the end has asked for the end of the tunnel (or the other one has)
  void reader(TEnd& e, TEnd& o) {
    for (;;) {
      if (e.slow) sim::sleep_us(1 + sim::choose(3000));
      int r = e.raw.recv(e.rx, e.slow ? 1 + sim::choose(2000) : 65536);
      if (r > 0) continue;
      SIM_ATOMIC;
      if (r == 0) e.eof = true;
      if (!e.quit && !o.quit) { e.lost = true; SIM_CHECK(excused(), "connection-lost", "tunnel %d: the %s was disconnected although nobody left", id, e.rx.who); }
      else if (r < 0) { e.lost = true; SIM_CHECK(excused() || e.half || e.quit, "connection-lost", "tunnel %d: the connection of the %s was reset", id, e.rx.who); }
      e.reading = false;
      return;
    }
  }
  void sender(TEnd& e, TEnd& o) {
    for (int k = 0; k < e.plan; k++) {
      std::string f = frame((uint32_t)e.stream, 1, k, frame_len());
      { SIM_ATOMIC; e.sent++; }
      if (!e.raw.send(f)) { SIM_ATOMIC; e.lost = true; SIM_CHECK(excused() || o.quit || e.quit, "connection-lost", "tunnel %d: the %s cannot send although nobody left", id, e.rx.who); break; }
      if (sim::coin(3)) sim::sleep_us(sim::choose(4000));
    }
    SIM_ATOMIC; e.done_sending = true;
  }
  void run(TEnd& e, TEnd& o, int least = 0) {
    e.plan = least + (int)sim::choose(5); e.slow = sim::coin(4);
    { SIM_ATOMIC; e.reading = true; }
    TEnd *pe = &e, *po = &o;
    e.th.push_back(sim::spawn("reader", [this, pe, po]() { reader(*pe, *po); }));
    e.th.push_back(sim::spawn("sender", [this, pe, po]() { sender(*pe, *po); }));
  }
  bool complete(TEnd& to, TEnd& from) const { return to.lost || from.lost || to.rx.next.count(1) == 0 ? to.lost || from.lost || from.sent == 0 : to.rx.next.find(1)->second == from.sent; }
  // both have sent everything; then one end leaves
  void finish() {
    SIM_CHECK(sim::wait_until([this]() { return (a.done_sending || a.lost) && (b.done_sending || b.lost); }, patience * 2), "stalled", "tunnel %d: an end cannot send any more", id);
    TEnd& l = sim::coin(2) ? a : b; TEnd& r = &l == &a ? b : a;
    bool wait = sim::coin(2);
    if (wait) {
      if (!sim::wait_until([this]() { return complete(a, b) && complete(b, a); }, patience)) {
        SIM_CHECK(complete(b, a), "stream-lost", "tunnel %d: %d messages were sent, the far end has received %d", id, a.sent, b.rx.frames);
        SIM_CHECK(complete(a, b), "stream-lost", "tunnel %d: %d messages were sent, the near end has received %d", id, b.sent, a.rx.frames);
      }
    }
    // (closing a connection which still has input makes the kernel drop what it has not delivered: the other direction is quiet)
    else SIM_CHECK(sim::wait_until([this, &l, &r]() { return complete(l, r); }, patience), "stream-lost", "tunnel %d: %d messages were sent, the %s has received %d", id, r.sent, l.rx.who, l.rx.frames);
    { SIM_ATOMIC; l.quit = true; if (!wait) l.half = true; }
    ::shutdown(l.raw.fd, wait ? SHUT_RDWR : SHUT_WR);
    SIM_CHECK(sim::wait_until([&r]() { return r.eof || r.lost; }, patience), "end-not-passed-on", "tunnel %d: one end has left, the %s is still connected after %d s", id, r.rx.who, patience / 1000);
    SIM_CHECK(complete(r, l) || excused(), "stream-lost", "tunnel %d: %d messages were sent before the end, the %s has received %d of them", id, l.sent, r.rx.who, r.rx.frames);
    { SIM_ATOMIC; r.quit = true; }
    ::shutdown(r.raw.fd, SHUT_RDWR);
    SIM_CHECK(sim::wait_until([&l]() { return !l.reading; }, patience), "end-not-passed-on", "tunnel %d: both ends have left, the %s is still connected after %d s", id, l.rx.who, patience / 1000);
    for (int t : a.th) sim::join(t);
    for (int t : b.th) sim::join(t);
    a.raw.close(); b.raw.close();
    if (!a.lost && !b.lost) sim::nontrivial();
  }
};
struct Listener {
  int fd;
  explicit Listener(uint16_t port) {
    do { fd = ::socket(AF_INET, SOCK_STREAM, 0); } while (fd < 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    SIM_CHECK(::bind(fd, (sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 16) == 0, "harness", "listen");
  }
  int accept() { for (;;) { int k = ::accept(fd, nullptr, nullptr); if (k >= 0) return k; if (errno == EBADF || errno == EINVAL) return -1; sim::sleep_us(1000); } }
  bool ready(int ms) { struct pollfd p = {fd, POLLIN, 0}; return ::poll(&p, 1, ms) > 0; }
};
}  // namespace scn
