// C27: the relay pipe (samples/relay) joins two connections, whichever side of each it is, and ends with them.
#include "tunnel.h"
#include <utility/cyu_simple_opt.h>
#include <bits/stdc++.h>
#define main relay_pipe_main
namespace rp_sample {
#include "samples/relay/relay_pipe.cpp"
}
#undef main
using namespace scn;

SIM_SCENARIO_W("C27", relay_pipe, 3) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC);
  bool in[2] = {sim::cfg(2) == 0, sim::cfg(2) == 0};
  static char arg[2][40];
  for (int i = 0; i < 2; i++) snprintf(arg[i], sizeof arg[i], in[i] ? "%d" : "127.0.0.1:%d", 7301 + i);
  bool* ended = new bool(false);
  int prog = sim::spawn("relay_pipe", [ended]() {
    char a0[] = "relay_pipe", a1[] = "-p1", a3[] = "-p2"; char* av[] = {a0, a1, arg[0], a3, arg[1], nullptr};
    int r = rp_sample::relay_pipe_main(5, av);
    SIM_CHECK(r == 0, "not-started", "the relay ended with %d", r);
    SIM_ATOMIC; *ended = true;
  });
  Tunnel* t = new Tunnel(1);
  int* there = new int(0); bool* failed = new bool(false);
  std::vector<int> th;
  for (int i = 0; i < 2; i++) {
    bool incoming = in[i];
    th.push_back(sim::spawn(i ? "far" : "near", [=]() {
      TEnd& e = i ? t->b : t->a; TEnd& o = i ? t->a : t->b;
      if (sim::coin(2)) sim::sleep_us(sim::coin(4) ? 4000000 + sim::choose(3000000) : sim::choose(30000));
      if (incoming) {
        if (!e.raw.connect((uint16_t)(7301 + i), 500)) { SIM_CHECK(t->excused() || *ended, "not-accepted", "the relay does not accept the %s", e.rx.who); SIM_ATOMIC; *failed = true; return; }
      } else {
        Listener l((uint16_t)(7301 + i));
        for (int k = 0; !l.ready(1000) && !*ended; k++) SIM_CHECK(k < 200, "not-connected", "the relay has not connected to the %s for 200 s", e.rx.who);
        if (*ended) { ::close(l.fd); SIM_ATOMIC; *failed = true; return; }
        e.raw.fd = l.accept();
        ::close(l.fd);
        if (e.raw.fd < 0) { SIM_ATOMIC; *failed = true; return; }
      }
      t->run(e, o, 1);
      SIM_ATOMIC; ++*there;
    }));
  }
  sim::sleep_us(sim::choose(60000));
  for (int x : th) sim::join(x);
  // the pipe exists when both directions have carried something
  auto joined_or_lost = [t]() { return (t->a.rx.frames && t->b.rx.frames) || t->a.lost || t->b.lost; };
  if (!*failed && !sim::wait_until(joined_or_lost, 2000)) { sim::calm(); sim::wait_until(joined_or_lost, 120000); sim::calm(false); }
  bool joined = !*failed && t->a.rx.frames && t->b.rx.frames;
  if (!joined) {
    SIM_CHECK(t->excused(), "stalled", "the relay carries nothing between the two ends (%d and %d messages were sent)", t->a.sent, t->b.sent);
    { SIM_ATOMIC; t->a.quit = t->b.quit = true; }
    for (TEnd* e : {&t->a, &t->b}) { if (e->raw.fd >= 0) ::shutdown(e->raw.fd, SHUT_RDWR); for (int x : e->th) sim::join(x); e->raw.close(); }
    return;
  }
  // strangers knock at a port which is taken
  if (sim::coin(2) && (in[0] || in[1])) {
    int k = 1 + (int)sim::choose(3);
    for (int i = 0; i < k; i++) {
      Raw r;
      if (!r.connect((uint16_t)(in[0] ? (in[1] ? 7301 + sim::choose(2) : 7301) : 7302), 1)) continue;
      if (sim::coin(2)) r.send("hello");
      char b; ssize_t m;
      do m = ::recv(r.fd, &b, 1, 0); while (m < 0 && errno == EINTR);
      SIM_CHECK(m <= 0, "stream-corrupt", "a third party received data of the pipe");
      r.close();
    }
  }
  sim::calm();
  t->finish();
  SIM_CHECK(sim::wait_until([ended]() { return *ended; }, 60000), "server-hangs", "the relay has not ended 60 s after both ends were gone");
  sim::join(prog);
  SIM_CHECK(sim::wait_until([]() { return sim::nlive() <= 1; }, 10000), "thread-left", "%d threads are left", sim::nlive());
  check_fds();
}
