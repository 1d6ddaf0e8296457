// C26: the echo server (samples/echo) answers every request with its upper case, and ends when it is told to.
#include "tunnel.h"
#include <utility/cyu_simple_opt.h>
#include <ctype.h>
#include <bits/stdc++.h>
#define main echo_server_main
namespace echo_sample {
#include "samples/echo/echo_server.cpp"
}
#undef main
using namespace scn;

SIM_SCENARIO_W("C26", echo, 2) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL);
  sim::set_cpus(1 + (int)sim::cfg(4));
  bool* ended = new bool(false);
  int srv = sim::spawn("echo-server", [ended]() {
    char a0[] = "echo_server", a1[] = "-p", a2[] = "7001"; char* av[] = {a0, a1, a2, nullptr};
    int r = echo_sample::echo_server_main(3, av);
    SIM_CHECK(r == 0, "not-started", "the echo server ended with %d", r);
    SIM_ATOMIC; *ended = true;
  });
  int n = 1 + (int)sim::choose(3);
  std::vector<int> th; int* served = new int(0);
  for (int i = 0; i < n; i++) th.push_back(sim::spawn("client", [i, served]() {
    Raw r;
    if (!r.connect(7001, 200)) { SIM_CHECK(sim::injected(sim::F_RST), "not-accepted", "client %d cannot connect", i); return; }
    auto lost = [&]() { SIM_CHECK(sim::injected(sim::F_RST), "connection-lost", "the connection of client %d broke", i); r.close(); };
    int k = 1 + (int)sim::choose(4);
    for (int j = 0; j < k; j++) {
      size_t len = sim::coin(3) ? 255 * (1 + sim::choose(3)) : 1 + sim::choose(sim::coin(3) ? 4000 : 255);   // several lines may come together
      std::string q(len, 'a'), got;
      for (size_t x = 0; x < len; x++) q[x] = (char)('a' + pat((uint32_t)(i * 64 + j), x) % 4);
      if (!r.send(q)) { lost(); return; }
      for (char& c : q) c = (char)toupper(c);
      while (got.size() < len) {
        char b[400]; ssize_t m = ::recv(r.fd, b, sizeof b, 0);
        if (m < 0 && errno == EINTR) continue;
        if (m <= 0) { lost(); return; }
        got.append(b, (size_t)m);
        SIM_CHECK(got.size() <= len && !memcmp(got.data(), q.data(), got.size()), "stream-corrupt", "client %d: the answer to request %d differs", i, j);
      }
      SIM_ATOMIC; ++*served; sim::nontrivial();
    }
    switch (sim::choose(3)) {
      case 0: r.close(); break;
      case 1: r.reset(); break;
      default: {                                  // asks the server to close the connection
        if (!r.send("exit")) { lost(); return; }
        char b[16]; std::string got; ssize_t m;
        for (;;) { m = ::recv(r.fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0) break; got.append(b, (size_t)m); if (got.size() >= 4) break; }
        SIM_CHECK(sim::injected(sim::F_RST) || m == 0 || got == "EXIT", "stream-corrupt", "client %d: exit was answered wrongly", i);
        r.close();
      }
    }
  }));
  if (sim::coin(2)) sim::sleep_us(sim::choose(60000));
  for (int t : th) sim::join(t);
  sim::calm();
  // it is told by several clients at once, and by one more if the word was torn apart on the way
  int m = 1 + (int)sim::choose(3);
  std::vector<Raw*> rs;
  for (int i = 0; i < m; i++) { Raw* r = new Raw(); rs.push_back(r); SIM_CHECK(r->connect(7001, 50), "not-accepted", "nobody can connect any more"); }
  sim::calm(false);
  for (Raw* r : rs) { ssize_t k; do k = ::send(r->fd, "shutdown", 8, MSG_NOSIGNAL); while (k < 0 && errno == EINTR); if (sim::coin(2)) sim::sleep_us(sim::choose(300)); }
  sim::sleep_us(sim::choose(3000));
  sim::calm();
  if (!sim::wait_until([ended]() { return *ended; }, 5000)) {
    Raw r;
    if (r.connect(7001)) { ::send(r.fd, "shutdown", 8, MSG_NOSIGNAL); sim::sleep_us(1000000); r.close(); }
  }
  for (Raw* r : rs) { r->close(); delete r; }
  SIM_CHECK(sim::wait_until([ended]() { return *ended; }, 60000), "server-hangs", "the echo server has not ended 60 s after it was told to");
  sim::join(srv);
  SIM_CHECK(sim::wait_until([]() { return sim::nlive() <= 1; }, 10000), "thread-left", "%d threads are left", sim::nlive());
  check_fds();
}
