// C27: the socks5 proxy (samples/socks5) carries every tunnel completely in both directions.
#include "tunnel.h"
#include <utility/cyu_simple_opt.h>
#include <bits/stdc++.h>
#define main socks5_main
namespace s5_sample {
#include "samples/socks5/s5_protocol.h"
#include "samples/socks5/s5_protocol.cpp"
#include "samples/socks5/s5_main.cpp"
}
#undef main
using namespace scn;

static void start_proxy(int workers) {
  sim::spawn("socks5", [workers]() {
    static char a0[] = "socks5", a1[] = "-p", a2[] = "7002", a3[] = "-t", a4[8]; snprintf(a4, sizeof a4, "%d", workers);
    char* av[] = {a0, a1, a2, a3, a4, nullptr};
    int r = s5_sample::socks5_main(5, av);
    SIM_CHECK(false, "server-ended", "the proxy ended with %d", r);
  });
}
// reads exactly n bytes; false if the connection ended
static bool get(int fd, void* p, size_t n) {
  for (size_t at = 0; at < n;) { ssize_t r = ::recv(fd, (char*)p + at, n - at, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; at += (size_t)r; }
  return true;
}
// a piece at a time
static bool put(Raw& r, const std::string& s, bool torn) {
  for (size_t at = 0; at < s.size();) {
    size_t k = torn ? 1 + sim::choose((uint32_t)std::min<size_t>(s.size() - at, 60)) : s.size() - at;
    if (!r.send(s.substr(at, k))) return false;
    at += k;
    if (torn && at < s.size()) sim::sleep_us(sim::choose(5000));
  }
  return true;
}
static std::string greeting() {
  size_t n = sim::coin(2) ? 1 : 1 + sim::choose(255); std::string s(2 + n, 0);
  s[0] = 5; s[1] = (char)n;
  for (size_t i = 0; i < n; i++) s[2 + i] = (char)(1 + sim::choose(200));
  s[2 + sim::choose((uint32_t)n)] = 0;
  return s;
}
static std::string request(uint16_t port, const char* name) {
  std::string s("\5\1\0", 3);
  if (name) { std::string n = name; if (sim::coin(2)) n = std::string(sim::choose(246), 'h') + n; s += '\3'; s += (char)n.size(); s += n; } else s += std::string("\1\x7f\0\0\1", 5);
  s += (char)(port >> 8); s += (char)port;
  return s;
}

SIM_SCENARIO_W("C27", socks5, 3) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_REFUSE); sim::allow(sim::F_RESOLVE);
  start_proxy(1 + (int)sim::cfg(3));
  Listener* lis = new Listener(7500);
  int n = 1 + (int)sim::choose(3);
  std::vector<Tunnel*> ts;
  for (int i = 0; i < n; i++) ts.push_back(new Tunnel(i + 1));
  std::vector<Tunnel*>* pts = &ts;
  sim::spawn("target", [lis, pts]() {
    for (;;) {
      int fd = lis->accept();
      if (fd < 0) return;
      sim::spawn("target-conn", [fd, pts]() {
        unsigned char id;
        if (!get(fd, &id, 1)) { ::close(fd); return; }
        SIM_CHECK(id >= 1 && id <= pts->size(), "stream-corrupt", "the target was sent a tunnel number %d", id);
        Tunnel* t = (*pts)[id - 1u];
        { SIM_ATOMIC; SIM_CHECK(t->b.raw.fd < 0, "stream-duplicate", "tunnel %d reached the target twice", id); t->b.raw.fd = fd; }
        t->run(t->b, t->a);
        SIM_ATOMIC; t->established = true;
      });
    }
  });
  std::vector<int> th; int* over = new int(0);
  for (int i = 0; i < n; i++) {
    Tunnel* t = ts[i];
    th.push_back(sim::spawn("client", [t, over]() {
      struct Over { int* p; ~Over() { SIM_ATOMIC; ++*p; } } over_guard = {over};
      if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
      auto broken = [&]() { SIM_ATOMIC; t->a.raw.close(); t->refused = true; };
      auto lost = [&](const char* when) { SIM_CHECK(t->excused(), "connection-lost", "client %d was disconnected %s", t->id, when); broken(); };
      if (!t->a.raw.connect(7002, 200)) { lost("while connecting"); return; }
      bool torn = sim::coin(2);
      std::string g = greeting();
      switch (sim::choose(6)) {
        case 0: {                      // gives up in the middle
          std::string all = g + request(7500, nullptr); put(t->a.raw, all.substr(0, sim::choose((uint32_t)g.size())), torn); if (sim::coin(2)) t->a.raw.reset(); broken(); return; }
        case 1: if (sim::coin(2)) {    // does not speak the protocol
          g[0] = (char)(6 + sim::choose(200)); put(t->a.raw, g, torn);
          char b; SIM_CHECK(!get(t->a.raw.fd, &b, 1), "not-refused", "client %d got an answer to a greeting of another protocol", t->id);
          broken(); return; }
          break;
        default: break;
      }
      if (!put(t->a.raw, g, torn)) { lost("while greeting"); return; }
      unsigned char h[2];
      if (!get(t->a.raw.fd, h, 2)) { lost(torn ? "after a greeting in pieces" : "after its greeting"); return; }
      SIM_CHECK(h[0] == 5 && h[1] == 0, "bad-answer", "the answer to the greeting of client %d is %02x %02x", t->id, h[0], h[1]);
      if (sim::coin(8)) { if (sim::coin(2)) t->a.raw.reset(); broken(); return; }
      bool nobody = sim::coin(5), name = sim::coin(3);
      if (sim::coin(7)) {              // a request the proxy cannot fulfil
        std::string q = request(7500, name ? "localhost" : nullptr);
        switch (sim::choose(4)) {
          case 0: q[1] = (char)(2 + sim::choose(250)); break;
          case 1: q[0] = (char)(6 + sim::choose(200)); break;
          case 2: q = std::string("\5\1\0\4", 4) + std::string(16, 7) + std::string("\x1d\x4c", 2); break;
          default: q = request(7500, "invalid"); break;
        }
        put(t->a.raw, q, torn);
        unsigned char r[2]; char b;
        if (get(t->a.raw.fd, r, 2)) { SIM_CHECK(r[0] == 5 && r[1] != 0, "bad-answer", "client %d got %02x %02x for a request which cannot be fulfilled", t->id, r[0], r[1]); while (get(t->a.raw.fd, &b, 1)) {} }
        broken(); return;
      }
      if (!put(t->a.raw, request(nobody ? 7599 : 7500, name ? "localhost" : nullptr), torn)) { lost("while requesting"); return; }
      if (sim::coin(10)) { if (sim::coin(2)) t->a.raw.reset(); broken(); return; }
      unsigned char r[10];
      if (!get(t->a.raw.fd, r, 10)) {
        SIM_CHECK((name && sim::injected(sim::F_RESOLVE)) || t->excused(), "connection-lost", "client %d was disconnected without an answer to its request%s", t->id, torn ? " (sent in pieces)" : "");
        broken(); return;
      }
      SIM_CHECK(r[0] == 5 && r[3] == 1, "bad-answer", "the answer to the request of client %d starts with %02x %02x %02x %02x", t->id, r[0], r[1], r[2], r[3]);
      if (r[1] != 0) {
        SIM_CHECK(nobody || sim::injected(sim::F_CONN_SYNC) || sim::injected(sim::F_REFUSE) || t->excused(), "not-connected", "client %d was refused with %d", t->id, r[1]);
        char b; SIM_CHECK(!get(t->a.raw.fd, &b, 1), "not-refused", "client %d got data after it was refused", t->id);
        broken(); return;
      }
      SIM_CHECK(!nobody, "bad-answer", "client %d was connected to a port nobody listens to", t->id);
      char id = (char)t->id;
      if (!t->a.raw.send(std::string(1, id))) { lost("at the start of its tunnel"); return; }
      t->run(t->a, t->b);
      if (!sim::wait_until([t]() { return t->established || t->a.lost; }, 60000)) SIM_CHECK(t->excused(), "stalled", "tunnel %d did not reach the target", t->id);
      if (!t->established) { { SIM_ATOMIC; t->a.quit = true; } ::shutdown(t->a.raw.fd, SHUT_RDWR); for (int x : t->a.th) sim::join(x); broken(); return; }
      t->finish();
    }));
  }
  sim::sleep_us(sim::choose(60000));
  sim::calm();
  SIM_CHECK(sim::wait_until([over, n]() { return *over == n; }, 400000), "stalled", "a client is neither served nor refused");
  for (int x : th) sim::join(x);
  // targets of clients which gave up leave when they notice
  for (int i = 0; i < 600 && sim::open_fds_kind('s') > 0; i++) {
    sim::sleep_us(100000);
    for (Tunnel* t : ts) if (t->established && t->b.raw.fd >= 0 && !t->b.reading && t->b.done_sending) t->b.raw.close();
  }
  SIM_CHECK(sim::open_fds_kind('s') == 0, "tunnel-left-behind", "%d connections are still open after all clients have left", sim::open_fds_kind('s'));
  // the proxy still serves
  Raw late; std::string g = greeting(); unsigned char h[2];
  SIM_CHECK(late.connect(7002, 50) && put(late, g, false) && get(late.fd, h, 2) && h[1] == 0, "proxy-dead", "the proxy does not answer a new client");
  late.close();
}
