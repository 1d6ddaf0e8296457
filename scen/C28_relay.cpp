// C28: the two halves of the relay (samples/relay) carry every session completely and unmodified over one
// (possibly encrypted) link, refuse what they cannot serve, and a broken peer harms nobody else.
#include "tunnel.h"
#include "samples/relay/relay_protocol.h"
#define main relay_local_main
namespace rl_sample {
#include "samples/relay/relay_local.cpp"
}
#undef main
#define main relay_server_main
namespace rs_sample {
#include "samples/relay/relay_server.cpp"
}
#undef main
using namespace scn;

namespace {
enum { LOCAL = 7601, SERVER = 7602, TARGET = 7603 };

struct Opt { bool enc, stat; int threads; };
void start_half(bool local, Opt o) {
  sim::spawn(local ? "relay_local" : "relay_server", [local, o]() {
    std::vector<std::string> a = {"relay", "-p", std::to_string(local ? LOCAL : SERVER), "-uh", "127.0.0.1", "-up", std::to_string(local ? SERVER : TARGET), "-t", std::to_string(o.threads)};
    if (o.enc) a.push_back("-e");
    if (o.stat) a.push_back("-s");
    std::vector<char*> av; for (std::string& s : a) av.push_back(&s[0]);
    av.push_back(nullptr);
    int r = local ? rl_sample::relay_local_main((int)a.size(), &av[0]) : rs_sample::relay_server_main((int)a.size(), &av[0]);
    SIM_CHECK(false, "server-ended", "a half of the relay ended with %d", r);
  });
}
bool get(int fd, void* p, size_t n) {
  for (size_t at = 0; at < n;) { ssize_t r = ::recv(fd, (char*)p + at, n - at, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; at += (size_t)r; }
  return true;
}
// sessions one end of which leaves in the middle, while the other one is still sending
enum { HASTY = 236, RUDE_CLIENT = 238, RUDE_TARGET };
void flood(Raw& r) { for (int k = 0; k < 30; k++) if (!r.send(std::string(1 + sim::choose(3000), 'r'))) break; }
void leave(Raw& r) {
  std::string some(1 + sim::choose(2000), 0);
  if (sim::coin(2)) { ssize_t m; do m = ::recv(r.fd, &some[0], some.size(), 0); while (m < 0 && errno == EINTR); }
  if (sim::coin(3)) sim::sleep_us(sim::choose(20000));
  if (sim::coin(2)) r.reset(); else r.close();
}
void rude_target(int fd, int id) {
  Raw r; r.fd = fd;
  if (id == RUDE_TARGET) { leave(r); return; }
  flood(r);
  r.close();
}
void rude_client() {
  Raw r; if (!r.connect(LOCAL, 100)) return;
  int id = RUDE_CLIENT + (int)sim::choose(2);
  if (!r.send(std::string(1, (char)id))) { r.close(); return; }
  if (id == RUDE_CLIENT) { leave(r); return; }
  flood(r);
  r.close();
}
// a client which sends and leaves at once, without waiting for anything: all of it arrives, then the end
struct Hasty { std::string data, got; bool left, refused; int ends; Hasty() : left(false), refused(false), ends(0) {} };
std::vector<Hasty*> hasties;
void hasty_client(Hasty* h) {
  Raw r; if (!r.connect(LOCAL, 100)) { SIM_ATOMIC; h->refused = true; return; }
  std::string s(2, (char)HASTY); s[1] = (char)(std::find(hasties.begin(), hasties.end(), h) - hasties.begin());
  for (size_t at = 0; at < h->data.size() || !s.empty();) {
    size_t k = std::min<size_t>(h->data.size() - at, 1 + sim::choose(5000));
    s += h->data.substr(at, k); at += k;
    if (!r.send(s)) { SIM_ATOMIC; h->refused = true; break; }
    s.clear();
  }
  r.close();
  SIM_ATOMIC; h->left = true;
}
void hasty_target(int fd) {
  unsigned char i; if (!get(fd, &i, 1)) { ::close(fd); return; }
  SIM_CHECK(i < hasties.size(), "stream-corrupt", "the target was sent a client number %d", i);
  Hasty* h = hasties[i]; char b[4096];
  for (;;) {
    ssize_t m = ::recv(fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue;
    if (m <= 0) break;
    SIM_ATOMIC; h->got.append(b, (size_t)m);
    SIM_CHECK(h->got.size() <= h->data.size() && !h->data.compare(0, h->got.size(), h->got), "stream-corrupt", "the target received other bytes than client %d sent before it left", i);
  }
  ::close(fd);
  SIM_ATOMIC; h->ends++;
}
// the ends behind the server half
struct Targets {
  Listener* lis; std::vector<Tunnel*>* ts; bool stop;
  void start() {
    sim::spawn("target", [this]() {
      for (;;) {
        int fd = lis->accept();
        if (fd < 0) return;
        sim::spawn("target-conn", [this, fd]() {
          unsigned char id;
          if (!get(fd, &id, 1)) { ::close(fd); return; }
          if (id >= RUDE_CLIENT) { rude_target(fd, id); return; }
          if (id == HASTY) { hasty_target(fd); return; }
          SIM_CHECK(id >= 1 && id <= ts->size(), "stream-corrupt", "the target was sent a tunnel number %d", id);
          Tunnel* t = (*ts)[id - 1u];
          { SIM_ATOMIC; SIM_CHECK(t->b.raw.fd < 0, "stream-duplicate", "tunnel %d reached the target twice", id); t->b.raw.fd = fd; }
          t->run(t->b, t->a);
          SIM_ATOMIC; t->established = true;
        });
      }
    });
  }
};
// one client of the local half: tries again while the two halves have not found each other
bool late_faults;   // connections may fail although both halves have settled
void client(Tunnel* t, const bool* settled) {
  if (sim::coin(2)) sim::sleep_us(sim::choose(200000));
  for (int attempt = 0; attempt < 200; attempt++) {
    bool was_settled = *settled;
    if (sim::coin(6)) {                // one which gives up
      Raw r; if (r.connect(LOCAL, 50)) { if (sim::coin(2)) sim::sleep_us(sim::choose(3000)); if (sim::coin(2)) r.reset(); else r.close(); }
    }
    if (!t->a.raw.connect(LOCAL, 400)) { SIM_CHECK(t->excused() || !was_settled, "not-accepted", "the local half does not accept client %d", t->id); SIM_ATOMIC; t->a.raw.close(); t->refused = true; return; }
    bool gone = !t->a.raw.send(std::string(1, (char)t->id));
    if (!gone) {
      // refused (the end comes) or connected
      for (int k = 0; k < 6000 && !t->established && !gone; k++) {
        struct pollfd p = {t->a.raw.fd, POLLIN, 0};
        if (::poll(&p, 1, 10) > 0) { char b; ssize_t m = ::recv(t->a.raw.fd, &b, 1, MSG_PEEK | MSG_DONTWAIT); if (m == 0 || (m < 0 && errno != EAGAIN && errno != EINTR)) gone = true; else if (m > 0 && !t->established) sim::sleep_us(1000); }
      }
    }
    if (t->established) { t->run(t->a, t->b); t->finish(); return; }
    { SIM_ATOMIC; t->a.raw.close(); }
    if (!gone) { SIM_CHECK(t->excused() || !was_settled, "stalled", "client %d is neither connected to the target nor refused", t->id); SIM_ATOMIC; t->refused = true; return; }
    if (t->b.raw.fd >= 0 || t->excused()) { SIM_ATOMIC; t->refused = true; return; }   // the byte got through (or is still on its way), the rest did not
    if (was_settled) { SIM_CHECK(t->excused() || (late_faults && (sim::injected(sim::F_REFUSE) || sim::injected(sim::F_CONN_SYNC))), "not-connected", "client %d was refused although both halves and the target are up", t->id); SIM_ATOMIC; t->refused = true; return; }
    sim::sleep_us(200000 + sim::choose(1000000));
  }
  SIM_ATOMIC; t->refused = true;
}
}  // namespace

SIM_SCENARIO_W("C28", sessions, 5) {
  sim::set_max_time_s(36000);
  pick_sndbuf(); if (sim::sndbuf() < 40) { sim::set_sndbuf(40); max_frame() = 600; }   // (each byte may cross the link in a packet of its own)
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  bool rough = sim::coin(3);
  if (rough) { sim::allow(sim::F_RST); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); }
  Opt o; o.enc = sim::cfg(3) == 0; o.stat = sim::cfg(3) == 0; o.threads = 1 + (int)sim::cfg(2);
  srand(1 + sim::cfg(1 << 30)); sim::set_rand(sim::cfg(3) ? 3 : 0);       // the keys of encrypted links; short ones cost less time
  Opt o2 = o; o2.threads = 1 + (int)sim::cfg(2);
  bool first = sim::coin(2); const int links = first ? o.threads : o2.threads;
  start_half(first, o);
  if (sim::coin(2)) sim::sleep_us(sim::choose(100000));
  start_half(!first, o2);
  int n = 1 + (int)sim::choose(3);
  std::vector<Tunnel*> ts;
  for (int i = 0; i < n; i++) { ts.push_back(new Tunnel(i + 1)); ts.back()->patience = 1000000; }
  Targets tg = {new Listener(TARGET), &ts, false};
  tg.start();
  bool* settled = new bool(false);
  // (the local half looks for the server half every ten seconds)
  bool early = sim::coin(4); late_faults = early && rough;
  if (early) { sim::calm(); sim::sleep_us(25000000); sim::calm(false); if (rough) sim::allow(sim::F_RST); SIM_ATOMIC; *settled = true; }
  std::vector<int> th; int* over = new int(0);
  for (int i = 0; i < n; i++) {
    Tunnel* t = ts[i];
    th.push_back(sim::spawn("client", [t, over, settled]() { client(t, settled); SIM_ATOMIC; ++*over; }));
  }
  hasties.reserve(8);               // read by other threads while it grows
  for (int i = early || sim::coin(3) ? (int)sim::choose(4) : 0; i > 0; i--) {
    Hasty* h = new Hasty(); fill(h->data, 900 + (uint32_t)i, 0, sim::coin(3) ? sim::choose(3) : sim::choose((uint32_t)std::min<size_t>(20000, max_frame() * 4)));
    { SIM_ATOMIC; hasties.push_back(h); }
    th.push_back(sim::spawn("hasty", [h]() { if (sim::coin(2)) sim::sleep_us(sim::choose(30000)); hasty_client(h); }));
  }
  for (int i = (int)sim::choose(3); i > 0; i--) th.push_back(sim::spawn("rude", [settled]() { if (!*settled && sim::coin(2)) sim::sleep_us(25000000); if (sim::coin(2)) sim::sleep_us(sim::choose(300000)); rude_client(); }));
  sim::sleep_us(sim::choose(60000));
  sim::calm();
  if (!*settled) { sim::sleep_us(25000000); SIM_ATOMIC; *settled = true; }
  SIM_CHECK(sim::wait_until([over, n]() { return *over == n; }, 9000000), "stalled", "a client is neither served nor refused");
  for (int x : th) sim::join(x);
  if (early && !rough) for (Hasty* h : hasties) {
    SIM_CHECK(sim::wait_until([h]() { return h->ends > 0; }, 600000), "end-not-passed-on", "the target has not seen the end of a client which left at once (%zu of %zu bytes)", h->got.size(), h->data.size());
    SIM_CHECK(h->refused || h->got.size() == h->data.size(), "stream-lost", "a client sent %zu bytes and left, %zu arrived", h->data.size(), h->got.size());
  }
  // targets of clients which gave up leave when they notice; only the links between the halves stay
  for (int i = 0; i < 600; i++) {
    bool left = false;
    for (Tunnel* t : ts) if (t->b.raw.fd >= 0) { if (t->established && !t->b.reading && t->b.done_sending) t->b.raw.close(); else left = true; }
    if (!left && sim::open_fds_kind('s') <= 2 * links) break;
    sim::sleep_us(100000);
  }
  SIM_CHECK(sim::open_fds_kind('s') <= 2 * links, "session-left-behind", "%d connections are open after all clients have left, the links between the halves are at most %d", sim::open_fds_kind('s'), 2 * links);
}

// The server half alone: one peer speaks the protocol (without encryption), others do not or break it in the middle.
namespace {
std::string pk(int id, const std::string& body) { std::string s(4, 0); s[0] = (char)(body.size() >> 8); s[1] = (char)body.size(); s[2] = (char)(id >> 8); s[3] = (char)id; return s + body; }
std::string i32(int32_t v) { return std::string((char*)&v, 4); }
bool put(Raw& r, const std::string& s, bool torn) {
  for (size_t at = 0; at < s.size();) {
    size_t k = torn ? 1 + sim::choose((uint32_t)std::min<size_t>(s.size() - at, 60)) : s.size() - at;
    if (!r.send(s.substr(at, k))) return false;
    at += k;
    if (torn && at < s.size()) sim::sleep_us(sim::choose(3000));
  }
  return true;
}
bool get_pk(int fd, int* id, std::string* body) {
  unsigned char h[4];
  if (!get(fd, h, 4)) return false;
  body->assign(h[0] * 256u + h[1], 0); *id = h[2] * 256 + h[3];
  return body->empty() || get(fd, &(*body)[0], body->size());
}
bool handshake(Raw& r, bool torn) {
  int id; std::string b;
  return put(r, pk(RELAY_HANDSHAKE_ID, std::string(sizeof(RelayHandshakeMsg), 0)), torn) && get_pk(r.fd, &id, &b) && id == RELAY_HANDSHAKE_ID && b.size() == sizeof(RelayHandshakeMsg);
}
std::string rubbish() {
  static const int ids[] = {RELAY_HANDSHAKE_ID, RELAY_NEW_SESSION, RELAY_CLOSE_SESSION, RELAY_FORWARD, 0, 7, 65535, 104};
  std::string s;
  for (int k = 1 + (int)sim::choose(4); k > 0; k--) {
    std::string body;
    switch (sim::choose(5)) {
      case 0: break;
      case 1: body = i32((int32_t)sim::choose(4)) + i32(sim::coin(2) ? -1 : 1000000); break;
      case 2: body = i32((int32_t)sim::choose(4)) + i32(60000) + std::string(sim::choose(40), 'x'); break;
      case 3: body = std::string(sim::choose(12), (char)sim::choose(256)); break;
      default: body = i32(77) + i32(16) + std::string(16, 'y'); break;
    }
    s += pk(ids[sim::choose(8)], body);
  }
  return s;
}
}  // namespace

SIM_SCENARIO_W("C28", broken_peers, 3) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  Opt o; o.enc = sim::cfg(4) == 0; o.stat = sim::cfg(3) == 0; o.threads = 1 + (int)sim::cfg(2);
  start_half(false, o);
  Listener* lis = new Listener(TARGET);
  sim::spawn("target", [lis]() {     // an echo which ends with its client
    for (;;) {
      int fd = lis->accept();
      if (fd < 0) return;
      sim::spawn("echo", [fd]() { Raw r; r.fd = fd; char b[4096]; for (;;) { ssize_t m = ::recv(fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0 || !r.send(std::string(b, (size_t)m))) break; } r.close(); });
    }
  });
  int nbad = 1 + (int)sim::choose(3);
  std::vector<int> th;
  for (int i = 0; i < nbad; i++) th.push_back(sim::spawn("broken", [o]() {
    if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
    Raw r; if (!r.connect(SERVER, 200)) return;
    bool torn = sim::coin(2);
    if (!o.enc && sim::coin(2)) {
      if (!handshake(r, torn)) { r.close(); return; }
      int sessions = (int)sim::choose(3);
      for (int k = 0; k < sessions; k++) for (int again = 1 + (int)sim::coin(6); again > 0; again--) put(r, pk(RELAY_NEW_SESSION, i32(k)) + (sim::coin(2) ? pk(RELAY_FORWARD, i32(k) + i32(5) + "hello") : ""), torn);
    } else if (sim::coin(3)) put(r, pk(RELAY_HANDSHAKE_ID, std::string(sizeof(RelayHandshakeMsg), (char)sim::choose(3))), torn);
    put(r, rubbish(), torn);
    if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
    if (sim::coin(2)) put(r, rubbish(), torn);
    if (sim::coin(3)) r.reset();
    else if (sim::coin(2)) r.close();
    else { char b[256]; ::shutdown(r.fd, SHUT_WR); for (;;) { ssize_t m = ::recv(r.fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0) break; } r.close(); }
  }));
  bool after = sim::coin(2);
  if (after) for (int x : th) sim::join(x);
  sim::calm();
  if (sim::coin(3)) {     // a peer of the other mode is let go
    Raw r; int id; std::string b;
    SIM_CHECK(r.connect(SERVER, 400), "not-accepted", "the server half does not accept a link any more");
    put(r, pk(RELAY_HANDSHAKE_ID, std::string(sizeof(RelayHandshakeMsg), o.enc ? 0 : 9)), sim::coin(2));
    SIM_CHECK(!get_pk(r.fd, &id, &b), "wrong-mode", "the server half %s, and answers a peer which does %s with packet %d", o.enc ? "encrypts" : "does not encrypt", o.enc ? "not" : "so", id);
    r.close();
  }
  // a peer which keeps to the protocol, on every work thread
  for (int k = 0; k < o.threads; k++) {
    Raw r;
    SIM_CHECK(r.connect(SERVER, 400), "not-accepted", "the server half does not accept a link any more");
    if (o.enc) {
      int id; std::string b; std::string key(sizeof(RelayHandshakeMsg), 3);
      SIM_CHECK(put(r, pk(RELAY_HANDSHAKE_ID, key), false) && get_pk(r.fd, &id, &b) && id == RELAY_HANDSHAKE_ID, "link-dead", "the server half does not answer a handshake");
    } else {
      SIM_CHECK(handshake(r, false), "link-dead", "the server half does not answer a handshake");
      std::string text = "message " + std::to_string(k), got;
      int32_t sid = 40 + k;
      SIM_CHECK(put(r, pk(RELAY_NEW_SESSION, i32(sid)) + pk(RELAY_FORWARD, i32(sid) + i32((int32_t)text.size()) + text), sim::coin(2)), "link-dead", "the server half has closed a link");
      while (got.size() < text.size()) {
        int id; std::string b;
        SIM_CHECK(get_pk(r.fd, &id, &b), "link-dead", "the server half has closed a link which keeps to the protocol");
        SIM_CHECK(id == RELAY_FORWARD && b.size() > 8, "session-dead", "a session of a link which keeps to the protocol was answered with packet %d of %d bytes", id, (int)b.size());
        SIM_CHECK(b.substr(0, 4) == i32(sid) && b.substr(4, 4) == i32((int32_t)b.size() - 8), "stream-corrupt", "the head of a forwarded packet is wrong");
        got += b.substr(8);
      }
      SIM_CHECK(got == text, "stream-corrupt", "a session returned other bytes than were sent");
    }
    r.close();
  }
  for (int x : th) sim::join(x);
  SIM_CHECK(sim::wait_until([]() { return sim::open_fds_kind('s') == 0; }, 60000), "session-left-behind", "%d connections are open after all links have ended", sim::open_fds_kind('s'));
  sim::nontrivial();
}

// The local half with a server half that breaks the protocol or vanishes: its clients are let go, its threads live on.
SIM_SCENARIO_W("C28", broken_server, 2) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  Opt o; o.enc = sim::cfg(4) == 0; o.stat = sim::cfg(3) == 0; o.threads = 1;
  Listener* lis = new Listener(SERVER);
  start_half(true, o);
  Raw link; link.fd = lis->accept();
  bool torn = sim::coin(2), shaken = false;
  if (sim::coin(4)) put(link, rubbish(), torn);
  else {
    int id; std::string b;
    SIM_CHECK(get_pk(link.fd, &id, &b) && id == RELAY_HANDSHAKE_ID && b.size() == sizeof(RelayHandshakeMsg), "no-handshake", "the local half does not start with a handshake");
    bool key = b.find_first_not_of('\0') != std::string::npos;
    SIM_CHECK(key == o.enc, "no-handshake", "the local half %s a key", key ? "sends" : "does not send");
    put(link, pk(RELAY_HANDSHAKE_ID, std::string(sizeof(RelayHandshakeMsg), o.enc ? 5 : 0)), torn);
    shaken = true;
  }
  if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
  Raw c; int32_t sid = -1; bool up = false;
  SIM_CHECK(c.connect(LOCAL, 400), "not-accepted", "the local half does not accept a client");
  if (shaken) {
    // (the client may come before the answer to the handshake: it is refused then)
    struct pollfd p = {link.fd, POLLIN, 0};
    int k = 0; for (; k < 50 && ::poll(&p, 1, 100) <= 0; k++) {}
    if (k < 50) {
      int id; std::string b;
      SIM_CHECK(get_pk(link.fd, &id, &b) && id == RELAY_NEW_SESSION && b.size() == 4, "no-session", "the local half does not announce its client");
      memcpy(&sid, b.data(), 4); up = true;
    }
  }
  std::string sent, got; bool eof = false;
  std::string* pgot = &got; bool* peof = &eof;
  int fd = c.fd;
  int rd = sim::spawn("reader", [=]() { char b[512]; for (;;) { ssize_t m = ::recv(fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; SIM_ATOMIC; if (m <= 0) { *peof = true; return; } pgot->append(b, (size_t)m); } });
  if (up && !o.enc) for (int k = (int)sim::choose(4); k > 0; k--) { std::string d(1 + sim::choose(300), (char)('a' + k)); sent += d; put(link, pk(RELAY_FORWARD, i32(sid) + i32((int32_t)d.size()) + d + std::string(sim::choose(3), '?')), torn); }
  bool broke = sim::coin(2);
  if (broke) put(link, rubbish(), torn);
  sim::calm();
  bool alien = sim::coin(2);
  if (alien) {       // certainly not a packet of this protocol: the client is let go although the link is still there
    static const int ids[] = {0, 7, 99, 104, 65535};
    put(link, pk(ids[sim::choose(5)], std::string(sim::choose(12), (char)sim::choose(256))), torn);
    SIM_CHECK(sim::wait_until([peof]() { return *peof; }, 60000), "end-not-passed-on", "the link has carried a packet of another protocol, the client is still connected after 60 s");
  }
  bool orderly = sim::coin(2);
  if (orderly) { ::shutdown(link.fd, SHUT_WR); char b[256]; for (;;) { ssize_t m = ::recv(link.fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0) break; } }
  link.close();
  SIM_CHECK(sim::wait_until([peof]() { return *peof; }, 60000), "end-not-passed-on", "the link is gone, the client is still connected after 60 s");
  SIM_CHECK(got.compare(0, sent.size(), sent) == 0 || sent.compare(0, got.size(), got) == 0, "stream-corrupt", "the client received bytes which were not sent");
  SIM_CHECK(broke || alien || !orderly || got == sent, "stream-lost", "the link has ended in order after %d bytes for the client, %d arrived", (int)sent.size(), (int)got.size());
  sim::join(rd); c.close();
  for (int k = 0; k < 2; k++) {   // the half is alive: later clients are accepted and let go
    Raw r; char b; ssize_t m;
    SIM_CHECK(r.connect(LOCAL, 400), "not-accepted", "the local half does not accept a client any more");
    bool* gone = new bool(false); int rf = r.fd;
    int w = sim::spawn("late", [=]() { char x; ssize_t n; do n = ::recv(rf, &x, 1, 0); while (n < 0 && errno == EINTR); SIM_ATOMIC; *gone = true; });
    SIM_CHECK(sim::wait_until([gone]() { return *gone; }, 60000), "half-dead", "the local half has lost its link and neither serves nor refuses a client");
    sim::join(w); r.close(); (void)b; (void)m;
  }
  if (up) sim::nontrivial();
}

// Two halves of different modes refuse each other: clients are let go and nothing reaches the target.
SIM_SCENARIO_W("C28", modes_differ, 1) {
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  Opt o; o.enc = sim::coin(2); o.stat = false; o.threads = 1 + (int)sim::cfg(2);
  Opt o2 = o; o2.enc = !o.enc; o2.threads = 1;
  Listener* lis = new Listener(TARGET);
  bool first = sim::coin(2);
  start_half(first, o); if (sim::coin(2)) sim::sleep_us(sim::choose(100000)); start_half(!first, o2);
  for (int i = 1 + (int)sim::choose(4); i > 0; i--) {
    if (sim::coin(2)) sim::sleep_us(sim::choose(15000000));
    Raw r;
    SIM_CHECK(r.connect(LOCAL, 400), "not-accepted", "the local half does not accept a client");
    if (sim::coin(2)) r.send("x");
    bool* gone = new bool(false); int rf = r.fd;
    int w = sim::spawn("late", [=]() { char x; ssize_t n; do n = ::recv(rf, &x, 1, 0); while (n < 0 && errno == EINTR); SIM_ATOMIC; *gone = true; });
    SIM_CHECK(sim::wait_until([gone]() { return *gone; }, 60000), "half-dead", "one half encrypts, the other one does not: a client is neither served nor refused");
    sim::join(w); r.close();
    SIM_CHECK(!lis->ready(0), "modes-mixed", "one half encrypts, the other one does not: a session has reached the target");
  }
  sim::calm(); sim::sleep_us(30000000);
  SIM_CHECK(!lis->ready(0), "modes-mixed", "one half encrypts, the other one does not: a session has reached the target");
  SIM_CHECK(sim::open_fds_kind('s') <= 2, "session-left-behind", "%d connections are open after all clients have left", sim::open_fds_kind('s'));
  sim::nontrivial();
}

// Hundreds of short sessions over one link: the numbers of sessions grow, nothing else does.
SIM_SCENARIO_W("C28", many_sessions, 1) {
  Opt o; o.enc = sim::cfg(2) == 0; o.stat = false; o.threads = 1;
  Listener* lis = new Listener(TARGET);
  sim::spawn("target", [lis]() {
    for (;;) {
      int fd = lis->accept();
      if (fd < 0) return;
      Raw r; r.fd = fd; std::string t; char c;
      while (get(fd, &c, 1)) { t += c; if (c == '.') { r.send(t); break; } }
      r.close();
    }
  });
  start_half(false, o); start_half(true, o);
  sim::sleep_us(25000000);
  int n = sim::cfg(50) == 1 ? 257 + (int)sim::choose(4) : 2 + (int)sim::choose(10);   // (session numbers of more than one byte)
  for (int i = 0; i < n; i++) {
    Raw r; std::string text(1 + (size_t)i % 20, (char)('a' + i % 26)), got; text += '.';
    SIM_CHECK(r.connect(LOCAL, 400) && r.send(text), "not-accepted", "the local half does not accept client %d", i);
    char b[64]; for (;;) { ssize_t m = ::recv(r.fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0) break; got.append(b, (size_t)m); }
    SIM_CHECK(got == text, got.size() == text.size() ? "stream-corrupt" : "stream-lost", "session %d: %d bytes were sent, %d came back", i, (int)text.size(), (int)got.size());
    r.close();
  }
  SIM_CHECK(sim::wait_until([]() { return sim::open_fds_kind('s') <= 2; }, 60000), "session-left-behind", "%d connections are open after all clients have left", sim::open_fds_kind('s'));
  sim::nontrivial();
}
