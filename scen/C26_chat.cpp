// C26: the chat server (samples/chat) broadcasts every packet of every participant to every participant.
#include "tunnel.h"
#include <utility/cyu_simple_opt.h>
#include <bits/stdc++.h>
#define main chat_server_main
namespace chat_sample {
#include "samples/chat/chat_server.cpp"
}
#undef main
using namespace scn;

namespace {
struct Member {
  Raw raw; int id, plan, sent; bool joined, gone, broken, half, reader_done, leaving; uint64_t first_rx;
  std::vector<uint64_t> sent_at;                    // start of each send
  std::map<int, std::pair<int, int>> got;           // sender -> first, next expected
  std::string buf;
  Member() : id(0), plan(0), sent(0), joined(false), gone(false), broken(false), half(false), reader_done(false), leaving(false), first_rx(0) {}
};
std::string packet(int sender, int seq, uint32_t len) {
  std::string f = frame(7, sender, seq, len);
  std::string p(4, 0); p[0] = (char)(f.size() >> 8); p[1] = (char)f.size(); p[2] = (char)(sender >> 8); p[3] = (char)(0x40 + sender);
  return p + f;
}
void feed(Member* m, const char* d, size_t n) {
  SIM_ATOMIC;
  m->buf.append(d, n);
  size_t at = 0;
  while (m->buf.size() - at >= 4) {
    const unsigned char* h = (const unsigned char*)m->buf.data() + at;
    size_t len = (size_t)h[0] << 8 | h[1];
    if (m->buf.size() - at < 4 + len) break;
    SIM_CHECK(len >= FH && h[4] == 0xA5, "stream-corrupt", "participant %d received a packet nobody sent (%zu bytes)", m->id, len);
    int s = h[5], q = h[6] << 8 | h[7];
    uint32_t fl = (uint32_t)h[8] << 24 | h[9] << 16 | h[10] << 8 | h[11];
    SIM_CHECK(fl + FH == len, "stream-corrupt", "participant %d received a packet of %zu bytes which was sent with %u", m->id, len, fl + FH);
    std::string want = packet(s, q, fl);
    SIM_CHECK(!memcmp(want.data(), h, 4 + len), "stream-corrupt", "participant %d received packet %d of %d with other bytes than sent", m->id, q, s);
    auto it = m->got.find(s);
    if (it == m->got.end()) m->got[s] = {q, q + 1};
    else {
      SIM_CHECK(q == it->second.second, q < it->second.second ? "stream-duplicate" : "stream-lost", "participant %d received packet %d of %d, expected %d", m->id, q, s, it->second.second);
      it->second.second++;
    }
    if (!m->first_rx) m->first_rx = sim::now_ns();
    m->joined = true;
    sim::event("participant %d got packet %d of %d", m->id, q, s);
    at += 4 + len;
  }
  m->buf.erase(0, at);
}
}

SIM_SCENARIO_W("C26", chat_room, 3) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_ACCEPT_ERR);
  sim::set_cpus(1 + (int)sim::cfg(4));
  sim::spawn("chat-server", []() {
    char a0[] = "chat_server", a1[] = "-p", a2[] = "7000"; char* av[] = {a0, a1, a2, nullptr};
    int r = chat_sample::chat_server_main(3, av);
    SIM_CHECK(false, "server-ended", "the chat server ended with %d", r);
  });
  int n = 2 + (int)sim::choose(3);
  std::vector<Member*> ms;
  std::vector<int> th;
  for (int i = 0; i < n; i++) {
    Member* m = new Member(); m->id = i + 1; m->plan = 1 + (int)sim::choose(5); ms.push_back(m);
    // 0: stays; 1: ends its own direction and reads on; 2: closes; 3: resets
    int how = i == 0 ? 0 : (int)sim::choose(4);
    th.push_back(sim::spawn("participant", [m, how]() {
      if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
      if (!m->raw.connect(7000, 200)) { SIM_ATOMIC; m->broken = true; m->reader_done = true; return; }
      bool slow = sim::coin(3);
      int rd = sim::spawn("reader", [m, slow]() {
        std::string b(70000, 0);
        for (;;) {
          if (slow) sim::sleep_us(1 + sim::choose(3000));
          ssize_t r = ::recv(m->raw.fd, &b[0], slow ? 1 + sim::choose(2000) : b.size(), 0);
          if (r < 0 && errno == EINTR) continue;
          if (r <= 0) {
            SIM_ATOMIC;
            if (!m->leaving) {
              if (sim::injected(sim::F_RST) || sim::injected(sim::F_ACCEPT_ERR)) m->broken = true;
              else SIM_CHECK(m->half && r == 0, "connection-lost", "the connection of participant %d broke", m->id);
            }
            m->reader_done = true; return;
          }
          feed(m, b.data(), (size_t)r);
        }
      });
      for (int k = 0; k < m->plan; k++) {
        uint32_t len = std::min<uint32_t>(frame_len(), 60000);
        std::string p = packet(m->id, k, len);
        { SIM_ATOMIC; m->sent_at.push_back(sim::now_ns()); }
        if (!m->raw.send(p)) { SIM_ATOMIC; m->broken = true; break; }
        { SIM_ATOMIC; m->sent++; }
        if (sim::coin(3)) sim::sleep_us(sim::choose(5000));
      }
      if (how == 1) { { SIM_ATOMIC; m->half = true; } ::shutdown(m->raw.fd, SHUT_WR); }
      else if (how >= 2) {
        { SIM_ATOMIC; m->gone = true; m->leaving = true; }
        if (how == 3) sim::rst_fd(m->raw.fd);
        ::shutdown(m->raw.fd, SHUT_RDWR);
      }
      sim::join(rd);
    }));
  }
  // the senders end by themselves; calm after a while
  sim::sleep_us(sim::choose(60000));
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { for (Member* m : ms) if (!m->broken && !m->gone && m->sent < m->plan) return false; return true; }, 120000),
            "not-accepted", "a participant cannot send to the server any more");
  // a participant which joins now must be served
  Member* late = new Member(); late->id = n + 1;
  {
    SIM_CHECK(late->raw.connect(7000, 50), "not-accepted", "nobody can join the room any more");
    std::string b(70000, 0);
    std::string p = packet(late->id, 0, 20);
    late->sent_at.push_back(sim::now_ns());
    SIM_CHECK(late->raw.send(p), "connection-lost", "the connection of a new participant broke");
    late->sent = 1;
    uint64_t t0 = sim::now_ms();
    while (!late->got.count(late->id)) {
      struct pollfd pf = {late->raw.fd, POLLIN, 0};
      int r = ::poll(&pf, 1, 1000);
      SIM_CHECK(sim::now_ms() - t0 < 120000, "room-dead", "a new participant has not received its own packet for 120 s");
      if (r <= 0) continue;
      ssize_t k = ::recv(late->raw.fd, &b[0], b.size(), 0);
      if (k < 0 && errno == EINTR) continue;
      SIM_CHECK(k > 0, "connection-lost", "the connection of a new participant broke");
      feed(late, b.data(), (size_t)k);
    }
  }
  // everybody who is still there has everything that was sent after it had joined
  auto complete = [&](Member* m, Member* s) -> bool {
    if (m->broken || m->gone || m->half) return true;
    if (m != s && !m->joined) return true;
    if (s->broken || s->gone) return true;
    int must = m == s ? 0 : -1;                                     // first packet sent after the participant had joined
    if (m != s) for (int k = 0; k < s->sent; k++) if (s->sent_at[k] > m->first_rx) { must = k; break; }
    auto it = m->got.find(s->id);
    if (it == m->got.end()) return must < 0;
    return it->second.second == s->sent && (must < 0 || it->second.first <= must);
  };
  bool ok = sim::wait_until([&]() { for (Member* m : ms) for (Member* s : ms) if (!complete(m, s)) return false; return true; }, 60000);
  if (!ok) for (Member* m : ms) for (Member* s : ms)
    SIM_CHECK(complete(m, s), "broadcast-lost", "participant %d is missing packets of participant %d (%d sent, received up to %d)", m->id, s->id, s->sent, m->got.count(s->id) ? m->got[s->id].second : 0);
  sim::nontrivial();
  // everybody leaves
  late->raw.close();
  for (Member* m : ms) { { SIM_ATOMIC; m->leaving = true; } if (m->raw.fd >= 0) ::shutdown(m->raw.fd, SHUT_RDWR); }
  for (int t : th) sim::join(t);
  for (Member* m : ms) m->raw.close();
  SIM_CHECK(sim::wait_until([]() { return sim::open_fds_kind('s') == 0; }, 60000), "participant-left-behind", "%d connections are still open after all participants have left", sim::open_fds_kind('s'));
  for (Member* m : ms) delete m;
  delete late;
}
