// C14: length-prefixed packets survive any segmentation of the byte stream.
#include "common_net.h"
using namespace scn;

namespace {
struct Pk { uint16_t id; std::string head, body; };
const uint16_t SIZES[] = {0, 1, 2, 3, 4, 7, 8, 100, 255, 256, 300, 1003, 1004, 1007, 1008, 1009, 1011, 1012, 1013, 1016, 1020, 1023, 1024, 1025, 2000, 4096, 9000, 32767, 32768, 65534, 65535};
uint32_t pk_size(uint32_t max) {
  uint32_t n;
  switch (sim::choose(4)) { case 0: n = sim::choose(12); break; case 1: n = SIZES[sim::choose(sizeof SIZES / sizeof SIZES[0])]; break; case 2: n = sim::choose(1100); break; default: n = sim::choose(3) ? sim::choose(300) : sim::choose(65536); }
  return std::min(n, max);
}
Pk make_pk(uint32_t stream, int i, size_t hs, uint32_t max) {
  Pk p; p.id = (uint16_t)(sim::coin(4) ? (sim::coin(2) ? 0 : 0xFFFF) : sim::choose(65536));
  fill(p.head, stream * 7919u + (uint32_t)i * 2u, 0, hs - 4); fill(p.body, stream * 7919u + (uint32_t)i * 2u + 1u, 0, pk_size(max));
  return p;
}
// the wire format, written down independently of the code: size and id are 16 bit big endian
std::string wire(const Pk& p) {
  std::string s(4, 0); size_t n = p.body.size();
  s[0] = (char)(n >> 8); s[1] = (char)n; s[2] = (char)(p.id >> 8); s[3] = (char)p.id;
  return s + p.head + p.body;
}
void same(const Packet& q, const Pk& p, size_t hs, const char* who, int i) {
  std::string w = wire(p);
  SIM_CHECK(q.get_packet_size() == p.body.size(), "packet-corrupt", "%s packet %d: content size %u, sent %zu", who, i, q.get_packet_size(), p.body.size());
  SIM_CHECK(q.get_packet_id() == p.id, "packet-corrupt", "%s packet %d: id %u, sent %u", who, i, q.get_packet_id(), p.id);
  SIM_CHECK(q.get_memory_size() == w.size(), "packet-corrupt", "%s packet %d: %zu bytes, sent %zu", who, i, q.get_memory_size(), w.size());
  SIM_CHECK(!memcmp(q.get_memory_buf(), w.data(), w.size()), "packet-corrupt", "%s packet %d (size %zu, head %zu): bytes differ", who, i, p.body.size(), hs);
  if (!p.body.empty()) SIM_CHECK(q.get_packet_content() && !memcmp(q.get_packet_content(), p.body.data(), p.body.size()), "packet-corrupt", "%s packet %d: content differs", who, i);
}
// build the packet the way a sender does, in one or two parts
void build(Packet& q, const Pk& p, size_t hs) {
  if (sim::coin(2)) q.build_from_memory(hs, p.id, (uint16_t)p.body.size(), p.body.data());
  else { uint16_t a = (uint16_t)sim::choose((uint32_t)p.body.size() + 1); q.build_from_memory(hs, p.id, a, a ? p.body.data() : nullptr, (uint16_t)(p.body.size() - a), p.body.data() + a); }
  if (hs > 4) memcpy(q.get_memory_buf() + 4, p.head.data(), hs - 4);
}
}

// Peers send packets in arbitrary segments, the server parses them in its message callback and sends each back.
SIM_SCENARIO_W("C14", packets_over_tcp, 4) {
  allow_net_timing(); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf();
  size_t hs = sim::coin(2) ? 4 : (size_t)sim::choose_range(4, 24);
  uint32_t maxb = std::min<uint32_t>(65535, max_frame());
  int np = (int)sim::choose_range(1, 3);
  std::vector<std::vector<Pk>> sent(np); std::vector<int> got(np, 0), back(np, 0); std::vector<bool> whole(np, true), fin(np, false); std::vector<uint64_t> cut(np, 0);
  std::map<int, int> who;   // connection id -> peer
  Srv srv; srv.consume = false;
  bool echo = !sim::coin(3);
  int mode = (int)sim::cfg(3);
  std::vector<Packet*> reuse(np); for (auto& p : reuse) p = new Packet();
  srv.on_msg = [&](SConn* k) {
    RingBuf& rb = k->ptr->get_input_buf();
    // the first packet of a peer is preceded by nothing: its number is found by port
    int me = -1; { SIM_ATOMIC; auto it = who.find(k->peer_port); if (it != who.end()) me = it->second; }
    SIM_CHECK(me >= 0, "harness", "unknown peer");
    for (;;) {
      Packet* q = mode == 0 ? reuse[me] : Packet::alloc_packet();
      size_t before = rb.size();
      bool ok = q->build_from_ringbuf(hs, rb);
      if (!ok) {
        SIM_CHECK(rb.size() == before, "packet-corrupt", "an incomplete packet consumes %zu bytes", before - rb.size());
        SIM_CHECK(q->get_memory_size() == 0 && q->get_packet_size() == 0 && q->get_packet_id() == 0, "packet-corrupt", "an incomplete packet is not empty");
        if (before >= hs) { unsigned char h[2]; rb.peek(0, h, 2); SIM_CHECK(before < hs + (size_t)(h[0] << 8 | h[1]), "packet-stuck", "a complete packet of %d bytes is in the buffer (%zu bytes) but is not delivered", h[0] << 8 | h[1], before); }
        if (mode) Packet::free_packet(q);
        break;
      }
      { SIM_ATOMIC;
        SIM_CHECK(got[me] < (int)sent[me].size(), "packet-invented", "peer %d: more packets arrive than were sent", me);
        same(*q, sent[me][got[me]], hs, "received", got[me]); got[me]++; }
      Packet* r = q;
      if (mode == 2 || sim::coin(4)) { r = Packet::alloc_packet(q); same(*r, sent[me][got[me] - 1], hs, "copied", got[me] - 1); }
      if (echo) k->ptr->send(r->get_memory_buf(), r->get_memory_size());
      if (r != q) Packet::free_packet(r);
      if (mode) Packet::free_packet(q);
      if (sim::coin(8) && !rb.empty() && mode == 2) sim::yield();
    }
  };
  SIM_CHECK(srv.start((int)sim::choose_range(1, 2)) && srv.up(), "start-failed", "server");
  std::vector<int> th;
  for (int me = 0; me < np; me++) th.push_back(sim::spawn("peer", [&, me]() {
    Raw p;
    int sfd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(5000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int r; do r = ::connect(sfd, (sockaddr*)&a, sizeof a); while (r < 0 && errno == EINTR);
    SIM_CHECK(r == 0 || errno == EISCONN, "harness", "connect"); p.fd = sfd;
    { socklen_t l = sizeof a; getsockname(sfd, (sockaddr*)&a, &l); SIM_ATOMIC; who[ntohs(a.sin_port)] = me; }
    int n = (int)sim::choose_range(1, 12);
    std::string all;
    for (int i = 0; i < n; i++) { Pk k = make_pk((uint32_t)me, i, hs, maxb); Packet q; build(q, k, hs); same(q, k, hs, "built", i); { SIM_ATOMIC; sent[me].push_back(k); } all.append(q.get_memory_buf(), q.get_memory_size()); if (all.size() > max_frame() * 3u) break; }
    if (sim::coin(5)) { all.resize(sim::choose((uint32_t)all.size())); whole[me] = false; sim::fault_count(sim::F_PEER_CLOSE); }
    cut[me] = all.size();
    // reader of the echo
    int rd = sim::spawn("reader", [&, me]() {
      std::string in, b(70000, 0);
      for (;;) {
        ssize_t m = ::recv(p.fd, &b[0], b.size(), 0);
        if (m < 0 && errno == EINTR) continue;
        if (m <= 0) break;
        in.append(b.data(), (size_t)m);
        SIM_ATOMIC;
        for (;;) { if (back[me] >= (int)sent[me].size()) { SIM_CHECK(in.empty(), "packet-invented", "echo of a packet never sent"); break; }
          std::string w = wire(sent[me][back[me]]); if (in.size() < w.size()) break;
          SIM_CHECK(!in.compare(0, w.size(), w), "packet-corrupt", "echoed packet %d differs", back[me]); in.erase(0, w.size()); back[me]++; }
      }
    });
    // arbitrary segmentation with pauses
    size_t at = 0; bool ok = true; uint32_t style = sim::choose(4);
    while (ok && at < all.size()) {
      size_t k = all.size() - at;
      if (style == 1) k = std::min<size_t>(k, 1 + sim::choose(5)); else if (style >= 2) k = std::min<size_t>(k, 1 + sim::choose(style == 2 ? 1500 : 40000));
      ssize_t m = ::send(p.fd, all.data() + at, k, MSG_NOSIGNAL);
      if (m < 0) { if (errno == EINTR) continue; ok = false; break; }
      at += (size_t)m;
      if (at > 4000 && style == 1) style = 3;
      if (sim::coin(3)) sim::sleep_us(sim::choose(500));
    }
    SIM_CHECK(ok, "harness", "peer send failed");
    ::shutdown(p.fd, SHUT_WR);
    sim::join(rd);
    p.close(); SIM_ATOMIC; fin[me] = true;
  }));
  sim::sleep_us(1000 + sim::choose(200000));
  sim::calm();
  for (int me = 0; me < np; me++) {
    SIM_CHECK(sim::wait_until([&]() { return fin[me]; }, 120000), "packet-stuck", "peer %d: server never finishes (%d packets of %zu arrived, %d echoed)", me, got[me], sent[me].size(), back[me]);
    sim::join(th[me]);
    // exactly the packets which were sent completely
    uint64_t sum = 0; int want = 0; for (auto& k : sent[me]) { sum += wire(k).size(); if (sum <= cut[me]) want++; }
    SIM_CHECK(got[me] == want, "packet-lost", "peer %d: %d packets delivered, %d were sent completely", me, got[me], want);
    (void)whole;
    if (want) sim::nontrivial();
    if (sent[me].size() > (size_t)want) sim::probe("truncated packet");
  }
  srv.stop_join(); srv.check_all_closed(); srv.destroy();
  for (auto p : reuse) delete p;
  check_fds();
}

// Packets in a ring buffer which is filled and drained at arbitrary positions, against the byte stream.
SIM_SCENARIO_W("C14", packets_in_ringbuf, 2) {
  size_t hs = (size_t)sim::choose_range(4, 16); uint32_t maxb = sim::coin(2) ? 65535 : 600;
  RingBuf rb(sim::coin(2) ? (size_t)RingBuf::kDefaultCapacity : 1 + sim::choose(3000));
  // move the start position
  { std::string z(sim::choose(3000), 'z'); rb.memcpy_into(z.data(), z.size()); rb.discard(z.size() ? z.size() - sim::choose(2) : 0); rb.discard(1); }
  std::vector<Pk> s; std::string pending; int got = 0, made = 0, n = (int)sim::choose_range(1, 30);
  Packet* q = new Packet();
  while (got < n) {
    if (made < n && (pending.empty() || sim::coin(3))) { s.push_back(make_pk(9, made++, hs, maxb)); pending += wire(s.back()); }
    if (!pending.empty()) { size_t k = sim::coin(2) ? pending.size() : 1 + sim::choose((uint32_t)std::min<size_t>(pending.size(), 2000)); rb.memcpy_into(pending.data(), k); pending.erase(0, k); }
    size_t before = rb.size();
    while (q->build_from_ringbuf(hs, rb)) { SIM_CHECK(got < made, "packet-invented", "packet %d", got); same(*q, s[got], hs, "received", got); got++;
      Packet* c = Packet::alloc_packet(q); same(*c, s[got - 1], hs, "copied", got - 1); Packet::free_packet(c); before = rb.size(); }
    SIM_CHECK(rb.size() == before, "packet-corrupt", "an incomplete packet consumes bytes");
    if (pending.empty()) SIM_CHECK(got == made && rb.empty(), "packet-lost", "%d packets of %d delivered, %zu bytes left", got, made, rb.size());
  }
  delete q;
  sim::nontrivial();
}

// Packets through the pipe between threads: each is written at once (at most PIPE_BUF bytes), several writers.
SIM_SCENARIO_W("C14", packets_through_pipe, 2) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_THREAD_STALL);
  size_t hs = (size_t)sim::choose_range(4, 16);
  Pipe pipe; int nw = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 30);
  std::vector<int> next(nw, 0); int total = 0;
  std::vector<int> th;
  auto mk = [&](int w, int i) { Pk p; p.id = (uint16_t)(w << 12 | i); fill(p.head, (uint32_t)(w * 977 + i), 0, hs - 4); uint32_t n = (uint32_t)((w * 7919 + i * 104729) % 3) == 0 ? (uint32_t)((i * 977 + w) % 4050) : (uint32_t)((i * 31 + w) % 200); fill(p.body, (uint32_t)(w * 977 + i + 5), 0, std::min<uint32_t>(n, (uint32_t)(4096 - hs))); return p; };
  for (int w = 0; w < nw; w++) th.push_back(sim::spawn("writer", [&, w]() {
    for (int i = 0; i < per; i++) {
      Pk p = mk(w, i); Packet q; build(q, p, hs);
      for (;;) { ssize_t r = pipe.write(q.get_memory_buf(), q.get_memory_size()); if (r == (ssize_t)q.get_memory_size()) break; SIM_CHECK(r < 0, "packet-corrupt", "pipe accepted %zd of %zu bytes", r, q.get_memory_size()); sim::sleep_us(50); }
      if (sim::coin(4)) sim::sleep_us(sim::choose(100));
    }
  }));
  Packet* q = new Packet();
  sim::calm(false);
  int idle = 0;
  while (total < nw * per) {
    if (!q->build_from_pipe(hs, pipe)) { SIM_CHECK(q->get_memory_size() == 0, "packet-corrupt", "a packet which was not received is not empty"); if (++idle > 200) sim::calm(); SIM_CHECK(idle < 200000, "packet-lost", "%d packets of %d arrived", total, nw * per); sim::sleep_us(40); continue; }
    int w = q->get_packet_id() >> 12, i = q->get_packet_id() & 0xFFF;
    SIM_CHECK(w < nw && i == next[w], "packet-order", "packet %d of writer %d arrives, expected %d", i, w, w < nw ? next[w] : -1);
    same(*q, mk(w, i), hs, "received", i); next[w]++; total++;
  }
  for (int t : th) sim::join(t);
  delete q;
  sim::nontrivial();
}
