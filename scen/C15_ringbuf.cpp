// C15: the growing ring buffer is a byte FIFO, whatever mix of copies, moves and socket transfers it goes through.
#include "common_net.h"
#include <cy_crypt.h>
#include <signal.h>
using namespace scn;

namespace {
// reference: the unread bytes as a string
struct Model { std::string d; };
uint32_t ref_adler(const std::string& s, size_t off, size_t n) { uint32_t a = 1, b = 0; for (size_t i = off; i < off + n; i++) { a = (a + (unsigned char)s[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
void check(RingBuf& rb, const Model& m, const char* op) {
  SIM_CHECK(rb.size() == m.d.size(), "ringbuf-size", "after %s the size is %zu, expected %zu", op, rb.size(), m.d.size());
  SIM_CHECK(rb.empty() == m.d.empty(), "ringbuf-size", "after %s empty() is %d with %zu bytes", op, rb.empty(), m.d.size());
  SIM_CHECK(rb.capacity() >= rb.size() && rb.capacity() - rb.size() == rb.get_free_size() && rb.full() == (rb.get_free_size() == 0), "ringbuf-size", "after %s capacity %zu size %zu free %zu full %d", op, rb.capacity(), rb.size(), rb.get_free_size(), rb.full());
}
void all(RingBuf& rb, const Model& m, const char* op) {
  std::string o(m.d.size() + 1, 0); size_t n = rb.peek(0, &o[0], m.d.size() + 1);
  SIM_CHECK(n == m.d.size() && !o.compare(0, n, m.d), "ringbuf-content", "after %s the content differs (%zu bytes, expected %zu)", op, n, m.d.size());
}
uint32_t ctr;
std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)pat(77, ctr++); return s; }
size_t amount(const RingBuf& rb) {
  size_t v;
  switch (sim::choose(8)) {
    case 0: return sim::choose(4); case 1: return rb.size(); case 2: v = rb.size(); return v + sim::choose(3); case 3: v = rb.size(); return v > 2 ? v - 1 - sim::choose(2) : v;
    case 4: return rb.get_free_size(); case 5: return rb.get_free_size() + sim::choose(3); case 6: return sim::choose(200); default: return sim::choose(3000);
  }
}
// operations which need no descriptor
void local_op(RingBuf& rb, Model& m, RingBuf& other, Model& om, bool grow) {
  size_t n = amount(rb);
  switch (sim::choose(13)) {
    case 0: case 1: case 2: { if (!grow) n = std::min(n, rb.get_free_size()); if (m.d.size() + n > 40000) return; std::string s = bytes(n); rb.memcpy_into(s.data(), n); m.d += s; check(rb, m, "memcpy_into"); break; }
    case 3: case 4: { std::string o(n + 1, 0); size_t r = rb.memcpy_out(&o[0], n), e = std::min(n, m.d.size()); SIM_CHECK(r == e && !m.d.compare(0, e, o, 0, e), "ringbuf-content", "memcpy_out(%zu) returned %zu, expected %zu bytes", n, r, e); m.d.erase(0, e); check(rb, m, "memcpy_out"); break; }
    case 5: { size_t off = sim::choose((uint32_t)m.d.size() + 3); std::string o(std::min(n, m.d.size()) + 1, 0); size_t cnt = n; if (sim::coin(6)) { cnt = sim::coin(2) ? (size_t)-1 : (size_t)-1 - sim::choose(40); o.resize(m.d.size() + 1); }
        size_t e = off > m.d.size() ? 0 : std::min(cnt, m.d.size() - off), r = rb.peek(off, &o[0], cnt); SIM_CHECK(r == e && (!e || !m.d.compare(off, e, o, 0, e)), "ringbuf-content", "peek(%zu, %zu) of %zu bytes returned %zu, expected %zu", off, cnt, m.d.size(), r, e); check(rb, m, "peek"); break; }
    case 6: { size_t e = std::min(n, m.d.size()), r = rb.discard(n); SIM_CHECK(r == e, "ringbuf-size", "discard(%zu) returned %zu, expected %zu", n, r, e); m.d.erase(0, e); check(rb, m, "discard"); break; }
    case 7: { size_t e = std::min(n, m.d.size()); if (om.d.size() + e > 60000) return; size_t r = rb.moveto(other, n); SIM_CHECK(r == e, "ringbuf-size", "moveto(%zu) returned %zu, expected %zu", n, r, e); om.d += m.d.substr(0, e); m.d.erase(0, e); check(rb, m, "moveto"); check(other, om, "moveto (target)"); if (sim::coin(3)) all(other, om, "moveto (target)"); break; }
    case 8: { size_t off = sim::choose((uint32_t)m.d.size() + 3); unsigned char c = m.d.empty() || sim::coin(4) ? (unsigned char)sim::choose(256) : (unsigned char)m.d[sim::choose((uint32_t)std::min<size_t>(m.d.size(), 40))];
        if (off && sim::coin(2)) off = sim::choose(3);
        size_t f = off > m.d.size() ? std::string::npos : m.d.find((char)c, off); ssize_t r = rb.search(off, c), e = f == std::string::npos ? -1 : (ssize_t)f; SIM_CHECK(r == e, "ringbuf-search", "search(%zu) in %zu bytes returned %zd, expected %zd", off, m.d.size(), r, e); break; }
    case 9: { const uint8_t* p = rb.normalize(); SIM_CHECK(!memcmp(p, m.d.data(), m.d.size()), "ringbuf-content", "normalize returns other bytes"); check(rb, m, "normalize"); break; }
    case 10: { size_t off = sim::choose((uint32_t)m.d.size() + 2), cnt = sim::coin(2) ? sim::choose((uint32_t)m.d.size() + 2) : (off <= m.d.size() ? m.d.size() - off : 0); uint32_t r = rb.checksum(off, cnt), e = off <= m.d.size() && cnt <= m.d.size() - off ? ref_adler(m.d, off, cnt) : 1; SIM_CHECK(r == e, "ringbuf-checksum", "checksum(%zu, %zu) of %zu bytes", off, cnt, m.d.size()); break; }
    case 11: { if (!grow || n > 40000) return; rb.resize(n); SIM_CHECK(rb.capacity() >= n, "ringbuf-size", "capacity is %zu after resize(%zu)", rb.capacity(), n); check(rb, m, "resize"); all(rb, m, "resize"); break; }
    default: if (sim::coin(6)) { rb.reset(); m.d.clear(); check(rb, m, "reset"); } else all(rb, m, "-"); break;
  }
}
size_t first_cap() { switch (sim::choose(4)) { case 0: return RingBuf::kDefaultCapacity; case 1: return 1 + sim::choose(8); case 2: return 1 + sim::choose(200); default: return 1 + sim::choose(4000); } }
}

// Everything but I/O, one thread.
SIM_SCENARIO_W("C15", local_operations, 3) {
  ctr = sim::choose(1000);
  RingBuf rb(first_cap()), other(first_cap()); Model m, om;
  int n = (int)sim::choose_range(1, 120);
  for (int i = 0; i < n; i++) { if (sim::coin(6)) local_op(other, om, rb, m, true); else local_op(rb, m, other, om, true); }
  all(rb, m, "all operations"); all(other, om, "all operations");
  sim::nontrivial();
}

// Two buffers joined by a connection: whatever is written to one end arrives at the other, in order, once.
SIM_SCENARIO_W("C15", socket_transfer, 4) {
  allow_net_timing(); sim::allow(sim::F_RST); sim::allow(sim::F_PEER_CLOSE);
  pick_sndbuf(); if (max_frame() > 6000) max_frame() = 60000;
  ctr = 0;
  int ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(6000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  SIM_CHECK(!::bind(ls, (sockaddr*)&a, sizeof a) && !::listen(ls, 5), "harness", "listen");
  int cs = ::socket(AF_INET, SOCK_STREAM, 0); int r; do r = ::connect(cs, (sockaddr*)&a, sizeof a); while (r < 0 && errno == EINTR);
  int as; do as = ::accept(ls, nullptr, nullptr); while (as < 0 && errno == EINTR);
  if (r < 0 && errno != EISCONN) { ::close(ls); ::close(cs); if (as >= 0) ::close(as); return; }
  SIM_CHECK(as >= 0, "harness", "accept");
  bool nb = !sim::coin(4);
  if (nb) { fcntl(cs, F_SETFL, O_NONBLOCK); fcntl(as, F_SETFL, O_NONBLOCK); }
  uint64_t total = 1 + sim::choose(std::min<uint32_t>(max_frame() * 2u, sim::coin(4) ? 60000 : 12000)), put = 0; bool closed_w = false, extra = !sim::coin(3), broken = false;
  if (!extra) total = std::min<uint64_t>(total, 3000);
  std::string sent;           // everything handed to the kernel, in order
  bool done = false;
  int wr = sim::spawn("writer", [&]() {
    RingBuf rb(first_cap()); Model m; Model om; RingBuf other;
    signal(SIGPIPE, SIG_IGN);
    while (put < total || !m.d.empty()) {
      if (put < total && (m.d.empty() || sim::coin(2))) { size_t k = std::min<uint64_t>(total - put, 1 + pick_size(8000)); std::string s = bytes(k); rb.memcpy_into(s.data(), k); m.d += s; put += k; check(rb, m, "memcpy_into"); }
      if (m.d.empty()) continue;
      ssize_t w = rb.write_socket(cs);
      if (w < 0) { int e = errno; check(rb, m, "failed write_socket"); if (e == EAGAIN || e == EINTR) { struct pollfd p = {cs, POLLOUT, 0}; ::poll(&p, 1, 10); continue; } SIM_ATOMIC; broken = true; break; }
      { SIM_ATOMIC; SIM_CHECK((size_t)w <= m.d.size(), "ringbuf-size", "write_socket returned %zd, only %zu bytes were in the buffer", w, m.d.size()); sent += m.d.substr(0, (size_t)w); m.d.erase(0, (size_t)w); }
      check(rb, m, "write_socket"); if (sim::coin(5)) all(rb, m, "write_socket");
      if (sim::coin(6)) { const uint8_t* p = rb.normalize(); SIM_CHECK(!memcmp(p, m.d.data(), m.d.size()), "ringbuf-content", "normalize returns other bytes"); }
      if (sim::coin(60)) { sim::fault_count(sim::F_PEER_CLOSE); break; }
    }
    SIM_ATOMIC; closed_w = true; ::close(cs);
  });
  int rd = sim::spawn("reader", [&]() {
    RingBuf rb(first_cap()), other(first_cap()); Model m, om; uint64_t got = 0;
    for (;;) {
      size_t room = rb.get_free_size();
      if (!extra && !room) { std::string o(m.d.size(), 0); rb.memcpy_out(&o[0], o.size()); m.d.clear(); continue; }
      ssize_t n = rb.read_socket(as, extra);
      if (n < 0) { int e = errno; check(rb, m, "failed read_socket"); if (e == EAGAIN || e == EINTR) { struct pollfd p = {as, POLLIN, 0}; ::poll(&p, 1, 10); continue; } broken = true; break; }
      if (n == 0) { check(rb, m, "end of stream");
#ifndef CY_HAVE_READWRITE_V
        // one call makes several reads here: a reset that comes between them is seen by the next call as the end
        if (sim::injected(sim::F_RST)) { broken = true; break; }
#endif
        SIM_CHECK(closed_w, "ringbuf-eof", "end of stream although the writer has not closed"); break; }
      SIM_CHECK(extra || (size_t)n <= room, "ringbuf-size", "read_socket without growing took %zd bytes into %zu", n, room);
      { SIM_ATOMIC; // the writer may not have recorded its last write yet: compare against what it has, or defer
        m.d.resize(rb.size()); SIM_CHECK(rb.peek(0, &m.d[0], m.d.size()) == m.d.size(), "ringbuf-size", "peek");
        for (size_t i = m.d.size() - (size_t)n; i < m.d.size(); i++, got++) SIM_CHECK((unsigned char)m.d[i] == pat(77, got), "ringbuf-content", "byte %llu of the stream differs", (unsigned long long)got); }
      check(rb, m, "read_socket");
      for (uint32_t k = sim::choose(4); k; k--) { 
        size_t c = amount(rb); std::string o(c + 1, 0);
        if (sim::coin(2)) { size_t e = std::min(c, m.d.size()), x = rb.memcpy_out(&o[0], c); SIM_CHECK(x == e && !m.d.compare(0, e, o, 0, e), "ringbuf-content", "memcpy_out"); m.d.erase(0, e); }
        else { size_t e = std::min(c, m.d.size()); if (om.d.size() + e > 6000) { other.reset(); om.d.clear(); } rb.moveto(other, c); om.d += m.d.substr(0, e); m.d.erase(0, e); check(other, om, "moveto"); all(other, om, "moveto"); }
        check(rb, m, "consume"); all(rb, m, "consume");
      }
    }
    SIM_ATOMIC; ::close(as); done = true;
    if (!broken) SIM_CHECK(got == sent.size(), "ringbuf-lost", "%llu bytes arrived, %zu were written", (unsigned long long)got, sent.size());
    if (got) sim::nontrivial();
  });
  sim::sleep_us(sim::choose(100000));
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return done && closed_w; }, 600000), "ringbuf-stuck", "transfer does not finish");
  sim::join(wr); sim::join(rd);
  ::close(ls);
  check_fds();
}
