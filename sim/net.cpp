// Simulated kernel objects: TCP sockets, pipes, eventfd, timerfd, epoll/poll/select.
#define _GNU_SOURCE 1
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <signal.h>
#include <netdb.h>
#include <poll.h>
#include <time.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>

namespace sim {

u64 wall_now();
u64 late_deadline(u64);

enum { FD0 = 100, FDN = 4096 };
enum { FRESH, CONNECTING, EST, DEAD, LISTEN };

struct Buf {   // byte queue
  Vec<unsigned char> v; size_t h = 0;
  size_t size() const { return v.size() - h; }
  void put(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; v.insert(v.end(), c, c + n); }
  size_t get(void* p, size_t n, bool peek = false) {
    if (n > size()) n = size();
    if (n) memcpy(p, v.data() + h, n);
    if (!peek) { h += n; if (h == v.size()) { v.clear(); h = 0; } else if (h > 65536) { v.erase(v.begin(), v.begin() + h); h = 0; } }
    return n;
  }
  void clear() { v.clear(); h = 0; }
};
struct Obj;
struct Item { int fd; Obj* o; u32 events; u64 data; u32 lin, lout; bool off; };
struct Dgram { sockaddr_in from; Vec<unsigned char> d; };
struct Obj {
  char kind;       // d datagram socket, s stream socket, l listener, p pipe, v eventfd, t timerfd, e epoll
  int fd; bool closed, nonblock, cloexec;
  u32 inseq, outseq;
  int state; Obj* peer; Buf rq, wire; bool fin_rcvd, fin_wire, shut_rd, shut_wr; int so_error;
  u64 last_arrival, stall_until; bool linger_on; int linger_s; u64 time_wait; bool fin_first;   // time_wait: the port stays taken until then
  sockaddr_in local, remote; bool bound;
  u64 accepted, delivered; bool was_reset; u32 cap;
  Vec<Obj*> accq; int backlog;
  bool read_end;
  u64 counter, next_exp, interval; u32 tgen; bool sema, t_wall;
  Vec<Item> items;
  Vec<Dgram*> dq; int o_nodelay, o_keepalive, o_reuseaddr, o_reuseport;
  VC hb; int id;
};
static Obj* fdt[FDN];
static Vec<Obj*>* objs;
static int next_port, nconn;
static u64 base_lat; static bool refuse_all; static int fd_low, nai;

static Obj* new_obj(char kind) {
  Obj* o = rt_new<Obj>();
  // value-initialised by T(); assign the identity
  o->kind = kind; o->fd = -1; o->id = (int)objs->size();
  o->cap = g.sndbuf; o->backlog = 128;
  objs->push_back(o);
  return o;
}
static int alloc_fd(Obj* o) {
  for (int i = fd_low; i < FDN; i++) if (!fdt[i]) { fdt[i] = o; o->fd = i; return i; }
  errno = EMFILE; return -1;
}
void net_reset() {
  objs = rt_new<Vec<Obj*>>();
  memset(fdt, 0, sizeof fdt);
  next_port = 40000; nconn = 0;
  g.sndbuf = 65536;
  static const u64 lats[] = {20000, 1000, 300000, 5000000, 60000000};
  base_lat = lats[choice(K_CFG, 254, 5)];
  refuse_all = false; fd_low = FD0; nai = 0;
}
static inline bool is_sim(int fd) { return g.active && fd >= 0; }
static Obj* get(int fd) {
  if (fd < FD0 || fd >= FDN || !fdt[fd]) { errno = EBADF; return nullptr; }
  return fdt[fd];
}
bool net_owns_fd(int fd) { return fd >= FD0 && fd < FDN; }

// ------------------------------------------------------------------ readiness
static u32 space(Obj* o) {
  if (!o->peer) return 0;
  size_t used = o->peer->rq.size() + o->peer->wire.size();
  return used >= o->cap ? 0 : (u32)(o->cap - used);
}
static u32 mask(Obj* o) {
  switch (o->kind) {
    case 'l': return o->accq.empty() ? 0 : EPOLLIN;
    case 'd': return (o->dq.empty() ? 0 : EPOLLIN) | EPOLLOUT;
    case 's': {
      if (o->state == FRESH) return EPOLLOUT | EPOLLHUP;
      if (o->state == CONNECTING) return 0;
      if (o->state == DEAD) return EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | (o->so_error ? EPOLLERR : 0);
      u32 m = 0;
      if (o->rq.size() || o->fin_rcvd || o->shut_rd) m |= EPOLLIN;
      if (o->fin_rcvd || o->shut_rd) m |= EPOLLRDHUP;
      if ((o->fin_rcvd || o->shut_rd) && o->shut_wr) m |= EPOLLHUP;
      u32 sp = space(o);
      if (o->shut_wr || (sp && sp * 3ull >= o->cap)) m |= EPOLLOUT;
      if (o->so_error) m |= EPOLLERR;
      return m;
    }
    case 'p':
      if (o->read_end) return (o->rq.size() ? EPOLLIN : 0) | (o->peer->closed ? EPOLLHUP : 0);
      return (o->peer->closed ? EPOLLERR : 0) | (o->peer->rq.size() <= 65536 - 4096 ? EPOLLOUT : 0);
    case 'v': return (o->counter ? EPOLLIN : 0) | (o->counter < ~0ull - 1 ? EPOLLOUT : 0);
    case 't': return o->counter ? EPOLLIN : 0;
    default: return 0;
  }
}
static bool item_ready(Item& it, u32* out) {
  if (it.off) return false;
  u32 m = mask(it.o) & (it.events | EPOLLERR | EPOLLHUP);
  if (!m) return false;
  if (it.events & EPOLLET) {
    u32 n = 0;
    if (it.lin != it.o->inseq) n |= m & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR);
    if (it.lout != it.o->outseq) n |= m & (EPOLLOUT | EPOLLHUP | EPOLLERR);
    if (!n) return false;
    // an edge reports everything that is ready
  }
  *out = m;
  return true;
}

// ------------------------------------------------------------------ network events
enum { E_DATA, E_FIN, E_RST, E_CONN, E_CFAIL };
static void arrive(void* a, u64 b);
static u64 arrival_time(Obj* dst, Obj* src) {
  u64 t = g.now + base_lat;
  u32 v = choice_fault(F_DELAY, self_id(), 5);
  static const u64 d[6] = {0, 100000, 1000000, 10000000, 80000000, 400000000};
  t += d[v];
  v = choice_fault(F_STALL, self_id(), 3);
  static const u64 s[4] = {0, 50000000, 500000000, 3000000000ull};
  if (v) { u64 u = g.now + s[v]; if (dst->stall_until < u) dst->stall_until = u; if (src && src->stall_until < u) src->stall_until = u; tracef("net: link of conn %d stalled until %llu us", dst->id, (unsigned long long)(u / 1000)); }
  if (t < dst->stall_until) t = dst->stall_until;
  if (t < dst->last_arrival) t = dst->last_arrival;
  dst->last_arrival = t;
  return t;
}
static void post(Obj* dst, Obj* src, int type, u64 len) { schedule_event(arrival_time(dst, src), arrive, dst, ((u64)type << 56) | len); }
static void do_reset(Obj* o) {   // o learns that its connection is dead
  if (o->state != EST) return;
  o->so_error = o->fin_rcvd ? EPIPE : ECONNRESET;
  o->state = DEAD; o->was_reset = true; o->wire.clear();
  o->inseq++; o->outseq++;
}
static void send_rst(Obj* src) {  // src's side aborts: tell the peer
  Obj* p = src->peer;
  if (p && !p->closed && p->state == EST) post(p, src, E_RST, 0);
}
static void arrive(void* a, u64 b) {
  Obj* o = (Obj*)a; int type = (int)(b >> 56); u64 len = b & 0xffffffffffffull;
  switch (type) {
    case E_DATA: {
      if (o->state == DEAD) return;
      if (len > o->wire.size()) len = o->wire.size();
      if (o->closed) { o->wire.clear(); if (o->peer && !o->peer->closed && o->peer->state == EST) post(o->peer, o, E_RST, 0); return; }
      unsigned char tmp[4096];
      u64 left = len;
      while (left) { size_t n = o->wire.get(tmp, left < 4096 ? left : 4096); o->rq.put(tmp, n); left -= n; }
      o->delivered += len;
      o->inseq++;
      if (g.points + 3000000 > g.max_points && g.max_points < 40000000) g.max_points = g.points + 3000000;   // data moves: not a livelock
      tracef("net: %llu bytes arrive at fd %d (conn %d)", (unsigned long long)len, o->fd, o->id);
      break;
    }
    case E_FIN:
      if (o->state == DEAD || o->closed) return;
      o->fin_rcvd = true; o->inseq++;
      tracef("net: FIN arrives at fd %d (conn %d)", o->fd, o->id);
      break;
    case E_RST:
      if (o->closed) return;
      tracef("net: RST arrives at fd %d (conn %d)", o->fd, o->id);
      do_reset(o);
      break;
    case E_CONN:
      if (o->state != CONNECTING) return;
      if (o->closed) { o->state = DEAD; if (o->peer && !o->peer->closed) post(o->peer, o, E_RST, 0); return; }
      o->state = EST; o->outseq++;
      tracef("net: fd %d connected (conn %d)", o->fd, o->id);
      if (o->peer && (o->peer->closed || o->peer->state == DEAD)) { if (o->peer->was_reset || o->peer->state == DEAD) do_reset(o); }
      break;
    case E_CFAIL:
      if (o->state != CONNECTING) return;
      o->state = DEAD; o->so_error = (int)len; o->inseq++; o->outseq++;
      tracef("net: connect on fd %d fails: %s", o->fd, strerror((int)len));
      break;
  }
}
static bool same_port(const sockaddr_in& a, const sockaddr_in& b) {
  return a.sin_port == b.sin_port && (a.sin_addr.s_addr == b.sin_addr.s_addr || a.sin_addr.s_addr == INADDR_ANY || b.sin_addr.s_addr == INADDR_ANY);
}
static Obj* find_listener(const sockaddr_in& to) {
  Obj* c[16]; int n = 0;
  for (Obj* o : *objs) if (o->kind == 'l' && !o->closed && same_port(o->local, to) && n < 16) c[n++] = o;
  return n ? c[choice(K_MISC, 200, n)] : nullptr;
}
static void syn_arrives(void* a, u64) {
  Obj* c = (Obj*)a;
  if (c->state != CONNECTING || c->closed) return;
  Obj* l = find_listener(c->remote);
  if (!l || refuse_all || (int)l->accq.size() >= l->backlog) { post(c, nullptr, E_CFAIL, ECONNREFUSED); return; }
  Obj* s = new_obj('s');
  s->state = EST; s->peer = c; c->peer = s; s->nonblock = false;
  s->local = c->remote; s->remote = c->local; s->bound = true; s->o_reuseaddr = l->o_reuseaddr; s->o_reuseport = l->o_reuseport;
  if (s->local.sin_addr.s_addr == INADDR_ANY) s->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  l->accq.push_back(s); l->inseq++;
  tracef("net: connection request from port %d queued (conn %d/%d)", ntohs(c->local.sin_port), c->id, s->id);
  post(c, s, E_CONN, 0);
}
// an injected network reset kills both ends at once
static void maybe_rst(Obj* o) {
  if (o->state != EST || !o->peer) return;
  if (choice_fault(F_RST, self_id(), 1)) {
    tracef("fault: connection reset on fd %d", o->fd);
    Obj* p = o->peer;
    o->wire.clear(); p->wire.clear();
    if (!p->closed && p->state == EST) post(p, o, E_RST, 0);
    do_reset(o);
  }
}
static void on_sigpipe(int flags) {
  if (flags & MSG_NOSIGNAL) return;
  struct sigaction sa;
  syscall(SYS_rt_sigaction, SIGPIPE, nullptr, nullptr, 8);
  sigaction(SIGPIPE, nullptr, &sa);
  if (sa.sa_handler == SIG_DFL) fail("sigpipe", "process killed by SIGPIPE: write to a connection closed by the peer");
}

// ------------------------------------------------------------------ blocking helpers
static bool p_in(Fiber* f) { Obj* o = (Obj*)f->wobj; return o->closed || (mask(o) & (EPOLLIN | EPOLLHUP | EPOLLERR)); }
static bool p_out(Fiber* f) { Obj* o = (Obj*)f->wobj; return o->closed || (o->kind == 's' ? (o->state != EST && o->state != CONNECTING) || space(o) > 0 || o->shut_wr : (mask(o) & (EPOLLOUT | EPOLLERR)) != 0); }
static bool p_conn(Fiber* f) { Obj* o = (Obj*)f->wobj; return o->state != CONNECTING || o->closed; }
static bool p_acc(Fiber* f) { Obj* o = (Obj*)f->wobj; return !o->accq.empty() || o->closed; }

// ------------------------------------------------------------------ read / write
static ssize_t err(int e) { errno = e; return -1; }
static size_t iov_len(const iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
static void scatter(const iovec* v, int n, const unsigned char* d, size_t len) {
  for (int i = 0; i < n && len; i++) { size_t k = v[i].iov_len < len ? v[i].iov_len : len; mem_check(v[i].iov_base, k, true, "read buffer"); memcpy(v[i].iov_base, d, k); d += k; len -= k; }
}
static void gather(const iovec* v, int n, unsigned char* d, size_t len) {
  for (int i = 0; i < n && len; i++) { size_t k = v[i].iov_len < len ? v[i].iov_len : len; mem_check(v[i].iov_base, k, false, "write buffer"); memcpy(d, v[i].iov_base, k); d += k; len -= k; }
}
static ssize_t do_read(int fd, const iovec* v, int n, int flags) {
  if (is_file_fd(fd)) return file_readv(fd, v, n);
  sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  size_t want = iov_len(v, n);
  bool nb = o->nonblock || (flags & MSG_DONTWAIT);
  if (o->kind == 'v' || o->kind == 't') {
    if (want < 8) return err(EINVAL);
    if (!o->counter) { if (nb) return err(EAGAIN); block(p_in, o, ~0ull, false, "read"); }
    u64 val = o->sema ? 1 : o->counter;
    o->counter -= val;
    hb_acquire(o->hb);
    scatter(v, n, (unsigned char*)&val, 8);
    return 8;
  }
  if (o->kind == 'p') {
    if (!o->read_end) return err(EBADF);
    if (want == 0) return 0;
    while (!o->rq.size()) {
      if (o->peer->closed) return 0;
      if (nb) return err(EAGAIN);
      block(p_in, o, ~0ull, false, "pipe read");
      if (o->closed) return err(EBADF);
    }
  } else if (o->kind == 's') {
    if (o->state == FRESH) return err(ENOTCONN);
    if (flags & MSG_OOB) return err(EINVAL);
    if (want == 0) return 0;
    maybe_rst(o);
    for (;;) {
      if (o->rq.size()) break;
      if (o->fin_rcvd || o->shut_rd) return 0;
      if (o->so_error) { int e = o->so_error; o->so_error = 0; return err(e); }
      if (o->state == DEAD) return 0;
      if (nb) return err(EAGAIN);
      if (choice_fault(F_EINTR, self_id(), 1)) return err(EINTR);
      block(p_in, o, ~0ull, false, "socket read");
      if (o->closed) return err(EBADF);
    }
    if (nb && choice_fault(F_WOULDBLOCK_R, self_id(), 1)) { tracef("fault: spurious readiness on fd %d", fd); return err(EAGAIN); }
    if (nb && choice_fault(F_EINTR, self_id(), 1)) { tracef("fault: read of fd %d interrupted", fd); return err(EINTR); }
  } else return err(EINVAL);
  size_t k = o->rq.size() < want ? o->rq.size() : want;
  if (o->kind == 's' && k > 1) { u32 s = choice_fault(F_SHORT_READ, self_id(), k > 64 ? 64 : (u32)k - 1); if (s) k = s < k ? s : k - 1; }
  unsigned char st[8192]; unsigned char* t = k <= sizeof st ? st : (unsigned char*)rt_alloc(k);
  o->rq.get(t, k, (flags & MSG_PEEK) != 0);
  hb_acquire(o->hb);
  if (!(o->kind == 's' && (flags & MSG_TRUNC))) scatter(v, n, t, k);
  if (t != st) rt_free(t);
  if (o->peer) o->peer->outseq++;
  tracef("read fd %d -> %zu bytes", fd, k);
  return (ssize_t)k;
}
static ssize_t do_write(int fd, const iovec* v, int n, int flags) {
  if (is_file_fd(fd)) return file_writev(fd, v, n);
  sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  size_t want = iov_len(v, n);
  bool nb = o->nonblock || (flags & MSG_DONTWAIT);
  if (o->kind == 'v') {
    if (want < 8) return err(EINVAL);
    u64 val; gather(v, n, (unsigned char*)&val, 8);
    o->counter += val; o->inseq++;
    hb_release(o->hb);
    sync_point();
    return 8;
  }
  if (o->kind == 'p') {
    if (o->read_end) return err(EBADF);
    Obj* r = o->peer;
    if (r->closed) { on_sigpipe(0); return err(EPIPE); }
    if (!want) return 0;
    size_t room = 65536 - r->rq.size();
    if ((want <= 4096 && room < want) || room == 0) { if (nb) return err(EAGAIN); block(p_out, o, ~0ull, false, "pipe write"); room = 65536 - r->rq.size(); }
    size_t k = want < room ? want : room;
    unsigned char st[8192]; unsigned char* t = k <= sizeof st ? st : (unsigned char*)rt_alloc(k);
    gather(v, n, t, k);
    r->rq.put(t, k);
    if (t != st) rt_free(t);
    hb_release(r->hb); r->inseq++;
    sync_point();
    return (ssize_t)k;
  }
  if (o->kind != 's') return err(EINVAL);
  if (o->state == FRESH) { on_sigpipe(flags); return err(EPIPE); }
  if (o->state == CONNECTING) { if (nb) return err(EAGAIN); block(p_conn, o, ~0ull, false, "connect"); }
  maybe_rst(o);
  size_t done = 0;
  unsigned char st[8192]; unsigned char* t = want <= sizeof st ? st : (unsigned char*)rt_alloc(want + 1);
  gather(v, n, t, want);
  ssize_t ret = -1; int e = 0;
  for (;;) {
    if (o->so_error) { e = o->so_error; o->so_error = 0; if (e == EPIPE) on_sigpipe(flags); break; }
    if (o->shut_wr || o->state != EST) { e = EPIPE; on_sigpipe(flags); break; }
    if (!want) { ret = 0; break; }
    u32 sp = space(o);
    if (!sp) {
      if (nb) { e = EAGAIN; break; }
      block(p_out, o, ~0ull, false, "socket write");
      if (o->closed) { e = EBADF; break; }
      continue;
    }
    if (nb && choice_fault(F_WOULDBLOCK_W, self_id(), 1)) { e = EAGAIN; break; }
    if (nb && choice_fault(F_EINTR, self_id(), 1)) { e = EINTR; break; }
    size_t k = want - done < sp ? want - done : sp;
    if (k > 1) { u32 s = choice_fault(F_SHORT_WRITE, self_id(), k > 64 ? 64 : (u32)k - 1); if (s) k = s < k ? s : k - 1; }
    Obj* p = o->peer;
    if ((flags & MSG_OOB) && done + k == want) {       // urgent: the last byte does not arrive with the others
      p->wire.put(t + done, k - 1); hb_release(p->hb); if (k > 1) post(p, o, E_DATA, k - 1);
      done += k; ret = (ssize_t)done; break;
    }
    p->wire.put(t + done, k);
    hb_release(p->hb);
    o->accepted += k;
    // delivery, possibly as two separately delayed segments
    size_t first = k;
    if (k > 1 && g.allowed[F_DELAY] && !g.calm) { u32 s = choice(K_LAT, self_id(), 4); if (s == 3) first = 1 + choice(K_LAT, self_id(), (u32)k - 1); }
    if (g.calm) p->stall_until = 0;
    post(p, o, E_DATA, first);
    if (first < k) post(p, o, E_DATA, k - first);
    done += k;
    tracef("write fd %d -> %zu of %zu bytes", fd, k, want);
    if (nb || done == want) { ret = (ssize_t)done; break; }
  }
  if (ret < 0 && done) ret = (ssize_t)done;
  if (t != st) rt_free(t);
  if (ret < 0) { tracef("write fd %d -> %s", fd, strerror(e)); errno = e; }
  else sync_point();
  return ret;
}
static int do_close(int fd) {
  sync_point();
  if (fd == -1) { errno = EBADF; return -1; }
  if (fd < FD0 || fd >= FDN || !fdt[fd]) { g.badcloses++; tracef("close of fd %d which is not open", fd); errno = EBADF; return -1; }
  Obj* o = fdt[fd];
  fdt[fd] = nullptr;
  o->closed = true;
  tracef("close fd %d (%c conn %d)", fd, o->kind, o->id);
  for (Obj* e : *objs) if (e->kind == 'e') for (size_t i = 0; i < e->items.size();) { if (e->items[i].o == o) e->items.erase(e->items.begin() + i); else i++; }
  if (o->kind == 'l') {
    for (Obj* s : o->accq) { s->closed = true; Obj* c = s->peer; if (c) { if (c->state == CONNECTING) c->peer->was_reset = true; s->state = DEAD; if (!c->closed) post(c, s, E_RST, 0); } }
    o->accq.clear();
  } else if (o->kind == 's') {
    Obj* p = o->peer;
    if (o->state == EST && p) {
      bool rst = o->rq.size() || (o->linger_on && o->linger_s == 0);
      if (rst) {
        if (o->rq.size() && p->wire.size() && choice(K_MISC, self_id(), 2)) p->wire.clear();
        if (!p->closed) post(p, o, E_RST, 0);
        o->was_reset = true;
      } else {
        if (!o->shut_wr) { o->shut_wr = true; o->fin_first = !o->fin_rcvd; if (!p->closed) post(p, o, E_FIN, 0); }
        if (o->fin_first) o->time_wait = g.now + 60000000000ull;   // the side that ended first keeps the address for a minute
      }
      p->outseq++;
    }
  } else if (o->kind == 'p') { o->peer->inseq++; o->peer->outseq++; }
  sync_point();
  return 0;
}

// ------------------------------------------------------------------ timerfd
static void timer_fire(void* a, u64 gen) {
  Obj* o = (Obj*)a;
  if (o->closed || o->tgen != (u32)gen) return;
  o->counter++; o->inseq++;
  if (o->interval) {
    o->next_exp += o->interval;
    while (o->next_exp + o->interval < g.now) { o->next_exp += o->interval; o->counter++; }
    schedule_event(late_deadline(o->next_exp), timer_fire, o, gen);
  } else o->next_exp = 0;
}

// ------------------------------------------------------------------ harness queries
int open_fds() { int n = 0; for (int i = FD0; i < FDN; i++) n += fdt[i] != nullptr; return n; }
int open_fds_kind(char k) { int n = 0; for (int i = FD0; i < FDN; i++) n += fdt[i] && fdt[i]->kind == k; return n; }
int open_fds_inheritable() { int n = 0; for (int i = FD0; i < FDN; i++) n += fdt[i] && !fdt[i]->cloexec; return n; }
u64 bad_closes() { return g.badcloses; }
const char* describe_fds() {
  static char b[600]; int n = 0; b[0] = 0;
  for (int i = FD0; i < FDN && n < 500; i++) if (fdt[i]) n += snprintf(b + n, 60, " %d:%c%s%s", i, fdt[i]->kind, fdt[i]->cloexec ? "" : "+",  fdt[i]->kind == 's' ? (fdt[i]->state == EST ? "(connected)" : fdt[i]->state == CONNECTING ? "(connecting)" : fdt[i]->state == FRESH ? "(fresh)" : "(dead)") : "");
  return b;
}
u32 sndbuf() { return g.sndbuf; }
void set_sndbuf(u32 n) { g.sndbuf = n; if (n < 65536) sh->faults[F_SMALL_BUF]++; }
void set_backlog_refuse(bool on) { refuse_all = on; }
u64 wire_accepted(int fd) { Obj* o = fd >= FD0 && fd < FDN ? fdt[fd] : nullptr; return o ? o->accepted : 0; }
bool sock_was_reset(int fd) { Obj* o = fd >= FD0 && fd < FDN ? fdt[fd] : nullptr; return o && o->was_reset; }
bool fd_is_open(int fd) { return fd >= FD0 && fd < FDN && fdt[fd]; }
void rst_fd(int fd) {
  RT;
  Obj* o = fd >= FD0 && fd < FDN ? fdt[fd] : nullptr;
  if (!o || o->state != EST) return;
  Obj* p = o->peer;
  o->wire.clear(); if (p) p->wire.clear();
  if (p && !p->closed) post(p, o, E_RST, 0);
  do_reset(o);
}
int last_errno() { return errno; }
void reserve_fds(int lowest_free) { fd_low = lowest_free < FD0 ? FD0 : lowest_free >= FDN ? FDN - 64 : lowest_free; }
int open_addrinfos() { return nai; }
}  // namespace sim
using namespace sim;

#define PASS(call) if (!g.active) return call

extern "C" {

int socket(int dom, int type, int proto) noexcept {
  PASS((int)syscall(SYS_socket, dom, type, proto));
  RT; sync_point();
  int ty = type & 0xf;
  if (dom != AF_INET || (ty != SOCK_STREAM && ty != SOCK_DGRAM)) { errno = EAFNOSUPPORT; return -1; }
  if (proto && proto != (ty == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP)) { errno = EPROTONOSUPPORT; return -1; }
  if (choice_fault(F_SOCK_ERR, self_id(), 1)) { tracef("fault: socket() EMFILE"); errno = EMFILE; return -1; }
  Obj* o = new_obj(ty == SOCK_STREAM ? 's' : 'd');
  o->state = FRESH; o->nonblock = type & SOCK_NONBLOCK; o->cloexec = type & SOCK_CLOEXEC;
  return alloc_fd(o);
}
int bind(int fd, const struct sockaddr* a, socklen_t) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  sockaddr_in s = *(const sockaddr_in*)a;
  { u32 ip = ntohl(s.sin_addr.s_addr); if (ip && (ip >> 24) != 127) { errno = EADDRNOTAVAIL; return -1; } }
  if (s.sin_port == 0) s.sin_port = htons((uint16_t)next_port++);
  else for (Obj* q : *objs) {
    if (q == o || !q->bound || !same_port(q->local, s) || (q->kind == 'd') != (o->kind == 'd') || (q->kind != 'l' && q->kind != 's' && q->kind != 'd') || (q->closed && q->time_wait <= g.now)) continue;
    if ((o->o_reuseaddr && q->o_reuseaddr && q->kind != 'l') || (o->o_reuseport && q->o_reuseport)) continue;
    errno = EADDRINUSE; return -1;
  }
  o->local = s; o->bound = true;
  return 0;
}
int listen(int fd, int bl) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (o->kind != 's' && o->kind != 'l') { errno = ENOTSOCK; return -1; }
  if (!o->bound) { o->local.sin_family = AF_INET; o->local.sin_port = htons((uint16_t)next_port++); o->bound = true; }
  o->kind = 'l'; o->state = LISTEN; o->backlog = bl < 1 ? 1 : bl > 4096 ? 4096 : bl;
  return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (o->kind != 'l') { errno = EINVAL; return -1; }
  if (o->accq.empty()) {
    if (o->nonblock) { errno = EAGAIN; return -1; }
    block(p_acc, o, ~0ull, false, "accept");
    if (o->closed) { errno = EBADF; return -1; }
  }
  u32 v = choice_fault(F_ACCEPT_ERR, self_id(), 4);
  if (v == 1) { Obj* s = o->accq[0]; o->accq.erase(o->accq.begin()); s->closed = true; s->state = DEAD; s->was_reset = true; if (s->peer && !s->peer->closed) post(s->peer, s, E_RST, 0); tracef("fault: accept ECONNABORTED"); errno = ECONNABORTED; return -1; }
  if (v) { static const int es[] = {EMFILE, EINTR, EAGAIN}; tracef("fault: accept error %d", es[v - 2]); errno = es[v - 2]; return -1; }
  Obj* s = o->accq[0];
  o->accq.erase(o->accq.begin());
  s->nonblock = flags & SOCK_NONBLOCK; s->cloexec = flags & SOCK_CLOEXEC;
  if (a && l) { socklen_t k = *l < sizeof(sockaddr_in) ? *l : (socklen_t)sizeof(sockaddr_in); memcpy(a, &s->remote, k); *l = sizeof(sockaddr_in); }
  int r = alloc_fd(s);
  tracef("accept -> fd %d (conn %d)", r, s->id);
  return r;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr* a, socklen_t) {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (o->kind != 's') { errno = EISCONN; return -1; }
  if (o->state == EST) { errno = EISCONN; return -1; }
  if (o->state == CONNECTING) { errno = EALREADY; return -1; }
  if (o->state == DEAD) { errno = ECONNABORTED; return -1; }
  o->remote = *(const sockaddr_in*)a;
  u32 v = choice_fault(F_CONN_SYNC, self_id(), 3);
  if (v) { static const int es[] = {ENETUNREACH, ECONNREFUSED, EADDRNOTAVAIL}; tracef("fault: connect fails at once (%s)", strerror(es[v - 1])); errno = es[v - 1]; return -1; }
  if (!o->bound) { o->local.sin_family = AF_INET; o->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK); o->local.sin_port = htons((uint16_t)next_port++); o->bound = true; }
  o->state = CONNECTING;
  if (u32 rf = choice_fault(F_REFUSE, self_id(), 4)) { static const int es[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ECONNREFUSED}; post(o, nullptr, E_CFAIL, es[rf - 1]); }
  else {
    u32 t = choice_fault(F_CONN_TIMEOUT, self_id(), 3);
    static const u64 ts[] = {0, 1000000000ull, 21000000000ull, 127000000000ull};
    if (t) schedule_event(g.now + ts[t], arrive, o, ((u64)E_CFAIL << 56) | ETIMEDOUT);
    else { u64 at = arrival_time(o, nullptr); schedule_event(at, syn_arrives, o, 0); }
  }
  tracef("connect fd %d to port %d (conn %d)", fd, ntohs(o->remote.sin_port), o->id);
  if (o->nonblock) { errno = EINPROGRESS; return -1; }
  block(p_conn, o, ~0ull, false, "connect");
  if (o->state != EST) { errno = o->so_error ? o->so_error : ECONNREFUSED; o->so_error = 0; return -1; }
  return 0;
}
int shutdown(int fd, int how) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (o->kind == 'l') { return 0; }
  if (o->kind != 's') { errno = ENOTSOCK; return -1; }
  if (o->state != EST) { errno = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) { o->shut_rd = true; o->inseq++; }
  if ((how == SHUT_WR || how == SHUT_RDWR) && !o->shut_wr) { o->shut_wr = true; o->fin_first = !o->fin_rcvd; o->outseq++; if (o->peer && !o->peer->closed) post(o->peer, o, E_FIN, 0); }
  tracef("shutdown fd %d", fd);
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  sockaddr_in s = o->local; s.sin_family = AF_INET;
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
  return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (o->kind != 's' || o->state != EST) { errno = ENOTCONN; return -1; }
  sockaddr_in s = o->remote; s.sin_family = AF_INET;
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
  return 0;
}
int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (lvl == SOL_SOCKET && opt == SO_LINGER && l >= sizeof(struct linger)) { const struct linger* g2 = (const struct linger*)v; o->linger_on = g2->l_onoff; o->linger_s = g2->l_linger; }
  if (l >= sizeof(int)) {
    int x = *(const int*)v != 0;
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR) o->o_reuseaddr = x;
    if (lvl == SOL_SOCKET && opt == SO_REUSEPORT) o->o_reuseport = x;
    if (lvl == SOL_SOCKET && opt == SO_KEEPALIVE) o->o_keepalive = x;
    if (lvl == IPPROTO_TCP && opt == TCP_NODELAY) o->o_nodelay = x;
  }
  return 0;
}
int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  int r = 0;
  if (lvl == SOL_SOCKET && opt == SO_ERROR) { r = o->so_error; o->so_error = 0; }
  else if (lvl == SOL_SOCKET && opt == SO_SNDBUF) r = (int)o->cap;
  else if (lvl == SOL_SOCKET && opt == SO_REUSEADDR) r = o->o_reuseaddr;
  else if (lvl == SOL_SOCKET && opt == SO_REUSEPORT) r = o->o_reuseport;
  else if (lvl == SOL_SOCKET && opt == SO_KEEPALIVE) r = o->o_keepalive;
  else if (lvl == IPPROTO_TCP && opt == TCP_NODELAY) r = o->o_nodelay;
  else if (lvl == SOL_SOCKET && opt == SO_LINGER && *l >= sizeof(struct linger)) { struct linger g2 = {o->linger_on, o->linger_s}; memcpy(v, &g2, sizeof g2); *l = sizeof g2; return 0; }
  else if (lvl == SOL_SOCKET && opt == SO_TYPE) r = o->kind == 'd' ? SOCK_DGRAM : SOCK_STREAM;
  if (*l >= sizeof(int)) { memcpy(v, &r, sizeof r); *l = sizeof r; }
  return 0;
}
int socketpair(int, int type, int, int sv[2]) noexcept {
  RT; sync_point();
  Obj *a = new_obj('s'), *b = new_obj('s');
  a->state = b->state = EST; a->peer = b; b->peer = a;
  a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  sv[0] = alloc_fd(a); sv[1] = alloc_fd(b);
  return sv[1] < 0 ? -1 : 0;
}

ssize_t read(int fd, void* b, size_t n) { PASS(syscall(SYS_read, fd, b, n)); RT; iovec v = {b, n}; return do_read(fd, &v, 1, 0); }
ssize_t write(int fd, const void* b, size_t n) {
  if (!g.active || (g.rt && (fd == 1 || fd == 2))) return syscall(SYS_write, fd, b, n);
  if (fd == 1 || fd == 2) return (ssize_t)n;
  RT; iovec v = {(void*)b, n}; return do_write(fd, &v, 1, 0);
}
ssize_t readv(int fd, const struct iovec* v, int n) { PASS(syscall(SYS_readv, fd, v, n)); RT; return do_read(fd, v, n, 0); }
ssize_t writev(int fd, const struct iovec* v, int n) { PASS(syscall(SYS_writev, fd, v, n)); RT; return do_write(fd, v, n, 0); }
ssize_t recv(int fd, void* b, size_t n, int fl) { RT; iovec v = {b, n}; return do_read(fd, &v, 1, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { RT; iovec v = {(void*)b, n}; return do_write(fd, &v, 1, fl); }
static bool p_dg(Fiber* f) { Obj* o = (Obj*)f->wobj; return o->closed || !o->dq.empty(); }
static void dgram_arrives(void* a, u64 to) {
  Dgram* d = (Dgram*)a; sockaddr_in t; memset(&t, 0, sizeof t); t.sin_addr.s_addr = (u32)(to >> 16); t.sin_port = (uint16_t)to;
  for (Obj* o : *objs) if (o->kind == 'd' && !o->closed && o->bound && same_port(o->local, t)) { if (o->dq.size() < 64) { o->dq.push_back(d); o->inseq++; tracef("net: datagram of %zu bytes arrives at fd %d", d->d.size(), o->fd); } return; }
}
static ssize_t dg_recv(Obj* o, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
  sync_point();
  if (fl & MSG_OOB) return err(EOPNOTSUPP);
  if (o->dq.empty()) {
    if (o->nonblock || (fl & MSG_DONTWAIT)) return err(EAGAIN);
    if (choice_fault(F_EINTR, self_id(), 1)) return err(EINTR);
    block(p_dg, o, ~0ull, false, "recvfrom");
    if (o->closed) return err(EBADF);
  }
  Dgram* d = o->dq[0]; if (!(fl & MSG_PEEK)) o->dq.erase(o->dq.begin());
  size_t k = d->d.size() < n ? d->d.size() : n;
  mem_check(b, k, true, "datagram buffer");
  if (k) memcpy(b, d->d.data(), k);
  if (a && l) { mem_check(l, sizeof *l, true, "address length"); socklen_t m = *l < sizeof(sockaddr_in) ? *l : (socklen_t)sizeof(sockaddr_in); mem_check(a, m, true, "address"); memcpy(a, &d->from, m); *l = sizeof(sockaddr_in); }
  return (ssize_t)k;
}
static ssize_t dg_send(Obj* o, const void* b, size_t n, int fl, const struct sockaddr* a) {
  sync_point();
  if (fl & MSG_OOB) return err(EOPNOTSUPP);
  const sockaddr_in* t = a ? (const sockaddr_in*)a : o->state == EST ? &o->remote : nullptr;
  if (!t) return err(EDESTADDRREQ);
  if (n > 65507) return err(EMSGSIZE);
  if (!o->bound) { o->local.sin_family = AF_INET; o->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK); o->local.sin_port = htons((uint16_t)next_port++); o->bound = true; }
  if ((o->nonblock || (fl & MSG_DONTWAIT)) && choice_fault(F_WOULDBLOCK_W, self_id(), 1)) return err(EAGAIN);
  int copies = 1;
  if (choice_fault(F_LOSS, self_id(), 1)) { tracef("fault: datagram lost"); copies = 0; }
  else if (choice_fault(F_DUP, self_id(), 1)) { tracef("fault: datagram duplicated"); copies = 2; }
  static const u64 ds[6] = {0, 100000, 1000000, 10000000, 80000000, 400000000};
  mem_check(b, n, false, "datagram");
  for (int i = 0; i < copies; i++) {
    Dgram* d = rt_new<Dgram>(); d->from = o->local; d->from.sin_family = AF_INET;
    if (d->from.sin_addr.s_addr == INADDR_ANY) d->from.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    d->d.assign((const unsigned char*)b, (const unsigned char*)b + n);
    schedule_event(g.now + base_lat + ds[choice_fault(F_DELAY, self_id(), 5)], dgram_arrives, d, ((u64)t->sin_addr.s_addr << 16) | t->sin_port);
  }
  return (ssize_t)n;
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { RT; if (fd >= FD0 && fd < FDN && fdt[fd] && fdt[fd]->kind == 'd') return dg_recv(fdt[fd], b, n, fl, a, l); iovec v = {b, n}; if (l) *l = 0; return do_read(fd, &v, 1, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t) { RT; if (fd >= FD0 && fd < FDN && fdt[fd] && fdt[fd]->kind == 'd') return dg_send(fdt[fd], b, n, fl, a); iovec v = {(void*)b, n}; return do_write(fd, &v, 1, fl); }
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { RT; m->msg_flags = 0; return do_read(fd, m->msg_iov, (int)m->msg_iovlen, fl); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { RT; return do_write(fd, m->msg_iov, (int)m->msg_iovlen, fl); }
int close(int fd) { PASS((int)syscall(SYS_close, fd)); RT; return do_close(fd); }

static int vfcntl(int fd, int cmd, long arg) {
  PASS((int)syscall(SYS_fcntl, fd, cmd, arg));
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  switch (cmd) {
    case F_GETFL: return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: o->nonblock = arg & O_NONBLOCK; return 0;
    case F_GETFD: return o->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: o->cloexec = arg & FD_CLOEXEC; return 0;
  }
  errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return vfcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return vfcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  PASS((int)syscall(SYS_ioctl, fd, req, a));
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (req == FIONBIO) { o->nonblock = *(int*)a != 0; return 0; }
  if (req == FIONREAD) { *(int*)a = (int)o->rq.size(); return 0; }
  errno = EINVAL; return -1;
}
int pipe2(int fds[2], int flags) noexcept {
  RT; sync_point();
  if (choice_fault(F_FD_ERR, self_id(), 1)) { tracef("fault: pipe EMFILE"); errno = EMFILE; return -1; }
  Obj *r = new_obj('p'), *w = new_obj('p');
  r->read_end = true; r->peer = w; w->peer = r;
  r->nonblock = w->nonblock = flags & O_NONBLOCK; r->cloexec = w->cloexec = flags & O_CLOEXEC;
  fds[0] = alloc_fd(r); fds[1] = alloc_fd(w);
  return fds[1] < 0 ? -1 : 0;
}
int pipe(int fds[2]) noexcept { return pipe2(fds, 0); }
int eventfd(unsigned init, int flags) noexcept {
  RT; sync_point();
  Obj* o = new_obj('v');
  o->counter = init; o->nonblock = flags & EFD_NONBLOCK; o->cloexec = flags & EFD_CLOEXEC; o->sema = flags & EFD_SEMAPHORE;
  return alloc_fd(o);
}
int timerfd_create(clockid_t c, int flags) noexcept {
  RT; sync_point();
  if (choice_fault(F_FD_ERR, self_id(), 1)) { tracef("fault: timerfd_create EMFILE"); errno = EMFILE; return -1; }
  Obj* o = new_obj('t');
  o->nonblock = flags & TFD_NONBLOCK; o->cloexec = flags & TFD_CLOEXEC; o->t_wall = c == CLOCK_REALTIME;
  return alloc_fd(o);
}
int timerfd_settime(int fd, int flags, const struct itimerspec* nv, struct itimerspec* ov) noexcept {
  RT; sync_point();
  Obj* o = get(fd);
  if (!o) return -1;
  if (nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec > 999999999 || nv->it_interval.tv_nsec > 999999999) { errno = EINVAL; return -1; }
  if (ov) memset(ov, 0, sizeof *ov);
  u64 v = (u64)nv->it_value.tv_sec * 1000000000ull + nv->it_value.tv_nsec;
  o->interval = (u64)nv->it_interval.tv_sec * 1000000000ull + nv->it_interval.tv_nsec;
  o->tgen++; o->counter = 0;
  if (!v) { o->next_exp = 0; return 0; }
  if (flags & TFD_TIMER_ABSTIME) { u64 base = o->t_wall ? wall_now() - g.now : 1000ull * 1000000000ull; o->next_exp = v > base ? v - base : 0; }
  else o->next_exp = g.now + v;
  schedule_event(late_deadline(o->next_exp), timer_fire, o, o->tgen);
  return 0;
}
int timerfd_gettime(int fd, struct itimerspec* v) noexcept {
  RT; Obj* o = get(fd);
  if (!o) return -1;
  u64 r = o->next_exp > g.now ? o->next_exp - g.now : 0;
  v->it_value.tv_sec = r / 1000000000ull; v->it_value.tv_nsec = r % 1000000000ull;
  v->it_interval.tv_sec = o->interval / 1000000000ull; v->it_interval.tv_nsec = o->interval % 1000000000ull;
  return 0;
}

// ------------------------------------------------------------------ epoll / poll / select
int epoll_create1(int flags) noexcept { RT; sync_point(); Obj* o = new_obj('e'); o->cloexec = flags & EPOLL_CLOEXEC; return alloc_fd(o); }
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept {
  RT; sync_point();
  Obj* e = get(ep);
  if (!e) return -1;
  Obj* o = get(fd);
  if (!o) return -1;
  if (e->kind != 'e' || o == e) { errno = EINVAL; return -1; }
  size_t i = 0;
  while (i < e->items.size() && e->items[i].o != o) i++;
  bool have = i < e->items.size();
  if (op == EPOLL_CTL_ADD) {
    if (have) { errno = EEXIST; return -1; }
    Item it; it.fd = fd; it.o = o; it.events = ev->events; it.data = ev->data.u64; it.lin = o->inseq - 1; it.lout = o->outseq - 1; it.off = false;
    e->items.push_back(it);
  } else if (op == EPOLL_CTL_MOD) {
    if (!have) { errno = ENOENT; return -1; }
    Item& it = e->items[i];
    it.events = ev->events; it.data = ev->data.u64; it.lin = o->inseq - 1; it.lout = o->outseq - 1; it.off = false;
  } else {
    if (!have) { errno = ENOENT; return -1; }
    e->items.erase(e->items.begin() + i);
  }
  sync_point();
  return 0;
}
static bool p_epoll(Fiber* f) {
  Obj* e = (Obj*)f->wobj; u32 m;
  if (e->closed) return true;
  for (auto& it : e->items) if (item_ready(it, &m)) return true;
  return false;
}
static u64 ms_deadline(int64_t ns) { return ns < 0 ? ~0ull : late_deadline(g.now + (u64)ns); }
static int do_epoll_wait(int ep, struct epoll_event* evs, int max, int64_t to_ns) {
  sync_point();
  Obj* e = get(ep);
  if (!e) return -1;
  if (e->kind != 'e' || max <= 0) { errno = EINVAL; return -1; }
  g.cur->wobj = e;
  if (!p_epoll(g.cur)) {
    if (to_ns == 0) return 0;
    if (choice_fault(F_EINTR, self_id(), 1)) { errno = EINTR; return -1; }
    if (!block(p_epoll, e, ms_deadline(to_ns), false, to_ns < 0 ? "epoll_wait" : "epoll_wait (timed)")) return 0;
    if (e->closed) { errno = EBADF; return -1; }
  }
  int idx[256]; u32 ms[256]; int n = 0;
  for (size_t i = 0; i < e->items.size() && n < 256; i++) { u32 m; if (item_ready(e->items[i], &m)) { idx[n] = (int)i; ms[n] = m; n++; } }
  int rot = (int)choice(K_ORDER, self_id(), n);
  bool rev = n > 2 ? choice(K_ORDER, self_id(), 2) : 0;
  int out = 0;
  Vec<Item> moved;
  mem_check(evs, sizeof(epoll_event) * (size_t)(n < max ? n : max), true, "epoll events");
  for (int k = 0; k < n && out < max; k++) {
    int j = rev ? (rot + n - k) % n : (rot + k) % n;
    Item& it = e->items[idx[j]];
    evs[out].events = ms[j]; evs[out].data.u64 = it.data;
    it.lin = it.o->inseq; it.lout = it.o->outseq;
    if (it.events & EPOLLONESHOT) it.off = true;
    out++;
    moved.push_back(it);
  }
  // returned entries go to the back of the ready list
  for (auto& m : moved) for (size_t i = 0; i < e->items.size(); i++) if (e->items[i].o == m.o) { Item t = e->items[i]; e->items.erase(e->items.begin() + i); e->items.push_back(t); break; }
  return out;
}
int epoll_wait(int ep, struct epoll_event* evs, int max, int to) { RT; return do_epoll_wait(ep, evs, max, to < 0 ? -1 : (int64_t)to * 1000000); }
int epoll_pwait(int ep, struct epoll_event* evs, int max, int to, const sigset_t*) { return epoll_wait(ep, evs, max, to); }
int epoll_pwait2(int ep, struct epoll_event* evs, int max, const struct timespec* t, const sigset_t*) { RT; return do_epoll_wait(ep, evs, max, t ? (int64_t)t->tv_sec * 1000000000 + t->tv_nsec : -1); }

struct PollSet { struct pollfd* p; nfds_t n; };
static int poll_scan(struct pollfd* p, nfds_t n, bool set) {
  int r = 0;
  for (nfds_t i = 0; i < n; i++) {
    if (set) p[i].revents = 0;
    if (p[i].fd < 0) continue;
    Obj* o = p[i].fd >= FD0 && p[i].fd < FDN ? fdt[p[i].fd] : nullptr;
    short m;
    if (!o) m = POLLNVAL;
    else { u32 k = mask(o); m = (short)(k & (p[i].events | POLLERR | POLLHUP)); }
    if (m) { r++; if (set) p[i].revents = m; }
  }
  return r;
}
static bool p_poll(Fiber* f) { PollSet* s = (PollSet*)f->wobj; return poll_scan(s->p, s->n, false) > 0; }
int poll(struct pollfd* p, nfds_t n, int to) {
  RT; sync_point();
  int r = poll_scan(p, n, true);
  if (r || to == 0) return r;
  PollSet s = {p, n};
  if (u32 v = choice_fault(F_EINTR, self_id(), 7)) {     // a signal may come at once or after a part of the time
    if (v > 1 && to > 0) { block(p_poll, &s, ms_deadline((int64_t)to * 1000000 / 8 * (v - 1)), false, "poll"); if ((r = poll_scan(p, n, true)) != 0) return r; }
    errno = EINTR; return -1;
  }
  block(p_poll, &s, ms_deadline(to < 0 ? -1 : (int64_t)to * 1000000), false, "poll");
  return poll_scan(p, n, true);
}
struct SelSet { int n; fd_set r, w, e; };
static int sel_scan(SelSet* s, fd_set* r, fd_set* w, fd_set* e) {
  int c = 0;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  for (int i = 0; i < s->n && i < FD_SETSIZE; i++) {
    bool a = FD_ISSET(i, &s->r), b = FD_ISSET(i, &s->w), x = FD_ISSET(i, &s->e);
    if (!a && !b && !x) continue;
    Obj* o = i >= FD0 ? fdt[i] : nullptr;
    if (!o) return -1;
    u32 m = mask(o);
    if (a && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { c++; if (r) FD_SET(i, r); }
    if (b && (m & (EPOLLOUT | EPOLLERR))) { c++; if (w) FD_SET(i, w); }
  }
  return c;
}
static bool p_sel(Fiber* f) { return sel_scan((SelSet*)f->wobj, nullptr, nullptr, nullptr) != 0; }
static int do_select(int n, fd_set* r, fd_set* w, fd_set* e, int64_t ns) {
  sync_point();
  if (n > FD_SETSIZE) fail("fd-set-overflow", "select() on descriptor %d: an fd_set only holds descriptors below %d", n - 1, FD_SETSIZE);
  SelSet s; s.n = n;
  FD_ZERO(&s.r); FD_ZERO(&s.w); FD_ZERO(&s.e);
  if (r) s.r = *r;
  if (w) s.w = *w;
  if (e) s.e = *e;
  int c = sel_scan(&s, nullptr, nullptr, nullptr);
  if (c == 0 && ns != 0) {
    if (u32 v = choice_fault(F_EINTR, self_id(), 7)) {
      if (v > 1 && ns > 0) block(p_sel, &s, ms_deadline(ns / 8 * (v - 1)), false, "select");
      if (v <= 1 || ns < 0 || sel_scan(&s, nullptr, nullptr, nullptr) == 0) { errno = EINTR; return -1; }
    } else block(p_sel, &s, ms_deadline(ns), false, "select");
  }
  c = sel_scan(&s, r, w, e);
  if (c < 0) { if (r) *r = s.r; if (w) *w = s.w; if (e) *e = s.e; errno = EBADF; return -1; }
  return c;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { RT; return do_select(n, r, w, e, t ? (int64_t)t->tv_sec * 1000000000 + t->tv_usec * 1000 : -1); }
int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t*) { RT; return do_select(n, r, w, e, t ? (int64_t)t->tv_sec * 1000000000 + t->tv_nsec : -1); }

// ------------------------------------------------------------------ name resolution
int getaddrinfo(const char* host, const char* svc, const struct addrinfo* hints, struct addrinfo** res) {
  RT; sync_point();
  if (choice_fault(F_RESOLVE, self_id(), 1)) { tracef("fault: name resolution fails"); return EAI_AGAIN; }
  in_addr a;
  if (!host) a.s_addr = htonl(INADDR_LOOPBACK);
  else if (inet_pton(AF_INET, host, &a) != 1) {
    size_t hl = strlen(host);
    if (hl >= 9 && !strcmp(host + hl - 9, "localhost")) a.s_addr = htonl(INADDR_LOOPBACK);
    else if (strstr(host, "invalid")) return EAI_NONAME;
    else a.s_addr = htonl(0x0a000001);
  }
  block([](Fiber*) { return false; }, nullptr, g.now + 3000000, false, "getaddrinfo");
  // a name may have addresses of both families, in any order; "v6only" has none of the first
  struct M { addrinfo ai; sockaddr_in sa; sockaddr_in6 s6; };
  bool name = host && strspn(host, "0123456789.") != strlen(host);
  int v6 = name && (!hints || hints->ai_family != AF_INET) ? strstr(host, "v6only") ? 2 : (int)choice(K_MISC, 201, 3) : 0;
  bool v4 = !name || !strstr(host, "v6only");
  if (hints && hints->ai_family == AF_INET6) v4 = false;
  if (!v4 && !v6) return EAI_NONAME;
  int cnt = v6 + v4, at = v6 ? (int)choice(K_MISC, 201, v6 + 1) : 0;
  M* m; { UserScope us; g.off++; g.nopre++; m = (M*)calloc((size_t)cnt, sizeof(M)); g.nopre--; g.off--; }
  for (int k = 0; k < cnt; k++) {
    M& x = m[k]; bool is4 = v4 && k == at;
    if (is4) { x.sa.sin_family = AF_INET; x.sa.sin_addr = a; if (svc) x.sa.sin_port = htons((uint16_t)atoi(svc)); x.ai.ai_addr = (sockaddr*)&x.sa; x.ai.ai_addrlen = sizeof(sockaddr_in); }
    else { x.s6.sin6_family = AF_INET6; memset(&x.s6.sin6_addr, 0x20 + k, 16); x.ai.ai_addr = (sockaddr*)&x.s6; x.ai.ai_addrlen = sizeof(sockaddr_in6); }
    x.ai.ai_family = is4 ? AF_INET : AF_INET6; x.ai.ai_socktype = SOCK_STREAM; x.ai.ai_protocol = IPPROTO_TCP; x.ai.ai_next = k + 1 < cnt ? &m[k + 1].ai : nullptr;
  }
  nai++;
  *res = &m->ai;
  return 0;
}
void freeaddrinfo(struct addrinfo* a) noexcept { nai--; UserScope us; g.off++; g.nopre++; free(a); g.nopre--; g.off--; }
}
