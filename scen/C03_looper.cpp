// C03: the event loop calls exactly the live, enabled, ready registrations, whatever the callbacks do.
#include "common.h"
#include <poll.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <memory>
using namespace scn;

namespace {

struct End { int fd; bool reg; int kind, filled; };    // 0 one side of a socket pair, 1 the read end of a pipe, 2 its write end

struct Reg {
  int gen; Looper::event_id_t id; int end; int fd;
  bool rd, wr;       // interest
  bool alive; bool timer;
  int calls_r, calls_w; void* param; bool has_r, has_w;   // interest without a callback stands for nothing
  uint64_t born, period, last;
};

struct World {
  Looper* lp;
  std::vector<End> ends; std::vector<int> wfd;   // ends[i] is registered, wfd[i] is its peer
  std::vector<Reg*> regs;
  int budget, gens, round; bool quiet; int depth; bool growth;
  World() : lp(nullptr), budget(0), gens(0), round(0), quiet(false), depth(0), growth(false) {}
};

short ready(int fd, short ev) { struct pollfd p; p.fd = fd; p.events = ev; p.revents = 0; ::poll(&p, 1, 0); return p.revents; }

void act(World& w, Reg* self, bool in_cb);
void on_cb(World& w, Reg* r, Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* param);
void on_timer(World& w, Reg* r, Looper::event_id_t id, void* param);

// the callback object: its captures must stay intact while it runs, even if the registration is deleted
struct Cb {
  World* w; Reg* r; std::shared_ptr<std::string> canary; std::string own;
  Cb(World* ww, Reg* rr) : w(ww), r(rr), canary(std::make_shared<std::string>("canary-canary-canary-canary")), own("own-state-own-state-own-state-own") {}
  void check(int gen) const { SIM_ATOMIC; SIM_CHECK(r->gen == gen && *canary == "canary-canary-canary-canary" && own == "own-state-own-state-own-state-own", "callback-destroyed", "state of a running callback was destroyed"); }
  void operator()(Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* param) const { int g = r->gen; check(g); on_cb(*w, r, id, fd, ev, param); check(g); }
  void operator()(Looper::event_id_t id, void* param) const { int g = r->gen; check(g); on_timer(*w, r, id, param); check(g); }
};

Reg* new_reg(World& w, int end) {
  SIM_ATOMIC;
  Reg* r = new Reg(); r->gen = w.gens++; r->end = end; r->fd = end >= 0 ? w.ends[end].fd : -1; r->rd = r->wr = false; r->alive = false; r->timer = end < 0;
  r->calls_r = r->calls_w = 0; r->param = (void*)(uintptr_t)(0x1000 + r->gen); r->period = 0; r->born = 0; r->last = 0; r->has_w = false; r->has_r = true; r->id = Looper::INVALID_EVENT_ID;
  w.regs.push_back(r);
  return r;
}
void check_id(World& w, Reg* r) {
  SIM_ATOMIC;
  SIM_CHECK(r->id != Looper::INVALID_EVENT_ID, "register-failed", "register returned the invalid id");
  for (Reg* o : w.regs) SIM_CHECK(o == r || !o->alive || o->id != r->id, "id-not-unique", "id %u given to registration %d while registration %d holds it", r->id, r->gen, o->gen);
  r->alive = true;
}
Reg* do_register(World& w, int end) {
  Reg* r = new_reg(w, end);
  Looper::event_t m = (Looper::event_t)(sim::choose(4));
  r->has_w = sim::coin(3) || ((m & Looper::kWrite) && !sim::coin(8)); r->has_r = !sim::coin(6);
  r->rd = (m & Looper::kRead) && r->has_r; r->wr = (m & Looper::kWrite) && r->has_w;
  w.ends[end].reg = true;
  sim::event("register gen=%d end=%d mask=%u", r->gen, end, m);
  Looper::event_callback rc, wc; if (r->has_r) rc = Cb(&w, r); if (r->has_w) wc = Cb(&w, r);
  r->id = w.lp->register_event(r->fd, m, r->param, rc, wc);
  check_id(w, r);
  return r;
}
Reg* do_timer(World& w) {
  Reg* r = new_reg(w, -1);
  uint32_t ms = 1 + sim::choose(20);
  r->period = ms; r->rd = true;
  r->born = sim::now_ns(); r->last = r->born;
  sim::event("timer gen=%d ms=%u", r->gen, ms);
  r->id = w.lp->register_timer_event(ms, r->param, Cb(&w, r));
  check_id(w, r);
  return r;
}
void do_delete(World& w, Reg* r) {
  sim::event("delete gen=%d id=%u", r->gen, r->id);
  { SIM_ATOMIC; r->alive = false; r->rd = r->wr = false; }
  w.lp->delete_event(r->id);
  SIM_ATOMIC;
  if (r->end >= 0) w.ends[r->end].reg = false;
}
Reg* pick_live(World& w, bool want_timer_ok) {
  SIM_ATOMIC;
  std::vector<Reg*> l;
  for (Reg* r : w.regs) if (r->alive && (want_timer_ok || !r->timer)) l.push_back(r);
  if (l.empty()) return nullptr;
  return l[sim::choose((uint32_t)l.size())];
}
void open_end(int kind, int* fd, int* peer) {
  int sv[2];
  if (kind == 0) SIM_CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) == 0, "harness", "socketpair");
  else SIM_CHECK(pipe2(sv, O_NONBLOCK) == 0, "harness", "pipe");
  *fd = sv[kind == 2]; *peer = sv[kind != 2];
}
void reopen(World& w, int e) {   // a new connection, most likely on the same descriptor number
  ::close(w.ends[e].fd); if (w.wfd[e] >= 0) ::close(w.wfd[e]);
  open_end(w.ends[e].kind, &w.ends[e].fd, &w.wfd[e]);
}
// what happens on the other side of an end: data arrives, the buffer fills or drains, the other side goes away
void peer_act(World& w) {
  char b[4096] = {0}; uint32_t k = sim::choose((uint32_t)w.ends.size()); End& e = w.ends[k]; int p = w.wfd[k];
  if (p < 0) return;
  switch (sim::choose(8)) {
    case 0: sim::event("fill end=%u", k); if (e.kind != 1) while (::write(e.fd, b, sizeof b) > 0); e.filled = w.round; break;
    case 1: sim::event("drain end=%u", k); if (e.kind != 1) while (::read(p, b, sizeof b) > 0); break;
    case 2: if (sim::coin(3)) { sim::event("close peer of end=%u", k); ::close(p); w.wfd[k] = -1; } break;
    default: if (e.kind != 2) (void)!::write(p, "xxxxxxxxxxxxxxxx", 1 + sim::choose(16)); break;
  }
}

void act(World& w, Reg* self, bool in_cb) {
  int n = 1 + (int)sim::choose(3);
  for (int i = 0; i < n && w.budget > 0; i++) {
    w.budget--;
    switch (sim::choose(12)) {
      case 0: if (self && self->alive && !self->timer && w.ends[self->end].kind != 2) { char b[64]; (void)!::read(self->fd, b, 1 + sim::choose(40)); } break;
      case 1: if (self && self->alive) do_delete(w, self); break;
      case 2: { Reg* r = pick_live(w, true); if (r) do_delete(w, r); break; }
      case 3: case 4: { int e = -1; { SIM_ATOMIC; std::vector<int> fr; for (size_t k = 0; k < w.ends.size(); k++) if (!w.ends[k].reg) fr.push_back((int)k); if (!fr.empty()) e = fr[sim::choose((uint32_t)fr.size())]; }
        if (e >= 0) { if (sim::coin(2)) reopen(w, e); do_register(w, e); } break; }
      case 5: { Reg* r = pick_live(w, false); if (r) { sim::event("enable_read gen=%d", r->gen); r->rd = r->has_r; w.lp->enable_read(r->id); } break; }
      case 6: { Reg* r = pick_live(w, true); if (r) { sim::event("disable_read gen=%d", r->gen); w.lp->disable_read(r->id); r->rd = false; } break; }
      case 7: { Reg* r = pick_live(w, false); if (r) { sim::event("enable_write gen=%d", r->gen); r->wr = r->has_w; w.lp->enable_write(r->id); } break; }
      case 8: { Reg* r = pick_live(w, false); if (r) { sim::event("disable_write gen=%d", r->gen); w.lp->disable_write(r->id); r->wr = false; } break; }
      case 9: { Reg* r = pick_live(w, true); if (r) { sim::event("disable_all gen=%d", r->gen); w.lp->disable_all(r->id); r->rd = r->wr = false; } break; }
      case 10: peer_act(w);
        if (sim::coin(4)) {     // the invalid id is nobody
          Looper::event_id_t x = Looper::INVALID_EVENT_ID;
          switch (sim::choose(6)) { case 0: w.lp->disable_read(x); break; case 1: w.lp->disable_write(x); break; case 2: w.lp->disable_all(x); break; case 3: w.lp->enable_read(x); break; case 4: w.lp->enable_write(x); break; default: w.lp->delete_event(x); }
          bool ir = w.lp->is_read(x), iw = w.lp->is_write(x); SIM_ATOMIC; SIM_CHECK(!ir && !iw, "interest-state", "the invalid id has interest");
        }
        break;
      case 11: if (in_cb && self && self->alive && !self->timer && sim::coin(2)) {   // delete and register again inside the callback
          int e = self->end; do_delete(w, self); if (sim::coin(2)) reopen(w, e); do_register(w, e);
        } else if (w.growth && sim::coin(3)) { int m = 17 + (int)sim::choose(20); w.growth = false; for (int k = 0; k < m; k++) { Reg* r = do_timer(w); if (sim::coin(2)) do_delete(w, r); } }
        else do_timer(w);
        break;
    }
    // the state reported by the looper agrees with what was asked for
    Reg* q = pick_live(w, true);
    if (q) { bool ir = w.lp->is_read(q->id), iw = w.lp->is_write(q->id); SIM_ATOMIC;
      SIM_CHECK((ir == q->rd || !q->has_r) && (iw == q->wr || !q->has_w), "interest-state", "registration %d: interest read=%d write=%d, asked for read=%d write=%d", q->gen, ir, iw, q->rd, q->wr); }
  }
}

void on_cb(World& w, Reg* r, Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* param) {
  {
    SIM_ATOMIC;
    sim::event("callback gen=%d ev=%u", r->gen, ev);
    SIM_CHECK(w.depth == 0, "nested-callback", "callback called inside another callback");
    SIM_CHECK(r->alive, "stale-callback", "callback of a deleted registration (%d) was called", r->gen);
    SIM_CHECK(id == r->id && fd == r->fd && param == r->param, "wrong-arguments", "registration %d: id %u fd %d param %p, expected %u %d %p", r->gen, id, fd, param, r->id, r->fd, r->param);
    if (ev == Looper::kRead) { SIM_CHECK(r->rd, "disabled-callback", "read callback of registration %d although reading is disabled", r->gen); r->calls_r++; }
    else if (ev == Looper::kWrite) { SIM_CHECK(r->wr, "disabled-callback", "write callback of registration %d although writing is disabled", r->gen); r->calls_w++; }
    else sim::fail("wrong-arguments", "event value %u", ev);
    short want = ev == Looper::kRead ? POLLIN : POLLOUT;
    // (a buffer which was filled in this very round was ready when the round began)
    SIM_CHECK((ev == Looper::kWrite && w.ends[r->end].filled == w.round) || ready(r->fd, want) & (want | POLLHUP | POLLERR), "not-ready", "registration %d was called for event %u but its descriptor is not ready (stale event)", r->gen, ev);
    w.depth++;
  }
  if (!w.quiet) act(w, r, true);
  SIM_ATOMIC; w.depth--;
}
void on_timer(World& w, Reg* r, Looper::event_id_t id, void* param) {
  {
    SIM_ATOMIC;
    sim::event("timer callback gen=%d", r->gen);
    SIM_CHECK(w.depth == 0, "nested-callback", "callback called inside another callback");
    SIM_CHECK(r->alive && r->rd, "stale-callback", "timer callback of a %s registration (%d)", r->alive ? "disabled" : "deleted", r->gen);
    SIM_CHECK(id == r->id && param == r->param, "wrong-arguments", "timer %d: wrong id or param", r->gen);
    uint64_t t = sim::now_ns();
    SIM_CHECK(t >= r->born + r->period * 1000000ull, "early-timer", "timer %d fired %llu us after its creation, its period is %llu ms", r->gen, (unsigned long long)((t - r->born) / 1000), (unsigned long long)r->period);
    r->calls_r++; w.depth++;
  }
  if (!w.quiet) act(w, r, true);
  SIM_ATOMIC; w.depth--;
}

void setup(World& w) {
  int n = (int)sim::choose_range(2, 6);
  for (int i = 0; i < n; i++) { int kind = sim::coin(2) ? 0 : 1 + (int)sim::choose(2), fd, peer; open_end(kind, &fd, &peer); w.ends.push_back(End{fd, false, kind, -1}); w.wfd.push_back(peer); }
  w.budget = 20 + (int)sim::choose(60);
  w.growth = sim::coin(2);
}
void teardown(World& w) {
  for (Reg* r : w.regs) if (r->alive) do_delete(w, r);
  Looper::destroy_looper(w.lp);
  for (size_t i = 0; i < w.ends.size(); i++) { ::close(w.ends[i].fd); if (w.wfd[i] >= 0) ::close(w.wfd[i]); }
  SIM_ATOMIC;
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors are open after the loop and every registration are gone: %s", sim::open_fds(), sim::describe_fds());
  for (Reg* r : w.regs) delete r;
}
}  // namespace

// single-threaded: random actions between and inside callbacks, then progress for whatever is left
SIM_SCENARIO_W("C03", step_actions, 6) {
  sim::allow(sim::F_EINTR);
  World w; setup(w);
  w.lp = Looper::create_looper();
  int rounds = 4 + (int)sim::choose(20), fired = 0;
  for (size_t k = 0; k < w.ends.size(); k++) if (!sim::coin(3)) do_register(w, (int)k);
  for (int i = 0; i < rounds; i++) {
    act(w, nullptr, false);
    if (sim::coin(3)) sim::sleep_us(sim::choose(12000));
    { w.round++; w.lp->step(); }
  }
  sim::calm();
  w.quiet = true;
  sim::sleep_us(30000);          // every timer is due now
  struct B { int r, w; bool rr, ww, any; };
  std::vector<B> base;          // what is ready now must be called in the next rounds
  for (Reg* r : w.regs) {
    SIM_ATOMIC;
    B b; b.r = r->calls_r; b.w = r->calls_w; b.rr = b.ww = b.any = false;
    if (r->alive) { b.rr = r->rd && (r->timer || (ready(r->fd, POLLIN) & POLLIN)); b.ww = r->wr && (ready(r->fd, POLLOUT) & POLLOUT);
      b.any = !r->timer && (r->rd || r->wr) && ready(r->fd, 0); if (b.any) sim::probe("error or hang-up on a live registration"); }
    base.push_back(b);
  }
  for (int i = 0; i < 6; i++) { w.round++; w.lp->step(); }
  for (size_t i = 0; i < base.size(); i++) {
    SIM_ATOMIC;
    Reg* r = w.regs[i];
    fired += r->calls_r + r->calls_w;
    if (!r->alive) continue;
    SIM_CHECK(!base[i].rr || r->calls_r > base[i].r, "event-lost", "registration %d is enabled and readable but was not called in 6 rounds", r->gen);
    SIM_CHECK(!base[i].any || r->calls_r + r->calls_w > base[i].r + base[i].w, "event-lost", "the descriptor of registration %d reports an error or a hang-up, but no enabled callback was called in 6 rounds", r->gen);
    SIM_CHECK(!base[i].ww || r->calls_w > base[i].w, "event-lost", "registration %d is enabled and writable but was not called in 6 rounds", r->gen);
  }
  teardown(w);
  if (fired > 1) sim::nontrivial();
}

// the loop runs on its own thread while other threads write and enable interest
SIM_SCENARIO_W("C03", loop_cross_thread, 4) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_SHORT_READ);
  int n = (int)sim::choose_range(1, 4), nth = (int)sim::choose_range(1, 3), per = (int)sim::choose_range(1, 6);
  struct S { int rfd, wfd; Looper::event_id_t id; int sent, got, wcalls; bool want_w; };
  struct C { Looper* lp; std::vector<S> s; bool up; int looptid; };
  C* c = new C(); c->up = false; c->s.resize(n); c->lp = nullptr;
  int t = sim::spawn("loop", [=]() {
    c->lp = Looper::create_looper();
    for (int i = 0; i < n; i++) {
      int sv[2]; socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv);
      S& s = c->s[i]; s.rfd = sv[0]; s.wfd = sv[1]; s.sent = s.got = s.wcalls = 0; s.want_w = false;
      s.id = c->lp->register_event(s.rfd, Looper::kRead, nullptr,
        [c, i](Looper::event_id_t id, socket_t fd, Looper::event_t ev, void*) {
          S& s = c->s[i];
          SIM_CHECK(id == s.id && fd == s.rfd && ev == Looper::kRead, "wrong-arguments", "read callback of %d got other arguments", i);
          char b[16]; ssize_t k = ::read(fd, b, sizeof b);
          SIM_ATOMIC; if (k > 0) { s.got += (int)k; sim::event("got %d on %d", (int)k, i); }
        },
        [c, i](Looper::event_id_t id, socket_t fd, Looper::event_t ev, void*) {
          S& s = c->s[i];
          { SIM_ATOMIC; SIM_CHECK(id == s.id && fd == s.rfd && ev == Looper::kWrite, "wrong-arguments", "write callback of %d got other arguments", i);
            SIM_CHECK(s.want_w, "disabled-callback", "write callback of %d although write interest was never enabled", i); }
          c->lp->disable_write(id);
          SIM_ATOMIC; s.wcalls++;
        });
    }
    c->up = true;
    c->lp->loop();
    for (S& s : c->s) { c->lp->delete_event(s.id); ::close(s.rfd); ::close(s.wfd); }
    Looper::destroy_looper(c->lp);
  });
  sim::wait_until([c]() { return c->up; }, 10000);
  std::vector<int> th;
  for (int k = 0; k < nth; k++) th.push_back(sim::spawn("writer", [=]() {
    for (int j = 0; j < per; j++) {
      S& s = c->s[sim::choose((uint32_t)n)];
      if (sim::choose(3) < 2) { int m = 1 + (int)sim::choose(30); { SIM_ATOMIC; s.sent += m; } ssize_t r = ::write(s.wfd, "abcdefghijklmnopqrstuvwxyz0123456789", m); SIM_ATOMIC; if (r != m) s.sent -= m - (r > 0 ? (int)r : 0); }
      else { { SIM_ATOMIC; s.want_w = true; } int before = s.wcalls; c->lp->enable_write(s.id);
        // interest enabled from another thread must take effect
        bool ok = sim::wait_until([&]() { return s.wcalls > before; }, 20000);
        SIM_CHECK(ok, "event-lost", "write interest enabled by another thread: no callback within 20 s"); }
      if (sim::coin(3)) sim::sleep_us(sim::choose(500));
    }
  }));
  for (int k : th) sim::join(k);
  sim::calm();
  bool ok = sim::wait_until([c]() { for (S& s : c->s) if (s.got != s.sent) return false; return true; }, 20000);
  for (S& s : c->s) SIM_CHECK(ok, "event-lost", "%d of %d bytes read 20 s after the last write", s.got, s.sent);
  c->lp->push_stop_request();
  sim::join(t);
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors open at the end: %s", sim::open_fds(), sim::describe_fds());
  delete c;
  sim::nontrivial();
}

// a great number of registrations: every one of them keeps its own events, however many come at once
SIM_SCENARIO_W("C03", crowd, 1) {
  static const int sizes[] = {40, 150, 300, 620};
  int n = 1 + (int)sim::choose((uint32_t)sizes[sim::coin(4) ? sim::choose(4) : sim::choose(2)]);
  struct One { int rfd, wfd; Looper::event_id_t id; bool reg, on, due, wr; int calls, wcalls; };
  struct W { Looper* lp; std::vector<One> o; };
  W* w = new W; w->lp = Looper::create_looper(); w->o.resize((size_t)n);
  auto reg = [w](int i) {
    One& o = w->o[(size_t)i];
    o.wr = sim::coin(6);
    o.id = w->lp->register_event(o.rfd, (Looper::event_t)(Looper::kRead | (o.wr ? Looper::kWrite : 0)), &o,
      [w, i](Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* p) {
        One& o = w->o[(size_t)i];
        SIM_CHECK(o.reg && o.on && o.due, "stale-callback", "registration %d of %d was called although it is %s", i, (int)w->o.size(), !o.reg ? "deleted" : !o.on ? "disabled" : "not ready");
        SIM_CHECK(id == o.id && fd == o.rfd && p == &o && ev == Looper::kRead, "wrong-arguments", "registration %d of %d got the arguments of another one", i, (int)w->o.size());
        o.calls++; char b[8]; while (::read(fd, b, sizeof b) > 0) {} o.due = false;
      },
      o.wr ? Looper::event_callback([w, i](Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* p) {
        One& o = w->o[(size_t)i];
        SIM_CHECK(o.reg && o.wr && id == o.id && fd == o.rfd && p == &o && ev == Looper::kWrite, "wrong-arguments", "the write callback of registration %d of %d got the arguments of another one", i, (int)w->o.size());
        o.wcalls++; o.wr = false; w->lp->disable_write(id);
      }) : Looper::event_callback());
    SIM_CHECK(o.id != Looper::INVALID_EVENT_ID, "register-failed", "registration %d of %d was given the invalid id", i, (int)w->o.size());
    o.reg = true; o.on = true; o.calls = o.wcalls = 0; o.due = false;
  };
  for (int i = 0; i < n; i++) { int p[2]; SIM_CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); One& o = w->o[(size_t)i]; o.rfd = p[0]; o.wfd = p[1]; reg(i); }
  int rounds = 2 + (int)sim::choose(5);
  for (int r = 0; r < rounds; r++) {
    int how = (int)sim::choose(4);
    for (int i = 0; i < n; i++) {
      One& o = w->o[(size_t)i];
      if (o.reg && how == 1 && sim::coin(3)) { w->lp->delete_event(o.id); o.reg = o.on = o.wr = false; char b[8]; while (::read(o.rfd, b, sizeof b) > 0) {} o.due = false; }
      else if (!o.reg && sim::coin(2)) reg(i);
      else if (o.reg && how == 2 && sim::coin(8)) { if (o.on) w->lp->disable_read(o.id); else w->lp->enable_read(o.id); o.on = !o.on; }
    }
    for (int i = 0; i < n; i++) { One& o = w->o[(size_t)i]; if (o.reg && (how == 3 || sim::coin(3))) { SIM_CHECK(::write(o.wfd, "x", 1) == 1, "harness", "write"); o.due = true; } }
    sim::sleep_us(60000);    // (everything written has arrived)
    std::set<Looper::event_id_t> ids;
    for (One& o : w->o) if (o.reg) SIM_CHECK(ids.insert(o.id).second, "id-not-unique", "two of %d registrations have the id %u", n, o.id);
    for (int k = 0; k < 12; k++) w->lp->step();
    for (int k = 0; k < 100; k++) { bool left = false; for (One& o : w->o) left |= o.reg && ((o.on && o.due) || o.wr); if (!left) break; w->lp->step(); }
    for (int i = 0; i < n; i++) { One& o = w->o[(size_t)i]; SIM_CHECK(!o.reg || !o.on || !o.due, "event-lost", "registration %d of %d is readable and was not called in 112 rounds", i, n); SIM_CHECK(!o.reg || !o.wr, "event-lost", "registration %d of %d is writable and was not called in 112 rounds", i, n); }
  }
  for (One& o : w->o) { if (o.reg) w->lp->delete_event(o.id); ::close(o.rfd); ::close(o.wfd); }
  Looper::destroy_looper(w->lp);
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors are open after the loop and every registration are gone", sim::open_fds());
  delete w;
  sim::nontrivial();
}
