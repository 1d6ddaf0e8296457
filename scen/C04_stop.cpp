// C04: a stop request from any thread at any moment ends the loop, once and safely.
#include "common.h"
#include <sys/socket.h>
#include <unistd.h>
using namespace scn;

SIM_SCENARIO_W("C04", stop_race, 5) {
  sim::allow(sim::F_EINTR);
  int nstop = (int)sim::choose_range(1, 3), nid = (int)sim::choose(6), ntimer = (int)sim::choose(3);
  bool self_stop = sim::coin(4), destroy_now = nstop == 1 && sim::coin(2);
  bool before = sim::coin(4), writes = sim::coin(2);     // write interest stays on: every round has several callbacks to call
  struct C { Looper* lp; bool created, returned, destroyed; int stops_done, stops_begun, after, calls, wend; std::vector<Looper::event_id_t> ids; std::vector<int> fds; };
  C* c = new C(); c->lp = nullptr; c->created = c->returned = c->destroyed = false; c->stops_done = c->stops_begun = c->after = c->calls = c->wend = 0;
  int t = sim::spawn("loop", [=]() {
    Looper* lp = Looper::create_looper();
    auto seen = [c, lp, self_stop]() {
      bool stop = false;
      { SIM_ATOMIC;
        SIM_CHECK(!c->returned, "callback-after-stop", "callback after the loop returned");
        c->calls++;
        if (c->stops_done) { c->after++; SIM_CHECK(c->after <= 1, "callback-after-stop", "%d callbacks were started after a stop request had completed", c->after); }
        if (self_stop && c->calls == 3) { c->stops_begun++; stop = true; } }
      if (stop) { lp->push_stop_request(); SIM_ATOMIC; c->stops_done++; }
      else if (sim::coin(6)) sim::sleep_us(sim::choose(300));
    };
    for (int i = 0; i < ntimer; i++) c->ids.push_back(lp->register_timer_event(1 + sim::choose(5), nullptr, [seen](Looper::event_id_t, void*) { seen(); }));
    for (int i = 0; i < nid; i++) {
      int sv[2]; socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv); c->fds.push_back(sv[0]); c->fds.push_back(sv[1]);
      c->ids.push_back(lp->register_event(sv[0], writes ? Looper::kRead | Looper::kWrite : Looper::kRead, nullptr, [seen, lp](Looper::event_id_t, socket_t fd, Looper::event_t, void*) { char b[8]; (void)!::read(fd, b, 8); seen(); },
        [seen, lp, c, writes](Looper::event_id_t id, socket_t, Looper::event_t, void*) { if (!writes || c->calls > 60) lp->disable_write(id); seen(); }));
    }
    { SIM_ATOMIC; c->lp = lp; c->created = true; }
    if (before) sim::sleep_us(sim::choose(2000));
    lp->loop();
    { SIM_ATOMIC; c->returned = true; SIM_CHECK(c->stops_begun > 0, "loop-returned", "the loop returned although nobody asked it to stop"); SIM_CHECK(lp->is_quit_pending(), "loop-returned", "the loop returned without a pending stop request"); }
    lp->loop();    // a stopped loop stays stopped
    if (!destroy_now) sim::wait_until([c, nstop, self_stop]() { return c->wend >= nstop + 1; }, 60000);
    for (auto id : c->ids) lp->delete_event(id);
    for (int fd : c->fds) ::close(fd);
    Looper::destroy_looper(lp);
    SIM_ATOMIC; c->destroyed = true;
  });
  sim::wait_until([c]() { return c->created; }, 10000);
  std::vector<int> th;
  for (int k = 0; k < nstop; k++) th.push_back(sim::spawn("stopper", [=]() {
    if (!destroy_now && sim::coin(2)) sim::sleep_us(sim::choose(3000));
    if (destroy_now && self_stop) { SIM_ATOMIC; c->wend++; return; }
    { SIM_ATOMIC; c->stops_begun++; }
    c->lp->push_stop_request();
    SIM_ATOMIC; c->stops_done++; c->wend++;
  }));
  // a thread which keeps the inner wake-up channel busy
  th.push_back(sim::spawn("toucher", [=]() {
    if (!destroy_now && nid) for (int j = 0; j < 4; j++) { c->lp->enable_write(c->ids[ntimer]); if (sim::coin(2)) sim::yield(); }
    SIM_ATOMIC; c->wend++;
  }));
  if (destroy_now && self_stop && !ntimer && !(writes && nid)) { /* nothing will call back: stop it from here */ { SIM_ATOMIC; c->stops_begun++; } c->lp->push_stop_request(); { SIM_ATOMIC; c->stops_done++; } }
  for (int k : th) sim::join(k);
  sim::calm();
  bool ok = sim::wait_until([c]() { return c->destroyed; }, 30000);
  SIM_CHECK(ok, "stop-lost", "the loop has not returned 30 s after the stop request");
  sim::join(t);
  SIM_CHECK(sim::open_fds() == 0, "descriptor-leak", "%d descriptors open: %s", sim::open_fds(), sim::describe_fds());
  delete c;
  sim::nontrivial();
}

// worker threads are stopped by several parties while messages still arrive
SIM_SCENARIO_W("C04", worker_stop, 3) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_WEAK_CAS);
  int n = (int)sim::choose_range(1, 3), nmsg = (int)sim::choose(6);
  std::vector<WorkThread*> ws; int* handled = new int(0);
  for (int i = 0; i < n; i++) { WorkThread* w = new WorkThread(); ws.push_back(w); w->set_on_message([handled, w](Packet* p) { SIM_ATOMIC; ++*handled; (void)p; }); }
  for (WorkThread* w : ws) w->start("w");
  std::vector<int> th;
  for (int i = 0; i < n; i++) {
    WorkThread* w = ws[i];
    th.push_back(sim::spawn("msg", [=]() { for (int k = 0; k < nmsg; k++) { w->send_message(1, 4, "abcd"); if (sim::coin(3)) sim::yield(); } }));
    th.push_back(sim::spawn("stop", [=]() { if (sim::coin(2)) sim::sleep_us(sim::choose(200)); w->get_looper()->push_stop_request(); }));
  }
  for (int k : th) sim::join(k);
  sim::calm();
  bool* done = new bool(false);
  int j = sim::spawn("join", [=]() { for (WorkThread* w : ws) w->join(); *done = true; });
  bool ok = sim::wait_until([=]() { return *done; }, 30000);
  SIM_CHECK(ok, "stop-lost", "a worker thread has not ended 30 s after its stop request");
  sim::join(j);
  delete done; delete handled;
  sim::nontrivial();
}
