// C02: every message sent to a worker thread is handled exactly once, intact, in per-sender order, on that thread.
#include "common.h"
using namespace scn;

namespace {

struct Msg { int sender; int seq; uint32_t size; };

struct Rx {
  std::map<int, std::vector<int>> got;   // sender -> seqs
  int total;
  Rx() : total(0) {}
};

// content: sender(4) seq(4) then pattern
std::string make_payload(int sender, int seq, uint32_t extra) {
  std::string s(8, 0);
  memcpy(&s[0], &sender, 4); memcpy(&s[4], &seq, 4);
  std::string p; fill(p, (uint32_t)(sender * 1000 + seq), 0, extra);
  return s + p;
}
void check_packet(Packet* p, Rx& rx, int last_by_sender[]) {
  SIM_ATOMIC;
  SIM_CHECK(p->get_packet_size() >= 8, "message-corrupt", "message of %d bytes, at least 8 were sent", (int)p->get_packet_size());
  int sender, seq;
  memcpy(&sender, p->get_packet_content(), 4); memcpy(&seq, p->get_packet_content() + 4, 4);
  SIM_CHECK(sender >= 0 && sender < 64 && seq >= 0 && seq < 100000, "message-corrupt", "garbled message header");
  SIM_CHECK(p->get_packet_id() == (uint16_t)(sender * 251 + seq), "message-corrupt", "message id %d does not match sender %d seq %d", p->get_packet_id(), sender, seq);
  uint32_t extra = p->get_packet_size() - 8u;
  for (uint32_t i = 0; i < extra; i++)
    SIM_CHECK((unsigned char)p->get_packet_content()[8 + i] == pat((uint32_t)(sender * 1000 + seq), i), "message-corrupt", "byte %u of message %d/%d differs", i, sender, seq);
  SIM_CHECK(seq == last_by_sender[sender] + 1, seq <= last_by_sender[sender] ? "message-duplicate" : "message-order",
            "sender %d: message %d handled after message %d", sender, seq, last_by_sender[sender]);
  last_by_sender[sender] = seq;
  rx.total++;
  sim::event("rx sender=%d seq=%d", sender, seq);
}

// any size up to the longest message there is
uint32_t extra_size() { return sim::coin(50) ? (sim::coin(2) ? 65535 - 8 : pick_size(65535 - 8)) : pick_size(1500); }

// send `n` messages as sender `me` through the different overloads
void send_some(WorkThread* w, int me, int n, int* next) {
  while (n > 0) {
    int how = (int)sim::choose(4);
    int k = how == 3 ? std::min(n, 1 + (int)sim::choose(3)) : 1;
    if (how == 3) {
      std::vector<Packet*> ps;
      for (int i = 0; i < k; i++) { Packet* p = Packet::alloc_packet(); std::string s = make_payload(me, *next, extra_size()); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, (uint16_t)(me * 251 + *next), (uint16_t)s.size(), s.data()); ++*next; ps.push_back(p); }
      w->send_message((const Packet**)&ps[0], k);
      for (Packet* p : ps) Packet::free_packet(p);
    } else {
      std::string s = make_payload(me, *next, extra_size());
      uint16_t id = (uint16_t)(me * 251 + *next);
      ++*next;
      if (how == 0) w->send_message(id, (uint16_t)s.size(), s.data());
      else if (how == 1) { uint32_t cut = 1 + sim::choose((uint32_t)s.size() - 1); w->send_message(id, (uint16_t)cut, s.data(), (uint16_t)(s.size() - cut), s.data() + cut); }
      else { Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, id, (uint16_t)s.size(), s.data()); w->send_message(p); Packet::free_packet(p); }
    }
    n -= k;
    if (sim::coin(4)) sim::sleep_us(sim::choose(400));
    else if (sim::coin(4)) sim::yield();
  }
}

}  // namespace

SIM_SCENARIO_W("C02", many_senders, 6) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_EINTR);
  int nsend = (int)sim::choose_range(1, 4), per = (int)sim::choose_range(1, 8);
  bool selfsend = sim::coin(3);
  int presend = sim::coin(4) ? 1 + (int)sim::choose(3) : 0;
  WorkThread* w = new WorkThread();
  Rx rx; int last[64]; for (int& x : last) x = -1;
  thread_id_t wt; bool started = false;
  int selfnext = 0;
  w->set_on_start([&]() { SIM_ATOMIC; SIM_CHECK(!started, "worker-start", "start callback called twice"); started = true; wt = sys_api::thread_get_current_id(); return true; });
  w->set_on_message([&](Packet* p) {
    { SIM_ATOMIC; SIM_CHECK(started && sys_api::thread_get_current_id() == wt, "wrong-thread", "message handled on another thread than the worker"); }
    check_packet(p, rx, last);
    if (selfsend && sim::coin(3) && selfnext < 6) send_some(w, 60, 1, &selfnext);
    if (sim::coin(8)) sim::sleep_us(sim::choose(300));
  });
  int prenext = 0;
  if (presend) send_some(w, 61, presend, &prenext);
  w->start("worker");
  std::vector<int> th; std::vector<int>* next = new std::vector<int>(nsend, 0);
  for (int s = 0; s < nsend; s++) th.push_back(sim::spawn("sender", [=]() { if (sim::coin(3)) sim::sleep_us(sim::choose(1000)); send_some(w, s, per, &(*next)[s]); }));
  for (int t : th) sim::join(t);
  sim::calm();
  bool ok = sim::wait_until([&]() { return rx.total >= nsend * per + presend + selfnext; }, 20000);
  { SIM_ATOMIC;
    int want = nsend * per + presend + selfnext;
    SIM_CHECK(ok, "message-lost", "%d of %d messages handled 20 s after the last send (lost wake-up or lost message)", rx.total, want);
    SIM_CHECK(rx.total == want, "message-duplicate", "%d messages handled, %d sent", rx.total, want);
  }
  // the idle worker must still react
  int lastnext = 0;
  send_some(w, 62, 1, &lastnext);
  ok = sim::wait_until([&]() { return last[62] == 0; }, 20000);
  SIM_CHECK(ok, "message-lost", "a message to an idle worker was not handled within 20 s");
  w->get_looper()->push_stop_request();
  w->join();
  sim::nontrivial();
}

// workers forward a token around a ring, and everyone counts hops
SIM_SCENARIO_W("C02", ring_of_workers, 3) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_EINTR);
  int n = (int)sim::choose_range(2, 4), tokens = (int)sim::choose_range(1, 3), hops = (int)sim::choose_range(3, 12);
  std::vector<WorkThread*> ws;
  std::vector<int> seen(tokens, 0);
  int done = 0;
  for (int i = 0; i < n; i++) ws.push_back(new WorkThread());
  for (int i = 0; i < n; i++) {
    WorkThread* nextw = ws[(i + 1) % n];
    ws[i]->set_on_message([&, i, nextw](Packet* p) {
      int tok, hop;
      { SIM_ATOMIC;
        SIM_CHECK(p->get_packet_size() == 8, "message-corrupt", "token has %d bytes", p->get_packet_size());
        memcpy(&tok, p->get_packet_content(), 4); memcpy(&hop, p->get_packet_content() + 4, 4);
        SIM_CHECK(tok >= 0 && tok < tokens, "message-corrupt", "unknown token");
        SIM_CHECK(hop == seen[tok], hop < seen[tok] ? "message-duplicate" : "message-lost", "token %d arrives with hop %d, expected %d", tok, hop, seen[tok]);
        seen[tok]++;
        sim::event("token %d hop %d at %d", tok, hop, i);
        if (hop + 1 >= hops) { done++; return; }
      }
      hop++;
      nextw->send_message(7, 4, (const char*)&tok, 4, (const char*)&hop);
    });
    ws[i]->start("ring");
  }
  for (int t = 0; t < tokens; t++) { int z = 0; ws[t % n]->send_message(7, 4, (const char*)&t, 4, (const char*)&z); if (sim::coin(2)) sim::yield(); }
  bool ok = sim::wait_until([&]() { return done == tokens; }, 60000);
  SIM_CHECK(ok, "message-lost", "only %d of %d tokens completed their %d hops", done, tokens, hops);
  for (WorkThread* w : ws) w->get_looper()->push_stop_request();
  for (WorkThread* w : ws) w->join();
  sim::nontrivial();
}

// A worker that does not get to run (not started yet, or busy with one message) while hundreds or thousands of
// messages pile up: all of them are handled afterwards, in order per sender, intact.
SIM_SCENARIO_W("C02", backlog, 1) {
  sim::allow(sim::F_WEAK_CAS); sim::allow(sim::F_EINTR);
  int nsend = (int)sim::choose_range(1, 3);
  uint32_t cls = sim::choose(4);
  int total = cls == 0 ? (int)sim::choose_range(10, 100) : cls == 1 ? (int)sim::choose_range(100, 600) : cls == 2 ? (int)sim::choose_range(600, 3000) : (int)sim::choose_range(3000, 9000);
  int per = total / nsend; if (per < 1) per = 1;
  bool stalled = sim::coin(2);   // otherwise: not started while the messages are sent
  WorkThread* w = new WorkThread();
  Rx rx; int last[64]; for (int& x : last) x = -1;
  bool in_stall = false, release = false, has_in_stall = false;
  w->set_on_message([&](Packet* p) {
    if (p->get_packet_id() == 65000 && p->get_packet_size() == 2) {
      { SIM_ATOMIC; SIM_CHECK(!has_in_stall, "message-duplicate", "the first message was handled twice"); has_in_stall = true; in_stall = true; }
      sim::wait_until([&]() { return release; }, 3600000);
      SIM_ATOMIC; in_stall = false;
      return;
    }
    check_packet(p, rx, last);
  });
  if (stalled) {
    w->start("backlog");
    w->send_message(65000, 2, "go");
    bool ok = sim::wait_until([&]() { return in_stall; }, 20000);
    SIM_CHECK(ok, "message-lost", "the first message of a worker was not handled within 20 s");
  }
  std::vector<int> th;
  for (int s = 0; s < nsend; s++) th.push_back(sim::spawn("sender", [=]() {
    for (int i = 0; i < per; i++) {
      std::string m = make_payload(s, i, (uint32_t)(i % 7));
      w->send_message((uint16_t)(s * 251 + i), (uint16_t)m.size(), m.data());
    }
  }));
  for (int t : th) sim::join(t);
  sim::calm();
  { SIM_ATOMIC; SIM_CHECK(rx.total == 0, "wrong-thread", "%d messages handled while the worker could not run", rx.total); release = true; }
  if (!stalled) w->start("backlog");
  bool ok = sim::wait_until([&]() { return rx.total >= nsend * per; }, 60000);
  { SIM_ATOMIC; SIM_CHECK(ok && rx.total == nsend * per, "message-lost", "%d of %d piled-up messages handled 60 s after the worker was free to run", rx.total, nsend * per); }
  int lastnext = 0;
  send_some(w, 62, 1, &lastnext);
  ok = sim::wait_until([&]() { return last[62] == 0; }, 20000);
  SIM_CHECK(ok, "message-lost", "a message after the backlog was not handled within 20 s");
  w->get_looper()->push_stop_request();
  w->join();
  sim::nontrivial();
}

// The queue of a worker filled to the brim, and beyond: what it holds is handled, and the worker goes on.
SIM_SCENARIO_W("C02", brim, 1) {
  if (sim::choose(40)) return;                     // costs as much as a hundred other runs
  const int CAP = 65535;
  int over = (int)sim::choose(3) * (int)sim::choose(40), n = CAP + over - (over ? 0 : (int)sim::choose(3));
  WorkThread* w = new WorkThread();
  bool in_stall = false, release = false; int next = 0, late = 0;
  w->set_on_message([&](Packet* p) {
    if (p->get_packet_id() == 65000) { { SIM_ATOMIC; in_stall = true; } sim::wait_until([&]() { return release; }, 3600000); return; }
    SIM_ATOMIC;
    if (p->get_packet_id() == 65001) { late++; return; }
    int seq; SIM_CHECK(p->get_packet_size() == 4, "message-corrupt", "a message of %d bytes", (int)p->get_packet_size());
    memcpy(&seq, p->get_packet_content(), 4);
    SIM_CHECK(seq >= next, "message-duplicate", "message %d was handled after message %d", seq, next - 1);
    SIM_CHECK(seq < n && p->get_packet_id() == (uint16_t)(seq % 60000), "message-corrupt", "message %d has identifier %d", seq, p->get_packet_id());
    SIM_CHECK(seq == next || next >= CAP, "message-lost", "message %d follows message %d", seq, next - 1);
    next = seq + 1;
  });
  w->start("brim");
  w->send_message(65000, 2, "go");
  SIM_CHECK(sim::wait_until([&]() { return in_stall; }, 20000), "message-lost", "the first message of a worker was not handled within 20 s");
  for (int i = 0; i < n; i++) w->send_message((uint16_t)(i % 60000), 4, (const char*)&i);
  { SIM_ATOMIC; release = true; }
  SIM_CHECK(sim::wait_until([&]() { return next >= std::min(n, CAP); }, 600000), "message-lost", "%d of %d messages of a full queue were handled", next, n);
  for (int i = 0; i < 3; i++) w->send_message(65001, 1, "x");
  SIM_CHECK(sim::wait_until([&]() { return late == 3; }, 20000), "message-lost", "%d of 3 messages after a full queue were handled", late);
  w->get_looper()->push_stop_request();
  w->join();
  sim::nontrivial();
}
