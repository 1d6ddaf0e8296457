// C30: the sample clients (chat, echo) send every typed line and display everything the server sends; the timer sample
// counts its three periods and ends.
#include "tunnel.h"
#include <iostream>
// the end of the program: the simulated process stops here
namespace c30 { extern bool exited; void leave(int); }
namespace std { inline void sim_exit(int r) { c30::leave(r); } }
inline void sim_exit(int r) { c30::leave(r); }
#define main chat_client_main
#define exit sim_exit
namespace chatc_sample {
#include "samples/chat/chat_client.cpp"
}
#undef main
#define main echo_client_main
namespace echoc_sample {
#include "samples/echo/echo_client.cpp"
}
#undef main
#define main timer_main
namespace timer_sample {
#include "samples/timer/timer.cpp"
}
#undef main
#undef exit
using namespace scn;

namespace c30 {
bool exited = false;
int returned = -1000;
void leave(int) { { SIM_ATOMIC; exited = true; } for (;;) sim::sleep_us(1000000000); }
}

namespace {
enum { PORT = 7801 };
const char* LOG = "logs/c30.log";
// the keyboard: lines typed at any time; nobody ends the input
struct Keyboard : std::streambuf {
  std::vector<std::string> lines; size_t at; std::string cur; bool slow; int typed;
  Keyboard() : at(0), slow(false), typed(0) {}
  int underflow() override {
    if (at >= lines.size()) for (;;) sim::sleep_us(1000000000);
    if (slow || sim::coin(4)) sim::sleep_us(sim::choose(20000));
    SIM_ATOMIC;
    cur = lines[at++] + "\n";
    typed++;
    setg(&cur[0], &cur[0], &cur[0] + cur.size());
    return (unsigned char)cur[0];
  }
};
Keyboard* kb;
struct Shown { std::string text; bool info; };
// what the log says after the thread name, line by line (incomplete last line: not yet)
std::vector<std::string> shown() {
  SIM_ATOMIC;
  size_t n; const char* d = sim::file_data(LOG, &n);
  std::vector<std::string> out;
  if (!d) return out;
  std::string s(d, n);
  for (size_t p = 0;;) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) break;
    std::string l = s.substr(p, e - p); p = e + 1;
    size_t k = l.find("[I] ["), q = k == std::string::npos ? k : l.find("] ", k + 5);
    if (q != std::string::npos) out.push_back(l.substr(q + 2));
  }
  return out;
}
std::string text(char mark, int i, size_t len) {
  char h[32]; int k = snprintf(h, sizeof h, "%c%d:", mark, i);
  std::string s(h, k);
  for (size_t j = s.size(); j < len; j++) s += (char)('0' + (i * 7 + j * j * 3 + j / 50) % 10);
  return s;
}
size_t line_len() { switch (sim::choose(5)) { case 0: return 8; case 1: return 255; case 2: return 8 + sim::choose(20); default: return 8 + sim::choose(247); } }
void type_lines(std::vector<std::string>& sent) {
  int n = (int)sim::choose(7);
  kb = new Keyboard(); kb->slow = sim::coin(2);
  for (int i = 0; i < n; i++) {
    if (sim::coin(5)) kb->lines.push_back("");
    sent.push_back(text('t', i, line_len()));
    kb->lines.push_back(sent.back());
  }
  std::cin.rdbuf(kb);
}
void start_client(bool chat) {
  cyclone::set_log_filename("logs", "c30.log");
  sim::spawn("client-program", [chat]() {
    char a0[] = "client", a1[] = "-p", a2[] = "7801"; char* av[] = {a0, a1, a2, nullptr};
    int r = chat ? chatc_sample::chat_client_main(3, av) : echoc_sample::echo_client_main(3, av);
    SIM_ATOMIC; c30::returned = r;
    SIM_CHECK(false, "client-ended", "the program ended with %d although its input goes on", r);
  });
}
struct Peer {
  int fd; std::string in; bool eof, stop; int rd;
  explicit Peer(int f) : fd(f), eof(false), stop(false), rd(-1) {}
  void read() {
    rd = sim::spawn("server-reader", [this]() {
      std::string b(65536, 0); bool slow = sim::coin(4);
      for (;;) {
        if (slow) sim::sleep_us(1 + sim::choose(3000));
        ssize_t r = ::recv(fd, &b[0], slow ? 1 + sim::choose(300) : b.size(), 0);
        if (r < 0 && errno == EINTR) continue;
        SIM_ATOMIC;
        if (r <= 0) { eof = true; return; }
        in.append(b.data(), (size_t)r);
      }
    });
  }
  bool send(const std::string& s) {
    for (size_t at = 0; at < s.size();) {
      size_t n = sim::coin(2) ? s.size() - at : std::min<size_t>(s.size() - at, 1 + sim::choose(400));
      ssize_t r = ::send(fd, s.data() + at, n, MSG_NOSIGNAL);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) return false;
      at += (size_t)r;
      if (sim::coin(4)) sim::sleep_us(sim::choose(5000));
    }
    return true;
  }
};
std::string wire(bool chat, const std::string& t, int id) {
  if (!chat) return t;
  std::string p(4, 0); p[0] = (char)(t.size() >> 8); p[1] = (char)t.size(); p[2] = (char)(id >> 8); p[3] = (char)id;
  return p + t;
}
// the text of the marked lines of the display; echo: the segments put together
bool data_text(const std::string& l) { return !l.empty() && l.find_first_not_of("#:0123456789") == std::string::npos; }
void check_shown(bool chat, const std::vector<std::string>& want, bool all, const char* when) {
  std::vector<std::string> l = shown();
  if (chat) {
    size_t k = 0;
    for (std::string& t : l) {
      SIM_CHECK(!t.empty(), "empty-line-shown", "the chat client displayed an empty line nobody sent");
      if (t[0] != '#') { SIM_CHECK(!data_text(t), "message-corrupt", "the chat client displayed %zu bytes which are no message (%.30s)", t.size(), t.c_str()); continue; }
      SIM_CHECK(k < want.size(), "message-duplicate", "the chat client displayed more messages than were sent");
      SIM_CHECK(t == want[k], "message-corrupt", "the chat client displayed %.20s (%zu bytes) instead of message %zu (%zu bytes)", t.c_str(), t.size(), k, want[k].size());
      k++;
    }
    SIM_CHECK(!all || k == want.size(), "message-not-shown", "%zu of %zu messages are displayed %s", k, want.size(), when);
  } else {
    std::string got, w;
    for (std::string& t : l) if (data_text(t)) got += t;
    for (const std::string& t : want) w += t;
    SIM_CHECK(got.size() <= w.size() && !memcmp(got.data(), w.data(), got.size()), "message-corrupt", "the echo client displayed other bytes than the server sent");
    SIM_CHECK(!all || got.size() == w.size(), "message-not-shown", "%zu of %zu bytes are displayed %s", got.size(), w.size(), when);
  }
}
bool all_shown(bool chat, const std::vector<std::string>& want) {
  size_t k = 0, n = 0, w = 0;
  for (std::string& t : shown()) { if (chat ? !t.empty() && t[0] == '#' : data_text(t)) { k++; n += t.size(); } }
  for (const std::string& t : want) w += t.size();
  return chat ? k >= want.size() : n >= w;
}
void session(bool chat, bool dies) {
  allow_net_timing(); pick_sndbuf();
  sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); sim::allow(sim::F_CONN_TIMEOUT); sim::allow(sim::F_LATE_TIMER);
  sim::set_cpus(1 + (int)sim::cfg(4));
  std::vector<std::string> typed, said;
  type_lines(typed);
  int n = (int)sim::choose(8);
  for (int i = 0; i < n; i++) said.push_back(text('#', i, chat && sim::coin(8) ? 250 + sim::choose(3000) : line_len()));
  bool late = sim::coin(4);
  if (late) { start_client(chat); sim::sleep_us(sim::choose(12000000)); }
  Listener li(PORT);
  if (!late) start_client(chat);
  int fd = -1; uint64_t t0 = sim::now_ms();
  while (fd < 0) {
    SIM_CHECK(sim::now_ms() - t0 < 600000, "no-retry", "the client has not connected for 10 minutes");
    if (!li.ready(1000)) { if (sim::now_ms() - t0 > 60000) sim::calm(); continue; }
    fd = ::accept(li.fd, nullptr, nullptr);
  }
  Peer* p = new Peer(fd);
  p->read();
  for (int i = 0; i < n; i++) {
    SIM_CHECK(p->send(wire(chat, said[i], i)), "connection-lost", "the client left although the server stays");
    if (sim::coin(3)) sim::sleep_us(sim::choose(20000));
  }
  if (n || typed.size()) sim::nontrivial();
  std::string want;
  for (std::string& t : typed) want += wire(chat, t, 0);
  if (dies) {
    if (sim::coin(2)) sim::sleep_us(sim::choose(50000));
    ::shutdown(fd, SHUT_WR);
    sim::calm();
    SIM_CHECK(sim::wait_until([]() { return c30::exited; }, 120000), "client-hangs", "the client program goes on although the server has closed the connection");
    check_shown(chat, said, true, "at the end of the program");
    SIM_ATOMIC;
    SIM_CHECK(p->in.size() <= want.size() && !memcmp(p->in.data(), want.data(), p->in.size()), "typed-corrupt", "the server received other bytes than were typed");
    return;
  }
  sim::calm();
  SIM_CHECK(sim::wait_until([&]() { return kb->typed == (int)kb->lines.size(); }, 120000), "input-stalled", "the client program reads no more lines");
  sim::wait_until([&]() { return p->in.size() >= want.size(); }, 120000);
  {
    SIM_ATOMIC;
    SIM_CHECK(!p->eof, "connection-lost", "the client left although the server stays");
    SIM_CHECK(p->in.size() <= want.size() && !memcmp(p->in.data(), want.data(), p->in.size()), "typed-corrupt", "the server received other bytes than were typed");
    SIM_CHECK(p->in.size() == want.size(), "typed-lost", "the server has received %zu of %zu typed bytes", p->in.size(), want.size());
  }
  for (int i = 0; i < 200 && !all_shown(chat, said); i++) sim::sleep_us(100000);
  check_shown(chat, said, true, "20 s after the last fault");
  SIM_CHECK(!c30::exited, "client-ended", "the client program ended although the server stays");
}
}

SIM_SCENARIO_W("C30", chat_client, 4) { session(true, false); }
SIM_SCENARIO_W("C30", echo_client, 3) { session(false, false); }
SIM_SCENARIO_W("C30", chat_server_leaves, 1) { session(true, true); }
SIM_SCENARIO_W("C30", echo_server_leaves, 1) { session(false, true); }

SIM_SCENARIO_W("C30", timer_program, 1) {
  sim::allow(sim::F_EINTR); sim::allow(sim::F_THREAD_STALL);
  if (sim::coin(3)) sim::allow(sim::F_LATE_TIMER);
  sim::set_cpus(1 + (int)sim::cfg(3));
  cyclone::set_log_filename("logs", "c30.log");
  uint64_t t0 = sim::now_ns();
  int r = -1000; int* pr = &r;
  int t = sim::spawn("timer-program", [pr]() { char a0[] = "timer"; char* av[] = {a0, nullptr}; int k = timer_sample::timer_main(1, av); SIM_ATOMIC; *pr = k; });
  SIM_CHECK(sim::wait_until([pr]() { return *pr != -1000; }, 60000), "timer-hangs", "the timer program has not ended after a minute");
  sim::join(t);
  SIM_CHECK(r == 0, "timer-failed", "the timer program returned %d", r);
  SIM_CHECK(sim::now_ns() - t0 >= 3000000000ull, "timer-early", "the timer program ended after %llu us", (unsigned long long)((sim::now_ns() - t0) / 1000));
  int counts = 0, stops = 0;
  for (std::string& l : shown()) {
    size_t k = l.find(":counts=");
    if (k != std::string::npos) { counts++; SIM_CHECK(atoi(l.c_str() + k + 8) == counts, "timer-count", "the display says %s as line %d", l.c_str(), counts); }
    if (l.find(":push_stop_request") != std::string::npos) stops++;
  }
  SIM_CHECK(stops == 1, "timer-count", "the end was displayed %d times", stops);
  bool undisturbed = !sim::injected(sim::F_THREAD_STALL) && !sim::injected(sim::F_LATE_TIMER);
  SIM_CHECK(counts <= 3 + (sim::now_ns() - t0 - 3000000000ull) / 999000000ull, "timer-count", "%d periods in %llu us", counts, (unsigned long long)((sim::now_ns() - t0) / 1000));
  SIM_CHECK(!undisturbed || counts == 3, "timer-count", "%d periods were displayed instead of 3", counts);
  sim::nontrivial();
  check_fds();
}
