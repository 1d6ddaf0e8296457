// C18: the disk log: every accepted message becomes exactly one whole line, in the caller's order, never damages others.
#include "common.h"
#include <time.h>
using namespace scn;

namespace {
const char LV[] = "TDIWEF";
struct Msg { int thread, seq; LOG_LEVEL lv; uint32_t len; time_t t0, t1; int phase; LOG_LEVEL thr0, thr1; int seen; };
struct Log {
  std::vector<Msg*> all; std::vector<std::string> names; std::vector<int> next; int phase; LOG_LEVEL thr_lo, thr_hi;
  Log() : phase(0), thr_lo(L_DEBUG), thr_hi(L_DEBUG) {}
  ~Log() { for (auto m : all) delete m; }
  static std::string body(const Msg* m) {
    char id[64]; snprintf(id, sizeof id, "{%d.%d:%u}", m->thread, m->seq, m->len);
    std::string s(id); while (s.size() < m->len) s += (char)('a' + (s.size() * 7 + (uint32_t)m->thread * 3 + (uint32_t)m->seq) % 26);
    return s;
  }
  void write(int t) {
    Msg* m = new Msg(); m->thread = t; m->seen = 0;
    { SIM_ATOMIC; m->seq = next[t]++; m->phase = phase; m->thr0 = thr_lo; m->thr1 = thr_hi; all.push_back(m); }
    m->lv = (LOG_LEVEL)sim::choose(L_MAXIMUM_LEVEL);
    switch (sim::choose(6)) { case 0: m->len = 0; break; case 1: case 2: m->len = sim::choose(100); break; case 3: m->len = 2040 + sim::choose(16); break; case 4: m->len = sim::choose(2100); break; default: m->len = sim::coin(3) ? sim::choose(20000) : sim::choose(300); }
    std::string b = body(m); m->t0 = ::time(0);
    switch (sim::choose(3)) {
      case 0: disk_log(m->lv, "%s", b.c_str()); break;
      case 1: { std::string f; for (char c : b) { if (c == '%') f += c; f += c; } disk_log(m->lv, f.c_str()); break; }
      default: { size_t h = b.find(':'); disk_log(m->lv, "{%d.%d%s", m->thread, m->seq, b.c_str() + h); break; }
    }
    m->t1 = ::time(0);
  }
};
// checks the content of the log files of one scenario
struct Reader {
  Log& L; bool timed;
  Reader(Log& l, bool t) : L(l), timed(t) {}
  // strict: everything in the file is whole lines
  void parse(const std::string& f, bool strict) {
    size_t at = 0; std::map<int, int> last;
    while (at < f.size()) {
      size_t e = f.find('\n', at);
      if (e == std::string::npos) { SIM_CHECK(!strict, "log-torn", "the log ends with an incomplete line: %.80s", f.c_str() + at); break; }
      std::string line = f.substr(at, e - at); at = e + 1;
      // with failed writes a line may start with the remains of a message whose write failed
      size_t st = strict ? 0 : std::string::npos; Msg* m = nullptr;
      if (!strict) { for (size_t k = line.size(); k-- > 0;) if (line[k] == '{' && k >= 20) { m = match(line, k); if (m) { st = head(line, k); break; } } if (!m) { sim::probe("torn line after a failed write"); continue; } }
      else { size_t k = line.find('{'); m = k == std::string::npos ? nullptr : match(line, k); SIM_CHECK(m, "log-torn", "line is not exactly one message: %.100s", line.c_str());
        SIM_CHECK(head(line, k) == 0, "log-torn", "line does not start with time, level and thread: %.60s", line.c_str()); }
      (void)st;
      size_t k = line.rfind("{" + std::to_string(m->thread) + "." + std::to_string(m->seq) + ":");
      SIM_CHECK(m->seen++ == 0, "log-duplicate", "message %d of thread %d is written twice", m->seq, m->thread);
      SIM_CHECK(m->lv >= m->thr0 || m->lv >= m->thr1, "log-threshold", "message of level %d is written, the threshold is %d", m->lv, m->thr0);
      std::string want = std::string(" [") + LV[m->lv] + "] [" + L.names[m->thread] + "] ";
      SIM_CHECK(k >= want.size() && line.substr(k - want.size(), want.size()) == want, "log-wrong", "message of thread %s level %d is written as %.60s", L.names[m->thread].c_str(), m->lv, line.c_str());
      if (timed && m->t1) { std::string ts = line.substr(k - want.size() - 19, 19); bool ok = false; char b[32]; for (time_t t = m->t0; t <= m->t1; t++) { struct tm g; gmtime_r(&t, &g); strftime(b, sizeof b, "%Y_%m_%d-%H:%M:%S", &g); if (ts == b) ok = true; if (t > m->t0 + 100000) break; } SIM_CHECK(ok, "log-wrong", "message logged at %s has the time %s", b, ts.c_str()); }
      auto it = last.find(m->thread); if (it != last.end()) SIM_CHECK(m->seq > it->second, "log-order", "message %d of thread %d stands after its message %d", m->seq, m->thread, it->second); last[m->thread] = m->seq;
    }
  }
  // length of the text before "time [L] [name] " that ends at k, npos if it does not fit
  size_t head(const std::string& line, size_t k) { size_t p = line.rfind(" [", k); if (p == std::string::npos || p < 4) return 1; p = line.rfind(" [", p - 1); return p == std::string::npos || p < 19 ? 1 : p - 19; }
  Msg* match(const std::string& line, size_t k) {
    int t, s; unsigned l; if (sscanf(line.c_str() + k, "{%d.%d:%u}", &t, &s, &l) != 3) return nullptr;
    for (Msg* m : L.all) if (m->thread == t && m->seq == s) { std::string b = Log::body(m); return m->len == l && !line.compare(k, std::string::npos, b) ? m : nullptr; }
    return nullptr;
  }
  void complete(bool faulty) {
    for (Msg* m : L.all) { if (m->seen || m->lv < m->thr0 || m->lv < m->thr1) continue; if (faulty && m->phase == 1) continue;
      SIM_CHECK(false, "log-lost", "message %d of thread %d (level %d, %u bytes, phase %d) is missing from the log", m->seq, m->thread, m->lv, m->len, m->phase); }
  }
};
std::string content(const std::string& path) { size_t n; const char* d = sim::file_data(path.c_str(), &n); return d ? std::string(d, n) : std::string(); }
void prefix_kept(const std::string& before, const std::string& now, const char* what) { SIM_CHECK(now.size() >= before.size() && !now.compare(0, before.size(), before), "log-truncated", "%s: %zu bytes were in the log, now %zu and the old ones are not kept", what, before.size(), now.size()); }
}

SIM_SCENARIO_W("C18", log_lines, 4) {
  sim::allow(sim::F_THREAD_STALL);
  bool jumps = sim::coin(4); if (jumps) sim::allow(sim::F_CLOCK_JUMP);
  bool faults = sim::cfg(2);
  { std::string h(1 + sim::choose(70), 'h'), e = "/opt/app/" + std::string(1 + sim::choose(60), 'e'); if (sim::coin(2)) sim::set_names("simhost", "/opt/app/simapp"); else sim::set_names(h.c_str(), e.c_str()); }
  Log L; int nt = (int)sim::choose_range(1, 4); L.next.assign(nt + 1, 0); L.names.resize(nt + 1); L.names[0] = "<UNNAME>"; for (int i = 1; i <= nt; i++) L.names[i] = std::string("worker") + (char)('0' + i);
  std::string file; int how = (int)sim::choose(4);
  if (how) { const char* dir = how == 1 ? "logdir" : how == 2 ? "logdir/" : "./deep/"; SIM_CHECK(!set_log_filename("", "x") && !set_log_filename(nullptr, "x") && !set_log_filename("x", "") && !set_log_filename("x", nullptr), "log-wrong", "empty names are accepted"); SIM_CHECK(set_log_filename(dir, "app.log"), "log-wrong", "set_log_filename fails"); file = std::string(dir) + (how == 1 ? "/" : "") + "app.log"; }
  else file = "";
  LOG_LEVEL thr = (LOG_LEVEL)sim::choose(L_MAXIMUM_LEVEL + 1); if (sim::coin(2)) thr = L_DEBUG; else set_log_threshold(thr);
  L.thr_lo = L.thr_hi = thr;
  std::string before; bool any = false;
  for (int phase = 0; phase < 3; phase++) {
    L.phase = faults ? phase : 0;
    if (phase == 1 && faults) { sim::allow(sim::F_OPEN_ERR); sim::allow(sim::F_MKDIR_ERR); sim::allow(sim::F_DISK_FULL); sim::allow(sim::F_DISK_SHORT); }
    if (phase == 2) sim::calm();
    std::vector<thread_t> th; int per = phase == 2 ? 2 : (int)sim::choose(5), done = 0;
    bool flip = phase == 0 && sim::coin(4);
    if (flip) { SIM_ATOMIC; L.thr_lo = thr; L.thr_hi = (LOG_LEVEL)sim::choose(L_MAXIMUM_LEVEL + 1); }
    for (int i = 1; i <= nt; i++) th.push_back(sys_api::thread_create([&, i, per](void*) { for (int k = 0; k < per; k++) { L.write(i); if (sim::coin(3)) sim::sleep_us(sim::choose(3000000)); } SIM_ATOMIC; done++; }, nullptr, L.names[i].c_str()));
    if (flip) { sim::sleep_us(sim::choose(2000000)); set_log_threshold(L.thr_hi); }
    if (sim::coin(2)) L.write(0);
    for (auto t : th) sys_api::thread_join(t);
    if (flip) { SIM_ATOMIC; thr = L.thr_hi; L.thr_lo = thr; }
    if (!how && file.empty()) file = get_log_filename();
    std::string now = content(file); prefix_kept(before, now, "log"); before = now;
    SIM_CHECK(sim::file_open_count() == 0, "log-handle", "%d files are open", sim::file_open_count());
    any = any || !now.empty();
    if (faults && phase == 0) { Reader r(L, !jumps); r.parse(now, true); r.complete(false); for (Msg* m : L.all) m->seen = 0; }
  }
  std::string f = content(file);
  if (!how) {   // process.time.host.pid.log in ./logs/
    SIM_CHECK(!file.compare(0, 7, "./logs/"), "log-name", "default log file is %s", file.c_str());
    size_t a = file.find('.', 7); SIM_CHECK(a != std::string::npos, "log-name", "default log file is %s", file.c_str());
    std::string p = file.substr(7, a - 7); SIM_CHECK(!p.empty() && (p == "simapp" || p.find_first_not_of('e') == std::string::npos), "log-name", "process name in %s", file.c_str());
    size_t b = file.find('.', a + 1), c = file.find('.', b + 1); SIM_CHECK(b == a + 16 && c != std::string::npos, "log-name", "time in %s", file.c_str());
    std::string h = file.substr(b + 1, c - b - 1); SIM_CHECK(!h.empty() && (h == "simhost" || h.find_first_not_of('h') == std::string::npos), "log-name", "host name in %s", file.c_str());
    SIM_CHECK(file.substr(c) == ".4242.log", "log-name", "process id in %s", file.c_str());
  } else SIM_CHECK(file == get_log_filename(), "log-name", "get_log_filename returns %s, set was %s", get_log_filename(), file.c_str());
  { SIM_ATOMIC; Reader r(L, !jumps); r.parse(f, !faults); r.complete(faults); }
  if (any) sim::nontrivial();
}

// The file is changed while threads log: each message is in exactly one of the files.
SIM_SCENARIO_W("C18", log_switch, 2) {
  sim::allow(sim::F_THREAD_STALL);
  Log L; int nt = (int)sim::choose_range(1, 3); L.next.assign(nt + 1, 0); L.names.resize(nt + 1); L.names[0] = "<UNNAME>"; for (int i = 1; i <= nt; i++) L.names[i] = std::string("w") + (char)('0' + i);
  set_log_threshold(L_TRACE); L.thr_lo = L.thr_hi = L_TRACE;
  SIM_CHECK(set_log_filename("da", "0.log"), "log-wrong", "set_log_filename"); std::vector<std::string> files(1, "da/0.log");
  std::vector<thread_t> th; for (int i = 1; i <= nt; i++) th.push_back(sys_api::thread_create([&, i](void*) { for (uint32_t k = 1 + sim::choose(5); k; k--) { L.write(i); if (sim::coin(3)) sim::sleep_us(sim::choose(500)); } }, nullptr, L.names[i].c_str()));
  int sw = (int)sim::choose(4);
  for (int s = 1; s <= sw; s++) { sim::sleep_us(sim::choose(400)); std::string n = std::to_string(s) + ".log"; const char* d = sim::coin(2) ? "da" : "db/"; set_log_filename(d, n.c_str()); files.push_back(std::string(d) + (d[2] ? "" : "/") + n); L.write(0); }
  for (auto t : th) sys_api::thread_join(t);
  { SIM_ATOMIC; Reader r(L, true); for (auto& f : files) r.parse(content(f), true); r.complete(false); }
  SIM_CHECK(sim::file_open_count() == 0, "log-handle", "%d files are open", sim::file_open_count());
  sim::nontrivial();
}
