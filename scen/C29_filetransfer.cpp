// C29: a download of the file transfer sample which reports success has produced exactly the server's file; without
// faults it succeeds; connections which do not download disturb nobody.
#include "tunnel.h"
#include <fstream>
#include "samples/filetransfer/ft_common.h"
#define main ft_server_main
namespace fts_sample {
#include "samples/filetransfer/ft_server.cpp"
}
#undef main
#define main ft_client_main
namespace ftc_sample {
#include "samples/filetransfer/ft_client.cpp"
}
#undef main
using namespace scn;

namespace {
enum { PORT = 7701 };
void start_server(int threads) {
  sim::spawn("ft_server", [threads]() {
    std::vector<std::string> a = {"ft-server", "-p", std::to_string((int)PORT), "-f", "data/the_file.bin", "-t", std::to_string(threads)};
    std::vector<char*> av; for (std::string& s : a) av.push_back(&s[0]);
    av.push_back(nullptr);
    int r = fts_sample::ft_server_main((int)a.size(), &av[0]);
    SIM_CHECK(false, "server-ended", "the server ended with %d", r);
  });
}
int download() {
  char a0[] = "ft-client", a1[] = "-p", a2[] = "7701"; char* av[] = {a0, a1, a2, nullptr};
  return ftc_sample::ft_client_main(3, av);
}
std::string make_file() {
  uint32_t n;
  switch (sim::choose(7)) {
    case 0: n = sim::choose(3); break;                         // nothing, one or two bytes
    case 1: n = sim::choose(65536); break;
    case 2: n = 65536 * (1 + sim::choose(3)) - 1 + sim::choose(3); break;
    case 3: n = 65536 + sim::choose(200000); break;
    default: n = sim::choose(300000); break;
  }
  std::string s; fill(s, 77, 0, n);
  return s;
}
bool same(const std::string& want, std::string* what) {
  size_t n; const char* p = sim::file_data("the_file.bin", &n);
  if (::access("the_file.bin", 0) != 0) { *what = "there is no file"; return false; }
  if (n != want.size()) { *what = "the file has " + std::to_string(n) + " bytes of " + std::to_string(want.size()); return false; }
  for (size_t i = 0; i < n; i++) if (p[i] != want[i]) { *what = "byte " + std::to_string(i) + " of " + std::to_string(n) + " differs"; return false; }
  return true;
}
bool parts_left() { for (int i = 0; i < 8; i++) { size_t n; char p[40]; snprintf(p, sizeof p, "the_file.bin.part%d", i); if (sim::file_data(p, &n)) return true; } return false; }
// downloads until the end, which must come
int timed_download(const char* when) {
  int* r = new int(-1000);
  int t = sim::spawn("ft_client", [r]() { int k = download(); SIM_ATOMIC; *r = k; });
  SIM_CHECK(sim::wait_until([r]() { return *r != -1000; }, 3600000), "client-hangs", "a download %s has not ended after an hour", when);
  sim::join(t);
  return *r;
}
}  // namespace

SIM_SCENARIO_W("C29", download, 4) {
  sim::set_max_time_s(36000);
  if (sim::coin(3)) sim::set_sndbuf(2000 + sim::choose(20000));
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL); sim::allow(sim::F_DISK_SHORT);
  int rough = (int)sim::cfg(4);                 // 0: network faults, 1: disk faults, else none
  std::string f = make_file();
  ::mkdir("data", 0755); sim::file_put("data/the_file.bin", f.data(), f.size());
  if (rough == 0) { sim::allow(sim::F_RST); sim::allow(sim::F_REFUSE); sim::allow(sim::F_CONN_SYNC); }
  start_server(1 + (int)sim::cfg(4));
  if (rough != 1 && sim::coin(2)) sim::sleep_us(sim::choose(20000));
  else sim::sleep_us(1000000);
  if (rough == 1) { sim::allow(sim::F_DISK_FULL); sim::allow(sim::F_OPEN_ERR); sim::allow(sim::F_DISK_READ); }
  int r = timed_download("with faults");
  bool excused = sim::injected(sim::F_RST) || sim::injected(sim::F_CONN_SYNC) || sim::injected(sim::F_DISK_FULL) || sim::injected(sim::F_OPEN_ERR) || sim::injected(sim::F_DISK_READ);
  sim::calm();
  std::string what;
  { SIM_ATOMIC;
    SIM_CHECK(r == 0 || excused, "download-failed", "the client ended with %d although nothing went wrong", r);
    SIM_CHECK(r != 0 || same(f, &what), "file-differs", "the client reports success and %s", what.c_str());
    SIM_CHECK(r != 0 || !parts_left(), "parts-left", "the client reports success and a part of the file was left");
    if (r == 0) sim::nontrivial();
  }
  // the server serves the next one as well
  {
    sim::sleep_us(1000000);
    ::remove("the_file.bin");
    r = timed_download("after the faults");
    SIM_ATOMIC;
    SIM_CHECK(r == 0 && same(f, &what), "server-spoiled", "a download after the first one ended with %d %s", r, what.c_str());
  }
  SIM_CHECK(sim::wait_until([]() { return sim::open_fds_kind('s') == 0 && sim::file_open_count() == 0; }, 60000), "left-open", "%d connections and %d files are open after the downloads", sim::open_fds_kind('s'), sim::file_open_count());
}

// Participants which speak the protocol themselves, next to others which do not: each transfer is exact.
namespace {
uint32_t ref_adler(uint32_t adler, const char* p, size_t n) {
  uint32_t a = adler & 0xffff, b = adler >> 16;
  for (size_t i = 0; i < n; i++) { a = (a + (unsigned char)p[i]) % 65521; b = (b + a) % 65521; }
  return b << 16 | a;
}
bool get(int fd, void* p, size_t n, bool slow = false) {
  for (size_t at = 0; at < n;) {
    if (slow) sim::sleep_us(sim::choose(3000));
    ssize_t r = ::recv(fd, (char*)p + at, slow ? std::min<size_t>(n - at, 1 + sim::choose(5000)) : n - at, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    at += (size_t)r;
  }
  return true;
}
bool put(Raw& r, const void* p, size_t n, bool torn) {
  std::string s((const char*)p, n);
  if (!torn) return r.send(s);
  for (size_t at = 0; at < n; at++) { if (!r.send(s.substr(at, 1))) return false; if (sim::coin(3)) sim::sleep_us(sim::choose(2000)); }
  return true;
}
bool eof(Raw& r) { char b; ssize_t m; do m = ::recv(r.fd, &b, 1, 0); while (m < 0 && errno == EINTR); return m <= 0; }
FT_RequireFileFragment ask(size_t off, int32_t n) { FT_RequireFileFragment q; memset(&q, 0, sizeof q); q.id = FT_RequireFileFragment::ID; q.size = sizeof q; q.fileOffset = off; q.fragmentSize = n; return q; }

// asks for the file's data and for one piece of it; false: the connection was lost
bool leech(const std::string& f, int threads, bool give_up, bool ahead = false) {   // ahead: it asks everything before the first answer
  Raw r; bool torn = sim::coin(2), slow = sim::coin(3);
  struct Close { Raw* r; ~Close() { if (r->fd >= 0) r->close(); } } closer = {&r};
  if (!r.connect(PORT, 300)) return false;
  int queries = (int)sim::choose(3);
  size_t off = sim::coin(4) ? 0 : sim::choose((uint32_t)f.size() + 1), n = sim::coin(4) ? f.size() - off : sim::choose((uint32_t)(f.size() - off) + 1);
  FT_RequireFileFragment q = ask(off, (int32_t)n);
  FT_RequireFileInfo qi; memset(&qi, 0, sizeof qi); qi.id = FT_RequireFileInfo::ID; qi.size = sizeof qi;
  if (ahead) { std::string all; for (int k = 0; k < queries; k++) all.append((const char*)&qi, sizeof qi); all.append((const char*)&q, sizeof q); if (!put(r, all.data(), all.size(), torn)) return false; }
  for (int k = 0; k < queries; k++) {
    if (!ahead && !put(r, &qi, sizeof qi, torn)) return false;
    FT_ReplyFileInfo i; char name[13];
    if (!get(r.fd, &i, sizeof i) || !get(r.fd, name, sizeof name)) return false;
    SIM_CHECK(i.id == FT_ReplyFileInfo::ID && i.size == (int)(sizeof i + sizeof name) && i.fileSize == f.size() && i.threadCounts == threads && i.nameLength == 13 && !memcmp(name, "the_file.bin", 13),
              "bad-answer", "the answer to a query is %d/%d: %zu bytes, %d threads", i.id, i.size, i.fileSize, i.threadCounts);
  }
  if (!ahead && !put(r, &q, sizeof q, torn)) return false;
  if (give_up) { std::string some(sim::choose((uint32_t)n + 1), 0); if (!some.empty()) get(r.fd, &some[0], some.size()); if (sim::coin(2)) r.reset(); return true; }
  FT_ReplyFileFragment_Begin b;
  if (!get(r.fd, &b, sizeof b, slow)) return false;
  SIM_CHECK(b.id == FT_ReplyFileFragment_Begin::ID && b.size == (int)sizeof b && b.fileOffset == off && b.fragmentSize == (int32_t)n, "bad-answer", "the answer to a request for %zu bytes at %zu is %d: %d at %zu", n, off, b.id, b.fragmentSize, b.fileOffset);
  std::string d(n, 0);
  if (n && !get(r.fd, &d[0], n, slow)) return false;
  for (size_t i = 0; i < n; i++) SIM_CHECK(d[i] == f[off + i], "stream-corrupt", "byte %zu of a fragment of %zu bytes at %zu differs", i, n, off);
  FT_ReplyFileFragment_End e;
  if (!get(r.fd, &e, sizeof e)) return false;
  SIM_CHECK(e.id == FT_ReplyFileFragment_End::ID && e.size == (int)sizeof e && e.fragmentCRC == ref_adler(INITIAL_ADLER, d.data(), n), "bad-answer", "the end of a fragment is %d/%d with the checksum %08x", e.id, e.size, e.fragmentCRC);
  return true;
}
void stranger(const std::string& f) {
  Raw r; if (!r.connect(PORT, 300)) return;
  bool torn = sim::coin(2); FT_RequireFileFragment q = ask(0, 1);
  switch (sim::choose(8)) {
    case 0: break;
    case 7: {                                                                                   // a second request in the middle of a transfer
      q.fragmentSize = (int32_t)f.size(); put(r, &q, sizeof q, torn);
      if (sim::coin(2)) { char b; get(r.fd, &b, 1); }
      put(r, &q, sizeof q, torn); ::shutdown(r.fd, SHUT_WR);
      char b[4096]; for (;;) { ssize_t m = ::recv(r.fd, b, sizeof b, 0); if (m < 0 && errno == EINTR) continue; if (m <= 0) break; }
      break;
    }
    case 1: put(r, &q, 1 + sim::choose(sizeof q - 1), torn); break;                             // stops in the middle of a request
    case 2: q.fileOffset = f.size(); put(r, &q, sizeof q, torn); SIM_CHECK(eof(r), "not-refused", "a request for bytes after the end was answered"); break;
    case 3: q.fileOffset = (size_t)-1; put(r, &q, sizeof q, torn); SIM_CHECK(eof(r), "not-refused", "a request for bytes at the offset -1 was answered"); break;
    case 4: q.fileOffset = sim::choose((uint32_t)f.size() + 1); q.fragmentSize = -1 - (int)sim::choose(100); put(r, &q, sizeof q, torn); SIM_CHECK(eof(r), "not-refused", "a request for less than nothing was answered"); break;
    case 5: q.size = -(int)sim::choose(100); put(r, &q, 8, torn); SIM_CHECK(eof(r), "not-refused", "a request with the size %d was not refused", q.size); break;
    default: q.size = 8 + (int)sim::choose(sizeof q - 8); put(r, &q, 8, torn); SIM_CHECK(eof(r), "not-refused", "a request with the size %d was not refused", q.size); break;
  }
  if (sim::coin(2)) sim::sleep_us(sim::choose(50000));
  if (sim::coin(3)) r.reset(); else r.close();
}
}  // namespace

SIM_SCENARIO_W("C29", participants, 3) {
  sim::set_max_time_s(36000);
  if (sim::coin(3)) sim::set_sndbuf(2000 + sim::choose(20000));
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  bool rough = sim::cfg(3) == 0;
  std::string f = make_file();
  ::mkdir("data", 0755); sim::file_put("data/the_file.bin", f.data(), f.size());
  int threads = 1 + (int)sim::cfg(3);
  start_server(threads);
  if (rough) sim::allow(sim::F_RST);
  int n = 1 + (int)sim::choose(5);
  std::vector<int> th; const std::string* pf = &f;
  for (int i = 0; i < n; i++) {
    int what = (int)sim::choose(5);
    th.push_back(sim::spawn("participant", [=]() {
      if (sim::coin(2)) sim::sleep_us(sim::choose(20000));
      if (what < 2) { SIM_CHECK(leech(*pf, threads, false, sim::coin(3)) || sim::injected(sim::F_RST), "connection-lost", "a participant which keeps to the protocol was disconnected"); sim::nontrivial(); }
      else if (what < 4) stranger(*pf);
      else leech(*pf, threads, true);
    }));
  }
  bool with_client = sim::coin(3);
  if (with_client) {
    int r = timed_download("among other participants");
    std::string why;
    SIM_CHECK(r == 0 || sim::injected(sim::F_RST), "download-failed", "the client ended with %d although nothing went wrong", r);
    SIM_CHECK(r != 0 || same(f, &why), "file-differs", "the client reports success and %s", why.c_str());
  }
  for (int t : th) sim::join(t);
  sim::calm();
  for (int k = 0; k < threads; k++) SIM_CHECK(leech(f, threads, false), "server-spoiled", "a participant after all others was disconnected");
  SIM_CHECK(sim::wait_until([]() { return sim::open_fds_kind('s') == 0 && sim::file_open_count() == 0; }, 60000), "left-open", "%d connections and %d files are open after the downloads", sim::open_fds_kind('s'), sim::file_open_count());
}

// The client with a server that is not what it should be: it never reports success for anything but the file.
SIM_SCENARIO_W("C29", bad_server, 2) {
  sim::set_max_time_s(36000);
  if (sim::coin(3)) sim::set_sndbuf(2000 + sim::choose(20000));
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  std::string f = make_file();
  const std::string* pf = &f;
  int threads = 1 + (int)sim::cfg(3);
  int lie = (int)sim::cfg(9), victim = (int)sim::choose(2);      // 0: none
  int* lies = new int(0); int* nth = new int(0);
  Listener* lis = new Listener(PORT);
  sim::spawn("bad-server", [=]() {
    for (;;) {
      int fd = lis->accept();
      if (fd < 0) return;
      sim::spawn("bad-conn", [=]() {
        Raw r; r.fd = fd; FT_Head h;
        while (get(fd, &h, sizeof h)) {
          if (h.id == FT_RequireFileInfo::ID) {
            FT_ReplyFileInfo i; memset(&i, 0, sizeof i); i.id = FT_ReplyFileInfo::ID; i.size = (int)sizeof i + 13; i.fileSize = pf->size(); i.threadCounts = threads; i.nameLength = 13;
            if (!r.send(std::string((const char*)&i, sizeof i) + std::string("the_file.bin", 13))) break;
            continue;
          }
          FT_RequireFileFragment q;
          if (!get(fd, (char*)&q + sizeof h, sizeof q - sizeof h)) break;
          bool now; { SIM_ATOMIC; now = lie && (*nth)++ >= victim; if (now) ++*lies; }
          std::string d = pf->substr(q.fileOffset, (size_t)q.fragmentSize);
          FT_ReplyFileFragment_Begin b; memset(&b, 0, sizeof b); b.id = FT_ReplyFileFragment_Begin::ID; b.size = sizeof b; b.fileOffset = q.fileOffset; b.fragmentSize = q.fragmentSize;
          FT_ReplyFileFragment_End e; memset(&e, 0, sizeof e); e.id = FT_ReplyFileFragment_End::ID; e.size = sizeof e; e.fragmentCRC = ref_adler(INITIAL_ADLER, d.data(), d.size());
          std::string more;
          if (now) switch (lie) {
            case 1: if (!d.empty()) { size_t at = sim::choose((uint32_t)d.size()); d[at] = (char)(d[at] ^ (1 << sim::choose(8))); } else e.fragmentCRC++; break;
            case 2: e.fragmentCRC ^= 1u << sim::choose(32); break;
            case 3: b.fileOffset++; break;
            case 4: b.fragmentSize--; break;
            case 5: b.id = sim::coin(2) ? (int)FT_ReplyFileFragment_End::ID : 77; break;
            case 6: e.id = sim::coin(2) ? (int)FT_ReplyFileFragment_Begin::ID : 77; break;
            case 7: break;                                     // ends early
            default: more = std::string(1 + sim::choose(300), 'm'); break;
          }
          std::string all = std::string((const char*)&b, sizeof b) + d + std::string((const char*)&e, sizeof e) + more;
          if (now && lie == 7) all.resize(sim::choose((uint32_t)all.size()));
          if (!r.send(all) || (now && lie == 7)) break;
        }
        r.close();
      });
    }
  });
  sim::sleep_us(sim::choose(10000));
  int r = timed_download("from a server which is not to be trusted");
  std::string what;
  SIM_CHECK(r != 0 || same(f, &what), "file-differs", "the client reports success and %s", what.c_str());
  SIM_CHECK(r != 0 || *lies == 0 || lie > 7, "file-differs", "the client reports success although the server's answer was wrong (%d)", lie);
  SIM_CHECK(r == 0 || *lies != 0, "download-failed", "the client ended with %d although nothing went wrong", r);
  if (*lies) sim::nontrivial();
}

// The client asks for every byte of the file once, whatever the size of the file and the number of threads it is told.
SIM_SCENARIO_W("C29", split, 1) {
  sim::set_max_time_s(36000);
  allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  make_file();
  int threads = 1 + (int)(sim::coin(4) ? sim::choose(20) : sim::choose(6));
  uint64_t size;
  switch (sim::choose(5)) {
    case 0: size = sim::choose(4) * 65536u * (uint32_t)threads + sim::choose(40); break;
    case 1: size = 65536u * (uint64_t)threads - 20 + sim::choose(40); break;
    case 2: size = (1ull << (28 + sim::choose(8))) - 20 + sim::choose(40); break;
    case 3: size = sim::choose(0x7FFFFFFF); break;
    default: size = ((uint64_t)sim::choose(12) << 30) + sim::choose(1u << 30); break;
  }
  while (size / (uint32_t)threads > 0x7FFFFF00u) size /= 2;     // (a request holds the length in 31 bits)
  typedef std::map<uint64_t, int32_t> Parts;
  Parts* parts = new Parts; int* twice = new int(0);
  Listener* lis = new Listener(PORT);
  sim::spawn("server", [=]() {
    for (;;) {
      int fd = lis->accept();
      if (fd < 0) return;
      sim::spawn("conn", [=]() {
        Raw r; r.fd = fd; FT_Head h;
        while (get(fd, &h, sizeof h)) {
          if (h.id == FT_RequireFileInfo::ID) {
            FT_ReplyFileInfo i; memset(&i, 0, sizeof i); i.id = FT_ReplyFileInfo::ID; i.size = (int)sizeof i + 13; i.fileSize = size; i.threadCounts = threads; i.nameLength = 13;
            if (!r.send(std::string((const char*)&i, sizeof i) + std::string("the_file.bin", 13))) break;
            continue;
          }
          FT_RequireFileFragment q;
          if (!get(fd, (char*)&q + sizeof h, sizeof q - sizeof h)) break;
          SIM_ATOMIC;
          if (q.fragmentSize != 0 && !parts->insert(std::make_pair((uint64_t)q.fileOffset, q.fragmentSize)).second) ++*twice;
          break;
        }
        r.close();
      });
    }
  });
  int r = timed_download("from a server which answers no request for data");
  SIM_CHECK(r != 0 || size == 0, "file-differs", "the client reports success although it got no data");
  SIM_CHECK(*twice == 0, "split-wrong", "a file of %llu bytes on %d threads: the same part was asked for twice", (unsigned long long)size, threads);
  uint64_t at = 0;
  for (auto& p : *parts) {
    SIM_CHECK(p.first == at && p.second > 0, "split-wrong", "a file of %llu bytes on %d threads: after %llu bytes, the next part asked for starts at %llu and has %d bytes", (unsigned long long)size, threads, (unsigned long long)at, (unsigned long long)p.first, p.second);
    at += (uint64_t)p.second;
  }
  SIM_CHECK(at == size, "split-wrong", "a file of %llu bytes on %d threads: the parts asked for have %llu bytes", (unsigned long long)size, threads, (unsigned long long)at);
  sim::nontrivial();
}
