// In-memory file system behind the stdio and path calls the logger (and the samples) use.
#define _GNU_SOURCE 1
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace sim {
struct FileD { char path[256]; Vec<char> data; bool dir; };
static Vec<FileD*>* files; static int nopen;
static FileD* find(const char* p) { if (!files) files = rt_new<Vec<FileD*>>(); for (FileD* f : *files) if (!strcmp(f->path, p)) return f; return nullptr; }
static FileD* make(const char* p, bool dir) { FileD* f = rt_new<FileD>(); snprintf(f->path, sizeof f->path, "%s", p); f->dir = dir; find(p); files->push_back(f); return f; }
static void norm(const char* p, char* o, size_t n) {
  while (p[0] == '.' && p[1] == '/') p += 2;
  snprintf(o, n, "%s", p);
  size_t l = strlen(o);
  while (l > 1 && o[l - 1] == '/') o[--l] = 0;
}
static bool parent_ok(const char* p) {
  char d[256]; snprintf(d, sizeof d, "%s", p);
  char* s = strrchr(d, '/');
  if (!s || s == d) return true;
  *s = 0;
  FileD* f = find(d);
  return f && f->dir;
}
struct Cookie { FileD* f; size_t pos; bool append, rd, wr; };
static ssize_t c_write(void* c, const char* b, size_t n) {
  RT;
  if (g.active) sync_point();
  Cookie* k = (Cookie*)c;
  if (choice_fault(F_DISK_FULL, self_id(), 1)) { tracef("fault: ENOSPC"); errno = ENOSPC; return 0; }
  if (!k->wr) { errno = EBADF; return 0; }
  size_t m = n;
  if (n > 1) { u32 v = choice_fault(F_DISK_SHORT, self_id(), (u32)(n > 64 ? 64 : n - 1)); if (v) m = v; }
  if (k->append) k->pos = k->f->data.size();
  if (k->pos + m > k->f->data.size()) k->f->data.resize(k->pos + m);
  memcpy(k->f->data.data() + k->pos, b, m);
  k->pos += m;
  return (ssize_t)m;
}
static ssize_t c_read(void* c, char* b, size_t n) {
  RT; Cookie* k = (Cookie*)c;
  if (choice_fault(F_DISK_READ, self_id(), 1)) { tracef("fault: EIO on read"); errno = EIO; return -1; }
  if (k->pos >= k->f->data.size()) return 0;
  size_t m = k->f->data.size() - k->pos; if (m > n) m = n;
  memcpy(b, k->f->data.data() + k->pos, m); k->pos += m;
  return (ssize_t)m;
}
static int c_seek(void* c, off64_t* o, int wh) {
  RT; Cookie* k = (Cookie*)c;
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)k->pos : (int64_t)k->f->data.size();
  if (b + *o < 0) return -1;
  k->pos = (size_t)(b + *o); *o = (off64_t)k->pos;
  return 0;
}
// descriptors of open files, for the C++ streams which read and write without stdio
enum { FILE_FD0 = 5000, NFILES = 256 };
static struct { FILE* fp; Cookie* k; } open_files[NFILES];
static int c_close(void* c) {
  RT;
  for (auto& o : open_files) if (o.k == c) { o.k = nullptr; o.fp = nullptr; }
  rt_free(c); nopen--; return 0;
}
static Cookie* by_fd(int fd) { return fd >= FILE_FD0 && fd < FILE_FD0 + NFILES ? open_files[fd - FILE_FD0].k : nullptr; }
bool is_file_fd(int fd) { return by_fd(fd) != nullptr; }
ssize_t file_readv(int fd, const iovec* v, int n) {
  RT; sync_point();
  Cookie* k = by_fd(fd); ssize_t t = 0;
  for (int i = 0; i < n; i++) { ssize_t r = c_read(k, (char*)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t file_writev(int fd, const iovec* v, int n) {
  RT;
  Cookie* k = by_fd(fd); ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = c_write(k, (const char*)v[i].iov_base, v[i].iov_len);
    if (r == 0) return t ? t : -1;   // (errno says why)
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}

const char* file_data(const char* path, size_t* len) { RT; char p[256]; norm(path, p, sizeof p); FileD* f = find(p); *len = f ? f->data.size() : 0; return f ? f->data.data() : nullptr; }
void file_clear() { if (files) files->clear(); }
int file_open_count() { return nopen; }
void file_put(const char* path, const char* d, size_t n) { RT; char p[256]; norm(path, p, sizeof p); FileD* f = find(p); if (!f) f = make(p, false); f->data.assign(d, d + n); }
}  // namespace sim
using namespace sim;

extern "C" {
FILE* fopen(const char* path, const char* mode) {
  if (!g.active) { static FILE* (*real)(const char*, const char*); if (!real) real = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return real(path, mode); }
  RT; sync_point();
  char p[256]; norm(path, p, sizeof p);
  if (choice_fault(F_OPEN_ERR, self_id(), 1)) { tracef("fault: fopen(%s, %s) fails", p, mode); errno = EMFILE; return nullptr; }
  FileD* f = find(p);
  if (f && f->dir) { errno = EISDIR; return nullptr; }
  if (!parent_ok(p)) { errno = ENOENT; return nullptr; }
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') { if (!f) { errno = ENOENT; return nullptr; } }
  else { if (!f) f = make(p, false); if (mode[0] == 'w') f->data.clear(); }
  Cookie* k = (Cookie*)rt_alloc(sizeof(Cookie));
  k->f = f; k->pos = 0; k->append = mode[0] == 'a'; k->rd = mode[0] == 'r' || plus; k->wr = mode[0] != 'r' || plus;
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  nopen++;
  FILE* fp = fopencookie(k, mode, io);
  for (auto& o : open_files) if (!o.k) { o.k = k; o.fp = fp; break; }
  return fp;
}
int fileno(FILE* fp) noexcept {
  if (g.active) for (int i = 0; i < NFILES; i++) if (open_files[i].fp == fp && fp) return FILE_FD0 + i;
  return fp == stdin ? 0 : fp == stdout ? 1 : fp == stderr ? 2 : -1;
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept {
  if (!g.active) return syscall(SYS_lseek, fd, o, wh);
  Cookie* k; { RT; sync_point(); k = by_fd(fd); }
  if (!k) { errno = EBADF; return -1; }
  return c_seek(k, &o, wh) ? -1 : o;
}
off_t lseek(int fd, off_t o, int wh) noexcept { return lseek64(fd, o, wh); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int access(const char* path, int) noexcept {
  if (!g.active) return -1;
  RT; sync_point();
  char p[256]; norm(path, p, sizeof p);
  if (find(p)) return 0;
  errno = ENOENT; return -1;
}
int mkdir(const char* path, mode_t) noexcept {
  if (!g.active) return -1;
  RT; sync_point();
  char p[256]; norm(path, p, sizeof p);
  if (choice_fault(F_MKDIR_ERR, self_id(), 1)) { tracef("fault: mkdir fails"); errno = ENOSPC; return -1; }
  if (find(p)) { errno = EEXIST; return -1; }
  if (!parent_ok(p)) { errno = ENOENT; return -1; }
  make(p, true);
  return 0;
}
// names of the host and of the executable (environment of the program)
static char host_name[256] = "simhost", exe_name[256] = "/opt/app/simapp";
ssize_t readlink(const char* path, char* b, size_t n) noexcept {
  if (!g.active) return syscall(SYS_readlink, path, b, n);
  RT; sync_point();
  if (strcmp(path, "/proc/self/exe")) { errno = ENOENT; return -1; }
  size_t l = strlen(exe_name); if (l > n) l = n;
  memcpy(b, exe_name, l);                 // no terminating zero, as in the real call
  return (ssize_t)l;
}
int gethostname(char* b, size_t n) noexcept {
  RT;
  size_t l = strlen(host_name) + 1;
  memcpy(b, host_name, l < n ? l : n);
  if (l > n) { errno = ENAMETOOLONG; return -1; }
  return 0;
}
}
namespace sim { void set_names(const char* h, const char* e) { snprintf(host_name, sizeof host_name, "%s", h); snprintf(exe_name, sizeof exe_name, "%s", e); } }
extern "C" {
int remove(const char* path) noexcept { if (!g.active) return -1; RT; sync_point(); char p[256]; norm(path, p, sizeof p); for (size_t i = 0; files && i < files->size(); i++) if (!strcmp((*files)[i]->path, p)) { files->erase(files->begin() + i); return 0; } errno = ENOENT; return -1; }
int unlink(const char* path) noexcept { return remove(path); }
static int do_stat(const char* path, struct stat* st) {
  RT; sync_point(); char p[256]; norm(path, p, sizeof p);
  FileD* f = find(p); if (!f) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_size = (off_t)f->data.size(); st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644; return 0;
}
int stat(const char* path, struct stat* st) noexcept { if (!g.active) return -1; return do_stat(path, st); }
int stat64(const char* path, struct stat64* st) noexcept { if (!g.active) return -1; return do_stat(path, (struct stat*)st); }
}
