// Search driver: runs seeds, re-runs for determinism, minimises and replays counterexamples.
#include "rt.h"
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace sim {

static Scenario* scens;
void reg(Scenario* s) {   // keep a stable order: by property then name
  Scenario** p = &scens;
  while (*p && (strcmp((*p)->prop, s->prop) < 0 || (!strcmp((*p)->prop, s->prop) && strcmp((*p)->name, s->name) < 0))) p = &(*p)->next;
  s->next = *p; *p = s;
}
static u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 hash_str(const char* s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 0x100000001b3ull; return h; }
static double mono() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static Scenario* find_scen(const char* prop, const char* name) {
  for (Scenario* s = scens; s; s = s->next) if (!strcmp(s->prop, prop) && !strcmp(s->name, name)) return s;
  return nullptr;
}
static Scenario* pick_scen(const char* prop, u64 seed, const char* only) {
  u64 tot = 0;
  for (Scenario* s = scens; s; s = s->next) if (!strcmp(s->prop, prop) && (!only || !strcmp(only, s->name))) tot += s->weight;
  if (!tot) return nullptr;
  u64 r = mix64(seed ^ 0x5ce9a810ull) % tot;
  for (Scenario* s = scens; s; s = s->next) if (!strcmp(s->prop, prop) && (!only || !strcmp(only, s->name))) { if (r < s->weight) return s; r -= s->weight; }
  return nullptr;
}

struct Result { u32 status; char cls[96]; char msg[2048]; u64 hash, shash, points, switches, simns; u32 nchoice; bool nontriv; };

static int devnull = -1;
// one run in a forked child
static void exec_run(Scenario* sc, Mode mode, u64 seed, const ChoiceRec* c, u32 n, bool trace, Result* r) {
  sh->status = ST_NONE; sh->nchoice = 0; sh->truncated = 0; sh->nontriv = 0; sh->cls[0] = 0; sh->msg[0] = 0;
  sh->hash = sh->shash = sh->points = sh->switches = sh->simns = sh->nevents = 0;
  memset(sh->faults, 0, sizeof sh->faults); memset(sh->probes, 0, sizeof sh->probes);
  memset(sh->pcs, 0, sizeof sh->pcs); sh->npcs = 0; sh->trace_len = 0;
  pid_t p = (pid_t)syscall(SYS_fork);
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    dup2(devnull, 1); dup2(devnull, 2);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 30;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    g.mode = mode; g.trace = trace;
    seed_rng(seed);
    load_replay(c, n);
    run_child(sc->fn, sc->name);
  }
  int st = 0;
  for (;;) { int e = waitpid(p, &st, 0); if (e == p) break; if (e < 0 && errno != EINTR) break; }
  if (sh->status == ST_NONE) {
    sh->status = ST_VIOLATION;
    strcpy(sh->cls, "crash");
    if (WIFSIGNALED(st)) snprintf(sh->msg, sizeof sh->msg, "process killed by signal %d", WTERMSIG(st));
    else snprintf(sh->msg, sizeof sh->msg, "process exited with status %d", WEXITSTATUS(st));
  }
  r->status = sh->status; strcpy(r->cls, sh->cls); strcpy(r->msg, sh->msg);
  r->hash = sh->hash; r->shash = sh->shash; r->points = sh->points; r->switches = sh->switches; r->simns = sh->simns; r->nchoice = sh->nchoice; r->nontriv = sh->nontriv;
}

// ------------------------------------------------------------------ replay files
static const char* kind_str(u32 k) { return k < K_N ? kind_names[k] : "?"; }
static void write_replay(const char* path, const char* prop, const char* scen, const Result& r, const ChoiceRec* c, u32 n, u64 seed, bool by_seed) {
  char tmp[600]; snprintf(tmp, sizeof tmp, "%s.tmp", path);
  FILE* f = fopen(tmp, "w");
  if (!f) { perror(path); _exit(3); }
  fprintf(f, "simreplay 1\nprop %s\nscenario %s\nseed %llu\nmode %s\nclass %s\nhash %016llx\npoints %llu\nsimtime_us %llu\nmsg %s\n", prop, scen,
          (unsigned long long)seed, by_seed ? "seed" : "choices", r.cls, (unsigned long long)r.hash, (unsigned long long)r.points, (unsigned long long)(r.simns / 1000), r.msg);
  fprintf(f, "pcs");
  for (int i = 0; i < 24; i++) if (sh->pcs[i]) fprintf(f, " %llx", (unsigned long long)(uintptr_t)sh->pcs[i]);
  fprintf(f, "\nchoices %u\n", n);
  for (u32 i = 0; i < n; i++) fprintf(f, "%s thread=%u n=%u value=%u\n", kind_str(c[i].kind), c[i].actor, c[i].ord, c[i].val);
  if (sh->trace_len) { fprintf(f, "trace\n"); fwrite(sh->trace, 1, sh->trace_len, f); }
  fclose(f);
  rename(tmp, path);
}
struct RepFile { char prop[32], scen[64], cls[96]; u64 hash, seed; bool by_seed; ChoiceRec* c; u32 n; };
static bool read_replay(const char* path, RepFile* rf) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return false; }
  memset(rf, 0, sizeof *rf);
  char* line = nullptr; size_t cap = 0;
  u32 left = 0;
  while (getline(&line, &cap, f) > 0) {
    line[strcspn(line, "\n")] = 0;
    if (left) {
      char k[64]; unsigned a, o, v;
      if (sscanf(line, "%63s thread=%u n=%u value=%u", k, &a, &o, &v) == 4) {
        for (u32 i = 0; i < K_N; i++) if (!strcmp(kind_names[i], k)) { ChoiceRec& r = rf->c[rf->n++]; r.kind = (uint8_t)i; r.pad = 0; r.actor = (uint16_t)a; r.ord = o; r.val = v; }
      }
      left--;
      continue;
    }
    if (!strcmp(line, "trace")) break;
    sscanf(line, "prop %31s", rf->prop); sscanf(line, "scenario %63s", rf->scen); sscanf(line, "class %95s", rf->cls);
    unsigned long long u;
    if (sscanf(line, "hash %llx", &u) == 1) rf->hash = u;
    if (sscanf(line, "seed %llu", &u) == 1) rf->seed = u;
    if (!strcmp(line, "mode seed")) rf->by_seed = true;
    if (sscanf(line, "choices %u", &left) == 1) rf->c = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (left + 1));
  }
  free(line); fclose(f);
  return rf->prop[0] && rf->scen[0];
}

// ------------------------------------------------------------------ search
static volatile sig_atomic_t stop_req;
static void on_term(int) { stop_req = 1; }

struct SeenHash { u64* t; u64 cap, n; };
static void seen_add(SeenHash* s, u64 h) {
  if (!h) h = 1;
  if (s->n * 2 >= s->cap) {
    u64 oc = s->cap; u64* ot = s->t;
    s->cap = oc ? oc * 2 : 1 << 16; s->t = (u64*)calloc(s->cap, 8); s->n = 0;
    for (u64 i = 0; i < oc; i++) if (ot[i]) seen_add(s, ot[i]);
    free(ot);
  }
  u64 i = mix64(h) & (s->cap - 1);
  while (s->t[i] && s->t[i] != h) i = (i + 1) & (s->cap - 1);
  if (!s->t[i]) { s->t[i] = h; s->n++; }
}
static void json_str(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }

static int cmd_run(const char* prop, const char* only, u64 seed, u64 first, u64 stride, u64 count, double secs, const char* out, int maxviol) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_term; sigaction(SIGTERM, &sa, nullptr);
  double t0 = mono();
  u64 runs = 0, ok = 0, nontriv = 0, rerun = 0, mismatch = 0, harness = 0, viol = 0, points = 0, switches = 0, simns = 0, maxsim = 0, nev = 0;
  u64 faults[F_NFAULTS]; u64 frun[F_NFAULTS]; memset(faults, 0, sizeof faults); memset(frun, 0, sizeof frun);
  struct { char name[40]; u64 n, runs; } pr[256]; int npr = 0; memset(pr, 0, sizeof pr);
  struct { const char* n; u64 runs, nontriv; } ps[64]; int nps = 0;
  SeenHash sched = {}, beh = {};
  char harness_msg[2200] = "";
  u64 keys[64]; int nkeys = 0; int nviolfiles = 0;
  struct { u64 ix, hash; const char* sc; } samples[16]; int nsamp = 0;
  for (u64 k = 0; k < count && !stop_req; k++) {
    u64 ix = first + k * stride;
    if (secs > 0 && mono() - t0 > secs) break;
    u64 rs = mix64(mix64(seed) ^ hash_str(prop) ^ (ix * 0x9e3779b97f4a7c15ull));
    Scenario* sc = pick_scen(prop, rs, only);
    if (!sc) { fprintf(stderr, "no scenario for %s\n", prop); return 3; }
    Result r;
    exec_run(sc, M_RANDOM, rs, nullptr, 0, false, &r);
    runs++;
    int pi = 0; while (pi < nps && ps[pi].n != sc->name) pi++;
    if (pi == nps && nps < 64) { ps[nps].n = sc->name; ps[nps].runs = ps[nps].nontriv = 0; nps++; }
    ps[pi].runs++; ps[pi].nontriv += r.nontriv;
    points += r.points; switches += r.switches; simns += r.simns; if (r.simns > maxsim) maxsim = r.simns; nev += sh->nevents;
    for (int i = 0; i < F_NFAULTS; i++) { faults[i] += sh->faults[i]; frun[i] += sh->faults[i] != 0; }
    for (int i = 0; i < NPROBE && sh->probes[i].name[0]; i++) {
      int j = 0; while (j < npr && strcmp(pr[j].name, sh->probes[i].name)) j++;
      if (j == npr) { if (npr == 256) continue; npr++; strcpy(pr[j].name, sh->probes[i].name); }
      pr[j].n += sh->probes[i].n; pr[j].runs++;
    }
    if (r.nontriv) { nontriv++; seen_add(&sched, r.shash ^ hash_str(sc->name)); seen_add(&beh, r.hash); }
    if (nsamp < 8 && r.nontriv && (runs & (runs - 1)) == 0) { samples[nsamp].ix = ix; samples[nsamp].hash = r.hash; samples[nsamp].sc = sc->name; nsamp++; }
    if (r.status == ST_OK) ok++;
    if (r.status == ST_HARNESS) { harness++; snprintf(harness_msg, sizeof harness_msg, "%s (scenario %s, seed %llu index %llu)", r.msg, sc->name, (unsigned long long)rs, (unsigned long long)ix); if (harness > 3) break; continue; }
    if (r.status == ST_VIOLATION) {
      viol++;
      u64 key = hash_str(r.cls) ^ hash_str(sc->name) ^ (u64)(uintptr_t)sh->pcs[0] * 31;
      bool known = false;
      for (int i = 0; i < nkeys; i++) if (keys[i] == key) known = true;
      if (!known && nviolfiles < maxviol) {
        if (nkeys < 64) keys[nkeys++] = key;
        u32 n = sh->nchoice; if (n > MAXCHOICE) n = MAXCHOICE;
        ChoiceRec* c = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (n + 1));
        memcpy(c, sh->choices, sizeof(ChoiceRec) * n);
        Result r2; exec_run(sc, M_RANDOM, rs, nullptr, 0, false, &r2);
        rerun++;
        if (r2.hash != r.hash || strcmp(r2.cls, r.cls)) { mismatch++; snprintf(harness_msg, sizeof harness_msg, "violation not repeatable: scenario %s seed %llu class %s vs %s", sc->name, (unsigned long long)rs, r.cls, r2.cls); free(c); continue; }
        char path[600]; snprintf(path, sizeof path, "%s/viol-%llu-%d.raw", out, (unsigned long long)first, nviolfiles++);
        write_replay(path, prop, sc->name, r, c, n, rs, false);
        free(c);
      }
    } else if (runs % 64 == 1) {
      Result r2; exec_run(sc, M_RANDOM, rs, nullptr, 0, false, &r2);
      rerun++;
      if (r2.hash != r.hash || r2.shash != r.shash || r2.status != r.status) { mismatch++; snprintf(harness_msg, sizeof harness_msg, "run not repeatable: scenario %s seed %llu", sc->name, (unsigned long long)rs); }
    }
  }
  double wall = mono() - t0;
  char path[600]; snprintf(path, sizeof path, "%s/stats-%llu.json", out, (unsigned long long)first);
  FILE* f = fopen(path, "w");
  fprintf(f, "{\"runs\":%llu,\"ok\":%llu,\"nontrivial\":%llu,\"reruns\":%llu,\"mismatches\":%llu,\"harness_errors\":%llu,\"violations\":%llu,\"points\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"max_sim_ns\":%llu,\"events\":%llu,\"wall_s\":%.3f,\"sched\":%llu,\"beh\":%llu,",
          (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)nontriv, (unsigned long long)rerun, (unsigned long long)mismatch, (unsigned long long)harness, (unsigned long long)viol,
          (unsigned long long)points, (unsigned long long)switches, (unsigned long long)simns, (unsigned long long)maxsim, (unsigned long long)nev, wall, (unsigned long long)sched.n, (unsigned long long)beh.n);
  fprintf(f, "\"harness_msg\":"); json_str(f, harness_msg);
  fprintf(f, ",\"faults\":{");
  bool fst = true;
  for (int i = 0; i < F_NFAULTS; i++) if (faults[i]) { fprintf(f, "%s\"%s\":[%llu,%llu]", fst ? "" : ",", kind_names[K_FAULT0 + i] + 2, (unsigned long long)faults[i], (unsigned long long)frun[i]); fst = false; }
  fprintf(f, "},\"probes\":{");
  for (int i = 0; i < npr; i++) { fprintf(f, "%s", i ? "," : ""); json_str(f, pr[i].name); fprintf(f, ":[%llu,%llu]", (unsigned long long)pr[i].n, (unsigned long long)pr[i].runs); }
  fprintf(f, "},\"scenarios\":{");
  for (int i = 0; i < nps; i++) fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", ps[i].n, (unsigned long long)ps[i].runs, (unsigned long long)ps[i].nontriv);
  fprintf(f, "},\"samples\":[");
  for (int i = 0; i < nsamp; i++) fprintf(f, "%s[%llu,\"%016llx\",\"%s\"]", i ? "," : "", (unsigned long long)samples[i].ix, (unsigned long long)samples[i].hash, samples[i].sc);
  fprintf(f, "]}\n");
  fclose(f);
  snprintf(path, sizeof path, "%s/sched-%llu.bin", out, (unsigned long long)first);
  f = fopen(path, "w");
  for (u64 i = 0; i < sched.cap; i++) if (sched.t[i]) fwrite(&sched.t[i], 8, 1, f);
  fclose(f);
  return 0;
}

// ------------------------------------------------------------------ minimisation (delta debugging over the choice log)
static ChoiceRec* cur_c; static u32 cur_n;
static u64 shrink_tries;
static bool attempt(Scenario* sc, const char* cls, ChoiceRec* c, u32 n) {
  Result r;
  shrink_tries++;
  exec_run(sc, M_REPLAY, 0, c, n, false, &r);
  return r.status == ST_VIOLATION && !strcmp(r.cls, cls);
}
static int cmd_shrink(const char* in, const char* out, double secs) {
  RepFile rf;
  if (!read_replay(in, &rf)) return 3;
  Scenario* sc = find_scen(rf.prop, rf.scen);
  if (!sc) return 3;
  double t0 = mono();
  u32 orig = rf.n;
  bool by_seed = !attempt(sc, rf.cls, rf.c, rf.n);
  cur_c = rf.c; cur_n = rf.n;
  if (!by_seed) {
    ChoiceRec* t = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (cur_n + 1));
    // drop whole kinds first
    for (int k = K_N - 1; k >= 0; k--) {
      u32 m = 0;
      for (u32 i = 0; i < cur_n; i++) if (cur_c[i].kind != k) t[m++] = cur_c[i];
      if (m < cur_n && mono() - t0 < secs && attempt(sc, rf.cls, t, m)) { memcpy(cur_c, t, sizeof(ChoiceRec) * m); cur_n = m; }
    }
    for (int round = 0; round < 4; round++) {
      u32 before = cur_n; bool lowered = false;
      for (u32 chunk = cur_n / 2 ? cur_n / 2 : 1; chunk >= 1; chunk /= 2) {
        for (u32 at = 0; at < cur_n && mono() - t0 < secs;) {
          u32 m = 0;
          for (u32 i = 0; i < cur_n; i++) if (i < at || i >= at + chunk) t[m++] = cur_c[i];
          if (attempt(sc, rf.cls, t, m)) { memcpy(cur_c, t, sizeof(ChoiceRec) * m); cur_n = m; } else at += chunk;
        }
        if (chunk == 1) break;
      }
      for (u32 i = 0; i < cur_n && mono() - t0 < secs; i++) {
        if (cur_c[i].kind == K_PREEMPT) continue;
        for (u32 v = 1; v < cur_c[i].val && v < 4; v++) {
          memcpy(t, cur_c, sizeof(ChoiceRec) * cur_n); t[i].val = v;
          if (attempt(sc, rf.cls, t, cur_n)) { cur_c[i].val = v; lowered = true; break; }
        }
      }
      if (cur_n == before && !lowered) break;
      if (mono() - t0 > secs) break;
    }
    free(t);
  }
  Result r;
  exec_run(sc, by_seed ? M_RANDOM : M_REPLAY, rf.seed, by_seed ? nullptr : cur_c, by_seed ? 0 : cur_n, true, &r);
  if (r.status != ST_VIOLATION || strcmp(r.cls, rf.cls)) { fprintf(stderr, "shrink: final run does not reproduce (%s)\n", r.cls); return 2; }
  write_replay(out, rf.prop, rf.scen, r, cur_c, by_seed ? 0 : cur_n, rf.seed, by_seed);
  printf("shrunk %u -> %u choices in %llu executions, %.1fs\n", orig, by_seed ? 0 : cur_n, (unsigned long long)shrink_tries, mono() - t0);
  return 0;
}
static int cmd_replay(const char* in, bool quiet) {
  RepFile rf;
  if (!read_replay(in, &rf)) return 3;
  Scenario* sc = find_scen(rf.prop, rf.scen);
  if (!sc) { fprintf(stderr, "unknown scenario %s/%s\n", rf.prop, rf.scen); return 3; }
  Result r;
  exec_run(sc, rf.by_seed ? M_RANDOM : M_REPLAY, rf.seed, rf.c, rf.n, !quiet, &r);
  if (!quiet) fwrite(sh->trace, 1, sh->trace_len, stdout);
  printf("status %s\nclass %s\nhash %016llx\nmsg %s\npcs", r.status == ST_OK ? "ok" : r.status == ST_VIOLATION ? "violation" : "harness", r.cls[0] ? r.cls : "-", (unsigned long long)r.hash, r.msg);
  for (int i = 0; i < 24; i++) if (sh->pcs[i]) printf(" %llx", (unsigned long long)(uintptr_t)sh->pcs[i]);
  printf("\n%s\n", r.status == ST_VIOLATION && !strcmp(r.cls, rf.cls) ? (r.hash == rf.hash ? "REPRODUCED exactly" : "REPRODUCED class, different history") : "NOT REPRODUCED");
  return r.status == ST_VIOLATION && !strcmp(r.cls, rf.cls) ? (r.hash == rf.hash ? 1 : 4) : r.status == ST_HARNESS ? 3 : 0;
}
static int cmd_one(const char* prop, const char* only, u64 seed, u64 ix, bool trace) {
  u64 rs = mix64(mix64(seed) ^ hash_str(prop) ^ (ix * 0x9e3779b97f4a7c15ull));
  Scenario* sc = pick_scen(prop, rs, only);
  if (!sc) return 3;
  Result r;
  exec_run(sc, M_RANDOM, rs, nullptr, 0, trace, &r);
  if (trace) fwrite(sh->trace, 1, sh->trace_len, stdout);
  printf("scenario %s status %s class %s hash %016llx points %llu switches %llu simus %llu choices %u nontrivial %d\nmsg %s\npcs", sc->name, r.status == ST_OK ? "ok" : r.status == ST_VIOLATION ? "violation" : "harness", r.cls[0] ? r.cls : "-",
         (unsigned long long)r.hash, (unsigned long long)r.points, (unsigned long long)r.switches, (unsigned long long)(r.simns / 1000), r.nchoice, r.nontriv, r.msg);
  for (int i = 0; i < 24; i++) if (sh->pcs[i]) printf(" %llx", (unsigned long long)(uintptr_t)sh->pcs[i]);
  printf("\n");
  return 0;
}
static int cmd_hashes(const char* prop, u64 seed, u64 first, u64 stride, u64 count) {
  for (u64 k = 0; k < count; k++) {
    u64 ix = first + k * stride;
    u64 rs = mix64(mix64(seed) ^ hash_str(prop) ^ (ix * 0x9e3779b97f4a7c15ull));
    Scenario* sc = pick_scen(prop, rs, nullptr);
    if (!sc) return 3;
    Result r; exec_run(sc, M_RANDOM, rs, nullptr, 0, false, &r);
    printf("%llu %s %u %s %016llx %016llx %llu\n", (unsigned long long)ix, sc->name, r.status, r.cls[0] ? r.cls : "-", (unsigned long long)r.hash, (unsigned long long)r.shash, (unsigned long long)r.points);
  }
  return 0;
}

static int run_main(int argc, char** argv) {
  const char* prop = nullptr; const char* only = nullptr; const char* out = "."; u64 seed = 1, first = 0, stride = 1, count = ~0ull >> 1; double secs = 0; int maxviol = 8; bool trace = false;
  const char* pos[4]; int np = 0;
  for (int i = 2; i < argc; i++) {
    const char* a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (!strcmp(a, "--prop")) prop = v, i++;
    else if (!strcmp(a, "--scenario")) only = v, i++;
    else if (!strcmp(a, "--seed")) seed = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--first")) first = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--stride")) stride = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--count")) count = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--secs")) secs = atof(v), i++;
    else if (!strcmp(a, "--out")) out = v, i++;
    else if (!strcmp(a, "--max-violations")) maxviol = atoi(v), i++;
    else if (!strcmp(a, "--trace")) trace = true;
    else if (np < 4) pos[np++] = a;
  }
  const char* cmd = argc > 1 ? argv[1] : "";
  if (!strcmp(cmd, "run") && prop) return cmd_run(prop, only, seed, first, stride, count, secs, out, maxviol);
  if (!strcmp(cmd, "one") && prop) return cmd_one(prop, only, seed, first, trace);
  if (!strcmp(cmd, "hashes") && prop) return cmd_hashes(prop, seed, first, stride, count);
  if (!strcmp(cmd, "shrink") && np == 2) return cmd_shrink(pos[0], pos[1], secs > 0 ? secs : 20);
  if (!strcmp(cmd, "replay") && np == 1) return cmd_replay(pos[0], !trace);
  if (!strcmp(cmd, "list")) { for (Scenario* s = scens; s; s = s->next) printf("%s %s %u\n", s->prop, s->name, s->weight); return 0; }
  fprintf(stderr, "usage: simdriver run|one|hashes|shrink|replay|list ...\n");
  return 3;
}
}  // namespace sim

int main(int argc, char** argv) {
  int cur = personality(0xffffffff);
  if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    personality((unsigned long)cur | ADDR_NO_RANDOMIZE);
    setenv("SIM_NOASLR", "1", 1);
    // identical environment for every execution: the initial stack must not depend on the caller
    static char e1[] = "TZ=UTC", e2[] = "SIM_NOASLR=1", e3[] = "LC_ALL=C";
    char* env[] = {e1, e2, e3, nullptr};
    execve("/proc/self/exe", argv, env);
  }
  sim::devnull = open("/dev/null", O_RDWR);
  sim::mem_init();
  sim::core_init();
  int r = sim::run_main(argc, argv);
  fflush(stdout);
  _exit(r);
}
