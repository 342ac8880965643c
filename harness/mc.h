// mc.h - bounded exhaustive exploration engine.
//
// A check enumerates a finite list of "cases" (roots of exploration trees), indexed 0..ncases-1 and
// decodable from the index alone.  The parent forks workers that claim case indices from a shared
// counter; every case is executed exactly once, so the bounded space is covered completely.  Inside a
// case the check applies real library operations ("transitions"), keeps a reference model in lockstep,
// and compares the two after every step.  Visited implementation states go into a shared lock-free set.
// Crashes and hangs of the code under test are attributed to the case and the operation path.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <atomic>
#include <string>
#include <vector>

namespace mc {

struct Slot { std::atomic<uint64_t> beat; std::atomic<int64_t> cas; char path[4096]; };
struct Viol { int64_t cas; int kind; char msg[6000]; };
enum { MAXV = 8, MAXW = 64, MAXS = 12 };
struct Shared {
  std::atomic<uint64_t> next, done, states, transitions, compared, skipped, extra[8];
  std::atomic<int> stop, nviol, nsamp;
  std::atomic<uint64_t> tabfull;
  Slot slot[MAXW];
  Viol viol[MAXV];
  char samp[MAXS][700];
};
static Shared *sh;
static std::atomic<uint64_t> *tab;
static uint64_t tabmask;
static int tier;          // 0 quick, 1 thorough
static int me = 0;        // worker slot
static uint64_t ncases_total;
static bool replaying;

struct CaseFail { std::string msg; };

static inline void beat() { sh->slot[me].beat.fetch_add(1, std::memory_order_relaxed); }
static inline void trans(uint64_t n = 1) { sh->transitions.fetch_add(n, std::memory_order_relaxed); beat(); }
static inline void compared(uint64_t n = 1) { sh->compared.fetch_add(n, std::memory_order_relaxed); }
static inline void skipped(uint64_t n = 1) { sh->skipped.fetch_add(n, std::memory_order_relaxed); }
static inline void extra(int i, uint64_t n = 1) { sh->extra[i].fetch_add(n, std::memory_order_relaxed); }
// describe the operation about to run (survives a crash of this worker)
static inline void path(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(sh->slot[me].path, sizeof(sh->slot[me].path), fmt, ap); va_end(ap);
}
static inline void path_s(const std::string &s) { snprintf(sh->slot[me].path, sizeof(sh->slot[me].path), "%s", s.c_str()); }
[[noreturn]] static inline void fail(const char *fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw CaseFail{b};
}
static inline std::string strf(const char *fmt, ...) {
  char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { uint64_t x; memcpy(&x, c, 8); h = mix(h ^ x) * 0x9E3779B97F4A7C15ULL + 1; c += 8; n -= 8; }
  while (n--) h = (h ^ *c++) * 1099511628211ULL;
  return mix(h);
}
// returns true when this state had not been seen before (in any worker)
static inline bool state(uint64_t h) {
  if (!h) h = 1;
  uint64_t i = mix(h) & tabmask;
  for (int k = 0; k < 256; ++k, i = (i + 1) & tabmask) {
    uint64_t cur = tab[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (tab[i].compare_exchange_strong(cur, h, std::memory_order_relaxed)) { sh->states.fetch_add(1, std::memory_order_relaxed); return true; }
      if (cur == h) return false;
    }
  }
  sh->tabfull.fetch_add(1, std::memory_order_relaxed);
  return true;
}
static inline void sample(const std::string &s) {
  if (sh->nsamp.load(std::memory_order_relaxed) >= MAXS) return;
  int i = sh->nsamp.fetch_add(1);
  if (i < MAXS) snprintf(sh->samp[i], sizeof sh->samp[i], "%s", s.c_str());
}
static inline void record(int64_t cas, int kind, const std::string &msg) {
  int i = sh->nviol.fetch_add(1);
  if (i < MAXV) { sh->viol[i].cas = cas; sh->viol[i].kind = kind; snprintf(sh->viol[i].msg, sizeof sh->viol[i].msg, "%s", msg.c_str()); }
  if (i >= 2) sh->stop = 1;
}
} // namespace mc

// ---- what a check has to provide ----
extern const char *CHECK_ID;
uint64_t check_ncases(int tier);
void check_case(uint64_t c);            // throws mc::CaseFail through mc::fail
std::string check_bounds(int tier);     // human-readable description of the enumerated space
std::string check_describe(uint64_t c); // one case written out

namespace mc {
static inline std::string jesc(const std::string &s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += '?'; else r += c; } return r;
}
static void worker(int slot, uint64_t only, bool single) {
  me = slot;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
  if (!replaying) dup2(dn, 2);
  for (;;) {
    uint64_t c = single ? only : sh->next.fetch_add(1);
    if (c >= ncases_total || (sh->stop && !single)) break;
    sh->slot[me].path[0] = 0; sh->slot[me].cas = (int64_t)c; beat();
    try { check_case(c); }
    catch (CaseFail &f) { record((int64_t)c, 0, f.msg + " || at: " + sh->slot[me].path); }
    sh->slot[me].cas = -1; sh->done.fetch_add(1);
    if (single) break;
  }
  _exit(0);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// run workers until the case list is exhausted; respawn after a crash
static void drive(int nw, bool single, uint64_t only, double hang_s) {
  std::vector<pid_t> pid(nw, 0); std::vector<uint64_t> lastb(nw, 0); std::vector<double> lastt(nw, now());
  auto spawn = [&](int i) { fflush(0); sh->slot[i].cas = -1; pid_t p = fork(); if (p == 0) worker(i, only, single); pid[i] = p; lastt[i] = now(); };
  for (int i = 0; i < nw; ++i) spawn(i);
  int live = nw;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      double t = now();
      for (int i = 0; i < nw; ++i) if (pid[i]) {
        uint64_t b = sh->slot[i].beat.load();
        if (b != lastb[i]) { lastb[i] = b; lastt[i] = t; }
        else if (t - lastt[i] > hang_s && sh->slot[i].cas >= 0) {
          record(sh->slot[i].cas, 2, std::string("no progress for a long time (operation does not terminate) || at: ") + sh->slot[i].path);
          kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; --live;
          if (!single && !sh->stop) { spawn(i); ++live; }
        }
      }
      usleep(2000); continue;
    }
    int i = 0; while (i < nw && pid[i] != p) ++i;
    if (i == nw) continue;
    pid[i] = 0; --live;
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) {
      int64_t c = sh->slot[i].cas;
      std::string why = WIFSIGNALED(st) ? strf("crash: signal %d", WTERMSIG(st)) : strf("memory error or abort reported by the sanitizer/runtime: exit status %d", WEXITSTATUS(st));
      record(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? 3 : 1, why + " || at: " + sh->slot[i].path);
      if (!single && !sh->stop) { spawn(i); ++live; }
    }
  }
}
static int engine_main(int argc, char **argv) {
  int nw = (int)sysconf(_SC_NPROCESSORS_ONLN); if (nw < 1) nw = 1; if (nw > 16) nw = 16;
  const char *out = 0; int64_t replay = -1; int tabbits = -1;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--tier")) tier = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = atoll(argv[++i]);
    else if (!strcmp(argv[i], "--tabbits")) tabbits = atoi(argv[++i]);
  }
  if (tabbits < 0) tabbits = tier ? 28 : 24;
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (256u << 20)) { // generous stack: the library uses large VLAs
    rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (256u << 20)) ? (256u << 20) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl);
    if (!getenv("MC_REEXEC")) { setenv("MC_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tabmask = (1ull << tabbits) - 1;
  tab = (std::atomic<uint64_t> *)mmap(0, (tabmask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || tab == MAP_FAILED) { perror("mmap"); return 2; }
  ncases_total = check_ncases(tier);
  double t0 = now();
  if (replay >= 0) {
    replaying = true;
    drive(1, true, (uint64_t)replay, 60);
    printf("replay case %lld: %s\n", (long long)replay, check_describe((uint64_t)replay).c_str());
    if (sh->nviol) { printf("FAILS: %s\n", sh->viol[0].msg); return 1; }
    printf("holds\n"); return 0;
  }
  drive(nw, false, 0, 60);
  Shared snap_counts; (void)snap_counts;
  int nv = sh->nviol; if (nv > MAXV) nv = MAXV;
  // confirm each candidate in a fresh process
  std::vector<std::string> vj;
  static Viol v[MAXV]; memcpy(v, sh->viol, sizeof v);
  uint64_t c_states = sh->states, c_trans = sh->transitions, c_cmp = sh->compared, c_done = sh->done, c_skip = sh->skipped, c_extra[8];
  for (int i = 0; i < 8; ++i) c_extra[i] = sh->extra[i];
  bool complete = (sh->next.load() >= ncases_total) && !sh->stop && nv == 0;
  int confirmed = 0;
  for (int i = 0; i < nv; ++i) {
    bool rep = false;
    if (v[i].cas >= 0 && confirmed < 3) {
      memset((void *)tab, 0, (tabmask + 1) * 8);
      sh->nviol = 0; sh->stop = 0;
      drive(1, true, (uint64_t)v[i].cas, 60);
      rep = sh->nviol > 0;
      if (rep) { ++confirmed; snprintf(v[i].msg, sizeof v[i].msg, "%s", sh->viol[0].msg); }
    }
    // hangs and kills must reproduce; a mismatch or crash of deterministic code is reported regardless
    if (!rep && (v[i].kind == 2 || v[i].kind == 3)) continue;
    if (v[i].cas < 0) continue;
    vj.push_back(strf("{\"case\":%lld,\"reproduced\":%s,\"describe\":\"%s\",\"msg\":\"%s\"}", (long long)v[i].cas, rep ? "true" : "false",
                      jesc(check_describe((uint64_t)v[i].cas)).substr(0, 1500).c_str(), jesc(v[i].msg).substr(0, 2000).c_str()));
  }
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) { perror(out); return 2; }
  fprintf(f, "{\"cases\":%llu,\"cases_done\":%llu,\"complete\":%s,\"states\":%llu,\"transitions\":%llu,\"compared\":%llu,\"skipped\":%llu,\"table_overflow\":%llu,\"workers\":%d,\"wall_s\":%.3f,\"bounds\":\"%s\",\"extra\":[",
          (unsigned long long)ncases_total, (unsigned long long)c_done, complete ? "true" : "false", (unsigned long long)c_states, (unsigned long long)c_trans, (unsigned long long)c_cmp, (unsigned long long)c_skip, (unsigned long long)sh->tabfull.load(), nw, now() - t0, jesc(check_bounds(tier)).c_str());
  for (int i = 0; i < 8; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c_extra[i]);
  fprintf(f, "],\"samples\":[");
  int ns = sh->nsamp; if (ns > MAXS) ns = MAXS;
  for (int i = 0; i < ns; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(sh->samp[i]).c_str());
  fprintf(f, "],\"violations\":[");
  for (size_t i = 0; i < vj.size(); ++i) fprintf(f, "%s%s", i ? "," : "", vj[i].c_str());
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return vj.empty() ? 0 : 1;
}
} // namespace mc
#define MC_MAIN int main(int argc, char **argv) { return mc::engine_main(argc, argv); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=0"; }
