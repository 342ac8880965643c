// sched.cpp - C21: concurrent calls on separate objects behave as if run alone.
// The library is compiled so that every memory access calls back into this scheduler.  Two (or three) calls run as
// coroutines on separate objects; the scheduler decides at every access who runs next.  Accesses to a thread's own
// stack and own allocations commute with everything the others do, so schedules that differ only there are
// equivalent (partial-order reduction); at accesses to memory that both can reach, with at least one writer,
// every schedule up to the preemption bound is run.  Each result is compared bit for bit with the isolated run.
#include "variant.h"
#include <ucontext.h>
#include <pthread.h>
#include <unordered_map>
#include <unordered_set>
const char *CHECK_ID = "C21";
static const char *VN[] = {VARIANT_NAMES}, *VP[] = {VARIANT_PATHS};
enum { MAXT = 3 }; static const size_t STACK = 24u << 20, ARENA = 24u << 20;
struct Co { ucontext_t u; char *stk, *arena; size_t used; bool done, enabled; uint64_t n, budget; int op, ds; OpCtx cx; Buf buf; std::vector<char> tls; };
static Variant *V; static Co co[MAXT]; static ucontext_t mainu; static int cur = -1, nth; static int NOPS;
// schedule: list of (thread, access count at which it is preempted, who runs next)
struct Pre { int t; uint64_t at; int to; }; static std::vector<Pre> sched; static size_t si;
// access log
static bool logging; struct Acc { unsigned char rd, wr; }; static std::unordered_map<uintptr_t, Acc> *glog; // 8-byte granule -> bitmask of threads
static std::vector<uint64_t> points[MAXT]; static std::unordered_set<uintptr_t> *hot; // conflicting granules
static uint64_t switches;
static inline bool in(const char *b, size_t n, uintptr_t a) { return a - (uintptr_t)b < n; }
static void to(int t) {
  int f = cur; if (f == t) return; ++switches;
  if (V->tls) { memcpy(co[f].tls.data(), V->tls, V->tlsn); memcpy(V->tls, co[t].tls.data(), V->tlsn); }
  cur = t; swapcontext(&co[f].u, &co[t].u);
}
static int other() { for (int k = 1; k < nth; ++k) { int t = (cur + k) % nth; if (!co[t].done) return t; } return -1; }
static inline void access(uintptr_t a, size_t sz, int wr) {
  if (cur < 0) return; Co &c = co[cur]; if (!c.enabled) return;
  uint64_t n = c.n++;
  if (!in(c.stk, STACK, a) && !in(c.arena, ARENA, a)) {
    if (logging) for (uintptr_t g = a >> 3; g <= (a + sz - 1) >> 3; ++g) { Acc &x = (*glog)[g]; (wr ? x.wr : x.rd) |= 1 << cur; }
    if (hot) for (uintptr_t g = a >> 3; g <= (a + sz - 1) >> 3; ++g) if (hot->count(g)) { points[cur].push_back(n); break; }
  }
  if (si < sched.size() && sched[si].t == cur && n >= sched[si].at) { int t = sched[si++].to; if (t < nth && !co[t].done) { to(t); return; } }
  if (n > c.budget) { c.budget = n + 100000; int t = other(); if (t >= 0) to(t); } // waiting for somebody else
  if ((n & 0xffff) == 0) mc::beat();
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *a) { access((uintptr_t)a, N, 0); } void __tsan_write##N(void *a) { access((uintptr_t)a, N, 1); } void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, 0); } void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, 1); } \
  void __tsan_read_write##N(void *a) { access((uintptr_t)a, N, 1); } void __tsan_unaligned_read_write##N(void *a) { access((uintptr_t)a, N, 1); } void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, 0); } void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, 1); } void __tsan_unaligned_volatile_read##N(void *a) { access((uintptr_t)a, N, 0); } void __tsan_unaligned_volatile_write##N(void *a) { access((uintptr_t)a, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t)a, n, 0); } void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t)a, n, 1); }
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, 1); } void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, 0); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (n) access((uintptr_t)d, n, 1); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { access((uintptr_t)s, n, 0); access((uintptr_t)d, n, 1); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { access((uintptr_t)s, n, 0); access((uintptr_t)d, n, 1); } return memmove(d, s, n); }
#define AT(W, T) \
  T __tsan_atomic##W##_load(const volatile T *a, int) { access((uintptr_t)a, sizeof(T), 0); return __atomic_load_n(a, 5); } void __tsan_atomic##W##_store(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##W##_exchange(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##W##_fetch_add(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##W##_fetch_sub(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##W##_fetch_and(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##W##_fetch_or(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##W##_fetch_xor(volatile T *a, T v, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } int __tsan_atomic##W##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { access((uintptr_t)a, sizeof(T), 1); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access((uintptr_t)a, sizeof(T), 1); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// the library's allocations: one arena per call, so that equal addresses mean genuinely shared memory
void *__wrap_malloc(size_t n) { if (cur < 0) return malloc(n); Co &c = co[cur]; size_t k = (n + 31) & ~(size_t)15; if (c.used + k > ARENA) return 0; char *p = c.arena + c.used; c.used += k; *(size_t *)p = n; return p + 16; }
void *__wrap_calloc(size_t a, size_t b) { if (cur < 0) return calloc(a, b); void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { for (int t = 0; t < MAXT; ++t) if (co[t].arena && in(co[t].arena, ARENA, (uintptr_t)p)) return; free(p); }
void *__wrap_realloc(void *p, size_t n) { if (cur < 0) return realloc(p, n); void *q = __wrap_malloc(n); if (p && q) { size_t o = *(size_t *)((char *)p - 16); memcpy(q, p, o < n ? o : n); } return q; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { while (pthread_mutex_trylock(m)) { int t = cur < 0 ? -1 : other(); if (t < 0) return pthread_mutex_lock(m); to(t); } return 0; }
}
static void before(OpCtx *x) { ((Co *)x->user)->enabled = true; } static void after(OpCtx *x) { ((Co *)x->user)->enabled = false; }
static void entry(int t) {
  V->t->run(co[t].op, co[t].ds, &co[t].cx); co[t].done = true; co[t].enabled = false;
  int o = other(); if (o >= 0) { to(o); } else { cur = -1; swapcontext(&co[t].u, &mainu); }
  for (;;) { if (other() >= 0) to(other()); else { cur = -1; setcontext(&mainu); } }
}
static void init() {
  if (V) return; V = new Variant; V->load(VN[0], VP[0]); NOPS = V->t->count(); glog = new std::unordered_map<uintptr_t, Acc>;
}
static void init_run() { // stacks and arenas in each worker
  if (co[0].stk) return;
  for (int t = 0; t < MAXT; ++t) { co[t].stk = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); co[t].arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); co[t].cx.val = co[t].buf.v.data(); co[t].cx.sc = co[t].buf.s.data(); co[t].cx.kind = co[t].buf.k.data(); co[t].cx.max = OUTMAX; co[t].cx.before = before; co[t].cx.after = after; co[t].cx.user = &co[t]; }
}
// run the given calls under the current schedule, starting with thread `first`
static void execute(const std::vector<std::pair<int, int>> &calls, int first, bool fresh = true) {
  init_run(); if (fresh) V->fresh(); nth = (int)calls.size(); si = 0;
  for (int t = 0; t < nth; ++t) { Co &c = co[t]; c.used = 0; c.done = c.enabled = false; c.n = 0; c.budget = 4000000; c.op = calls[t].first; c.ds = calls[t].second; c.cx.pat = 2; c.tls = V->tls_init; points[t].clear();
    getcontext(&c.u); c.u.uc_stack.ss_sp = c.stk; c.u.uc_stack.ss_size = STACK; c.u.uc_link = 0; makecontext(&c.u, (void (*)())entry, 1, t); }
  cur = first; if (V->tls) memcpy(V->tls, co[first].tls.data(), V->tlsn); swapcontext(&mainu, &co[first].u); cur = -1; mc::trans();
}
struct Alone { Result r; uint64_t n; }; static std::unordered_map<uint64_t, Alone> *alone;
static const Alone &solo(int op, int ds) {
  if (!alone) alone = new std::unordered_map<uint64_t, Alone>; uint64_t k = (uint64_t)op * 4 + ds; auto it = alone->find(k); if (it != alone->end()) return it->second;
  auto sv = sched; sched.clear(); auto *h = hot; hot = 0; bool lg = logging; logging = false; mc::path("%s alone, data set %d", opname(V->t, op).c_str(), ds); execute({{op, ds}}, 0); Alone a; a.r = collect(co[0].cx); a.n = co[0].n; sched = sv; hot = h; logging = lg; return (*alone)[k] = a;
}
static void judge(const std::vector<std::pair<int, int>> &calls, const char *how) {
  for (int t = 0; t < (int)calls.size(); ++t) { Result r = collect(co[t].cx); mc::compared(); const Result b = solo(calls[t].first, calls[t].second).r; // (solo is cached by now)
    if (!r.bits_equal(b)) { std::string s; for (auto &p : sched) s += mc::strf(" [call %d preempted before its access %llu, call %d goes on]", p.t, (unsigned long long)p.at, p.to); mc::fail("%s run concurrently with %s gives another result than alone: %s; schedule (%s):%s", opname(V->t, calls[t].first).c_str(), opname(V->t, calls[(t + 1) % calls.size()].first).c_str(), first_diff(b, r).c_str(), how, s.c_str()); } }
  uint64_t h = co[0].n; for (auto &p : sched) h = mc::mix(h ^ (p.at * 8 + p.t * 3 + p.to)); for (auto &k : calls) h = mc::mix(h ^ (k.first * 4 + k.second)); mc::state(h);
}
static std::vector<int> *opset, *reps;
static void choose() { init(); if (opset) return; opset = new std::vector<int>; reps = new std::vector<int>; int per = mc::tier ? 1000 : 6; std::unordered_map<std::string, std::vector<int>> fam; std::vector<std::string> order; for (int i = 0; i < NOPS; ++i) { std::string n = opname(V->t, i); bool heavy = !mc::tier && ((n.find("_voxelize") != std::string::npos && (n.find("shape 2") != std::string::npos || n.find("shape 3") != std::string::npos || n.find("shape 5") != std::string::npos || n.find("shape 6") != std::string::npos)) || (n.find("rNd_vox") == 0 && n.find("variant 1") != std::string::npos)); n = n.substr(0, n.find('[')); if (heavy && fam.count(n)) continue; if (!fam.count(n)) order.push_back(n); fam[n].push_back(i); }
  for (auto &f : order) { auto &v = fam[f]; reps->push_back(v[v.size() / 2]); int m = (int)v.size() < per ? (int)v.size() : per; for (int k = 0; k < m; ++k) opset->push_back(v[m == (int)v.size() ? k : ((size_t)k * v.size() / m + 3 * k + 1) % v.size()]); } }
uint64_t check_ncases(int) { choose(); return opset->size(); }
std::string check_bounds(int tier) { choose(); return mc::strf("all ordered pairs of %zu concrete calls covering the whole public API, on separate objects; preemption points: every access to memory reachable by both (all schedules with one preemption, and with two up to a grid of 24x24), plus serial orders, plus %d evenly spaced unreduced preemption points per pair%s; initial and used hidden state", opset->size(), tier ? 12 : 3, tier ? ", and nested preemptions of three calls (one of each kind as second and third)" : ""); }
std::string check_describe(uint64_t c) { choose(); return "preempted call: " + opname(V->t, (*opset)[c]); }
static void conflicts(int nt, std::unordered_set<uintptr_t> &H) { for (auto &p : *glog) { int any = p.second.rd | p.second.wr; if (p.second.wr && (any & (any - 1))) H.insert(p.first); } (void)nt; }
void check_case(uint64_t c) {
  choose(); init_run(); int A = (*opset)[c]; uint64_t nA = solo(A, 0).n;
  std::unordered_set<uintptr_t> H;
  for (int B : *opset) {
    uint64_t nB = solo(B, 1).n; std::vector<std::pair<int, int>> cl = {{A, 0}, {B, 1}}; std::string an = opname(V->t, A), bn = opname(V->t, B);
    mc::path("%s (call 0) with %s (call 1)", an.c_str(), bn.c_str());
    for (int used = 0; used < 2; ++used) {
      // serial orders, recording who touches what
      logging = true; glog->clear(); H.clear(); sched.clear();
      for (int first = 0; first < 2; ++first) { if (used) { execute({{B, 0}}, 0); } execute(cl, first, !used); judge(cl, "serial"); }
      // preempted in the middle as well: control flow may differ
      sched = {{0, nA / 2, 1}}; execute(cl, 0); judge(cl, "one preemption"); logging = false; conflicts(2, H);
      if (H.empty()) break; // no memory in common that is written: every interleaving is equivalent to a serial one
      mc::extra(0); hot = &H; sched.clear(); execute(cl, 0); judge(cl, "serial"); std::vector<uint64_t> pa = points[0], pb = points[1]; sched.clear(); hot = 0;
      auto thin = [](std::vector<uint64_t> v, size_t m) { if (v.size() <= m) return v; std::vector<uint64_t> r; for (size_t i = 0; i < m; ++i) r.push_back(v[i * v.size() / m]); return r; };
      for (uint64_t x : thin(pa, 2000)) { sched = {{0, x, 1}}; execute(cl, 0); judge(cl, "one preemption at shared memory"); }
      for (uint64_t x : thin(pa, 24)) for (uint64_t y : thin(pb, 24)) { sched = {{0, x, 1}, {1, y, 0}}; execute(cl, 0); judge(cl, "two preemptions at shared memory"); }
      sched.clear();
    }
    hot = 0; int extra = mc::tier ? 12 : 3; if (nA <= (mc::tier ? 400 : 24)) extra = (int)nA; // unreduced points: validates the reduction, and covers library calls without instrumentation
    for (int k = 0; k < extra && nA; ++k) { uint64_t x = extra == (int)nA ? k : (nA * (2 * k + 1)) / (2 * extra); sched = {{0, x, 1}, {1, nB / 3 + 1, 0}}; if (k & 1) sched.pop_back(); execute(cl, 0); judge(cl, "unreduced point"); }
    sched.clear();
  }
  if (mc::tier) for (size_t i = 0; i < reps->size(); ++i) for (size_t j = 0; j < reps->size(); ++j) {
    int B = (*reps)[i], C = (*reps)[j]; uint64_t nB = solo(B, 1).n, nC = solo(C, 0).n; std::vector<std::pair<int, int>> cl = {{A, 0}, {B, 1}, {C, 0}}; mc::path("%s with %s with %s", opname(V->t, A).c_str(), opname(V->t, B).c_str(), opname(V->t, C).c_str());
    sched = {{0, nA / 2, 1}, {1, nB / 2, 2}}; execute(cl, 0); judge(cl, "nested"); sched = {{0, nA / 3, 1}, {1, nB / 2, 2}, {2, nC / 2, 0}}; execute(cl, 0); judge(cl, "rotating"); sched.clear();
  }
  if (c % 17 == 0) mc::sample(opname(V->t, A) + mc::strf(": %llu memory accesses", (unsigned long long)nA));
}
MC_MAIN
