// hist.cpp - C22: results depend only on the arguments.
// Every op is run from every hidden state reachable by histories of other ops, with every garbage pattern in
// unused memory, in builds whose uninitialised locals hold different values; all results must be bit-identical.
#include "variant.h"
#include <alloca.h>
const char *CHECK_ID = "C22";
static const char *VN[] = {VARIANT_NAMES}, *VP[] = {VARIANT_PATHS};
enum { NV = sizeof VN / sizeof *VN, NPAT = 4 };
static std::vector<Variant> *vs; static int NOPS; static Buf *buf; static OpCtx cx;
static int smear_pat; static size_t smear_len;
static void __attribute__((noinline)) smear(OpCtx *) { volatile char *p = (volatile char *)alloca(smear_len); static const unsigned char b[4] = {0, 0xff, 0x7b, 0x01}; memset((void *)p, b[smear_pat], smear_len); asm volatile("" ::"r"(p) : "memory"); }
static void init() {
  if (vs) return; vs = new std::vector<Variant>(NV); for (int i = 0; i < NV; ++i) (*vs)[i].load(VN[i], VP[i]);
  NOPS = (*vs)[0].t->count(); buf = new Buf; cx.val = buf->v.data(); cx.sc = buf->s.data(); cx.kind = buf->k.data(); cx.max = OUTMAX; cx.before = smear; cx.after = 0; for (auto &f : cx.fixed) f = malloc(1 << 20); // the same addresses in every call
}
static Result go(Variant &v, int op, int pat, int sp, int ds = 0) {
  cx.pat = pat; smear_pat = sp; smear_len = v.t->dims(op) == 4 ? (1u << 20) : (1u << 18); mallopt(M_PERTURB, sp == 0 ? 0xff : sp == 1 ? 0x5a : sp == 2 ? 0x84 : 0x11);
  mc::path("op %s, garbage pattern %d, stack pattern %d, build %s, data set %d", opname(v.t, op).c_str(), pat, sp, v.name.c_str(), ds);
  v.t->run(op, ds, &cx); mc::trans(); return collect(cx);
}
static int depth3(int tier) { return tier ? 1 : 0; }
uint64_t check_ncases(int) { init(); return NOPS; }
std::string check_bounds(int tier) {
  init(); return mc::strf("%d concrete calls covering the whole public API; each from the initial hidden state under 4 garbage patterns in unused slots and outputs x 4 stack/heap fill patterns x %d builds (uninitialised locals: as left on the stack, zero-filled, pattern-filled), four data sets (one with inexact coordinates, one that shares some vertices), after the same call on other data, and after every single earlier call%s; hidden state = writable and thread-local segments of the library", NOPS, NV, depth3(tier) ? " and after about a thousand pairs of earlier calls spread over all kinds" : " (and after pairs of calls, spread over all kinds, whenever the first one leaves a trace in the hidden state)");
}
std::string check_describe(uint64_t c) { init(); return "call under test: " + opname((*vs)[0].t, (int)c); }
static void ro(const Result &r) { for (size_t i = 0; i < r.kind.size(); ++i) if (r.kind[i] == OK_RO && r.val[i] != 0) mc::fail("a read-only argument was modified by the call"); }
void check_case(uint64_t c) {
  init(); int B = (int)c; Variant &v0 = (*vs)[0]; v0.fresh(); Result base = go(v0, B, 0, 0); ro(base); mc::state(base.hash()); uint64_t h0;
  for (int i = 0; i < NV; ++i) for (int pat = 0; pat < NPAT; ++pat) for (int sp = 0; sp < 4; ++sp) {
    Variant &v = (*vs)[i]; v.fresh(); Result r = go(v, B, pat, sp); mc::compared(); ro(r);
    if (!r.bits_equal(base)) mc::fail("result depends on unused memory: %s", first_diff(base, r).c_str());
  }
  for (int ds : {1, 4, 5}) { // other coordinates: a shifted copy, one whose coordinates are not representable exactly, and one that shares some vertices
    v0.fresh(); Result b2 = go(v0, B, 0, 0, ds); ro(b2); mc::state(b2.hash());
    for (int i = 0; i < NV; ++i) for (int pat = 0; pat < NPAT; ++pat) { Variant &v = (*vs)[i]; v.fresh(); Result r = go(v, B, pat, (pat + ds) & 3, ds); mc::compared(); ro(r); if (!r.bits_equal(b2)) mc::fail("result depends on unused memory: %s", first_diff(b2, r).c_str()); v0.fresh(); go(v0, B, pat, 0, 0); Result q = go(v0, B, pat, 0, ds); mc::compared(); if (!q.bits_equal(b2)) mc::fail("result changes when preceded by the same call on other data: %s", first_diff(b2, q).c_str()); Result w = go(v0, B, pat, 0, 0); if (!w.bits_equal(base)) mc::fail("result changes when preceded by the same call on other data: %s", first_diff(base, w).c_str()); }
  }
  for (int A = 0; A < NOPS; ++A) { // histories of length one, then two via the hidden state they leave
    v0.fresh(); h0 = v0.hidden(); go(v0, A, (A + B) & 3, (A >> 2) & 3); uint64_t h1 = v0.hidden(); mc::state(mc::mix(h1 ^ 0x55));
    std::string a = opname(v0.t, A);
    Result r = go(v0, B, (A * 3 + B) & 3, A & 3); mc::compared(); ro(r);
    if (!r.bits_equal(base)) mc::fail("result changes when preceded by %s: %s", a.c_str(), first_diff(base, r).c_str());
    if (h1 != h0 || mc::tier) { // histories of length two; in the quick tier only where the earlier call left something behind
      int step = mc::tier ? (h1 != h0 ? 8 : 31) : 32; if ((A + B) % step) continue;
      for (int A2 = B % step; A2 < NOPS; A2 += step) { v0.fresh(); go(v0, A, 1, 1); go(v0, A2, 2, 2); Result q = go(v0, B, 3, 3); mc::compared(); ro(q); if (!q.bits_equal(base)) mc::fail("result changes when preceded by %s and %s: %s", a.c_str(), opname(v0.t, A2).c_str(), first_diff(base, q).c_str()); }
    }
  }
  if (c % 61 == 0) mc::sample(opname(v0.t, B) + mc::strf(": %zu observed values", base.val.size()));
}
MC_MAIN
