// conf.cpp - C23: every build configuration gives the same answers.
// The whole op table is run in every configuration of the enumerated product and compared with the reference
// configuration; far-away shapes additionally check that shifting keeps the zeroth moment accurate.
#include "variant.h"
const char *CHECK_ID = "C23";
static const char *VN[] = {VARIANT_NAMES}, *VP[] = {VARIANT_PATHS}; static const int VS[] = {VARIANT_SHIFT}; // bit0: 3D shift, bit1: 2D shift
enum { NV = sizeof VN / sizeof *VN };
static std::vector<Variant> *vs; static int NOPS; static Buf *buf; static OpCtx cx;
static void init() {
  if (vs) return; vs = new std::vector<Variant>(NV); for (int i = 0; i < NV; ++i) (*vs)[i].load(VN[i], VP[i]);
  NOPS = (*vs)[0].t->count(); buf = new Buf; cx.val = buf->v.data(); cx.sc = buf->s.data(); cx.kind = buf->k.data(); cx.max = OUTMAX; cx.before = 0; cx.after = 0;
}
static Result go(Variant &v, int op, int ds) { cx.pat = 2; mc::path("op %s, data set %d, configuration %s", opname(v.t, op).c_str(), ds, v.name.c_str()); v.t->run(op, ds, &cx); mc::trans(); return collect(cx); }
uint64_t check_ncases(int) { init(); return (uint64_t)NOPS; }
std::string check_bounds(int) { init(); std::string s; for (int i = 0; i < NV; ++i) s += std::string(i ? ", " : "") + VN[i]; return mc::strf("%d concrete calls covering the whole public API, in two placements, in each of %d configurations (%s), compared with the first; moments of shapes 1e6 sizes away (1e3 in single precision) in every shifting configuration", NOPS, NV, s.c_str()); }
std::string check_describe(uint64_t c) { init(); return "call: " + opname((*vs)[0].t, (int)c); }
void check_case(uint64_t c) {
  init(); int op = (int)c; Variant &v0 = (*vs)[0]; std::string nm = opname(v0.t, op);
  for (int ds = 0; ds < 2; ++ds) {
    Result b = go(v0, op, ds); mc::state(b.hash());
    for (int i = 1; i < NV; ++i) {
      Variant &v = (*vs)[i]; Result r = go(v, op, ds); mc::compared(); mc::state(r.hash());
      double eps = v.t->realsize == 4 ? 1.2e-7 : 2.3e-16, K = v.t->realsize == 4 ? 60 : 40;
      // compare the configuration-independent observations in order
      size_t x = 0, y = 0; int k = 0;
      for (;; ++x, ++y, ++k) {
        while (x < b.val.size() && b.kind[x] == OK_STRUCT) ++x;
        while (y < r.val.size() && r.kind[y] == OK_STRUCT) ++y;
        if (x >= b.val.size() || y >= r.val.size()) break;
        if (b.kind[x] != r.kind[y]) mc::fail("different shape of the result in configuration %s", VN[i]);
        double e = fabs(b.val[x] - r.val[y]);
        if (b.kind[x] == OK_REAL && b.sc[x] > 0 && e == e) { double q = e / (eps * b.sc[x]); uint64_t u = (uint64_t)(q * 1000); int s = v.t->realsize == 4; uint64_t cur = mc::sh->extra[s]; while (u > cur && !mc::sh->extra[s].compare_exchange_weak(cur, u)); }
        bool ok = b.kind[x] == OK_REAL ? (e <= K * eps * b.sc[x] || (b.val[x] != b.val[x] && r.val[y] != r.val[y])) : b.val[x] == r.val[y];
        if (!ok) mc::fail("observation %d is %.17g in configuration %s but %.17g in %s (placement %d)", k, r.val[y], VN[i], b.val[x], VN[0], ds);
      }
      if ((x >= b.val.size()) != (y >= r.val.size())) mc::fail("different number of observations in configuration %s", VN[i]);
    }
  }
  bool r2 = nm.find("r2d_reduce[") == 0, r3 = nm.find("r3d_reduce[") == 0;
  if (r2 || r3) for (int i = 0; i < NV; ++i) if (VS[i] & (r3 ? 1 : 2)) {
    Variant &v = (*vs)[i]; bool sp = v.t->realsize == 4; Result n = go(v0, op, 0), f = go(v, op, sp ? 3 : 2); mc::compared();
    double m = 0, w = 0; for (size_t k = 0; k < n.val.size(); ++k) if (n.kind[k] == OK_REAL) { m = n.val[k]; break; } for (size_t k = 0; k < f.val.size(); ++k) if (f.kind[k] == OK_REAL) { w = f.val[k]; break; }
    if (!(fabs(m - w) <= (sp ? 2e-5 : 1e-12) * fabs(m))) mc::fail("zeroth moment of a shape far from the origin is %.17g instead of %.17g with shifting on (configuration %s)", w, m, VN[i]);
  }
  if (c % 97 == 0) mc::sample(nm);
}
MC_MAIN
