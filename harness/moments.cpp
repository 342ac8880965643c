// C06 (-DDIM=2) / C07 (-DDIM=3): library moments against an exact Gauss rule over the region the object describes,
// for all orders, all seeds, placements and all clipped descendants up to a depth.
#include "dim.h"
#ifndef DIM
#define DIM 3
#endif
#ifdef AS_ID
const char *CHECK_ID = AS_ID;
#else
const char *CHECK_ID = DIM == 2 ? "C06" : "C07";
#endif
#ifndef ABOUT_ORIGIN
#define ABOUT_ORIGIN (DIM == 2)
#endif
typedef T<DIM> TT; typedef TT::Poly Poly;
static std::vector<Seed<DIM>> S; static int init_tier = -1; static int ORD, dep;
struct CaseRef { int kind, seed, idx; };
static std::vector<CaseRef> CS;
static void init(int tier) {
  if (init_tier == tier) return; init_tier = tier; CS.clear();
  S = seeds<DIM>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, tier ? 5 : 3, tier ? 8 : 5); ORD = DIM == 2 ? (tier ? 12 : 8) : (tier ? 8 : 5); dep = tier ? 3 : 2;
  for (int s = 0; s < (int)S.size(); ++s) {
    CS.push_back({0, s, -1});
    for (int i = 0; i < (int)S[s].A.size(); i += (DIM == 3 && !tier ? 2 : 1)) CS.push_back({0, s, i});   // one clip, all orders
    for (int i = 0; i < (int)S[s].B.size(); ++i) CS.push_back({1, s, i});   // clip trees, order 3
    CS.push_back({2, s, 0});                                                 // high orders
  }
  for (int i = 0; i < (tier ? 24 : 12); ++i) CS.push_back({3, 0, i});       // many-vertex shapes
  for (int i = 0; i <= (tier ? 9 : 7); ++i) CS.push_back({4, 0, i});        // shift of moments
  for (int i : {10, 12, 15, 18, 20}) if (DIM == 2 || tier || i <= 18) CS.push_back({4, 0, i});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%d seed placements and each of their clips by a family of incident/generic planes, orders 0..%d; clip trees of depth %d at order 3; orders up to 20 on selected seeds, to 42 (2D) and 24 (3D) on boxes; shapes filling the vertex buffer; moment shifts by a lattice of vectors at orders up to 20", (int)S.size(), ORD, dep); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d seed %s idx %d", r.kind, S[r.seed].name.c_str(), r.idx); }
#if DIM == 2
typedef r2d_real real;
static void reduce_(Poly *p, real *m, int o) { r2d_reduce(p, m, o); }
static int nm_(int o) { return R2D_NUM_MOMENTS(o); }
static void center_(Poly *p, double *c) { auto v = r2d_poly_center(p); c[0] = v.x; c[1] = v.y; }
static void shift_(real *m, int o, double *c) { r2d_rvec2 v; v.x = c[0]; v.y = c[1]; r2d_shift_moments(m, o, v); }
#else
typedef r3d_real real;
static void reduce_(Poly *p, real *m, int o) { r3d_reduce(p, m, o); }
static int nm_(int o) { return R3D_NUM_MOMENTS(o); }
static void center_(Poly *p, double *c) { auto v = r3d_poly_center(p); c[0] = v.x; c[1] = v.y; c[2] = v.z; }
static void shift_(real *m, int o, double *c) { r3d_rvec3 v; v.x = c[0]; v.y = c[1]; v.z = c[2]; r3d_shift_moments(m, o, v); }
#endif
static L worst; 
static void judge(Poly *p, int lo, int hi, L rel = 1e-10L) {
  Region<DIM> R = region_of(p); L Rm = 0; for (int v = 0; v < p->nverts; ++v) for (int j = 0; j < DIM; ++j) Rm = std::max(Rm, fabsl((L)TT::co(p, v, j)));
  if (Rm == 0) Rm = 1;
  while (hi >= lo && fabsl((hi + DIM) * log10l(Rm)) > 270) --hi; // representable results only
  if (hi < lo) { mc::skipped(); return; }
  std::vector<L> ex = moments<DIM>(R, hi); uint64_t h0 = hpoly(p);
  // scale: total unsigned measure swept by the library's own decomposition is bounded by the vertex extent
  L ext = 0; { L lo_[DIM], hi_[DIM]; for (int j = 0; j < DIM; ++j) { lo_[j] = 1e300L; hi_[j] = -1e300L; for (int v = 0; v < p->nverts; ++v) { lo_[j] = std::min(lo_[j], (L)TT::co(p, v, j)); hi_[j] = std::max(hi_[j], (L)TT::co(p, v, j)); } } ext = 1; for (int j = 0; j < DIM; ++j) ext *= std::max(hi_[j] - lo_[j], 1e-4L * Rm); if (ABOUT_ORIGIN) ext += 3e-4L * powl(Rm, DIM); /* moments are taken about the origin: absolute error of some eps*R^2 */ if (p->nverts <= 0) ext = 1; }
  for (int o = lo; o <= hi; ++o) {
    int n = nm_(o); if (n != nmom<DIM>(o)) mc::fail("number-of-moments macro gives %d for order %d, expected %d", n, o, nmom<DIM>(o));
    real *m = (real *)malloc(sizeof(real) * (n + 4)); // exact documented size, canaries behind (and redzones with the sanitizer)
    for (int i = 0; i < n + 4; ++i) m[i] = 1.2345e77;
    mc::trans(); reduce_(p, m, o); mc::compared();
    std::vector<L> a(m, m + n); bool over = false; for (int i = n; i < n + 4; ++i) if (m[i] != 1.2345e77) over = true;
    free(m); if (over) mc::fail("order %d: wrote beyond the documented number of moments", o);
    int w = -1; Scale sc{Rm, ext}; if (!close_moments<DIM>(a.data(), ex.data(), o, sc, rel, &w)) mc::fail("order %d: moment %d is %.17Lg, exact value %.17Lg; %s", o, w, a[w], ex[w], TT::dumpp(p).c_str());
    if (p->nverts <= 0) for (auto x : a) if (x != 0) mc::fail("empty shape has a nonzero moment");
  }
  if (hpoly(p) != h0) mc::fail("integration altered the shape");
  if (p->nverts > 0) { double c[3]; center_(p, c); for (int j = 0; j < DIM; ++j) { L s = 0; for (int v = 0; v < p->nverts; ++v) s += (L)TT::co(p, v, j) / p->nverts; if (!(fabsl(s - c[j]) <= 1e-12L * Rm)) mc::fail("center component %d is %.17g, vertex mean is %.17Lg", j, c[j], s); } }
}
static Poly *st[8];
static void tree(Seed<DIM> &s, Poly *p, int depth, int left, int first) {
  for (int i = first; i < (first >= 0 && depth == 0 ? first + 1 : (int)s.B.size()); ++i) {
    if (i < 0) continue; cp(st[depth], p); auto q = TT::pl(s.B[i]); mc::path("tree depth %d plane %s", depth, pstr<DIM>(s.B[i]).c_str()); TT::clip(st[depth], &q, 1);
    if (!TT::bad(st[depth]).empty()) continue;   // decided by other properties
    if (!mc::state(hpoly(st[depth], left))) continue;
    judge(st[depth], 3, 3); if (left > 1 && st[depth]->nverts > 0) tree(s, st[depth], depth + 1, left - 1, 0);
  }
}
void check_case(uint64_t cc) {
  for (int i = 0; i < 8; ++i) if (!st[i]) st[i] = newpoly<Poly>(); static Poly *sp = newpoly<Poly>();
  CaseRef r = CS[cc]; Seed<DIM> &s = S[r.seed]; mc::path("seed %s kind %d idx %d", s.name.c_str(), r.kind, r.idx);
  if (r.kind <= 2) { if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed"); if (!TT::bad(sp).empty()) mc::fail("malformed seed"); }
  if (r.kind == 0) {
    if (r.idx >= 0) { auto q = TT::pl(s.A[r.idx]); TT::clip(sp, &q, 1); if (!TT::bad(sp).empty()) return; }
    mc::state(hpoly(sp)); judge(sp, 0, ORD);
  } else if (r.kind == 1) { tree(s, sp, 0, dep, r.idx); }
  else if (r.kind == 2) {
    bool small = s.shape.name == "tet" || s.shape.name == "cube" || s.shape.name == "tri" || s.shape.name == "square" || s.shape.name == "skewtri" || (mc::tier && (s.shape.name == "skewtet" || s.shape.name == "L" || s.shape.name == "Lprism"));
    if (small) { mc::state(hpoly(sp, 99)); judge(sp, ORD + 1, DIM == 2 ? 20 : (mc::tier ? 20 : 12), 1e-9L); }
    // very high orders on boxes, where even the mixed moments are not small against the scale of the comparison
    if (s.shape.name == (DIM == 2 ? "square" : "cube")) for (int o : {14, 15, 17, 20, 24, 30, 36, 42}) if (o <= (DIM == 2 ? 42 : mc::tier ? 30 : 24)) { mc::beat(); judge(sp, o, o, 1e-9L); }
  } else if (r.kind == 3) {
#if DIM == 2
    int ns[] = {3, 5, 31, 32, 33, 63, 64, 65, 127, 129, 255, 256}; int n = ns[r.idx % 12]; Shape2 b; b.convex = false; b.loops.push_back(ngon(n, 3, 1, -2, 0.3 + r.idx)); if (r.idx >= 6) for (int i = 0; i < n; i += 2) { b.loops[0][i][0] *= 0.7; b.loops[0][i][1] *= 0.7; }
    TT::make(sp, b);
#else
    int ns[] = {3, 16, 17, 32, 33, 63, 64, 65, 128, 170, 255, 256}; int n = ns[r.idx % 12]; Shape3 b = prism("big", ngon(n, 3, 1, -2, 0.3 + r.idx), -1.5, 2.25, true); xform(b, 1, {0.3, 0.1, -0.2}, 1); if (!TT::make(sp, b)) mc::fail("initialisation of a %d-gonal prism failed", n);
#endif
    mc::path("many vertices n=%d", n); mc::state(hpoly(sp, 77)); judge(sp, 0, 3);
    sp->nverts = 0; mc::path("empty"); judge(sp, 0, 6);
  } else { // shift of moments: moments of R about the origin, shifted by c, must be the moments of R + c
    int o = r.idx;
    for (size_t k = 0; k < S.size(); k += o > 9 ? 23 : 5) for (int q = o > 9 ? 7 : 0; q < (DIM == 2 ? 25 : 27); q += o > 9 ? 4 : 1) {
      static const double val[5] = {0, -1.5, 0.75, 3.25, -0.125}; double c[3]; if (DIM == 2) { c[0] = val[q % 5]; c[1] = val[q / 5]; c[2] = 0; } else { c[0] = val[q % 3]; c[1] = val[(q / 3) % 3 + 1]; c[2] = val[q / 9 * 2]; }
      if (S[k].size > 100 || S[k].size < 1e-2) continue;
      Region<DIM> R = S[k].R; std::vector<L> m0 = moments<DIM>(R, o); std::array<L, DIM> mc_; for (int j = 0; j < DIM; ++j) mc_[j] = -c[j]; std::vector<L> m1 = moments<DIM>(shifted<DIM>(R, mc_), o);
      int n = nm_(o); real *m = (real *)malloc(sizeof(real) * n); for (int i = 0; i < n; ++i) m[i] = (real)m0[i];
      mc::path("shift order %d seed %s by (%g,%g,%g)", o, S[k].name.c_str(), c[0], c[1], c[2]); mc::trans(); shift_(m, o, c); mc::compared(); std::vector<L> a(m, m + n); free(m);
      mc::state(mc::hash_bytes(a.data(), 0, cc * 1000003 + k * 101 + q)); int w; Scale sc{maxabs<DIM>(R) + 4, absvol<DIM>(R)};
      if (!close_moments<DIM>(a.data(), m1.data(), o, sc, 1e-10L, &w)) mc::fail("shifted moment %d is %.17Lg, should be %.17Lg", w, a[w], m1[w]);
    }
  }
  if (cc % 397 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
