// C25 (-DDIM=2) / C24 (-DDIM=3): the deprecated library, clip + reduce + grid, against the signed-simplex model
extern "C" {
#if DIM == 2
#include "r2d.h"
#else
#include "r3d.h"
#endif
}
#include "mc.h"
#include <alloca.h>
#include "shapes.h"
const char *CHECK_ID = DIM == 2 ? "C25" : "C24";
#if DIM == 2
typedef r2d_poly Poly; typedef r2d_plane RPl; typedef r2d_rvec2 RV; typedef r2d_dest_grid Grid; typedef r2d_orientation Ori; enum { NM = 6 };
static int NMO(int o) { return r2d_num_moments[o]; }
static const int MAPM[6] = {0, 1, 2, 3, 5, 4}; // 1 x y xx yy xy -> model order 1 x y xx xy yy
static double &co(RV &v, int j) { return j ? v.y : v.x; }
#define CLIPF r2d_clip_quad
#define REDUCE r2d_reduce
#define INITBOX r2du_init_box
#define VOX r2d_rasterize_quad
#else
typedef r3d_poly Poly; typedef r3d_plane RPl; typedef r3d_rvec3 RV; typedef r3d_dest_grid Grid; typedef r3d_orientation Ori; enum { NM = 10 };
static int NMO(int o) { return r3d_num_moments[o]; }
static const int MAPM[10] = {0, 1, 2, 3, 4, 7, 9, 5, 8, 6}; // 1 x y z xx yy zz xy yz zx -> xx xy xz yy yz zz
static double &co(RV &v, int j) { return j == 0 ? v.x : j == 1 ? v.y : v.z; }
#define CLIPF r3d_clip_tet
#define REDUCE r3d_reduce
#define INITBOX r3du_init_box
#define VOX r3d_voxelize_tet
#endif
// garbage in the stack memory the next call will use: uninitialised variables must not matter
static void __attribute__((noinline)) smear() { static int k; static const unsigned char b[3] = {0xff, 0x7b, 0x01}; volatile char *p = (volatile char *)alloca(49152); memset((void *)p, b[k++ % 3], 49152); asm volatile("" : : "r"(p) : "memory"); }
typedef std::array<double, DIM> PT;
static RPl rp(const DP<DIM> &p) { RPl q; for (int j = 0; j < DIM; ++j) co(q.n, j) = p.n[j]; q.d = p.d; return q; }
struct Seed { std::string name; bool box; PT lo, hi; std::vector<PT> v; Region<DIM> R; L V, Rm; std::vector<DP<DIM>> F; };
static std::vector<Seed> S; struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static int it = -1, DEPTH; static int GRIDS;
struct GridC { int n[3]; double d[3]; };
static const GridC GC[] = {{{3, 4, 2}, {0.75, 0.5, 1}}, {{1, 1, 1}, {3, 3, 3}}, {{5, 2, 3}, {0.41, 1.07, 0.73}}, {{2, 7, 1}, {1, 0.25, 2.5}}, {{9, 1, 2}, {0.31, 1.9, 0.77}}, {{1, 2, 11}, {2.1, 0.9, 0.23}}, {{6, 6, 5}, {0.5, 0.5, 0.5}}, {{16, 8, 4}, {0.125, 0.25, 0.5}},
  // fine enough for cells wholly inside
  {{14, 11, 9}, {0.17, 0.21, 0.23}}, {{16, 16, 16}, {0.125, 0.125, 0.125}},
  // very long in one axis
  {{40000, 2, 1}, {1.0 / 16384, 0.25, 0.375}}, {{2, 48000, 2}, {0.25, 1.0 / 16384, 0.375}}, {{1, 2, 50000}, {0.25, 0.375, 1.0 / 16384}}};
static std::vector<std::vector<PT>> SIM; // simplices (and 2D quads) to be put on grids
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); S.clear(); SIM.clear(); DEPTH = 4; GRIDS = tier ? 8 : (DIM == 2 ? 7 : 4); const int ALLG = 10;
  auto box = [&](const char *nm, PT lo, PT hi) { Seed s; s.name = nm; s.box = true; s.lo = lo; s.hi = hi; L a[DIM], b[DIM]; for (int j = 0; j < DIM; ++j) { a[j] = lo[j]; b[j] = hi[j]; } s.R = region_box<DIM>(a, b); for (int k = 0; k < (1 << DIM); ++k) { PT p; for (int j = 0; j < DIM; ++j) p[j] = (k >> j & 1) ? hi[j] : lo[j]; s.v.push_back(p); } S.push_back(s); };
#if DIM == 2
  box("unit", {-0.5, -0.5}, {0.5, 0.5}); box("oblong", {1, -2}, {4, -1.25}); box("far", {100, 200}, {101.5, 200.75});
  auto poly = [&](const char *nm, std::vector<PT> v) { Seed s; s.name = nm; s.box = false; s.v = v; std::vector<std::vector<std::array<L, 2>>> q(1); for (auto &p : v) q[0].push_back({p[0], p[1]}); s.R = region_from_loops(q); S.push_back(s); };
  poly("triangle", {{0, 0}, {2, 0}, {0, 2}}); poly("sliver", {{0, 0}, {3, 1}, {3.1, 1.3}}); poly("hexagon", {{4, 2}, {3, 4}, {1, 4}, {0, 2}, {1, 0}, {3, 0}}); poly("ngon24", ngon(24, 2, 1, 1));
#else
  box("unit", {-0.5, -0.5, -0.5}, {0.5, 0.5, 0.5}); box("oblong", {1, -2, 0}, {4, -1.25, 2}); box("far", {100, 200, -50}, {101.5, 200.75, -49});
  auto tet = [&](const char *nm, std::vector<PT> v) { Seed s; s.name = nm; s.box = false; s.v = v; Simp<3> t; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) t.v[i][j] = v[i][j]; t.sg = 1; s.R = {t}; S.push_back(s); };
  tet("tet", {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}); tet("skewtet", {{0, 0, 0}, {3, 1, 0}, {1, 3, 1}, {1, 0, 3}});
#endif
  for (int i = 0, n = (int)S.size(); i < n; ++i) if (tier || i == 1 || i == n - 1) for (double sc : {0x1p-40, 0x1p40}) { Seed s = S[i]; s.name += sc < 1 ? " minute" : " enormous"; for (auto &p : s.v) for (auto &x : p) x *= sc; for (int j = 0; j < DIM; ++j) { s.lo[j] *= sc; s.hi[j] *= sc; } for (auto &t : s.R) for (auto &p : t.v) for (auto &x : p) x *= sc; S.push_back(s); }
  for (auto &s : S) { s.V = absvol<DIM>(s.R); s.Rm = maxabs<DIM>(s.R); auto g = planes_for<DIM>(s.v, 3, false, true), l = planes_for<DIM>(s.v, 5, true, false);
    int nf = DIM == 2 ? (tier ? 40 : 22) : (tier ? 30 : 14); for (int i = 0; i < nf; ++i) s.F.push_back(i % 2 ? l[(size_t)(i * 37 + 5) % l.size()] : g[(size_t)(i * 7 + 1) % g.size()]);
    // half-spaces that keep nothing and that keep everything
    for (int k = 0; k < 2; ++k) { DP<DIM> p; for (int j = 0; j < DIM; ++j) p.n[j] = 0; p.n[k] = k ? -1 : 1; p.d = (k ? 3 : -3) * (double)s.Rm; s.F.push_back(p); } }
  for (int s = 0; s < (int)S.size(); ++s) { CS.push_back({0, s, 0}); for (int i = 0; i < (int)S[s].F.size(); ++i) for (int j = 0; j < (int)S[s].F.size(); ++j) CS.push_back({1, s, i * 1000 + j}); }
#if DIM == 2
  auto area = [](const PT &a, const PT &b, const PT &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); };
  for (int fam = 0; fam < 2; ++fam) { int n = fam ? 4 : 5; auto P = [&](int k) { PT p = {0.5 * (k % n), 0.5 * (k / n)}; if (fam) { p[0] = p[0] * 1.37 - 0.21 + 0.06 * (k / n); p[1] = p[1] * 1.21 + 0.13 - 0.05 * (k % n); } return p; }; int N = n * n;
    for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) for (int c = b + 1; c < N; ++c) { PT x = P(a), y = P(b), z = P(c); double A = area(x, y, z); if (fabs(A) < 1e-9) continue; if (A < 0) std::swap(y, z); SIM.push_back({x, y, z}); }
    for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) for (int c = a + 1; c < N; ++c) for (int d = a + 1; d < N; ++d) { if (b == c || b == d || c == d) continue; if (n == 5 && (a * 7 + b * 5 + c * 3 + d) % (tier ? 2 : 9)) continue; PT x[4] = {P(a), P(b), P(c), P(d)}; bool ok = true; for (int k = 0; k < 4; ++k) ok = ok && area(x[k], x[(k + 1) % 4], x[(k + 2) % 4]) > 1e-9; if (ok && area(x[0], x[1], x[3]) > 1e-9) SIM.push_back({x[0], x[1], x[2], x[3]}); } }
  int st = tier ? 1 : 3;
#else
  for (int fam = 0; fam < 2; ++fam) { auto P = [&](int k) { PT p = {1.0 * (k % 3), 1.0 * (k / 3 % 3), 1.0 * (k / 9)}; if (fam) { PT q = p; p[0] = q[0] * 0.97 - 0.21 + 0.06 * q[2]; p[1] = q[1] * 1.11 + 0.13 - 0.05 * q[0]; p[2] = q[2] * 1.03 + 0.07 + 0.09 * q[1] * q[0]; } return p; };
    for (int a = 0; a < 27; ++a) for (int b = a + 1; b < 27; ++b) for (int c = b + 1; c < 27; ++c) for (int d = c + 1; d < 27; ++d) { Simp<3> t; int id[4] = {a, b, c, d}; std::vector<PT> v; for (int i = 0; i < 4; ++i) { v.push_back(P(id[i])); for (int j = 0; j < 3; ++j) t.v[i][j] = v[i][j]; } L D = sdet<3>(t); if (fabsl(D) < 1e-9L) continue; if (D < 0) std::swap(v[2], v[3]); SIM.push_back(v); } }
  int st = tier ? 1 : 11;
#endif
  for (int g = 0; g < GRIDS; ++g) for (int i = g % st; i < (int)SIM.size(); i += st) { if (i % (st * 16) == g % st) CS.push_back({2, g, i}); }
  for (int g = 8; g < ALLG; ++g) for (int i = 0, m = 0; i < (int)SIM.size(); ++i) { // large shapes on the fine grids
    L vol = 0; if (DIM == 2) { for (size_t k = 1; k + 1 < SIM[i].size(); ++k) vol += 0.5L * fabsl(((L)SIM[i][k][0] - SIM[i][0][0]) * ((L)SIM[i][k + 1][1] - SIM[i][0][1]) - ((L)SIM[i][k][1] - SIM[i][0][1]) * ((L)SIM[i][k + 1][0] - SIM[i][0][0])); } else { Simp<DIM> t; for (int a = 0; a <= DIM; ++a) for (int j = 0; j < DIM; ++j) t.v[a][j] = SIM[i][a][j]; vol = svol<DIM>(t); }
    if (vol < (DIM == 2 ? 1.2L : 1.0L)) continue; if (++m % (tier ? (DIM == 2 ? 5 : 9) : (DIM == 2 ? 40 : 29)) == 0) CS.push_back({3, g, i}); }
  // shapes that contain a whole long grid, end in the middle of it, or touch only its far end
#if DIM == 2
  for (auto &v : std::vector<std::vector<PT>>{{{-1, -1}, {9, -1}, {-1, 9}}, {{-0.5, -0.5}, {4.25, -0.25}, {5, 4}, {-0.25, 4.5}}, {{0.1, 0.05}, {2.2, 0.15}, {0.3, 2.7}}, {{1.9, 1.7}, {1.85, 0.1}, {2.6, 0.05}}, {{0.05, 2.6}, {0.1, 2.1}, {2.6, 2.9}, {1.1, 3.1}}}) {
#else
  for (auto &v : std::vector<std::vector<PT>>{{{-1, -1, -1}, {12, -1, -1}, {-1, 12, -1}, {-1, -1, 12}}, {{0.1, 0.05, 0.02}, {2.2, 0.15, 0.1}, {0.3, 2.7, 0.05}, {0.05, 0.1, 2.85}}, {{2.43, 0.01, 0.02}, {1.9, 0.1, 0.35}, {2.41, 0.45, 0.05}, {2.2, 0.02, 0.3}}, {{0.02, 0.05, 2.97}, {0.2, 0.1, 2.6}, {0.01, 0.7, 3.04}, {0.24, 0.3, 3.05}}}) {
    { Simp<3> t; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) t.v[i][j] = v[i][j]; if (sdet<3>(t) < 0) std::swap(v[2], v[3]); }
#endif
    SIM.push_back(v); for (int g = ALLG; g < ALLG + DIM; ++g) CS.push_back({3, g, (int)SIM.size() - 1}); }
  DEPTH = st;
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu convex seeds x all sequences of up to four planes (outer two over %zu planes per seed, inner two over a sub-family), orders 0..2; %zu %s x %d grids (every %d), orders 0..2, every cell compared, and large ones on two fine grids with interior cells and on grids of tens of thousands of cells along each axis; garbage left on the stack before every call; sizes scaled by 2^-40 and 2^40 for some", S.size(), S[0].F.size(), SIM.size(), DIM == 2 ? "lattice and skewed triangles and convex quadrilaterals" : "lattice and skewed tetrahedra", GRIDS, DEPTH); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d index %d %d %s", r.kind, r.a, r.b, r.kind < 2 ? S[r.a].name.c_str() : ""); }
static void make(Poly *p, const Seed &s) {
  memset((void *)p, 0xff, sizeof *p);
  if (s.box) { RV b[2], c[2]; for (int j = 0; j < DIM; ++j) { co(b[0], j) = s.lo[j]; co(b[1], j) = s.hi[j]; } memcpy(c, b, sizeof b); smear(); INITBOX(p, b); if (memcmp(c, b, sizeof b)) mc::fail("the bounds were altered"); if (p->nverts != (1 << DIM)) mc::fail("box with %d vertices", p->nverts); return; }
  int n = (int)s.v.size(); p->nverts = n; for (int i = 0; i < n; ++i) { for (int j = 0; j < DIM; ++j) co(p->verts[i].pos, j) = s.v[i][j]; p->verts[i].orient.fflags = 0;
#if DIM == 2
    p->verts[i].pnbrs[0] = (i + n - 1) % n; p->verts[i].pnbrs[1] = (i + 1) % n;
#else
    static const int LK[4][3] = {{1, 3, 2}, {2, 3, 0}, {0, 3, 1}, {1, 2, 0}}; for (int k = 0; k < 3; ++k) p->verts[i].pnbrs[k] = LK[i][k];
#endif
  }
}
static void compare(Poly *p, const Region<DIM> &R, const Seed &s, const char *what) {
  std::vector<L> m = moments<DIM>(R, 2);
  for (int o = 0; o <= 2; ++o) { int n = NMO(o); double *x = (double *)malloc(n * sizeof(double)); for (int i = 0; i < n; ++i) x[i] = NAN; mc::trans(); smear(); REDUCE(p, o, x); mc::compared();
    for (int i = 0; i < n; ++i) { int k = i == 0 ? 0 : i <= DIM ? 1 : 2; L t = 1e-11L * (s.V * powl(s.Rm, k) + powl(s.Rm, DIM + k) * 1e-2L); if (!(fabsl(x[i] - m[MAPM[i]]) <= t)) mc::fail("%s: order %d moment %d is %.15g, exact intersection has %.15Lg", what, o, i, x[i], m[MAPM[i]]); } free(x); }
}
// the documented protocol: distances and flags on the vertices, unused planes flagged as inside, skip mask from all vertices
static void run(const Seed &s, const std::vector<const DP<DIM> *> &q, bool protocol) {
  static Poly *p = (Poly *)malloc(sizeof(Poly)); make(p, s); Region<DIM> R = s.R; for (auto *x : q) R = clip<DIM>(R, toL(*x)); int nf = (int)q.size(); unsigned char ac = 0x0f, oc = 0;
  for (int v = 0; v < p->nverts; ++v) { p->verts[v].orient.fflags = 0; for (int f = 0; f < nf; ++f) { double t = q[f]->d; for (int j = 0; j < DIM; ++j) t += co(p->verts[v].pos, j) * q[f]->n[j]; p->verts[v].orient.fdist[f] = t; if (t > 0) p->verts[v].orient.fflags |= 1 << f; } for (int f = nf; f < 4; ++f) p->verts[v].orient.fflags |= 1 << f; ac &= p->verts[v].orient.fflags; oc |= p->verts[v].orient.fflags; }
  if (!protocol) { ac = 0; for (int f = nf; f < 4; ++f) ac |= 1 << f; } mc::trans(); std::string tr = "seed " + s.name; for (auto *x : q) tr += " | " + pstr<DIM>(*x); mc::path_s(tr);
  smear(); CLIPF(p, ac); compare(p, R, s, "clipped"); uint64_t h = 1; for (int v = 0; v < p->nverts; ++v) h = mc::hash_bytes(&p->verts[v].pos, sizeof p->verts[v].pos, h ^ p->verts[v].orient.fflags); mc::state(h);
}
static void onto_grid(int g, int idx, double sc) {
  auto v = SIM[idx]; GridC G = GC[g]; for (auto &p : v) for (auto &x : p) x *= sc; for (double &x : G.d) x *= sc; mc::path("grid %d shape %d scale %g", g, idx, sc); RPl F[4], Fc[4]; memset(F, 0, sizeof F); Region<DIM> R; RV rv[4], rc[4]; memset(rv, 0, sizeof rv); for (size_t i = 0; i < v.size(); ++i) for (int j = 0; j < DIM; ++j) co(rv[i], j) = v[i][j]; memcpy(rc, rv, sizeof rv);
#if DIM == 2
  std::vector<std::vector<std::array<L, 2>>> q(1); for (auto &p : v) q[0].push_back({p[0], p[1]}); R = region_from_loops(q); r2du_faces_from_verts(rv, (int)v.size(), F); if (v.size() == 3) { if (idx % 2) F[3] = F[idx % 3]; else { co(F[3].n, 0) = 0; co(F[3].n, 1) = 0; F[3].d = 1; } }
#else
  Simp<3> t; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) t.v[i][j] = v[i][j]; t.sg = 1; R = {t}; r3du_tet_faces_from_verts(rv, F); double vol = r3du_orient(rv[0], rv[1], rv[2], rv[3]); if (!(fabsl(vol - svol<3>(t)) < 1e-12L * sc * sc * sc)) mc::fail("signed volume is %.15g, exact %.15Lg", vol, svol<3>(t));
#endif
  if (memcmp(rc, rv, sizeof rv)) mc::fail("vertices altered"); mc::trans(2);
  for (size_t f = 0; f < v.size(); ++f) { L l = 0; for (int j = 0; j < DIM; ++j) l += (L)co(F[f].n, j) * co(F[f].n, j); if (!(fabsl(l - 1) < 1e-12L)) mc::fail("face %zu: normal has squared length %Lg", f, l); int on = 0; for (auto &p : v) { L t = F[f].d; for (int j = 0; j < DIM; ++j) t += (L)co(F[f].n, j) * p[j]; if (fabsl(t) < 1e-12L * sc) ++on; else if (t < 0) mc::fail("face %zu: a vertex lies outside by %Lg", f, -t); } if (on != DIM) mc::fail("face %zu passes through %d vertices", f, on); }
  memcpy(Fc, F, sizeof F); long nc = 1, ng = 1; int lo[DIM], hi[DIM]; double dd[DIM]; for (int j = 0; j < DIM; ++j) { nc *= G.n[j]; ng *= G.n[j] + 1; lo[j] = 0; hi[j] = G.n[j]; dd[j] = G.d[j]; }
  std::vector<std::vector<L>> ref; std::vector<std::pair<Region<DIM>, int>> st; // cells in row-major order
  { struct Rec { static void go(const Region<DIM> &R, int ax, const int *hi, const double *d, std::vector<std::vector<L>> &o) { if (ax == DIM) { o.push_back(moments<DIM>(R, 2)); return; } for (int i = 0; i < hi[ax]; ++i) { Plane<DIM> a, b; for (int j = 0; j < DIM; ++j) a.n[j] = b.n[j] = 0; a.n[ax] = 1; a.d = -(L)d[ax] * i; b.n[ax] = -1; b.d = (L)d[ax] * (i + 1); go(R.empty() ? R : clip<DIM>(clip<DIM>(R, a), b), ax + 1, hi, d, o); } } }; Rec::go(R, 0, hi, dd, ref); }
  for (int o = 0; o <= 2; ++o) { Grid gr; memset(&gr, 0xee, sizeof gr); gr.polyorder = o; gr.n.i = G.n[0]; gr.n.j = G.n[1]; gr.d.x = G.d[0]; gr.d.y = G.d[1];
#if DIM == 3
    gr.n.k = G.n[2]; gr.d.z = G.d[2];
#endif
    gr.bufsz = ng; int n = NMO(o); for (int m = 0; m < NM; ++m) gr.moments[m] = 0; for (int m = 0; m < n; ++m) { gr.moments[m] = (double *)malloc(sizeof(double) * nc); for (long i = 0; i < nc; ++i) gr.moments[m][i] = 1e177; } gr.orient = (Ori *)malloc(sizeof(Ori) * ng); memset((void *)gr.orient, 0xff, sizeof(Ori) * ng); mc::trans(); smear(); VOX(F, &gr); if (memcmp(F, Fc, sizeof F)) mc::fail("faces altered"); mc::compared(nc);
    for (long c = 0; c < nc; ++c) for (int m = 0; m < n; ++m) { L e = fabsl(gr.moments[m][c] - ref[c][MAPM[m]]); if (!(e <= 1e-11L * powl(sc, DIM + (m == 0 ? 0 : m <= DIM ? 1 : 2)))) mc::fail("order %d cell %ld of %ld moment %d is %.15g, exact overlap has %.15Lg", o, c, nc, m, gr.moments[m][c], ref[c][MAPM[m]]); }
    mc::state(mc::hash_bytes(gr.moments[0], sizeof(double) * nc, idx + 7)); for (int m = 0; m < n; ++m) free(gr.moments[m]); free(gr.orient); }
}
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 0) { static Poly *p = (Poly *)malloc(sizeof(Poly)); auto &s = S[r.a]; make(p, s); compare(p, s.R, s, "as initialised"); run(s, {}, true); run(s, {}, false); return; }
  if (r.kind == 1) { auto &s = S[r.a]; int i = r.b / 1000, j = r.b % 1000, n = (int)s.F.size(); if (j == 0) { run(s, {&s.F[i]}, true); run(s, {&s.F[i]}, false); } run(s, {&s.F[i], &s.F[j]}, true); run(s, {&s.F[i], &s.F[j]}, false); int step = mc::tier ? 3 : 4; for (int k = (i + j) % step; k < n; k += step) { run(s, {&s.F[i], &s.F[j], &s.F[k]}, (k + i) & 1); for (int l = (i + k) % step; l < n; l += step) run(s, {&s.F[i], &s.F[j], &s.F[k], &s.F[l]}, (l + j) & 1); } if (cc % 211 == 0) mc::sample(check_describe(cc)); return; }
  if (r.kind == 3) { onto_grid(r.a, r.b, 1); if (cc % 4 == 0) onto_grid(r.a, r.b, cc & 4 ? 0x1p-40 : 0x1p40); if (cc % 37 == 0) mc::sample(check_describe(cc)); return; }
  // legacy orientation: magnitude and antisymmetry
  for (int i = 0; i < 16; ++i) { int k = r.b + i * DEPTH; if (k >= (int)SIM.size()) break; onto_grid(r.a, k, 1); if ((k / DEPTH + r.a) % 4 == 0) onto_grid(r.a, k, (k / DEPTH) & 4 ? 0x1p-40 : 0x1p40);
#if DIM == 2
    RV q[3]; for (int a = 0; a < 3; ++a) for (int j = 0; j < 2; ++j) co(q[a], j) = SIM[k][a][j]; Simp<2> t; for (int a = 0; a < 3; ++a) for (int j = 0; j < 2; ++j) t.v[a][j] = SIM[k][a][j]; double x = r2du_orient(q[0], q[1], q[2]), y = r2du_orient(q[1], q[0], q[2]); RV u[3]; for (int a = 0; a < 3; ++a) for (int j = 0; j < 2; ++j) co(u[a], j) = a == j + 1; double z = r2du_orient(u[0], u[1], u[2]); if (!(fabsl(fabs(x) - svol<2>(t)) < 1e-12L) || fabs(x + y) > 1e-12 || x * z <= 0) mc::fail("signed area %.15g / %.15g swapped, exact magnitude %.15Lg", x, y, svol<2>(t));
#endif
  }
  if (cc % 97 == 0) mc::sample(check_describe(cc));
}
MC_MAIN
