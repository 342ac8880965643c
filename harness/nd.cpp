// C26: the N-dimensional code built for other dimensions (-DND=3, 5, 6): initialisation, labels, volume, clip trees, grids.
// The model is written for any dimension: facets as half-spaces, vertices from all ND-subsets, volumes by signed simplices.
extern "C" {
#include "rNd.h"
#include "vNd.h"
}
#include "mc.h"
#include "ref.h"
#include <algorithm>
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <sys/mman.h>
static_assert(RND_DIM == ND, "the dimension was not applied");
const char *CHECK_ID = "C26";
typedef std::array<double, ND> PT; typedef std::array<L, ND> VL;
template <class F, class... A> static auto status_of(F f, A... a) -> typename std::enable_if<!std::is_void<decltype(f(a...))>::value, int>::type { return (int)f(a...); }
template <class F, class... A> static auto status_of(F f, A... a) -> typename std::enable_if<std::is_void<decltype(f(a...))>::value, int>::type { f(a...); return -1; }
struct Seed { std::string name; bool box; std::vector<PT> v; std::vector<Plane<ND>> F; Region<ND> R; L size, big; };
struct HV { VL p; std::array<int, ND> f; };
static L ev(const Plane<ND> &h, const VL &x) { L t = h.d; for (int j = 0; j < ND; ++j) t += h.n[j] * x[j]; return t; }
static Plane<ND> unitp(Plane<ND> h) { L l = 0; for (L x : h.n) l += x * x; l = sqrtl(l); for (L &x : h.n) x /= l; h.d /= l; return h; }
static bool solve(const Plane<ND> *const *h, VL &x, L &cond) {
  L a[ND][ND + 1]; cond = 1; for (int i = 0; i < ND; ++i) { for (int j = 0; j < ND; ++j) a[i][j] = h[i]->n[j]; a[i][ND] = -h[i]->d; }
  for (int c = 0; c < ND; ++c) { int p = c; for (int i = c + 1; i < ND; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; if (fabsl(a[p][c]) < 1e-12L) return false; if (p != c) for (int j = 0; j <= ND; ++j) std::swap(a[p][j], a[c][j]); cond *= fabsl(a[c][c]); for (int i = 0; i < ND; ++i) if (i != c) { L f = a[i][c] / a[c][c]; for (int j = c; j <= ND; ++j) a[i][j] -= f * a[c][j]; } }
  for (int i = 0; i < ND; ++i) x[i] = a[i][ND] / a[i][i]; return true;
}
// vertices of {F >= 0}; false when not in general position. The first m planes bound, the others (if any) only must not come near a vertex
static bool enumerate(const std::vector<Plane<ND>> &F, int m, L margin, std::vector<HV> &out) {
  out.clear(); int n = (int)F.size(); std::array<int, ND> c; for (int i = 0; i < ND; ++i) c[i] = i; if (n < ND) return true;
  for (;;) {
    const Plane<ND> *h[ND]; for (int i = 0; i < ND; ++i) h[i] = &F[c[i]]; VL x; L cond;
    if (solve(h, x, cond)) { bool in = true, near = false; for (int k = 0; k < n && in; ++k) { if (std::find(c.begin(), c.end(), k) != c.end()) continue; L t = ev(F[k], x); if (k < m && t < -margin) in = false; else if (fabsl(t) <= margin) near = true; } if (in) { if (near || cond < 1e-5L) return false; out.push_back({x, c}); } }
    int i = ND - 1; while (i >= 0 && c[i] == n - ND + i) --i; if (i < 0) return true; ++c[i]; for (int j = i + 1; j < ND; ++j) c[j] = c[j - 1] + 1;
  }
}
static std::string dump(const rNd_poly *p) { std::string s = mc::strf("nverts=%d", p->nverts); for (int i = 0; i < p->nverts && i < 16; ++i) { s += mc::strf(" [%d:", i); for (int j = 0; j < ND; ++j) s += mc::strf("%.5g ", p->verts[i].pos.xyz[j]); s += "->"; for (int j = 0; j < ND; ++j) s += mc::strf("%d ", p->verts[i].pnbrs[j]); s += "]"; } return s; }
static std::string bad(const rNd_poly *p) {
  if (p->nverts < 0 || p->nverts > RND_MAX_VERTS) return mc::strf("vertex count %d", p->nverts);
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < ND; ++k) { int w = p->verts[v].pnbrs[k]; if (w < 0 || w >= p->nverts || w == v) return mc::strf("vertex %d link %d = %d", v, k, w); int c = 0; for (int j = 0; j < ND; ++j) { c += p->verts[w].pnbrs[j] == v; if (j < k && p->verts[v].pnbrs[j] == w) return mc::strf("vertex %d linked twice to %d", v, w); } if (c != 1) return mc::strf("link %d->%d is not mutual", v, w); if (!(fabs(p->verts[v].pos.xyz[k]) < 1e200)) return mc::strf("vertex %d not finite", v); }
  return "";
}
static std::string differs(const rNd_poly *p, const std::vector<HV> &M, L tol) {
  std::string b = bad(p); if (!b.empty()) return "malformed: " + b + "; " + dump(p); mc::compared(); if (p->nverts != (int)M.size()) return mc::strf("%d vertices, the exact polytope has %zu; ", p->nverts, M.size()) + dump(p);
  std::vector<int> map(p->nverts, -1); std::vector<char> used(M.size(), 0);
  for (int v = 0; v < p->nverts; ++v) { L best = 1e300L; int bi = -1; for (size_t i = 0; i < M.size(); ++i) { L d = 0; for (int j = 0; j < ND; ++j) d = std::max(d, fabsl(M[i].p[j] - p->verts[v].pos.xyz[j])); if (d < best) { best = d; bi = (int)i; } } if (!(best <= tol)) return mc::strf("vertex %d is %Lg away from every exact vertex; ", v, best) + dump(p); if (used[bi]++) return mc::strf("vertex %d duplicates another; ", v) + dump(p); map[v] = bi; }
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < ND; ++k) { int sh = 0; for (int a : M[map[v]].f) for (int c : M[map[p->verts[v].pnbrs[k]]].f) sh += a == c; if (sh != ND - 1) return mc::strf("link %d-%d is not an edge of the exact polytope; ", v, p->verts[v].pnbrs[k]) + dump(p); }
  return "";
}
static uint64_t hp(const rNd_poly *p, uint64_t seed = 7) { uint64_t h = mc::hash_bytes(&p->nverts, sizeof p->nverts, seed); h = mc::hash_bytes(&p->nfaces, sizeof p->nfaces, h); for (int v = 0; v < p->nverts; ++v) { h = mc::hash_bytes(p->verts[v].pnbrs, sizeof p->verts[v].pnbrs, h); for (int i = 0; i < ND; ++i) for (int j = 0; j < ND; ++j) if (i != j) h = mc::hash_bytes(&p->verts[v].finds[i][j], sizeof p->verts[v].finds[i][j], h); h = mc::hash_bytes(&p->verts[v].pos, sizeof p->verts[v].pos, h); } return h; }
static void finish(Seed &s) { s.big = maxabs<ND>(s.R); s.size = 0; for (int j = 0; j < ND; ++j) { L lo = 1e300L, hi = -1e300L; for (auto &t : s.R) for (int i = 0; i <= ND; ++i) { lo = std::min(lo, t.v[i][j]); hi = std::max(hi, t.v[i][j]); } s.size = std::max(s.size, hi - lo); } }
static Seed simplex(const std::string &nm, std::vector<PT> v) {
  Seed s; s.name = nm; s.box = false; s.v = v; Simp<ND> t; for (int i = 0; i <= ND; ++i) for (int j = 0; j < ND; ++j) t.v[i][j] = v[i][j]; t.sg = 1; s.R = {t};
  for (int o = 0; o <= ND; ++o) { std::vector<int> q; for (int i = 0; i <= ND; ++i) if (i != o) q.push_back(i); Plane<ND> h; for (int j = 0; j < ND; ++j) { L a[ND - 1][ND - 1]; for (int i = 0; i < ND - 1; ++i) { int c = 0; for (int k = 0; k < ND; ++k) if (k != j) a[i][c++] = (L)v[q[i + 1]][k] - v[q[0]][k]; } h.n[j] = det<ND - 1>(a) * (j % 2 ? -1 : 1); } h.d = 0; for (int j = 0; j < ND; ++j) h.d -= h.n[j] * v[q[0]][j]; VL x; for (int j = 0; j < ND; ++j) x[j] = v[o][j]; if (ev(h, x) < 0) h = flip<ND>(h); s.F.push_back(unitp(h)); }
  finish(s); return s;
}
static Seed box(const std::string &nm, PT lo, PT hi) { Seed s; s.name = nm; s.box = true; s.v = {lo, hi}; L a[ND], b[ND]; for (int j = 0; j < ND; ++j) { a[j] = lo[j]; b[j] = hi[j]; for (int k = 0; k < 2; ++k) { Plane<ND> h; for (L &x : h.n) x = 0; h.n[j] = k ? -1 : 1; h.d = k ? (L)hi[j] : -(L)lo[j]; s.F.push_back(h); } } s.R = region_box<ND>(a, b); finish(s); return s; }
static void make(rNd_poly *p, const Seed &s) { rNd_rvec v[ND + 1]; memset(v, 0, sizeof v); for (size_t i = 0; i < s.v.size(); ++i) for (int j = 0; j < ND; ++j) v[i].xyz[j] = s.v[i][j]; mc::trans(); if (s.box) rNd_init_box(p, v); else rNd_init_simplex(p, v); }
static rNd_poly *np(int k) { static rNd_poly *p[8]; if (!p[k]) { p[k] = (rNd_poly *)malloc(sizeof(rNd_poly)); memset((void *)p[k], 0x7b, sizeof(rNd_poly)); } return p[k]; }
static void cpy(rNd_poly *d, const rNd_poly *s) { if (s->nverts > 0) memcpy((void *)d->verts, (const void *)s->verts, sizeof s->verts[0] * s->nverts); d->nverts = s->nverts; d->nfaces = s->nfaces; }
// Gram-Schmidt on edge vectors: round-off grows with the inverse of the smallest corner height over the edge length
static void volume(rNd_poly *p, L V, const Seed &s, const char *w) { double m[2] = {NAN, 42}; uint64_t h = hp(p); mc::trans(); rNd_reduce(p, m, 0); mc::compared(); if (m[1] != 42) mc::fail("wrote past the zeroth moment"); if (hp(p) != h) mc::fail("integration altered the polytope"); L t = 1e-10L * V + 1e-9L * powl(s.size, ND) + 1e-11L * powl(s.big + s.size, ND); if (!(fabsl(m[0] - V) <= t)) mc::fail("%s: volume %.15g, exact %.15Lg", w, m[0], V); }
static void labels(const rNd_poly *p, int want, const char *w) {
  for (int a = 0; a < p->nverts; ++a) { std::vector<int> lab; for (int i = 0; i < ND; ++i) for (int j = i + 1; j < ND; ++j) { int f = p->verts[a].finds[i][j]; if (f != p->verts[a].finds[j][i]) mc::fail("%s: face label %d,%d of vertex %d not symmetric", w, i, j, a); if (f < 0 || f >= p->nfaces) mc::fail("%s: face label %d of vertex %d outside 0..%d", w, f, a, p->nfaces - 1); lab.push_back(f);
      int cur = p->verts[a].pnbrs[i], prev = a, len = 1; while (cur != a && len < 10) { ++len; int back = -1, nx = -1; for (int k = 0; k < ND; ++k) if (p->verts[cur].pnbrs[k] == prev) back = k; if (back < 0) mc::fail("%s: link not mutual", w); for (int k = 0; k < ND; ++k) if (k != back && p->verts[cur].finds[back][k] == f) { if (nx >= 0) mc::fail("%s: face label %d ambiguous at vertex %d", w, f, cur); nx = k; } if (nx < 0) mc::fail("%s: face label %d of vertex %d not continued at vertex %d", w, f, a, cur); prev = cur; cur = p->verts[cur].pnbrs[nx]; }
      if (len != want) mc::fail("%s: face loop of label %d at vertex %d has length %d", w, f, a, len); if (prev != p->verts[a].pnbrs[j]) mc::fail("%s: face of links %d,%d at vertex %d does not return along link %d", w, i, j, a, j); }
    std::sort(lab.begin(), lab.end()); if (std::unique(lab.begin(), lab.end()) != lab.end()) mc::fail("%s: two faces at vertex %d share a label", w, a); }
}
static void judge(const Seed &s, const char *w) {
  rNd_poly *p = np(0), *q = np(1); for (int i = 0; i < (2 << ND); ++i) { memset((void *)&p->verts[i], 0x7b, sizeof p->verts[i]); memset((void *)&q->verts[i], 0xff, sizeof p->verts[i]); } p->nverts = p->nfaces = 77; q->nverts = q->nfaces = -1; make(p, s); make(q, s);
  std::vector<HV> M; if (!enumerate(s.F, (int)s.F.size(), 1e-9L * s.size, M)) { mc::skipped(); return; } std::string d = differs(p, M, 1e-12L * (s.size + s.big)); if (!d.empty()) mc::fail("%s: %s", w, d.c_str());
  for (int i = 0; i < p->nverts; ++i) { bool f = false; if (s.box) { f = true; for (int j = 0; j < ND; ++j) f &= p->verts[i].pos.xyz[j] == s.v[0][j] || p->verts[i].pos.xyz[j] == s.v[1][j]; } else for (auto &x : s.v) f |= !memcmp(p->verts[i].pos.xyz, x.data(), sizeof(double) * ND); if (!f) mc::fail("%s: vertex %d is not one of the given positions", w, i); }
  labels(p, s.box ? 4 : 3, w); if (hp(p) != hp(q)) mc::fail("%s: depends on earlier contents", w); if (ND < 6) { mc::trans(); if (!rNd_is_good(p)) mc::fail("%s: rejected by the validity test", w); } volume(p, absvol<ND>(s.R), s, w); mc::state(hp(p));
  if (!s.box) { rNd_rvec v[ND + 1]; for (int i = 0; i <= ND; ++i) for (int j = 0; j < ND; ++j) v[i].xyz[j] = s.v[i][j]; L want = sdet<ND>(s.R[0]) / fact(ND), got = rNd_orient(v); mc::trans(); mc::compared(); if (!(fabsl(got - want) <= 1e-12L * powl(s.size, ND) + 1e-14L * s.big * powl(s.size, ND - 1))) mc::fail("%s: orientation %.15Lg, signed volume %.15Lg", w, got, want); }
}
// ---- alphabet ----
static double g(int k) { double x = sin(12.9898 * (k + 1)) * 43758.5453; return x - floor(x); } // fixed generic numbers
static std::vector<Seed> S; struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static int it = -1, DEP;
static std::vector<std::vector<Plane<ND>>> A;
static void init(int tier) {
  if (it == tier) return; it = tier; S.clear(); CS.clear(); A.clear(); DEP = ND == 3 ? 3 : ND == 5 ? (tier ? 3 : 2) : 1;
  std::vector<PT> u(ND + 1), gen(ND + 1), c; for (int i = 0; i <= ND; ++i) for (int j = 0; j < ND; ++j) { u[i][j] = i == j + 1; gen[i][j] = (i == j + 1 ? 1.6 : -0.4) + 0.5 * (g(i * 7 + j) - 0.5); }
  S.push_back(simplex("unit simplex", u)); S.push_back(simplex("generic simplex", gen)); c = gen; for (auto &p : c) for (int j = 0; j < ND; ++j) p[j] = p[j] * 0x1p-30 * (1 + 0.5 * j); S.push_back(simplex("minute simplex", c)); c = gen; for (auto &p : c) for (int j = 0; j < ND; ++j) p[j] = p[j] * 64 + 10 * j; S.push_back(simplex("shifted simplex", c));
  PT lo, hi; for (int j = 0; j < ND; ++j) { lo[j] = 0; hi[j] = 1; } S.push_back(box("unit box", lo, hi)); for (int j = 0; j < ND; ++j) { lo[j] = -1 + 0.75 * j; hi[j] = lo[j] + 0.5 + 0.375 * ((j * 3) % 4); } S.push_back(box("oblong box", lo, hi));
  for (int s = 0; s < (int)S.size(); ++s) { std::vector<Plane<ND>> F; int nn = ND == 3 ? (tier ? 16 : 10) : ND == 5 ? (tier ? 6 : 4) : 2; std::vector<VL> P; for (auto &t : S[s].R) for (auto &x : t.v) { VL y; for (int j = 0; j < ND; ++j) y[j] = x[j]; P.push_back(y); }
    for (int k = 0; k < nn; ++k) { Plane<ND> h; for (int j = 0; j < ND; ++j) h.n[j] = k % 5 == 4 ? (j == k % ND) : 2 * g(500 + s * 41 + k * 11 + j) - 1; h.d = 0; h = unitp(h); for (L &x : h.n) x = (double)x; L a = 1e300L, b = -1e300L; for (auto &y : P) { L t = ev(h, y); a = std::min(a, t); b = std::max(b, t); } for (double f : {0.27, 0.61, -0.2, 1.2}) { if (f < 0 || f > 1) if (k % 4) continue; Plane<ND> q = h; q.d = -(double)(a + (f + 0.03 * (k % 3)) * (b - a)); F.push_back(q); F.push_back(flip<ND>(q)); } } A.push_back(F);
    for (int i = 0; i < (int)F.size(); ++i) CS.push_back({2, s, i}); if (ND < 6 || s < 2) for (int i = 0; i < (ND == 3 ? 8 : ND == 5 ? (S[s].box && !tier ? 1 : 3) : 1); ++i) CS.push_back({3, s, i}); }
  int perms = 1; for (int i = 2; i <= ND + 1; ++i) perms *= i; int st = ND == 6 && !tier ? 31 : 1; for (int i = 0; i < perms; i += st) CS.push_back({0, i, 0}); for (int i = 0; i < 27; ++i) CS.push_back({1, i, 0}); CS.push_back({4, 0, 0});
  for (int q = 0; q < (int)S.size(); ++q) { CS.push_back({5, q, 0}); CS.push_back({8, q, 0}); if (S[q].box) CS.push_back({7, q, 0}); } for (int k = 0; k < 2 + ND * (ND + 1); ++k) if (ND < 6 || tier || k < 12) CS.push_back({6, k, 0});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("dimension %d: 4 point sets in %s vertex orders, 27 boxes; all clip sequences of depth %d over %zu hyperplanes on each of %zu seeds, volume checked in every state; lists in one call; small grids over each seed (clamped and not); every transform over all axes, planes and matrix entries; validity of tables with every single link changed, every two links exchanged and two simplices joined by two edge exchanges; a full buffer; listings", ND, ND == 6 && !tier ? "every 31st of all" : "all", DEP, A[0].size(), S.size()); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("dimension %d kind %d index %d %d", ND, r.kind, r.a, r.b); }
static rNd_plane lp(const Plane<ND> &h) { rNd_plane q; for (int j = 0; j < ND; ++j) q.n.xyz[j] = (double)h.n[j]; q.d = (double)h.d; return q; }
static std::string trail;
static void tree(const Seed &s, const std::vector<Plane<ND>> &F, const rNd_poly *p, std::vector<Plane<ND>> H, Region<ND> R, int left, int first) {
  rNd_poly *q = np(2 + left);
  for (int i = first >= 0 ? first : 0; i < (first >= 0 ? first + 1 : (int)F.size()); ++i) {
    L lo = 1e300L, hi = -1e300L, mn = 1e300L; for (int v = 0; v < p->nverts; ++v) { VL x; for (int j = 0; j < ND; ++j) x[j] = p->verts[v].pos.xyz[j]; L t = ev(F[i], x); lo = std::min(lo, t); hi = std::max(hi, t); mn = std::min(mn, fabsl(t)); }
    if (mn < 1e-4L * s.size) { mc::skipped(); continue; } auto H1 = H; H1.push_back(unitp(F[i])); std::vector<HV> M; mc::beat(); if (!enumerate(H1, (int)H1.size(), 1e-4L * s.size, M)) { mc::skipped(); continue; }
    std::string save = trail; trail += mc::strf(" | plane %d", i); mc::path_s(trail); cpy(q, p); rNd_plane pl = lp(F[i]), pc = pl; uint64_t h0 = hp(q); mc::trans(); int st = status_of(rNd_clip, q, &pl, 1); if (memcmp(&pl, &pc, sizeof pl)) mc::fail("the hyperplane was altered"); if (st == 0 && q->nverts > 0) mc::fail("reported failure although capacity suffices");
    if (hi < 0 && q->nverts != 0) mc::fail("strictly outside but not empty"); if (lo > 0 && hp(q) != h0) mc::fail("entirely inside but changed"); std::string d = differs(q, M, 1e-9L * s.size + 1e-11L * s.big); if (!d.empty()) mc::fail("%s", d.c_str());
    Region<ND> R1 = clip<ND>(R, F[i]); volume(q, absvol<ND>(R1), s, "clipped"); bool fresh = mc::state(hp(q, left)); if (left > 1 && fresh && q->nverts > 0 && lo < 0) tree(s, F, q, H1, R1, left - 1, -1); trail = save;
  }
}
static void cells(const Region<ND> &R, int ax, const int *lo, const int *hi, const double *d, std::vector<L> &out) { if (ax == ND) { out.push_back(absvol<ND>(R)); return; } for (int i = lo[ax]; i < hi[ax]; ++i) { Plane<ND> a, b; for (int j = 0; j < ND; ++j) a.n[j] = b.n[j] = 0; a.n[ax] = 1; a.d = -(L)d[ax] * i; b.n[ax] = -1; b.d = (L)d[ax] * (i + 1); mc::beat(); Region<ND> Q = R; if (i > lo[ax]) Q = clip<ND>(Q, a); if (i + 1 < hi[ax]) Q = clip<ND>(Q, b); cells(Q, ax + 1, lo, hi, d, out); } }
static void grid(const Seed &s, int k) {
  rNd_poly *p = np(0), *q = np(1); make(p, s); Region<ND> R = s.R; auto H = s.F; rNd_rvec d; double dd[ND]; int lo[ND], hi[ND]; mc::path("grid %d over %s", k, s.name.c_str());
  for (int j = 0; j < ND; ++j) { double a = 1e300, b = -1e300; for (int v = 0; v < p->nverts; ++v) { a = std::min(a, p->verts[v].pos.xyz[j]); b = std::max(b, p->verts[v].pos.xyz[j]); } static const double N[4] = {0.9, 1.37, 2.21, 1.7}; double c = ND == 3 ? 0.43 + 3.1 * g(k * 17 + j) : ND == 5 ? N[(j * 3 + k) % 3] * (j > 2 ? 0.7 : 1) : (j == k ? 1.6 : 0.8); dd[j] = d.xyz[j] = (b - a) / c * (1 + 0.0137 * j); L x = (L)a / dd[j], y = (L)b / dd[j]; lo[j] = (int)floorl(x); hi[j] = (int)ceill(y); if ((fabsl(x - roundl(x)) < 1e-6L && x != roundl(x)) || (fabsl(y - roundl(y)) < 1e-6L && y != roundl(y))) return; }
  rNd_dvec ib[2]; memset(ib, 0x7b, sizeof ib); uint64_t h0 = hp(p); mc::trans(); rNd_get_ibox(p, ib, d); mc::compared(); if (hp(p) != h0) mc::fail("computing the index box altered the polytope"); for (int j = 0; j < ND; ++j) if (ib[0].ijk[j] != lo[j] || ib[1].ijk[j] != hi[j]) mc::fail("axis %d: index box %d..%d, minimal is %d..%d", j, ib[0].ijk[j], ib[1].ijk[j], lo[j], hi[j]);
  std::vector<Plane<ND>> G = H; for (int j = 0; j < ND; ++j) for (int i = lo[j] + 1; i < hi[j]; ++i) { Plane<ND> h; for (L &x : h.n) x = 0; h.n[j] = 1; h.d = -(L)dd[j] * i; G.push_back(h); } std::vector<HV> M; mc::beat(); if (!enumerate(G, (int)H.size(), 1e-5L * s.size, M)) { mc::skipped(); return; }
  for (int cl = 0; cl < 3; ++cl) { cpy(q, p); int g0[ND], g1[ND]; rNd_dvec jb[2] = {ib[0], ib[1]}; Region<ND> Q = R; for (int j = 0; j < ND; ++j) { g0[j] = lo[j]; g1[j] = hi[j]; }
    if (cl) { bool any = false; rNd_dvec c[2] = {ib[0], ib[1]}; for (int j = 0; j < ND; ++j) if (hi[j] - lo[j] > 1 && (j + cl) % 2) { any = true; Plane<ND> h; for (L &x : h.n) x = 0; if (cl == 1) { g0[j]++; c[0].ijk[j]++; h.n[j] = 1; h.d = -(L)dd[j] * g0[j]; } else { g1[j]--; c[1].ijk[j]--; h.n[j] = -1; h.d = (L)dd[j] * g1[j]; } Q = clip<ND>(Q, h); } else { c[0].ijk[j] -= 2; c[1].ijk[j] += 3; } if (!any) continue; if (absvol<ND>(Q) < 1e-9L * absvol<ND>(R)) continue; mc::trans(); rNd_clamp_ibox(q, jb, c, d); for (int j = 0; j < ND; ++j) if (jb[0].ijk[j] != g0[j] || jb[1].ijk[j] != g1[j]) mc::fail("axis %d: clamped box %d..%d, expected %d..%d", j, jb[0].ijk[j], jb[1].ijk[j], g0[j], g1[j]); if (q->nverts > 0) volume(q, absvol<ND>(Q), s, "clamped"); else mc::fail("clamping emptied the polytope"); }
    long n = 1; for (int j = 0; j < ND; ++j) n *= g1[j] - g0[j]; if (n > (ND == 3 ? 400 : ND == 5 ? 40 : 12)) continue; std::vector<L> ref; cells(Q, 0, g0, g1, dd, ref); L cv = 1; for (double x : dd) cv *= x; double *gr = (double *)malloc(sizeof(double) * n); for (long i = 0; i < n; ++i) gr[i] = 0.25 * (i % 3) * (double)cv; rNd_dvec ic[2] = {jb[0], jb[1]}; uint64_t h1 = hp(q); mc::trans(); int st = status_of(rNd_voxelize, q, ic, gr, d, 0); if (st == 0) mc::fail("voxelization reported failure"); if (hp(q) != h1) mc::fail("voxelization altered the polytope"); if (memcmp(ic, jb, sizeof ic)) mc::fail("the index box was altered"); mc::compared(n);
    for (long i = 0; i < n; ++i) { L got = (L)gr[i] - 0.25 * (i % 3) * (double)cv; if (!(fabsl(got - ref[i]) <= 1e-6L * cv + 1e-9L * powl(s.big + s.size, ND))) { free(gr); mc::fail("cell %ld of %ld increased by %.15Lg, exact overlap %.15Lg", i, n, got, ref[i]); } } mc::state(mc::hash_bytes(gr, sizeof(double) * n)); free(gr); }
}
// ---- transforms ----
typedef L Mat[ND + 1][ND + 1];
static void moved(const rNd_poly *p, const rNd_poly *q, Mat M, const char *w, int a, int b) {
  mc::compared(); if (q->nverts != p->nverts || q->nfaces != p->nfaces) mc::fail("%s %d %d: vertex or face count changed", w, a, b);
  for (int v = 0; v < p->nverts; ++v) { L y[ND + 1], m[ND + 1]; for (int i = 0; i <= ND; ++i) { y[i] = M[i][ND]; m[i] = fabsl(M[i][ND]); for (int j = 0; j < ND; ++j) { L t = M[i][j] * p->verts[v].pos.xyz[j]; y[i] += t; m[i] += fabsl(t); } }
    for (int i = 0; i < ND; ++i) { L e = y[i] / y[ND], t = 1e-13L * (m[i] + fabsl(e) * m[ND]) / fabsl(y[ND]); if (!(fabsl(q->verts[v].pos.xyz[i] - e) <= t)) mc::fail("%s %d %d: vertex %d coordinate %d is %.15g, the map gives %.15Lg", w, a, b, v, i, q->verts[v].pos.xyz[i], e); if (q->verts[v].pnbrs[i] != p->verts[v].pnbrs[i]) mc::fail("%s: links changed", w); for (int j = 0; j < ND; ++j) if (i != j && q->verts[v].finds[i][j] != p->verts[v].finds[i][j]) mc::fail("%s: face labels changed", w); } }
  mc::state(hp(q));
}
static void ident(Mat M) { for (int i = 0; i <= ND; ++i) for (int j = 0; j <= ND; ++j) M[i][j] = i == j; }
static void transforms(const Seed &s) {
  rNd_poly *p = np(0), *q = np(1); make(p, s); Mat M; L u = s.big + s.size;
  for (int k = 0; k <= ND; ++k) { rNd_rvec t; ident(M); for (int j = 0; j < ND; ++j) M[j][ND] = t.xyz[j] = k == ND || j == k ? (double)u * (0.3 + 0.17 * j) * (j % 2 ? -1 : 1) : 0; cpy(q, p); mc::trans(); rNd_translate(q, t); moved(p, q, M, "translation", k, 0);
    rNd_rvec c; ident(M); for (int j = 0; j < ND; ++j) M[j][j] = c.xyz[j] = k == ND ? 0.5 + 0.4 * j - (j == 2 ? 4 : 0) : j == k ? -1.75 : 1; cpy(q, p); mc::trans(); rNd_scale(q, c); moved(p, q, M, "scaling", k, 0); }
  for (int a = 0; a < ND; ++a) for (int b = 0; b < ND; ++b) if (a != b) { for (double x : {0.7, -2.3}) { ident(M); M[a][b] = x; cpy(q, p); mc::trans(); rNd_shear(q, x, a, b); moved(p, q, M, "shear", a, b); }
    for (double x : {0.7, -2.3, 1e-3, 5.0}) { ident(M); M[a][a] = M[b][b] = cosl(x); M[a][b] = -sinl(x); M[b][a] = sinl(x); cpy(q, p); mc::trans(); rNd_rotate(q, x, a, b); moved(p, q, M, "rotation", a, b); } }
  for (int a = 0; a <= ND; ++a) for (int b = 0; b <= ND; ++b) for (int g2 = 0; g2 < 2; ++g2) { rNd_real A[ND + 1][ND + 1], A0[ND + 1][ND + 1]; ident(M); if (g2) for (int i = 0; i < ND; ++i) for (int j = 0; j <= ND; ++j) M[i][j] += (double)(0.3 * (g(i * 9 + j + 70) - 0.5) * (j == ND ? u : 1)); M[a][b] += a == ND && b < ND ? (double)(0.11 / (ND * u)) : b == ND && a < ND ? (double)(0.6 * u) : 0.45; for (int i = 0; i <= ND; ++i) for (int j = 0; j <= ND; ++j) { M[i][j] = A[i][j] = (double)M[i][j]; } memcpy(A0, A, sizeof A); cpy(q, p); mc::trans(); rNd_affine(q, A); if (memcmp(A, A0, sizeof A)) mc::fail("the matrix was altered"); moved(p, q, M, "matrix entry", a, b); }
}
// ---- validity ----
typedef std::vector<std::array<int, ND>> Tab;
static Tab stab() { Tab t; for (int v = 0; v <= ND; ++v) { std::array<int, ND> a; for (int i = 0; i < ND; ++i) a[i] = (v + i + 1) % (ND + 1); t.push_back(a); } return t; }
static Tab btab() { Tab t; for (int v = 0; v < (1 << ND); ++v) { std::array<int, ND> a; for (int i = 0; i < ND; ++i) a[i] = v ^ (1 << i); t.push_back(a); } return t; }
static Tab plus(const Tab &a, const Tab &b) { Tab r = a; for (auto x : b) { for (auto &w : x) w += (int)a.size(); r.push_back(x); } return r; }
static int verdict(const Tab &t) { // 0 malformed, 1 well-formed, 2 not settled
  int n = (int)t.size(); std::vector<int> in(n, 0); for (int v = 0; v < n; ++v) for (int k = 0; k < ND; ++k) { int w = t[v][k]; if (w < 0 || w >= n || w == v) return 0; for (int j = 0; j < k; ++j) if (t[v][j] == w) return 0; ++in[w]; } for (int v = 0; v < n; ++v) if (in[v] != ND) return 0;
  for (int v = 0; v < n; ++v) for (int k = 0; k < ND; ++k) { bool m = false; for (int j = 0; j < ND; ++j) m |= t[t[v][k]][j] == v; if (!m) return 2; }
  std::vector<int> comp(n, -1); std::vector<std::vector<int>> C; for (int v = 0; v < n; ++v) if (comp[v] < 0) { C.emplace_back(); std::vector<int> st{v}; comp[v] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); C.back().push_back(u); for (int w : t[u]) if (comp[w] < 0) { comp[w] = 1; st.push_back(w); } } }
  std::vector<char> seen(n); std::vector<int> st; for (auto &c : C) { int m = (int)c.size(); std::array<int, ND - 1> x; for (int i = 0; i < ND - 1; ++i) x[i] = i; for (;;) { for (int v : c) seen[v] = 0; for (int i : x) seen[c[i]] = 1; int cnt = ND, s = 0; while (seen[c[s]]) ++s; st.assign(1, c[s]); seen[c[s]] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : t[u]) if (!seen[w]) { seen[w] = 1; ++cnt; st.push_back(w); } } if (cnt != m) return 0; int i = ND - 2; while (i >= 0 && x[i] == m - (ND - 1) + i) --i; if (i < 0) break; ++x[i]; for (int j = i + 1; j < ND - 1; ++j) x[j] = x[j - 1] + 1; } }
  return 1;
}
static int ask(const Tab &t) { rNd_poly *p = np(0); for (size_t v = 0; v < t.size(); ++v) for (int k = 0; k < ND; ++k) { p->verts[v].pnbrs[k] = t[v][k]; p->verts[v].pos.xyz[k] = (double)(v % (k + 3)); } p->nverts = (int)t.size(); for (size_t v = t.size(); v < t.size() + 3 && v < RND_MAX_VERTS; ++v) for (int k = 0; k < ND; ++k) p->verts[v].pnbrs[k] = 0x7b7b7b7b; mc::trans(); mc::compared(); mc::beat(); return rNd_is_good(p); }
static void judge_tab(const Tab &t, const std::string &w) { mc::path_s(w); int v = verdict(t), a = ask(t); if (v == 0 && a) mc::fail("malformed table accepted"); if (v == 1 && !a && w[0] == '!') mc::fail("well-formed table rejected"); mc::state(mc::hash_bytes(t.data(), t.size() * sizeof t[0], 31)); }
static bool switch2(Tab &t, int a, int ka, int c, int kc) { int b = t[a][ka], d = t[c][kc]; if (a == c || a == d || b == c || b == d) return false; int kb = -1, kd = -1; for (int k = 0; k < ND; ++k) { if (t[b][k] == a) kb = k; if (t[d][k] == c) kd = k; } if (kb < 0 || kd < 0) return false; t[a][ka] = c; t[c][kc] = a; t[b][kb] = d; t[d][kd] = b; return true; }
static void validity(int k) {
  Tab S2 = plus(stab(), stab());
  if (k == 0) { for (auto &tt : {stab(), S2}) { judge_tab(tt, "! valid"); int n = (int)tt.size(); for (int v = 0; v < n; ++v) for (int j = 0; j < ND; ++j) { std::vector<int> vals = {INT_MIN, -2, -1, n, n + 1, RND_MAX_VERTS - 1, RND_MAX_VERTS, INT_MAX}; for (int i = 0; i < n; ++i) vals.push_back(i); for (int x : vals) if (x != tt[v][j]) { Tab t = tt; t[v][j] = x; judge_tab(t, mc::strf("%d vertices, vertex %d link %d := %d", n, v, j, x)); } }
      for (int v = 0; v < n; ++v) for (int j = 0; j < ND; ++j) for (int w = v; w < n; ++w) for (int i = 0; i < ND; ++i) if (w > v || i > j) { Tab t = tt; std::swap(t[v][j], t[w][i]); judge_tab(t, mc::strf("%d vertices, links %d.%d and %d.%d exchanged", n, v, j, w, i)); } }
    if (ND == 3) judge_tab(btab(), "! box"); judge_tab({}, "! empty"); }
  else if (k == 1) { // a chain of simplices filling the buffer: falls apart on removing two vertices
    int m = RND_MAX_VERTS / (ND + 1); Tab t; for (int i = 0; i < m; ++i) for (auto x : stab()) { for (auto &w : x) w += i * (ND + 1); t.push_back(x); } for (int i = 0; i + 1 < m; ++i) { int a = (ND + 1) * i + ND, c = a + 1; bool ok = false; for (int ka = 0; ka < ND && !ok; ++ka) for (int kc = 0; kc < ND && !ok; ++kc) if (t[a][ka] / (ND + 1) == i && t[c][kc] / (ND + 1) == i + 1) ok = switch2(t, a, ka, c, kc); }
    mc::path("a chain of %d simplices", m); if (ask(t)) mc::fail("accepted although removing two vertices disconnects it"); for (int x : {-1, (int)t.size(), RND_MAX_VERTS, INT_MAX}) for (int v : {0, (int)t.size() - 1}) { Tab q = t; q[v][ND - 1] = x; if (ask(q)) mc::fail("link %d accepted", x); } }
  else { // two simplices joined by exchanging edges twice (three times in six dimensions): falls apart on removing few vertices
    int e = k - 2, a = e / ND, ka = e % ND; for (int c = ND + 1; c < 2 * ND + 2; ++c) for (int kc = 0; kc < ND; ++kc) { if (ND == 6 && !mc::tier && (c + kc) % 3) continue; Tab t = S2; if (!switch2(t, a, ka, c, kc)) continue; judge_tab(t, mc::strf("two simplices, edges %d.%d and %d.%d exchanged", a, ka, c, kc));
      for (int a2 = 0; a2 < 2 * ND + 2; ++a2) for (int k2 = 0; k2 < ND; ++k2) for (int c2 = a2 + 1; c2 < 2 * ND + 2; ++c2) for (int l2 = 0; l2 < ND; ++l2) { if (!mc::tier && ND > 3 && (a2 + 3 * k2 + 5 * c2 + 7 * l2 + e + kc) % (ND == 5 ? 5 : 41)) continue; Tab u = t; if (switch2(u, a2, k2, c2, l2)) judge_tab(u, mc::strf("two simplices, edges %d.%d and %d.%d, then %d.%d and %d.%d exchanged", a, ka, c, kc, a2, k2, c2, l2)); } }
  }
}
// ---- clamping on all sides at once ----
static void allsides(int s0) {
  Seed &s = S[s0]; rNd_poly *p = np(0); make(p, s); mc::path("%s clamped on every side", s.name.c_str()); rNd_rvec d; rNd_dvec ib[2], c[2]; PT lo, hi; for (int j = 0; j < ND; ++j) { double a = s.v[0][j], b = s.v[1][j]; d.xyz[j] = (b - a) / (3.3 + 0.17 * j); }
  mc::trans(); rNd_get_ibox(p, ib, d); for (int j = 0; j < ND; ++j) { c[0].ijk[j] = ib[0].ijk[j] + 1; c[1].ijk[j] = ib[1].ijk[j] - 1; lo[j] = d.xyz[j] * c[0].ijk[j]; hi[j] = d.xyz[j] * c[1].ijk[j]; if (!(lo[j] > s.v[0][j] && hi[j] < s.v[1][j] && lo[j] < hi[j])) { mc::skipped(); return; } }
  mc::trans(); rNd_clamp_ibox(p, ib, c, d); mc::compared(); for (int j = 0; j < ND; ++j) if (ib[0].ijk[j] != c[0].ijk[j] || ib[1].ijk[j] != c[1].ijk[j]) mc::fail("axis %d: clamped range %d..%d, expected %d..%d", j, ib[0].ijk[j], ib[1].ijk[j], c[0].ijk[j], c[1].ijk[j]);
  Seed b = box("clamped", lo, hi); std::vector<HV> M; if (!enumerate(b.F, (int)b.F.size(), 1e-9L * s.size, M)) { mc::skipped(); return; } std::string df = differs(p, M, 1e-9L * s.size + 1e-11L * s.big); if (!df.empty()) mc::fail("%s", df.c_str()); volume(p, absvol<ND>(b.R), s, "clamped"); mc::state(hp(p));
}
// ---- listing ----
static void listing(const Seed &s) {
  rNd_poly *p = np(0); make(p, s); mc::path("listing of %s", s.name.c_str()); uint64_t h = hp(p); static int fd = memfd_create("listing", 0); fflush(stdout); if (ftruncate(fd, 0)) abort(); lseek(fd, 0, SEEK_SET); int old = dup(1); dup2(fd, 1); mc::trans(); rNd_print(p); fflush(stdout); dup2(old, 1); close(old); off_t n = lseek(fd, 0, SEEK_END); std::string t(n, 0); if (pread(fd, &t[0], n, 0) != n) abort();
  if (hp(p) != h) mc::fail("printing altered the polytope"); mc::compared(); size_t at = 0; auto next = [&](double want, const char *w, int v) { while (at < t.size()) { char c = t[at]; bool num = isdigit((unsigned char)c) || ((c == '-' || c == '+' || c == '.') && at + 1 < t.size() && isdigit((unsigned char)t[at + 1])); if (num) break; ++at; } if (at >= t.size()) mc::fail("listing ends before %s of vertex %d", w, v); char *e; double x = strtod(t.c_str() + at, &e); at = e - t.c_str(); if (!(fabs(x - want) <= 1e-5 * fabs(want))) mc::fail("%s of vertex %d printed as %.12g, is %.12g", w, v, x, want); };
  for (int v = 0; v < p->nverts; ++v) { next(v, "the index", v); for (int j = 0; j < ND; ++j) next(p->verts[v].pos.xyz[j], "a coordinate", v); for (int j = 0; j < ND; ++j) next(p->verts[v].pnbrs[j], "a neighbour", v); } while (at < t.size()) if (isdigit((unsigned char)t[at++])) mc::fail("the listing goes on after the last vertex"); mc::state(mc::hash_bytes(t.data(), t.size()));
}
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 0) { int id[ND + 1], k = r.a; std::vector<int> pool; for (int i = 0; i <= ND; ++i) pool.push_back(i); for (int i = 0; i <= ND; ++i) { int f = (int)fact(ND - i); id[i] = pool[k / f]; pool.erase(pool.begin() + k / f); k %= f; } for (int q = 0; q < 4; ++q) { auto v = S[q].v; for (int i = 0; i <= ND; ++i) v[i] = S[q].v[id[i]]; judge(simplex(S[q].name, v), mc::strf("%s order %d", S[q].name.c_str(), r.a).c_str()); } }
  else if (r.kind == 1) { static const double B[3][2] = {{0, 1}, {-2.5, 0.25}, {3, 3.625}}; for (double sc : {1.0, 0x1p-30}) { PT lo, hi; int k = r.a; for (int j = 0; j < ND; ++j) { int b = j < 3 ? k % 3 : (r.a + j) % 3; k /= 3; lo[j] = B[b][0] * sc; hi[j] = B[b][1] * sc; } judge(box("box", lo, hi), mc::strf("box %d", r.a).c_str()); } }
  else if (r.kind == 2) { rNd_poly *p = np(0); make(p, S[r.a]); trail = S[r.a].name; tree(S[r.a], A[r.a], p, S[r.a].F, S[r.a].R, DEP, r.b);
    const Seed &s = S[r.a]; for (int n = 2; n <= 4; ++n) { auto H = s.F; Region<ND> R = s.R; std::vector<rNd_plane> pl; bool ok = true; std::vector<HV> M; for (int i = 0; i < n; ++i) { auto &f = A[r.a][(r.b + i * (n + 3)) % A[r.a].size()]; std::vector<HV> N; mc::beat(); if (!enumerate(H, (int)H.size(), 1e-4L * s.size, N)) ok = false; for (auto &x : N) if (fabsl(ev(f, x.p)) < 1e-4L * s.size) ok = false; if (!ok) break; H.push_back(unitp(f)); R = clip<ND>(R, f); pl.push_back(lp(f)); } if (!ok || !enumerate(H, (int)H.size(), 1e-4L * s.size, M)) { mc::skipped(); continue; } make(p, s); mc::path("%s list of %d from %d", s.name.c_str(), n, r.b); mc::trans(); status_of(rNd_clip, p, pl.data(), (rNd_int)n); std::string d = differs(p, M, 1e-9L * s.size + 1e-11L * s.big); if (!d.empty()) mc::fail("list: %s", d.c_str()); volume(p, absvol<ND>(R), s, "list"); mc::state(hp(p, 99)); } }
  else if (r.kind == 3) grid(S[r.a], r.b);
  else if (r.kind == 5) transforms(S[r.a]);
  else if (r.kind == 6) validity(r.a);
  else if (r.kind == 7) allsides(r.a);
  else if (r.kind == 8) listing(S[r.a]);
  else { rNd_poly *p = np(0); p->nverts = p->nfaces = 0; double m = 5; rNd_reduce(p, &m, 0); if (m != 0) mc::fail("empty polytope has volume %g", m); rNd_plane pl; for (int j = 0; j < ND; ++j) pl.n.xyz[j] = 0.5; pl.d = 1; status_of(rNd_clip, p, &pl, 1); if (p->nverts != 0) mc::fail("clipping the empty polytope made it non-empty"); mc::trans(2); }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
