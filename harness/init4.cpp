// C19: 4D initialisation, face labels and volume
#include "fourd.h"
const char *CHECK_ID = "C19";
struct CaseRef { int kind, a; }; static std::vector<CaseRef> CS; static int it = -1;
enum { NB = 7 };
static const double B[NB][2] = {{0, 1}, {-2.5, 0}, {-2, 3}, {-1.5, -1}, {10.25, 11}, {-0.75, 1.5}, {0.1, 0.6}};
static void init(int tier) { if (it == tier) return; it = tier; CS.clear(); for (int i = 0; i < 120; ++i) CS.push_back({0, i}); for (int i = 0; i < NB * NB; ++i) CS.push_back({1, i}); for (int i = 0; i < 256; ++i) if (tier || i % 4 == 1) CS.push_back({2, i}); CS.push_back({3, 0}); for (int i = 0; i < (int)seeds4(1).size(); ++i) CS.push_back({4, i}); }
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { return mc::strf("9 point sets in all 120 vertex orders; all nondegenerate ordered 5-tuples of {0,1}^4%s in 5 placements (sizes 2^-45 to 2^40); all boxes over 7 intervals per axis; the volume of every point set and box cut by 1 to 8, 13, 22, 38 and 54 hyperplanes tangent to a ball (up to a few hundred vertices); the empty polytope; several stale contents", tier ? "" : " (a quarter of the first two points)"); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d part %d", r.kind, r.a); }
static rNd_poly *gp(int k) { static rNd_poly *p[2]; if (!p[k]) p[k] = newpoly<rNd_poly>(); for (int i = 0; i < 40; ++i) memset((void *)&p[k]->verts[i], k ? 0xff : 0x7b, sizeof(rNd_vertex)); p[k]->nverts = p[k]->nfaces = k ? -1 : 0x7b7b7b7b; return p[k]; }
static void judge(const Seed4 &s, const char *w) {
  rNd_rvec v[5], v0[5]; memset(v, 0, sizeof v); for (size_t i = 0; i < s.v.size(); ++i) for (int j = 0; j < 4; ++j) v[i].xyz[j] = s.v[i][j]; memcpy(v0, v, sizeof v); rNd_poly *p = gp(0), *q = gp(1); mc::trans(); for (rNd_poly *x : {p, q}) { if (s.box) rNd_init_box(x, v); else rNd_init_simplex(x, v); } if (memcmp(v, v0, sizeof v)) mc::fail("%s: input altered", w);
  std::vector<HV> M; if (!enumerate(s.H, 1e-9L * s.size, M)) return; std::string d = differs4(p, M, 0); if (!d.empty()) { d = differs4(p, M, 1e-12L * (s.size + s.big)); if (!d.empty()) mc::fail("%s: %s", w, d.c_str()); }
  for (int i = 0; i < p->nverts; ++i) { bool f = false; if (s.box) { f = true; for (int j = 0; j < 4; ++j) f &= p->verts[i].pos.xyz[j] == s.v[0][j] || p->verts[i].pos.xyz[j] == s.v[1][j]; } else for (auto &x : s.v) { bool e = true; for (int j = 0; j < 4; ++j) e &= p->verts[i].pos.xyz[j] == x[j]; f |= e; } if (!f) mc::fail("%s: vertex %d is not one of the given positions", w, i); }
  // two-dimensional faces: symmetric, distinct labels around a vertex; walking a label closes a planar loop of the right length
  for (int a = 0; a < p->nverts; ++a) { std::vector<int> lab; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { int f = p->verts[a].finds[i][j]; if (f != p->verts[a].finds[j][i]) mc::fail("%s: face label %d,%d of vertex %d not symmetric", w, i, j, a); if (f < 0 || f >= p->nfaces) mc::fail("%s: face label %d of vertex %d outside 0..%d", w, f, a, p->nfaces - 1); lab.push_back(f); 
      int cur = p->verts[a].pnbrs[i], prev = a, len = 1; std::vector<int> loop{a}; while (cur != a && len < 10) { loop.push_back(cur); ++len; int back = -1, nx = -1; for (int k = 0; k < 4; ++k) if (p->verts[cur].pnbrs[k] == prev) back = k; for (int k = 0; k < 4; ++k) if (k != back && p->verts[cur].finds[back][k] == f) { if (nx >= 0) mc::fail("%s: face label %d ambiguous at vertex %d", w, f, cur); nx = k; } if (nx < 0) mc::fail("%s: face label %d of vertex %d not continued at vertex %d", w, f, a, cur); prev = cur; cur = p->verts[cur].pnbrs[nx]; }
      if (len != (s.box ? 4 : 3)) mc::fail("%s: face loop of label %d at vertex %d has length %d", w, f, a, len); if (prev != p->verts[a].pnbrs[j]) mc::fail("%s: face of links %d,%d at vertex %d does not return along link %d", w, i, j, a, j); }
    std::sort(lab.begin(), lab.end()); if (std::unique(lab.begin(), lab.end()) != lab.end()) mc::fail("%s: two faces at vertex %d share a label", w, a); }
  if (hpoly4(p) != hpoly4(q)) mc::fail("%s: depends on earlier contents", w);
  double m[2] = {NAN, 42}; uint64_t h0 = hpoly4(p); mc::trans(); rNd_reduce(p, m, 0); if (m[1] != 42) mc::fail("wrote past the zeroth moment"); if (hpoly4(p) != h0) mc::fail("integration altered the polytope"); L V = absvol<4>(s.R), t = 1e-11L * V + 3e-13L * powl(s.big + s.size, 4); mc::compared(); if (!(fabsl(m[0] - V) <= t)) mc::fail("%s: volume %.15g, exact %.15Lg", w, m[0], V); mc::state(h0);
}
// the volume of shapes with many vertices
static void cuts(const Seed4 &s) {
  for (int var = 0; var < (mc::tier ? 6 : 3); ++var) for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 13, 22, 38, 54}) { auto Q = ball(s, n, var); HPoly H = s.H; std::vector<HV> M; std::vector<rNd_plane> pl; bool ok = true; for (auto &d : Q) { H.F.push_back(unitp(toL(d))); pl.push_back(P4(d)); if (n <= 8 && !enumerate(H, 1e-5L * s.size, M)) ok = false; }
    mc::beat(); if (!ok || s.big > 50 * s.size || !enumerate(H, 1e-5L * s.size, M)) { mc::skipped(); continue; } L V = vol4(M); static rNd_poly *p = newpoly<rNd_poly>(); make4(p, s); std::string w = mc::strf("%s cut by %d hyperplanes, variant %d", s.name.c_str(), n, var); mc::path_s(w); if (status_of(rNd_clip, p, pl.data(), (rNd_int)n) == 0) mc::fail("%s: reported failure", w.c_str()); std::string d = differs4(p, M, tol4(s)); if (!d.empty()) { mc::skipped(); continue; } // C17
    double m[2] = {NAN, 42}; uint64_t h = hpoly4(p); mc::trans(); rNd_reduce(p, m, 0); if (m[1] != 42) mc::fail("wrote past the zeroth moment"); if (hpoly4(p) != h) mc::fail("integration altered the polytope"); mc::compared(); mc::state(h); if (!(fabsl(m[0] - V) <= 1e-8L * V + 1e-11L * powl(s.big + s.size, 4))) mc::fail("%s: volume %.15g of a polytope with %d vertices, expected %.15Lg", w.c_str(), m[0], p->nverts, V); }
}
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 0) { int id[5], k = r.a; std::vector<int> pool = {0, 1, 2, 3, 4}; for (int i = 0; i < 5; ++i) { int f[5] = {24, 6, 2, 1, 1}; id[i] = pool[k / f[i]]; pool.erase(pool.begin() + k / f[i]); k %= f[i]; } for (auto &s0 : seeds4(1)) if (!s0.box) { auto v = s0.v; for (int i = 0; i < 5; ++i) v[i] = s0.v[id[i]]; Seed4 s = seed_simplex(s0.name, v); finish(s); judge(s, mc::strf("%s order %d", s.name.c_str(), r.a).c_str()); } }
  else if (r.kind == 1) { for (int c = 0; c < NB; ++c) for (int d = 0; d < NB; ++d) { int id[4] = {r.a % NB, r.a / NB, c, d}; std::array<double, 4> lo, hi; for (int j = 0; j < 4; ++j) { lo[j] = B[id[j]][0]; hi[j] = B[id[j]][1]; } Seed4 s = seed_box("box", lo, hi); finish(s); judge(s, mc::strf("box %d %d %d %d", id[0], id[1], id[2], id[3]).c_str()); } for (double sc : {1e-4, 1e3, 0x1p-50, 0x1p45}) { std::array<double, 4> lo, hi; for (int j = 0; j < 4; ++j) { lo[j] = B[(r.a + j) % 6][0] * sc; hi[j] = B[(r.a + j) % 6][1] * sc; } Seed4 s = seed_box("box", lo, hi); finish(s); judge(s, "scaled box"); } }
  else if (r.kind == 2) { auto l = [](int i, int pl) { std::array<double, 4> p; for (int j = 0; j < 4; ++j) { p[j] = i >> j & 1; if (pl == 1) p[j] = 3 * p[j] - 1.7 + 0.1 * j; if (pl == 2) p[j] = 0.02 * p[j] + 0.5 * 0.02 * j; if (pl == 3) p[j] = 0x1p-45 * (p[j] * (1 + j) + 0.3); if (pl == 4) p[j] = 0x1p40 * (p[j] - 0.1 * j); } return p; }; for (int pl = 0; pl < 5; ++pl) for (int k = 0; k < 4096; ++k) { if (!mc::tier && (k * 7 + r.a) % 5) continue; std::vector<std::array<double, 4>> v = {l(r.a & 15, pl), l(r.a >> 4, pl), l(k & 15, pl), l(k >> 4 & 15, pl), l(k >> 8, pl)}; Simp<4> t; for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) t.v[i][j] = v[i][j]; L sz = 0; for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) sz = std::max(sz, fabsl(t.v[i][j] - t.v[0][j])); if (fabsl(sdet<4>(t)) <= 1e-6L * powl(sz, 4)) continue; Seed4 s = seed_simplex("lattice simplex", v); finish(s); judge(s, mc::strf("lattice simplex %d/%d placement %d", r.a, k, pl).c_str()); } }
  else if (r.kind == 4) { cuts(seeds4(1)[r.a]); }
  else { rNd_poly *p = gp(0); p->nverts = 0; p->nfaces = 0; double m = 5; rNd_reduce(p, &m, 0); mc::trans(); mc::compared(); if (m != 0) mc::fail("empty polytope has volume %g", m); rNd_plane pl; for (int j = 0; j < 4; ++j) pl.n.xyz[j] = 0.5; pl.d = 1; status_of(rNd_clip, p, &pl, 1); if (p->nverts != 0) mc::fail("clipping the empty polytope made it non-empty"); }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
