// C12: boundary representations. Allocation balance is counted through --wrap=malloc etc.
#include "dim.h"
#include <unordered_map>
const char *CHECK_ID = "C12";
static bool counting; static long live_blocks, nallocs; static void *blk[20000]; static size_t bsz[20000]; static int nblk; static bool badfree, overrun;
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static const size_t PAD = 64; // every block gets a guard zone behind it, looked at when it is released or moved and after each conversion
static void guard_(int i) { for (size_t k = 0; k < PAD; ++k) if (((unsigned char *)blk[i])[bsz[i] + k] != 0xc3) overrun = true; }
static void *add_(void *p, size_t n) { if (p) { memset((char *)p + n, 0xc3, PAD); if (nblk < 20000) { blk[nblk] = p; bsz[nblk++] = n; ++live_blocks; ++nallocs; } } return p; }
static bool del_(void *p) { for (int i = nblk - 1; i >= 0; --i) if (blk[i] == p) { guard_(i); blk[i] = blk[--nblk]; bsz[i] = bsz[nblk]; --live_blocks; return true; } return false; }
void *__wrap_malloc(size_t n) { if (!counting) return __real_malloc(n); void *p = __real_malloc(n + PAD); if (p) memset(p, 0xa5, n); return add_(p, n); }
void *__wrap_calloc(size_t a, size_t b) { if (!counting) return __real_calloc(a, b); return add_(__real_calloc(1, a * b + PAD), a * b); }
void *__wrap_realloc(void *q, size_t n) { if (!counting) return __real_realloc(q, n); if (q && !del_(q)) badfree = true; return add_(__real_realloc(q, n + PAD), n); }
void __wrap_free(void *p) { if (counting && p && !del_(p)) badfree = true; __real_free(p); } }
static std::vector<Seed<3>> S; static int it = -1, dep; struct CaseRef { int seed, idx; }; static std::vector<CaseRef> CS; static std::vector<std::vector<DP<3>>> GP;
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); GP.clear(); S = seeds<3>(tier ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6, 7, 9, 10}, 3, 5); dep = tier ? 3 : 2;
  for (int s = 0; s < (int)S.size(); ++s) { // general-position planes only
    std::vector<DP<3>> g; auto P = S[s].shape.V; auto all = planes_for<3>(P, 5, true, true);
    for (auto &p : all) { bool ok = true; L lo = 1e300L, hi = -1e300L; for (auto &v : P) { L t = p.d; for (int j = 0; j < 3; ++j) t += (L)p.n[j] * v[j]; if (fabsl(t) < 1e-5L * S[s].size) ok = false; lo = std::min(lo, t); hi = std::max(hi, t); } if (ok && lo < 0 && hi > 0) g.push_back(p); }
    if (g.size() > (size_t)(tier ? 40 : 26)) { std::vector<DP<3>> h; size_t m = tier ? 40 : 26; for (size_t i = 0; i < m; ++i) h.push_back(g[i * g.size() / m]); g = h; }
    GP.push_back(g); CS.push_back({s, -1}); for (int i = 0; i < (int)g.size(); ++i) CS.push_back({s, i});
  }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu seed placements (all valences, holes, cavities, several pieces), each alone and after all sequences of up to %d general-position clips from a family of up to %zu planes, plus the empty polyhedron and shapes filling the buffer", S.size(), dep, GP[0].size()); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("seed %s first plane %s", S[r.seed].name.c_str(), r.idx < 0 ? "none" : pstr<3>(GP[r.seed][r.idx]).c_str()); }
static void judge(r3d_poly *p, L size, L big) {
  int n = p->nverts; uint64_t h0 = hpoly(p); Region<3> R = region_of(p);
  std::vector<int> comp(n, -1); int nc = 0; for (int v = 0; v < n; ++v) if (comp[v] < 0) { std::vector<int> st{v}; comp[v] = nc; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int k = 0; k < 3; ++k) { int w = p->verts[u].pnbrs[k]; if (comp[w] < 0) { comp[w] = nc; st.push_back(w); } } } ++nc; }
  r3d_brep *br = (r3d_brep *)(uintptr_t)0xdeadbeef; r3d_int k = -77; mc::trans();
  nblk = 0; live_blocks = 0; nallocs = 0; badfree = overrun = false; counting = true; r3d_init_brep(p, &br, &k); counting = false; mc::compared();
  if (hpoly(p) != h0) mc::fail("the polyhedron was altered"); for (int i = 0; i < nblk; ++i) guard_(i); if (overrun) mc::fail("wrote past the end of an allocated block");
  if (k != nc) mc::fail("%d components reported, the polyhedron has %d", k, nc);
  std::vector<std::vector<std::array<double, 3>>> want(nc); for (int v = 0; v < n; ++v) want[comp[v]].push_back({p->verts[v].pos.x, p->verts[v].pos.y, p->verts[v].pos.z});
  for (auto &w : want) { std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); }
  std::vector<char> used(nc, 0); Region<3> RB; Region<3> RT;
  for (int c = 0; c < nc; ++c) {
    r3d_brep &b = br[c]; std::vector<std::array<double, 3>> V; if (b.numvertices < 0 || b.numvertices > n) mc::fail("component %d has %d vertices", c, b.numvertices); for (int v = 0; v < b.numvertices; ++v) V.push_back({b.vertices[v].x, b.vertices[v].y, b.vertices[v].z});
    auto W = V; std::sort(W.begin(), W.end()); int m = -1; for (int q = 0; q < nc; ++q) if (!used[q] && want[q] == W) { m = q; break; } if (m < 0) mc::fail("component %d does not list each distinct vertex of a connected piece exactly once (%d vertices); %s", c, b.numvertices, dump(p).c_str()); used[m] = 1;
    std::map<std::pair<int, int>, int> E; std::vector<std::vector<int>> F; std::vector<std::array<L, 3>> VL; for (auto &x : V) VL.push_back({x[0], x[1], x[2]}); std::vector<int> val(V.size(), 0);
    for (int f = 0; f < b.numfaces; ++f) { int q = b.numvertsperface[f]; if (q < 3) mc::fail("component %d face %d has %d vertices; %s", c, f, q, dump(p).c_str()); std::vector<int> l; for (int i = 0; i < q; ++i) { int a = b.faceinds[f][i]; if (a < 0 || a >= b.numvertices) mc::fail("component %d face %d index %d out of range", c, f, a); l.push_back(a); ++val[a]; } for (int i = 0; i < q; ++i) { if (l[i] == l[(i + 1) % q]) mc::fail("repeated vertex in a face"); ++E[{l[i], l[(i + 1) % q]}]; } F.push_back(l); }
    for (auto &e : E) { if (e.second != 1) mc::fail("component %d: directed edge %d-%d used %d times", c, e.first.first, e.first.second, e.second); if (!E.count({e.first.second, e.first.first})) mc::fail("component %d: edge %d-%d is not matched in the other direction", c, e.first.first, e.first.second); }
    auto q = region_from_faces(VL, F); for (auto &s : q) RB.push_back(s);
    static r3d_poly *t = newpoly<r3d_poly>(); memset((void *)t, 0x7b, sizeof *t); int st = r3d_init_poly(t, b.vertices, b.numvertices, b.faceinds, b.numvertsperface, b.numfaces); if (!st) { int tot = 0; for (int x : val) tot += x; if (tot <= R3D_MAX_VERTS) mc::fail("the representation of component %d is refused by r3d_init_poly", c); else { for (auto &s : q) RT.push_back(s); } }
    else { std::string e = bad3(t); if (!e.empty()) mc::fail("round trip malformed: %s", e.c_str()); for (auto &s : region_of(t)) RT.push_back(s); }
  }
  std::array<L, 3> c0 = {0, 0, 0}; for (int v = 0; v < n; ++v) for (int j = 0; j < 3; ++j) c0[j] += (L)p->verts[v].pos.xyz[j] / n;
  auto a = lmom<3>(R, c0), b1 = lmom<3>(RB, c0), b2 = lmom<3>(RT, c0); int w; Scale sc{size * (1 + 1e-6L * big / size), size * size * size * (1 + 1e-5L * big / size)};
  if (!close_moments<3>(b1.data(), a.data(), 2, sc, 1e-10L, &w)) mc::fail("moment %d enclosed by the faces is %.15Lg, the polyhedron has %.15Lg; %s", w, b1[w], a[w], dump(p).c_str());
  if (!close_moments<3>(b2.data(), a.data(), 2, sc, 1e-10L, &w)) mc::fail("moment %d after the round trip is %.15Lg, the polyhedron has %.15Lg; %s", w, b2[w], a[w], dump(p).c_str());
  counting = true; r3d_free_brep(&br, k); counting = false;
  if (live_blocks) mc::fail("%ld of %ld allocated blocks not released", live_blocks, nallocs); if (overrun) mc::fail("wrote past the end of an allocated block"); if (badfree) mc::fail("released a block that was not allocated, or released it twice");
  mc::state(h0);
}
// distinct corners of the cut shape that fall on (nearly) the same point: outside the property's domain
static bool merged(const r3d_poly *p, const Seed<3> &s) {
  auto orig = [&](int v) { for (auto &q : s.shape.V) if (q[0] == p->verts[v].pos.x && q[1] == p->verts[v].pos.y && q[2] == p->verts[v].pos.z) return true; return false; };
  for (int a = 0; a < p->nverts; ++a) for (int b = a + 1; b < p->nverts; ++b) { L d = 0; for (int j = 0; j < 3; ++j) d = std::max(d, fabsl((L)p->verts[a].pos.xyz[j] - p->verts[b].pos.xyz[j])); if (d < 1e-6L * s.size && !(d == 0 && orig(a) && orig(b))) return true; }
  return false;
}
static r3d_poly *st_[6];
static void tree(int si, r3d_poly *p, int depth, int left, int first, std::vector<DP<3>> &hist) {
  auto &s = S[si]; auto &F = GP[si];
  for (int i = first >= 0 ? first : 0; i < (first >= 0 ? first + 1 : (int)F.size()); ++i) {
    bool ok = true; for (int v = 0; v < p->nverts && ok; ++v) { L t = F[i].d; for (int j = 0; j < 3; ++j) t += (L)F[i].n[j] * p->verts[v].pos.xyz[j]; if (fabsl(t) < 1e-6L * s.size) ok = false; } if (!ok) { mc::skipped(); continue; }
    cp(st_[depth], p); auto q = P3(F[i]); std::string tr = "seed " + s.name; for (auto &h : hist) tr += " | " + pstr<3>(h); tr += " | " + pstr<3>(F[i]); mc::path_s(tr); r3d_clip(st_[depth], &q, 1); if (!bad3(st_[depth]).empty()) continue;
    if (st_[depth]->nverts > 0 && !mc::state(hpoly(st_[depth], 50 + left))) continue;
    if (merged(st_[depth], s)) { mc::skipped(); continue; } // not in general position
    if (st_[depth]->nverts > 0) judge(st_[depth], s.size, maxabs<3>(s.R));
    hist.push_back(F[i]); if (left > 1 && st_[depth]->nverts > 0) tree(si, st_[depth], depth + 1, left - 1, -1, hist); hist.pop_back();
  }
}
void check_case(uint64_t cc) {
  for (auto &p : st_) if (!p) p = newpoly<r3d_poly>(); static r3d_poly *sp = newpoly<r3d_poly>(); CaseRef r = CS[cc]; Seed<3> &s = S[r.seed]; mc::path_s(check_describe(cc)); std::vector<DP<3>> hist;
  if (!make3(sp, s.shape)) mc::fail("seed initialisation failed"); if (!bad3(sp).empty()) mc::fail("malformed seed");
  if (r.idx < 0) { judge(sp, s.size, maxabs<3>(s.R));
    if (r.seed == 0) { mc::path("empty polyhedron"); sp->nverts = 0; r3d_brep *br = (r3d_brep *)1; r3d_int k = -5; nblk = 0; live_blocks = 0; badfree = overrun = false; counting = true; r3d_init_brep(sp, &br, &k); counting = false; mc::compared(); if (k != 0) mc::fail("empty polyhedron gives %d components", k); counting = true; r3d_free_brep(&br, k); counting = false; if (live_blocks || badfree) mc::fail("unbalanced allocation for the empty polyhedron");
      for (int n : {64, 128, 200, 255, 256}) { Shape3 b = prism("big", ngon(n, 3, 1, -2, 0.3), -1.5, 2.25, true); mc::path("prism over a %d-gon", n); if (!make3(sp, b)) mc::fail("refused"); judge(sp, 4, 6); }
      for (int n : {10, 40, 63, 64}) { std::vector<Shape3> v; for (int i = 0; i < n; ++i) v.push_back(boxs("", 3 * (i % 8), 3 * (i / 8), 0, 3 * (i % 8) + 1, 3 * (i / 8) + 2, 1 + i * 0.01)); Shape3 b = join("many", v); mc::path("%d boxes", n); if (!make3(sp, b)) mc::fail("refused"); judge(sp, 30, 30); }
      for (int n : {65, 100, 127, 128}) { std::vector<Shape3> v; for (int i = 0; i < n; ++i) { double x = 3 * (i % 12), y = 3 * (i / 12); Shape3 t; t.name = ""; t.V = {{x, y, 0}, {x + 1, y, 0.25}, {x, y + 2, 0.125}, {x + 0.25, y + 0.5, 1 + i * 0.01}}; t.F = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}; v.push_back(t); } Shape3 b = join("many", v); mc::path("%d tetrahedra", n); if (!make3(sp, b)) mc::fail("refused"); judge(sp, 36, 36); } }
  } else tree(r.seed, sp, 0, dep, r.idx, hist);
  if (cc % 197 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
