// lib.h - glue to the library under test (public headers only) and independent structural validators.
#pragma once
extern "C" {
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
}
#include "mc.h"
#include "shapes.h"
#include <limits>

// functions that report a status do so by returning int; tolerate void ones
template <class F, class... A> static auto status_of(F f, A... a) -> typename std::enable_if<!std::is_void<decltype(f(a...))>::value, int>::type { return (int)f(a...); }
template <class F, class... A> static auto status_of(F f, A... a) -> typename std::enable_if<std::is_void<decltype(f(a...))>::value, int>::type { f(a...); return -1; }

static r2d_plane P2(const DP<2> &p) { r2d_plane q; q.n.x = p.n[0]; q.n.y = p.n[1]; q.d = p.d; return q; }
static r3d_plane P3(const DP<3> &p) { r3d_plane q; q.n.x = p.n[0]; q.n.y = p.n[1]; q.n.z = p.n[2]; q.d = p.d; return q; }
static rNd_plane P4(const DP<4> &p) { rNd_plane q; for (int i = 0; i < RND_DIM; ++i) q.n.xyz[i] = p.n[i]; q.d = p.d; return q; }

// copy only the live part, poison the rest: stale data must never matter
static void poison(r2d_poly *p, int from = -1) { if (from < 0) from = p->nverts < 0 ? 0 : p->nverts; for (int i = from; i < R2D_MAX_VERTS; ++i) { p->verts[i].pnbrs[0] = p->verts[i].pnbrs[1] = 0x7ff00000 + i; p->verts[i].pos.x = p->verts[i].pos.y = NAN; } }
static void poison(r3d_poly *p, int from = -1) { if (from < 0) from = p->nverts < 0 ? 0 : p->nverts; for (int i = from; i < R3D_MAX_VERTS; ++i) { for (int k = 0; k < 3; ++k) { p->verts[i].pnbrs[k] = 0x7ff00000 + i; p->verts[i].pos.xyz[k] = NAN; } } }
static void poison_some(r3d_poly *p, int n) { int a = p->nverts < 0 ? 0 : p->nverts; for (int i = a; i < R3D_MAX_VERTS && i < a + n; ++i) { for (int k = 0; k < 3; ++k) { p->verts[i].pnbrs[k] = 0x7ff00000 + i; p->verts[i].pos.xyz[k] = NAN; } } }
static void poison_some(r2d_poly *p, int n) { int a = p->nverts < 0 ? 0 : p->nverts; for (int i = a; i < R2D_MAX_VERTS && i < a + n; ++i) { p->verts[i].pnbrs[0] = p->verts[i].pnbrs[1] = 0x7ff00000 + i; p->verts[i].pos.x = p->verts[i].pos.y = NAN; } }
template <class P> static P *newpoly() { P *p = (P *)malloc(sizeof(P)); memset((void *)p, 0x7b, sizeof(P)); p->nverts = 0; return p; }
template <class P> static void cp(P *dst, const P *src) { if (src->nverts > 0) memcpy((void *)dst->verts, (const void *)src->verts, sizeof(src->verts[0]) * src->nverts); dst->nverts = src->nverts; poison_some(dst, 48); }
static void cp(rNd_poly *dst, const rNd_poly *src) { if (src->nverts > 0) memcpy((void *)dst->verts, (const void *)src->verts, sizeof(src->verts[0]) * src->nverts); dst->nverts = src->nverts; dst->nfaces = src->nfaces; }
// hash of the live fields (padding inside the vertex structure is not part of the object)
template <class P> static uint64_t hpoly(const P *p, uint64_t seed = 7) {
  uint64_t h = mc::hash_bytes(&p->nverts, sizeof p->nverts, seed);
  for (int i = 0; i < p->nverts; ++i) { h = mc::hash_bytes(&p->verts[i].pnbrs, sizeof p->verts[i].pnbrs, h); h = mc::hash_bytes(&p->verts[i].pos, sizeof p->verts[i].pos, h); }
  return h;
}

static std::string dump(const r3d_poly *p) { std::string s = mc::strf("nverts=%d", p->nverts); for (int i = 0; i < p->nverts && i < 24; ++i) s += mc::strf(" [%d:(%.6g,%.6g,%.6g)->%d,%d,%d]", i, p->verts[i].pos.x, p->verts[i].pos.y, p->verts[i].pos.z, p->verts[i].pnbrs[0], p->verts[i].pnbrs[1], p->verts[i].pnbrs[2]); return s; }
static std::string dump(const r2d_poly *p) { std::string s = mc::strf("nverts=%d", p->nverts); for (int i = 0; i < p->nverts && i < 30; ++i) s += mc::strf(" [%d:(%.6g,%.6g)->%d,%d]", i, p->verts[i].pos.x, p->verts[i].pos.y, p->verts[i].pnbrs[0], p->verts[i].pnbrs[1]); return s; }

// --- independent structural validators; return "" when well-formed ---
static std::string bad2(const r2d_poly *p) {
  if (p->nverts < 0 || p->nverts > R2D_MAX_VERTS) return mc::strf("vertex count %d out of range", p->nverts);
  for (int v = 0; v < p->nverts; ++v) {
    for (int k = 0; k < 2; ++k) {
      int w = p->verts[v].pnbrs[k]; if (w < 0 || w >= p->nverts) return mc::strf("vertex %d link %d = %d out of range", v, k, w);
      if (p->verts[w].pnbrs[1 - k] != v) return mc::strf("vertex %d link %d = %d is not mutual", v, k, w);
      if (w == v) return mc::strf("vertex %d linked to itself", v);
      if (!(fabs(p->verts[v].pos.xy[k]) < 1e200)) return mc::strf("vertex %d not finite", v);
    }
  }
  return "";
}
static std::string bad3(const r3d_poly *p) {
  if (p->nverts < 0 || p->nverts > R3D_MAX_VERTS) return mc::strf("vertex count %d out of range", p->nverts);
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 3; ++k) {
    int w = p->verts[v].pnbrs[k]; if (w < 0 || w >= p->nverts) return mc::strf("vertex %d link %d = %d out of range", v, k, w);
    if (w == v) return mc::strf("vertex %d linked to itself", v);
    int c = 0, b = 0; for (int j = 0; j < 3; ++j) { c += p->verts[w].pnbrs[j] == v; b += p->verts[v].pnbrs[j] == w; }
    if (b != 1) return mc::strf("vertex %d linked to %d more than once", v, w);
    if (c != 1) return mc::strf("link %d->%d answered %d times", v, w, c);
    if (!(fabs(p->verts[v].pos.xyz[k]) < 1e200)) return mc::strf("vertex %d not finite", v);
  }
  // every directed edge lies on exactly one closed face loop; Euler characteristic is even and <= 2 per component
  int n = p->nverts; std::vector<char> m(3 * n, 0); std::vector<int> comp(n, -1); int nc = 0, F = 0;
  for (int v = 0; v < n; ++v) if (comp[v] < 0) { std::vector<int> st{v}; comp[v] = nc; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int k = 0; k < 3; ++k) { int w = p->verts[u].pnbrs[k]; if (comp[w] < 0) { comp[w] = nc; st.push_back(w); } } } ++nc; }
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (!m[3 * v + k]) {
    int u = v, e = k, len = 0; ++F;
    while (!m[3 * u + e]) { m[3 * u + e] = 1; ++len; int w = p->verts[u].pnbrs[e], j = 0; while (p->verts[w].pnbrs[j] != u) ++j; u = w; e = (j + 1) % 3; }
    if (u != v || e != k) return "face loop does not close";
    if (len < 3) return mc::strf("face with %d edges", len);
  }
  int chi = n - 3 * n / 2 + F; if (n % 2) return "odd number of 3-valent vertices";
  if (chi > 2 * nc || (chi & 1)) return mc::strf("impossible Euler characteristic %d for %d components", chi, nc);
  return "";
}
// --- region described by an implementation object (orientation convention of the data structure) ---
static Region<2> region_of(const r2d_poly *p) {
  Region<2> R; L o[2] = {0, 0}; int n = p->nverts; if (n <= 0) return R;
  for (int v = 0; v < n; ++v) for (int j = 0; j < 2; ++j) o[j] += (L)p->verts[v].pos.xy[j] / n;
  for (int v = 0; v < n; ++v) { int w = p->verts[v].pnbrs[0]; Simp<2> s; for (int j = 0; j < 2; ++j) { s.v[0][j] = o[j]; s.v[1][j] = p->verts[v].pos.xy[j]; s.v[2][j] = p->verts[w].pos.xy[j]; } L d = sdet<2>(s); if (d == 0) continue; s.sg = d > 0 ? 1 : -1; R.push_back(s); }
  return R;
}
static Region<3> region_of(const r3d_poly *p) {
  Region<3> R; L o[3] = {0, 0, 0}; int n = p->nverts; if (n <= 0) return R;
  for (int v = 0; v < n; ++v) for (int j = 0; j < 3; ++j) o[j] += (L)p->verts[v].pos.xyz[j] / n;
  std::vector<char> m(3 * n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (!m[3 * v + k]) {
    int u = v, e = k; std::vector<int> f;
    while (!m[3 * u + e]) { m[3 * u + e] = 1; f.push_back(u); int w = p->verts[u].pnbrs[e], j = 0; while (j < 3 && p->verts[w].pnbrs[j] != u) ++j; if (j == 3) break; u = w; e = (j + 2) % 3; }
    for (size_t i = 1; i + 1 < f.size(); ++i) { Simp<3> s; for (int j = 0; j < 3; ++j) { s.v[0][j] = o[j]; s.v[1][j] = p->verts[f[0]].pos.xyz[j]; s.v[2][j] = p->verts[f[i]].pos.xyz[j]; s.v[3][j] = p->verts[f[i + 1]].pos.xyz[j]; } L d = sdet<3>(s); if (d == 0) continue; s.sg = d > 0 ? 1 : -1; R.push_back(s); }
  }
  return R;
}
// --- scale-aware comparison of moment vectors (order <= ord), D dims ---
struct Scale { L R, V; }; // max |coordinate|, total measure scale
template <int D> static bool close_moments(const L *a, const L *b, int ord, Scale s, L rel, int *which = 0) {
  static std::vector<std::array<int, D>> ex[64]; if (ex[ord].empty()) ex[ord] = exps<D>(ord);
  L pw[64]; pw[0] = 1; for (int i = 1; i <= ord; ++i) pw[i] = pw[i - 1] * s.R;
  for (size_t m = 0; m < ex[ord].size(); ++m) { int k = 0; for (int j = 0; j < D; ++j) k += ex[ord][m][j]; L t = rel * s.V * pw[k]; if (!(fabsl(a[m] - b[m]) <= t)) { if (which) *which = (int)m; return false; } }
  return true;
}
// build library objects from shapes
static void make2(r2d_poly *p, const Shape2 &s) { // loops are linked by hand so that holes and several pieces are possible
  memset((void *)p, 0x7b, sizeof *p); int n = 0;
  for (auto &l : s.loops) { int k = (int)l.size(), o = n; for (int i = 0; i < k; ++i, ++n) { p->verts[n].pos.x = l[i][0]; p->verts[n].pos.y = l[i][1]; p->verts[n].pnbrs[0] = o + (i + 1) % k; p->verts[n].pnbrs[1] = o + (i + k - 1) % k; } }
  p->nverts = n; poison(p);
}
struct Desc3 { std::vector<r3d_rvec3> V; std::vector<std::vector<r3d_int>> f; std::vector<r3d_int *> fp; std::vector<r3d_int> nf; };
static Desc3 desc3(const Shape3 &s) {
  Desc3 d; for (auto &p : s.V) { r3d_rvec3 q; q.x = p[0]; q.y = p[1]; q.z = p[2]; d.V.push_back(q); }
  for (auto &f : s.F) { d.f.emplace_back(f.begin(), f.end()); d.nf.push_back((r3d_int)f.size()); }
  for (auto &f : d.f) d.fp.push_back(f.data()); return d;
}
static int make3(r3d_poly *p, const Shape3 &s) {
  memset((void *)p, 0x7b, sizeof *p); Desc3 d = desc3(s);
  int r = r3d_init_poly(p, d.V.data(), (r3d_int)d.V.size(), d.fp.data(), d.nf.data(), (r3d_int)d.nf.size());
  if (p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS) poison(p); return r;
}
