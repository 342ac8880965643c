// fourd.h - independent model of convex 4D polytopes: facets as half-spaces, vertices by enumerating all 4-subsets
#pragma once
#include "lib.h"
typedef std::array<L, 4> V4;
struct HV { V4 p; int f[4]; };
struct HPoly { std::vector<Plane<4>> F; };
static L ev(const Plane<4> &h, const V4 &x) { L t = h.d; for (int j = 0; j < 4; ++j) t += h.n[j] * x[j]; return t; }
static Plane<4> unitp(Plane<4> h) { L l = 0; for (int j = 0; j < 4; ++j) l += h.n[j] * h.n[j]; l = sqrtl(l); for (int j = 0; j < 4; ++j) h.n[j] /= l; h.d /= l; return h; }
static bool solve4(const Plane<4> *h[4], V4 &x, L &cond) {
  L a[4][5]; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) a[i][j] = h[i]->n[j]; a[i][4] = -h[i]->d; } cond = 1;
  for (int c = 0; c < 4; ++c) { int p = c; for (int i = c + 1; i < 4; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; if (fabsl(a[p][c]) < 1e-12L) return false; if (p != c) for (int j = 0; j < 5; ++j) std::swap(a[p][j], a[c][j]); cond *= fabsl(a[c][c]); for (int i = 0; i < 4; ++i) if (i != c) { L f = a[i][c] / a[c][c]; for (int j = c; j < 5; ++j) a[i][j] -= f * a[c][j]; } }
  for (int i = 0; i < 4; ++i) x[i] = a[i][4] / a[i][i]; return true;
}
// false: not in general position (some vertex within margin of a facet it does not define, or ill conditioned)
static bool enumerate(const HPoly &H, L margin, std::vector<HV> &out) {
  out.clear(); int n = (int)H.F.size();
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) for (int d = c + 1; d < n; ++d) {
    const Plane<4> *h[4] = {&H.F[a], &H.F[b], &H.F[c], &H.F[d]}; HV v; L cond; if (!solve4(h, v.p, cond)) continue; bool in = true, near = false;
    for (int k = 0; k < n && in; ++k) { if (k == a || k == b || k == c || k == d) continue; L t = ev(H.F[k], v.p); if (t < -margin) in = false; else if (t <= margin) near = true; }
    if (!in) continue; if (near || cond < 1e-5L) return false; v.f[0] = a; v.f[1] = b; v.f[2] = c; v.f[3] = d; out.push_back(v);
  }
  return true;
}
// no point of H where five or more of the facets and cutting planes (nearly) meet
static bool general_position(const HPoly &H, const std::vector<Plane<4>> &G, L margin) {
  std::vector<Plane<4>> A = H.F; A.insert(A.end(), G.begin(), G.end()); int n = (int)A.size(), m = (int)H.F.size();
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) for (int d = c + 1; d < n; ++d) {
    const Plane<4> *h[4] = {&A[a], &A[b], &A[c], &A[d]}; V4 x; L cond; if (!solve4(h, x, cond)) continue; bool in = true, near = false;
    for (int k = 0; k < n && in; ++k) { if (k == a || k == b || k == c || k == d) continue; L t = ev(A[k], x); if (k < m && t < -margin) in = false; else if (fabsl(t) <= margin) near = true; }
    if (in && (near || cond < 1e-5L)) return false;
  }
  return true;
}
static int shared_f(const HV &a, const HV &b) { int s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += a.f[i] == b.f[j]; return s; }
static std::string dump(const rNd_poly *p) { std::string s = mc::strf("nverts=%d", p->nverts); for (int i = 0; i < p->nverts && i < 20; ++i) s += mc::strf(" [%d:(%.5g,%.5g,%.5g,%.5g)->%d,%d,%d,%d]", i, p->verts[i].pos.xyz[0], p->verts[i].pos.xyz[1], p->verts[i].pos.xyz[2], p->verts[i].pos.xyz[3], p->verts[i].pnbrs[0], p->verts[i].pnbrs[1], p->verts[i].pnbrs[2], p->verts[i].pnbrs[3]); return s; }
static std::string bad4(const rNd_poly *p) {
  if (p->nverts < 0 || p->nverts > RND_MAX_VERTS) return mc::strf("vertex count %d", p->nverts);
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 4; ++k) { int w = p->verts[v].pnbrs[k]; if (w < 0 || w >= p->nverts || w == v) return mc::strf("vertex %d link %d = %d", v, k, w); int c = 0; for (int j = 0; j < 4; ++j) { c += p->verts[w].pnbrs[j] == v; if (j < k && p->verts[v].pnbrs[j] == w) return mc::strf("vertex %d linked twice to %d", v, w); } if (c != 1) return mc::strf("link %d->%d is not mutual", v, w); if (!std::isfinite(p->verts[v].pos.xyz[k])) return mc::strf("vertex %d not finite", v); }
  return "";
}
// compare implementation with the enumerated model: vertices one to one, edges exactly the pairs sharing three facets
static std::string differs4(const rNd_poly *p, const std::vector<HV> &M, L tol) {
  std::string b = bad4(p); if (!b.empty()) return "malformed: " + b + "; " + dump(p); mc::compared();
  if (p->nverts != (int)M.size()) return mc::strf("%d vertices, the exact intersection has %zu; ", p->nverts, M.size()) + dump(p);
  std::vector<int> map(p->nverts, -1); std::vector<char> used(M.size(), 0);
  for (int v = 0; v < p->nverts; ++v) { L best = 1e300L; int bi = -1; for (size_t i = 0; i < M.size(); ++i) { L d = 0; for (int j = 0; j < 4; ++j) d = std::max(d, fabsl(M[i].p[j] - p->verts[v].pos.xyz[j])); if (d < best) { best = d; bi = (int)i; } } if (!(best <= tol)) return mc::strf("vertex %d is %Lg away from every vertex of the exact intersection; ", v, best) + dump(p); if (used[bi]++) return mc::strf("vertex %d duplicates another; ", v) + dump(p); map[v] = bi; }
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 4; ++k) if (shared_f(M[map[v]], M[map[p->verts[v].pnbrs[k]]]) != 3) return mc::strf("link %d-%d is not an edge of the exact intersection; ", v, p->verts[v].pnbrs[k]) + dump(p);
  return "";
}
static uint64_t hpoly4(const rNd_poly *p, uint64_t seed = 7) { uint64_t h = mc::hash_bytes(&p->nverts, sizeof p->nverts, seed); h = mc::hash_bytes(&p->nfaces, sizeof p->nfaces, h); for (int v = 0; v < p->nverts; ++v) { h = mc::hash_bytes(p->verts[v].pnbrs, sizeof p->verts[v].pnbrs, h); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) h = mc::hash_bytes(&p->verts[v].finds[i][j], sizeof p->verts[v].finds[i][j], h); h = mc::hash_bytes(&p->verts[v].pos, sizeof p->verts[v].pos, h); } return h; }
// ---- seeds ----
struct Seed4 { std::string name; bool box; std::vector<std::array<double, 4>> v; HPoly H; Region<4> R; L size, big; };
static Seed4 seed_simplex(const std::string &nm, std::vector<std::array<double, 4>> v) {
  Seed4 s; s.name = nm; s.box = false; s.v = v; Simp<4> t; for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) t.v[i][j] = v[i][j]; t.sg = 1; s.R = {t};
  for (int o = 0; o < 5; ++o) { // facet opposite vertex o: generalised cross product
    L e[3][4]; int q[4], n = 0; for (int i = 0; i < 5; ++i) if (i != o) q[n++] = i; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) e[i][j] = (L)v[q[i + 1]][j] - v[q[0]][j];
    Plane<4> h; for (int j = 0; j < 4; ++j) { L a[3][3]; for (int i = 0; i < 3; ++i) { int c = 0; for (int k = 0; k < 4; ++k) if (k != j) a[i][c++] = e[i][k]; } h.n[j] = det<3>(a) * (j % 2 ? -1 : 1); } h.d = 0; for (int j = 0; j < 4; ++j) h.d -= h.n[j] * v[q[0]][j]; V4 x; for (int j = 0; j < 4; ++j) x[j] = v[o][j]; if (ev(h, x) < 0) h = flip<4>(h); s.H.F.push_back(unitp(h)); }
  return s;
}
static Seed4 seed_box(const std::string &nm, std::array<double, 4> lo, std::array<double, 4> hi) {
  Seed4 s; s.name = nm; s.box = true; s.v = {lo, hi}; L a[4], b[4]; for (int j = 0; j < 4; ++j) { a[j] = lo[j]; b[j] = hi[j]; for (int k = 0; k < 2; ++k) { Plane<4> h; for (int i = 0; i < 4; ++i) h.n[i] = 0; h.n[j] = k ? -1 : 1; h.d = k ? (L)hi[j] : -(L)lo[j]; s.H.F.push_back(h); } } s.R = region_box<4>(a, b); return s;
}
static void finish(Seed4 &s) { s.big = maxabs<4>(s.R); s.size = 0; for (int j = 0; j < 4; ++j) { L lo = 1e300L, hi = -1e300L; for (auto &t : s.R) for (int i = 0; i < 5; ++i) { lo = std::min(lo, t.v[i][j]); hi = std::max(hi, t.v[i][j]); } s.size = std::max(s.size, hi - lo); } }
static std::vector<Seed4> seeds4(int tier) {
  std::vector<std::vector<std::array<double, 4>>> X = {{{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}, {{0.31, 0.67, -0.52, 0.43}, {-0.71, 0.23, 0.59, -0.37}, {0.17, -0.83, 0.29, 0.61}, {-0.47, -0.39, -0.77, 0.13}, {0.93, 0.11, 0.19, -0.73}}, {{2, 1, 0, -1}, {-1, 2, 1, 0}, {0, -1, 2.5, 1}, {1.5, 0, -1, 2}, {-1, -1, -1, -2}}};
  std::vector<Seed4> S; S.push_back(seed_simplex("unit simplex", X[0])); S.push_back(seed_simplex("generic simplex", X[1])); S.push_back(seed_simplex("skew simplex", X[2])); { auto v = X[1]; std::reverse(v.begin(), v.end()); std::swap(v[1], v[2]); S.push_back(seed_simplex("generic simplex reordered", v)); }
  S.push_back(seed_box("unit box", {0, 0, 0, 0}, {1, 1, 1, 1})); S.push_back(seed_box("oblong box", {-1, 0.5, -2, 3}, {2, 1.25, -0.5, 5})); 
  { auto v = X[2]; for (auto &p : v) for (int j = 0; j < 4; ++j) p[j] = p[j] * 1e-3 + 0.25 * j; S.push_back(seed_simplex("small simplex", v)); } { auto v = X[1]; for (auto &p : v) for (int j = 0; j < 4; ++j) p[j] = p[j] * 4096 - 1000 * j; S.push_back(seed_simplex("large simplex", v)); }
  for (double sc : {0x1p-50, 0x1p40}) { auto v = X[1]; for (auto &p : v) for (int j = 0; j < 4; ++j) p[j] *= sc; S.push_back(seed_simplex(sc < 1 ? "minute simplex" : "enormous simplex", v)); S.push_back(seed_box(sc < 1 ? "minute box" : "enormous box", {-sc, 0.5 * sc, -2 * sc, 3 * sc}, {2 * sc, 1.25 * sc, -0.5 * sc, 5 * sc})); }
  S.push_back(seed_box("far box", {100, -200, 50, 7}, {101, -198.5, 50.75, 8.25})); { const double o[4] = {1234567.375, -1876543.125, 567890.625, 765432.875}; auto v = X[1]; for (auto &p : v) for (int j = 0; j < 4; ++j) p[j] += o[j]; S.push_back(seed_simplex("simplex a million sizes away", v)); } if (tier) { auto v = X[0]; for (auto &p : v) for (int j = 0; j < 4; ++j) p[j] = p[j] * (1 + j) - 0.3 * j; S.push_back(seed_simplex("stretched simplex", v)); std::rotate(v.begin(), v.begin() + 2, v.end()); S.push_back(seed_simplex("stretched simplex rotated", v)); S.push_back(seed_box("flat box", {0, 0, 0, 0}, {8, 4, 2, 0.25})); }
  for (auto &s : S) finish(s); return S;
}
static void make4(rNd_poly *p, const Seed4 &s) { memset((void *)p, 0x7b, sizeof *p); rNd_rvec v[5]; for (size_t i = 0; i < s.v.size(); ++i) for (int j = 0; j < 4; ++j) v[i].xyz[j] = s.v[i][j]; if (s.box) rNd_init_box(p, v); else rNd_init_simplex(p, v); }
static L tol4(const Seed4 &s) { return 1e-9L * s.size + 1e-11L * s.big; }
static std::vector<DP<4>> planes4(const Seed4 &s, int nlat, int stride) { // generic normals and some lattice normals, never incident with the seed
  std::vector<std::array<double, 4>> P; if (s.box) { for (int k = 0; k < 16; ++k) { std::array<double, 4> q; for (int j = 0; j < 4; ++j) q[j] = s.v[(k >> j) & 1][j]; P.push_back(q); } } else P = s.v;
  auto N = generic_normals<4>(); { auto l = lattice_normals<4>(); for (int i = 0; i < nlat; ++i) N.push_back(l[(size_t)(i * 31 + 7) % l.size()]); } for (int j = 0; j < 4; ++j) { std::array<double, 4> n = {0, 0, 0, 0}; n[j] = j % 2 ? -1 : 1; N.push_back(n); }
  std::vector<DP<4>> R; int c = 0; for (size_t k = 0; k < N.size(); ++k) { double lo = 1e300, hi = -1e300; for (auto &p : P) { double t = 0; for (int j = 0; j < 4; ++j) t += N[k][j] * p[j]; lo = std::min(lo, t); hi = std::max(hi, t); } for (double f : {0.23, 0.48, 0.77, -0.2, 1.15}) { double fr = f + 0.013 * (k % 5); for (int sg = 0; sg < 2; ++sg) { DP<4> p; for (int j = 0; j < 4; ++j) p.n[j] = sg ? -N[k][j] : N[k][j]; double o = lo + fr * (hi - lo); p.d = sg ? o : -o; if (c++ % stride == 0) R.push_back(p); } } }
  return R;
}
// n hyperplanes tangent to a ball inside the seed, in generic directions
static inline std::vector<DP<4>> ball(const Seed4 &s, int n, int var) {
  V4 c; for (int j = 0; j < 4; ++j) { c[j] = 0; L k = 0; for (auto &t : s.R) for (int i = 0; i < 5; ++i) { c[j] += t.v[i][j]; k += 1; } c[j] /= k; } L r = 1e300L; for (auto &h : s.H.F) r = std::min(r, ev(h, c));
  std::vector<DP<4>> Q; for (int i = 0; i < n; ++i) { double a[4], l = 0; for (int j = 0; j < 4; ++j) { a[j] = sin(12.9898 * (i + 1) * (j + 1) + 4.1 * j * j + 1.7 * var + 0.3 * i * i); l += a[j] * a[j]; } l = sqrt(l); DP<4> p; L o = 0; for (int j = 0; j < 4; ++j) { p.n[j] = a[j] / l; o += (L)p.n[j] * c[j]; } p.d = (double)(r * (var % 2 ? 1.02L : 0.9L) - o); Q.push_back(p); }
  return Q;
}
// volume of a simple polytope from its vertices and their facets: every face coned from its first vertex
static inline L cone4(const std::vector<HV> &M, const std::vector<int> &in, int dim, int nf, V4 *apex) {
  auto on = [&](int v, int f) { for (int i = 0; i < 4; ++i) if (M[v].f[i] == f) return true; return false; };
  apex[4 - dim] = M[in[0]].p; if (dim == 0) { Simp<4> t; for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) t.v[i][j] = apex[i][j]; return svol<4>(t); }
  L s = 0; std::vector<int> sub; for (int f = 0; f < nf; ++f) { if (on(in[0], f)) continue; sub.clear(); for (int v : in) if (on(v, f)) sub.push_back(v); if ((int)sub.size() >= dim && sub.size() < in.size()) s += cone4(M, sub, dim - 1, nf, apex); } return s;
}
static inline L vol4(const std::vector<HV> &M) { if (M.size() < 5) return 0; int nf = 0; std::vector<int> in; for (size_t i = 0; i < M.size(); ++i) { in.push_back((int)i); for (int k = 0; k < 4; ++k) nf = std::max(nf, M[i].f[k] + 1); } V4 apex[5]; return cone4(M, in, 4, nf, apex); }
