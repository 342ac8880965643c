// shapes.h - the seed shapes of the bounded exploration (small lattice coordinates) and plane families.
#pragma once
#include "ref.h"
#include <string>
#include <algorithm>
#include <set>
#include <map>

struct Shape3 { std::string name; std::vector<std::array<double, 3>> V; std::vector<std::vector<int>> F; bool convex; int ncomp; };
struct Shape2 { std::string name; std::vector<std::vector<std::array<double, 2>>> loops; bool convex; };

static Region<3> shape_region(const Shape3 &s) {
  std::vector<std::array<L, 3>> V; for (auto &p : s.V) V.push_back({p[0], p[1], p[2]}); return region_from_faces(V, s.F);
}
static Region<2> shape_region(const Shape2 &s) {
  std::vector<std::vector<std::array<L, 2>>> q; for (auto &l : s.loops) { q.emplace_back(); for (auto &p : l) q.back().push_back({p[0], p[1]}); } return region_from_loops(q);
}
static L signed_volume(const Shape3 &s) { L v = 0; for (auto &t : shape_region(s)) v += t.sg * svol<3>(t); return v; }
static void orient_out(Shape3 &s) { if (signed_volume(s) < 0) for (auto &f : s.F) std::reverse(f.begin(), f.end()); }
static Shape3 mk(const char *n, std::vector<std::array<double, 3>> V, std::vector<std::vector<int>> F, bool cv, int nc = 1) { Shape3 s{n, V, F, cv, nc}; orient_out(s); return s; }
typedef std::vector<std::array<double, 2>> Poly2;
static Shape3 prism(const char *n, const Poly2 &b, double z0, double z1, bool cv) {
  Shape3 s; s.name = n; s.convex = cv; s.ncomp = 1; int k = (int)b.size();
  for (auto &p : b) s.V.push_back({p[0], p[1], z0}); for (auto &p : b) s.V.push_back({p[0], p[1], z1});
  std::vector<int> bo, to; for (int i = 0; i < k; ++i) { bo.push_back(k - 1 - i); to.push_back(k + i); }
  s.F.push_back(bo); s.F.push_back(to);
  for (int i = 0; i < k; ++i) { int j = (i + 1) % k; s.F.push_back({i, j, k + j, k + i}); }
  orient_out(s); return s;
}
static Shape3 cone(const char *n, const Poly2 &b, double z0, std::array<double, 3> apex, bool cv) {
  Shape3 s; s.name = n; s.convex = cv; s.ncomp = 1; int k = (int)b.size();
  for (auto &p : b) s.V.push_back({p[0], p[1], z0}); s.V.push_back(apex);
  std::vector<int> bo; for (int i = 0; i < k; ++i) bo.push_back(k - 1 - i); s.F.push_back(bo);
  for (int i = 0; i < k; ++i) s.F.push_back({i, (i + 1) % k, k});
  orient_out(s); return s;
}
static Shape3 bicone(const char *n, const Poly2 &b, double z0, std::array<double, 3> up, std::array<double, 3> dn, bool cv) {
  Shape3 s; s.name = n; s.convex = cv; s.ncomp = 1; int k = (int)b.size();
  for (auto &p : b) s.V.push_back({p[0], p[1], z0}); s.V.push_back(up); s.V.push_back(dn);
  for (int i = 0; i < k; ++i) { int j = (i + 1) % k; s.F.push_back({i, j, k}); s.F.push_back({j, i, k + 1}); }
  orient_out(s); return s;
}
static Shape3 boxs(const char *n, double x0, double y0, double z0, double x1, double y1, double z1) { return prism(n, {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}, z0, z1, true); }
static Shape3 join(const char *n, std::vector<Shape3> ss, std::vector<int> inverted = {}) {
  Shape3 s; s.name = n; s.convex = false; s.ncomp = 0;
  for (size_t q = 0; q < ss.size(); ++q) {
    int o = (int)s.V.size(); for (auto &v : ss[q].V) s.V.push_back(v); s.ncomp += ss[q].ncomp;
    for (auto f : ss[q].F) { for (int &i : f) i += o; if (std::count(inverted.begin(), inverted.end(), (int)q)) std::reverse(f.begin(), f.end()); s.F.push_back(f); }
  }
  return s;
}
static Poly2 ngon(int n, double r, double cx, double cy, double ph = 0.1) { Poly2 p; for (int i = 0; i < n; ++i) { double a = ph + 2 * M_PI * i / n; p.push_back({cx + r * cos(a), cy + r * sin(a)}); } return p; }

static std::vector<Shape3> shapes3() {
  std::vector<Shape3> S;
  S.push_back(mk("tet", {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}, true));
  S.push_back(mk("skewtet", {{0, 0, 0}, {3, 1, 0}, {1, 3, 1}, {1, 0, 3}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}, true));
  S.push_back(boxs("cube", 0, 0, 0, 2, 2, 2));
  S.push_back(boxs("slab", -1, 0, 0, 3, 2, 1));
  S.push_back(bicone("octahedron", {{4, 2}, {2, 4}, {0, 2}, {2, 0}}, 2, {2, 2, 4}, {2, 2, 0}, true));
  S.push_back(cone("pyramid4", {{0, 0}, {2, 0}, {2, 2}, {0, 2}}, 0, {1, 1, 2}, true));
  S.push_back(bicone("hexbipyramid", {{4, 2}, {3, 4}, {1, 4}, {0, 2}, {1, 0}, {3, 0}}, 2, {2, 2, 4}, {2, 2, 0}, true));
  S.push_back(prism("triprism", {{0, 0}, {2, 0}, {0, 2}}, 0, 2, true));
  S.push_back(prism("Lprism", {{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}, 0, 2, false));
  S.push_back(prism("Uprism", {{0, 0}, {6, 0}, {6, 4}, {4, 4}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}, 0, 2, false));
  S.push_back(prism("starprism", {{6, 3}, {4, 4}, {3, 6}, {2, 4}, {0, 3}, {2, 2}, {3, 0}, {4, 2}}, 0, 2, false));
  S.push_back(join("twocubes", {boxs("", 0, 0, 0, 2, 2, 2), boxs("", 3, 1, 0, 5, 3, 2)}));
  S.push_back(join("cavity", {boxs("", 0, 0, 0, 4, 4, 4), boxs("", 1, 1, 1, 3, 3, 3)}, {1}));
  { // square frame: a torus with 16 vertices of valence 4
    Shape3 s; s.name = "frame"; s.convex = false; s.ncomp = 1;
    double o[4][2] = {{0, 0}, {6, 0}, {6, 6}, {0, 6}}, in[4][2] = {{2, 2}, {4, 2}, {4, 4}, {2, 4}};
    for (int z = 0; z < 2; ++z) for (int i = 0; i < 4; ++i) s.V.push_back({o[i][0], o[i][1], 2.0 * z});
    for (int z = 0; z < 2; ++z) for (int i = 0; i < 4; ++i) s.V.push_back({in[i][0], in[i][1], 2.0 * z});
    for (int i = 0; i < 4; ++i) { int j = (i + 1) % 4;
      s.F.push_back({i, j, 4 + j, 4 + i}); s.F.push_back({8 + j, 8 + i, 12 + i, 12 + j});
      s.F.push_back({4 + i, 4 + j, 12 + j, 12 + i}); s.F.push_back({j, i, 8 + i, 8 + j}); }
    orient_out(s); S.push_back(s);
  }
  { // cube with an inward pyramidal dent in the top (saddle rim, valence-4 dent apex)
    Shape3 s = boxs("dent", 0, 0, 0, 4, 4, 4); s.convex = false; s.V.push_back({2, 2, 2});
    std::vector<std::vector<int>> F; for (auto &f : s.F) { bool top = true; for (int v : f) if (s.V[v][2] != 4) top = false; if (!top) F.push_back(f); else for (size_t i = 0; i < f.size(); ++i) F.push_back({f[i], f[(i + 1) % f.size()], 8}); }
    s.F = F; S.push_back(s);
  }
  S.push_back(cone("cone12", ngon(12, 2, 2, 2), 0, {2, 2, 3}, true));
  S.push_back(prism("prism20", ngon(20, 2, 2, 2), 0, 2, true));
  { double g = (1 + sqrt(5.0)) / 2; std::vector<std::array<double, 3>> V; for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) { V.push_back({0, (double)a, b * g}); V.push_back({(double)a, b * g, 0}); V.push_back({b * g, 0, (double)a}); }
    std::vector<std::vector<int>> F; auto d2 = [&](int i, int j) { double r = 0; for (int k = 0; k < 3; ++k) r += (V[i][k] - V[j][k]) * (V[i][k] - V[j][k]); return r; };
    for (int i = 0; i < 12; ++i) for (int j = i + 1; j < 12; ++j) for (int k = j + 1; k < 12; ++k) if (fabs(d2(i, j) - 4) < 1e-9 && fabs(d2(j, k) - 4) < 1e-9 && fabs(d2(i, k) - 4) < 1e-9) {
      L a[3][3]; for (int c = 0; c < 3; ++c) { a[0][c] = V[i][c]; a[1][c] = V[j][c]; a[2][c] = V[k][c]; } if (det<3>(a) > 0) F.push_back({i, j, k}); else F.push_back({i, k, j}); }
    S.push_back(mk("icosahedron", V, F, true)); }
  S.push_back(join("four", {boxs("", 0, 0, 0, 1, 1, 1), S[0], boxs("", 3, 0, 0, 4, 1, 2), bicone("", {{4, 4}, {3, 5}, {2, 4}, {3, 3}}, 1, {3, 4, 2}, {3, 4, 0}, true)}));
  S.back().V[8][0] += 0; for (int i = 8; i < 12; ++i) { S.back().V[i][1] += 2; }
  S.push_back(join("touching", {boxs("", 0, 0, 0, 2, 2, 2), boxs("", 2, 2, 0, 4, 4, 2)}));
  S.push_back(cone("starcone", {{6, 3}, {4, 4}, {3, 6}, {2, 4}, {0, 3}, {2, 2}, {3, 0}, {4, 2}}, 0, {3, 3, 3}, false));
  S.push_back(mk("inverted", {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}, false));
  for (auto &f : S.back().F) std::reverse(f.begin(), f.end());
  return S;
}
static void xform(Shape3 &s, double sc, std::array<double, 3> off, int rot = 0) { // rot: number of times to rotate coordinates / tilt
  for (auto &p : s.V) {
    if (rot == 2) { p[0] *= 40; p[1] *= 0.003; }
    if (rot) { std::array<double, 3> q = p; p[0] = 0.8 * q[0] - 0.6 * q[1]; p[1] = 0.6 * q[0] + 0.8 * q[1]; q = p; p[1] = 0.28 * q[1] - 0.96 * q[2]; p[2] = 0.96 * q[1] + 0.28 * q[2]; }
    for (int j = 0; j < 3; ++j) p[j] = sc * p[j] + off[j];
  }
}
static void xform(Shape2 &s, double sc, std::array<double, 2> off, int rot = 0) {
  for (auto &l : s.loops) for (auto &p : l) { if (rot == 2) { p[0] *= 40; p[1] *= 0.003; } if (rot) { auto q = p; p[0] = 0.8 * q[0] - 0.6 * q[1]; p[1] = 0.6 * q[0] + 0.8 * q[1]; } for (int j = 0; j < 2; ++j) p[j] = sc * p[j] + off[j]; }
}
static std::vector<Shape2> shapes2() {
  std::vector<Shape2> S;
  S.push_back({"tri", {{{0, 0}, {4, 0}, {0, 4}}}, true});
  S.push_back({"skewtri", {{{0, 0}, {3, 1}, {1, 3}}}, true});
  S.push_back({"square", {{{0, 0}, {2, 0}, {2, 2}, {0, 2}}}, true});
  S.push_back({"rect", {{{-1, 0}, {3, 0}, {3, 1}, {-1, 1}}}, true});
  S.push_back({"diamond", {{{4, 2}, {2, 4}, {0, 2}, {2, 0}}}, true});
  S.push_back({"hexagon", {{{4, 2}, {3, 4}, {1, 4}, {0, 2}, {1, 0}, {3, 0}}}, true});
  S.push_back({"L", {{{0, 0}, {4, 0}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}, false});
  S.push_back({"U", {{{0, 0}, {6, 0}, {6, 4}, {4, 4}, {4, 2}, {2, 2}, {2, 4}, {0, 4}}}, false});
  S.push_back({"W", {{{0, 0}, {2, 0}, {3, 2}, {4, 0}, {6, 0}, {6, 6}, {5, 6}, {4, 3}, {3, 5}, {2, 3}, {1, 6}, {0, 6}}}, false});
  S.push_back({"star", {{{6, 3}, {4, 4}, {3, 6}, {2, 4}, {0, 3}, {2, 2}, {3, 0}, {4, 2}}}, false});
  S.push_back({"comb", {{{0, 0}, {8, 0}, {8, 2}, {7, 2}, {7, 1}, {6, 1}, {6, 3}, {5, 3}, {5, 1}, {4, 1}, {4, 4}, {3, 4}, {3, 1}, {2, 1}, {2, 2}, {1, 2}, {1, 1}, {0, 1}}}, false});
  S.push_back({"spiral", {{{0, 0}, {6, 0}, {6, 6}, {1, 6}, {1, 2}, {4, 2}, {4, 4}, {3, 4}, {3, 3}, {2, 3}, {2, 5}, {5, 5}, {5, 1}, {0, 1}}}, false});
  S.push_back({"hole", {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 1}, {1, 3}, {3, 3}, {3, 1}}}, false});
  S.push_back({"two", {{{0, 0}, {2, 0}, {2, 2}, {0, 2}}, {{3, 1}, {5, 1}, {4, 3}}}, false});
  S.push_back({"four", {{{0, 0}, {1, 0}, {0, 1}}, {{2, 0}, {3, 0}, {3, 1}}, {{2, 2}, {3, 2}, {3, 3}, {2, 3}}, {{0, 2}, {1, 2}, {1, 3}}}, false});
  S.push_back({"ngon24", {ngon(24, 2, 2, 2)}, true});
  S.push_back({"collinear", {{{0, 0}, {1, 0}, {2, 0}, {4, 0}, {4, 2}, {4, 4}, {2, 4}, {0, 4}, {0, 1}}}, true});
  S.push_back({"inverted", {{{0, 0}, {0, 2}, {2, 2}, {2, 0}}}, false});
  return S;
}

// a closed surface of triangles around the origin: `rings` rings of `m` vertices and two poles (valences m, 5 and 6)
static Shape3 globe(const char *nm, int rings, int m, double r) {
  std::vector<std::array<double, 3>> V; std::vector<std::vector<int>> F; V.push_back({0, 0, -r}); for (int i = 0; i < rings; ++i) { double t = M_PI * (i + 1) / (rings + 1); for (int k = 0; k < m; ++k) { double a = 2 * M_PI * (k + 0.5 * (i % 2)) / m; V.push_back({r * sin(t) * cos(a), r * sin(t) * sin(a), -r * cos(t)}); } } int top = (int)V.size(); V.push_back({0, 0, r});
  auto id = [&](int i, int k) { return 1 + i * m + (k % m + m) % m; };
  for (int k = 0; k < m; ++k) { F.push_back({0, id(0, k + 1), id(0, k)}); F.push_back({top, id(rings - 1, k), id(rings - 1, k + 1)}); for (int i = 0; i + 1 < rings; ++i) { int o = i % 2; F.push_back({id(i, k), id(i, k + 1), id(i + 1, k + (o ? 1 : 0))}); F.push_back({id(i + 1, k + (o ? 0 : -1)), id(i, k), id(i + 1, k + (o ? 1 : 0))}); } }
  return mk(nm, V, F, true);
}
// shapes with many vertices, edges, faces, loops or pieces (single-byte counters and small scratch arrays would show)
static std::vector<Shape2> bigshapes2() {
  std::vector<Shape2> S; S.push_back({"ngon200", {ngon(200, 3, 1, -1)}, true}); S.push_back({"ngon252", {ngon(252, 3, 1, -1)}, true});
  { Poly2 p; for (int i = 0; i < 40; ++i) { p.push_back({0.25 * i, 0}); p.push_back({0.25 * i + 0.125, -1.5 - 0.01 * i}); } p.push_back({10, 2}); p.push_back({0, 2}); S.push_back({"saw80", {p}, false}); }
  { Poly2 in = ngon(70, 2, 1, -1); std::reverse(in.begin(), in.end()); S.push_back({"ring150", {ngon(80, 3, 1, -1), in}, false}); }
  { Shape2 z; z.name = "thirty"; z.convex = false; for (int i = 0; i < 30; ++i) { double x = 1.5 * (i % 6), y = 1.25 * (i / 6); z.loops.push_back({{x, y}, {x + 1, y + 0.125}, {x + 0.25, y + 1}}); } S.push_back(z); }
  return S;
}
static std::vector<Shape3> bigshapes3() {
  std::vector<Shape3> S; S.push_back(prism("prism160", ngon(160, 3, 1, -1), -1, 2, true)); S.push_back(prism("prism250", ngon(250, 3, 1, -1), -1, 2, true)); S.push_back(cone("cone100", ngon(100, 3, 1, -1), 0, {1, -1, 4}, true));
  { Poly2 p; for (int i = 0; i < 60; ++i) { double a = 0.1 + 2 * M_PI * i / 60, q = i % 2 ? 3 : 2.25; p.push_back({q * cos(a), q * sin(a)}); } S.push_back(prism("star60", p, 0, 2, false)); }
  { std::vector<Shape3> t; for (int i = 0; i < 42; ++i) { double x = 1.5 * (i % 4), y = 1.25 * (i / 4 % 4), z = 1.75 * (i / 16); t.push_back(mk("", {{x, y, z}, {x + 1, y, z}, {x, y + 1, z + 0.25}, {x + 0.125, y, z + 1}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}, true)); } S.push_back(join("fortytwo", t)); }
  return S;
}

// ---- plane families ----
template <int D> struct DP { double n[D]; double d; };
template <int D> static Plane<D> toL(const DP<D> &p) { Plane<D> q; for (int i = 0; i < D; ++i) q.n[i] = p.n[i]; q.d = p.d; return q; }
// unit normals: all of {-1,0,1}^D plus a few generic ones
template <int D> static std::vector<std::array<double, D>> lattice_normals() {
  std::vector<std::array<double, D>> N; int tot = 1; for (int i = 0; i < D; ++i) tot *= 3;
  for (int k = 0; k < tot; ++k) { std::array<double, D> n; int q = k, nz = 0; for (int i = 0; i < D; ++i) { n[i] = q % 3 - 1; q /= 3; nz += n[i] != 0; } if (!nz) continue; double l = sqrt((double)nz); for (auto &x : n) x /= l; N.push_back(n); }
  return N;
}
template <int D> static std::vector<std::array<double, D>> generic_normals() {
  static const double T[6][4] = {{0.31, 0.67, -0.52, 0.43}, {-0.71, 0.23, 0.59, -0.37}, {0.17, -0.83, 0.29, 0.61}, {-0.47, -0.39, -0.77, 0.13}, {0.93, 0.11, 0.19, -0.73}, {-0.05, 0.97, -0.91, -0.21}};
  std::vector<std::array<double, D>> N;
  for (auto &t : T) { std::array<double, D> n; double l = 0; for (int i = 0; i < D; ++i) l += t[i] * t[i]; l = sqrt(l); for (int i = 0; i < D; ++i) n[i] = t[i] / l; N.push_back(n); }
  return N;
}
// planes incident with, and strictly between, the vertices of a point set
template <int D, class PT> static std::vector<DP<D>> planes_for(const std::vector<PT> &pts, int maxoff, bool lattice, bool generic) {
  std::vector<DP<D>> P; std::vector<std::array<double, D>> N;
  if (lattice) for (auto &n : lattice_normals<D>()) N.push_back(n);
  size_t nl = N.size(); if (generic) for (auto &n : generic_normals<D>()) N.push_back(n);
  for (size_t k = 0; k < N.size(); ++k) {
    auto &n = N[k];
    std::vector<double> c; for (auto &p : pts) { double s = 0; for (int i = 0; i < D; ++i) s += n[i] * p[i]; c.push_back(s); }
    std::sort(c.begin(), c.end()); double span = c.back() - c.front(); std::vector<double> u;
    for (double x : c) if (u.empty() || x > u.back() + 1e-9 * (span + 1e-30)) u.push_back(x);
    std::vector<double> off;
    if (k < nl) { for (size_t i = 0; i < u.size(); ++i) { off.push_back(u[i]); if (i + 1 < u.size()) off.push_back(u[i] + 0.5 * (u[i + 1] - u[i])); } }
    else { off = {u.front() + 0.21 * span, u.front() + 0.53 * span, u.front() + 0.82 * span}; }
    if ((int)off.size() > maxoff) { std::vector<double> o2; for (int i = 0; i < maxoff; ++i) o2.push_back(off[(size_t)i * (off.size() - 1) / (maxoff - 1)]); off = o2; }
    for (double o : off) { DP<D> p; for (int i = 0; i < D; ++i) p.n[i] = n[i]; p.d = -o; P.push_back(p); }
  }
  return P;
}
template <int D> static std::string pstr(const DP<D> &p) { std::string s = "("; char b[64]; for (int i = 0; i < D; ++i) { snprintf(b, sizeof b, "%.17g,", p.n[i]); s += b; } snprintf(b, sizeof b, "d=%.17g)", p.d); return s + b; }
