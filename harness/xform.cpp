// C16: transforms. Every sequence (bounded depth) over an alphabet of transforms, reference map in lockstep.
#include "dim.h"
const char *CHECK_ID = "C16";
struct Op { int kind; double a; int i, j; std::vector<double> m; std::string name; }; // 0 translate 1 scale 2 shear 3 rotate 4 matrix
template <int D> static std::vector<Op> ops(int tier, int &base) {
  std::vector<Op> O; const int N = D + 1;
  auto add = [&](Op o) { O.push_back(o); };
  for (int j = 0; j < D; ++j) for (double t : {0.75, -3.5}) { Op o{0, 0, 0, 0, std::vector<double>(D, 0.0), ""}; o.m[j] = t; o.name = mc::strf("translate axis %d by %g", j, t); add(o); }
  { Op o{0, 0, 0, 0, {}, "translate"}; double t[4] = {0.123, -4.5, 6.7, -0.89}; o.m.assign(t, t + D); add(o); Op z{0, 0, 0, 0, std::vector<double>(D, 0.0), "translate by zero"}; add(z); double u[4] = {1e3, 2e3, -3e3, 4e3}; Op b{0, 0, 0, 0, {}, "far translate"}; b.m.assign(u, u + D); add(b); }
  for (double s : {2.0, 0.25, -1.5, 1.0, 0.0, 1e-7, -3e8}) { Op o{1, s, 0, 0, std::vector<double>(D, s), mc::strf("scale by %g", s)}; add(o); }
  if (D == 4) { for (int j = 0; j < 4; ++j) { Op o{1, 0, 0, 0, {1, 1, 1, 1}, mc::strf("scale axis %d", j)}; o.m[j] = -0.5 + 3 * j; add(o); } Op o{1, 0, 0, 0, {0.5, -2, 3, 1.25}, "scale each axis"}; add(o); }
  for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) if (a != b) for (double s : {0.5, -1.25, 1e-6, 2e5}) { if (fabs(s) != 0.5 && s != -1.25 && (a + b) % 2 == 0) continue; add({2, s, a, b, {}, mc::strf("shear %g axis %d across %d", s, a, b)}); }
  std::vector<double> an = {0.3, M_PI / 2, -2.2, M_PI, 7.5, 0, 1e-3, -3e-8, 12345.678}; 
  if (D == 2) for (double t : an) add({3, t, 0, 1, {}, mc::strf("rotate %g", t)});
  if (D == 3) for (int x = 0; x < 3; ++x) for (double t : an) add({3, t, x, 0, {}, mc::strf("rotate %g about axis %d", t, x)});
  if (D == 4) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) if (a != b) for (double t : {0.3, -2.2, M_PI / 2, 2e-4, 5.5, -17.25}) add({3, t, a, b, {}, mc::strf("rotate %g in plane %d %d", t, a, b)});
  auto id = [&]() { std::vector<double> m(N * N, 0.0); for (int i = 0; i < N; ++i) m[i * N + i] = 1; return m; };
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { auto m = id(); m[i * N + j] = i == D ? (i == j ? 2.5 : 0.03 + 0.01 * j) : 1.75 - 0.5 * j; add({4, 0, i, j, m, mc::strf("matrix entry %d %d", i, j)}); auto z = id(); if (i == j && i < D) { z[i * N + j] = -0.5; add({4, 0, i, j, z, mc::strf("matrix reflection %d", i)}); } }
  { auto m = id(); add({4, 0, 0, 0, m, "identity matrix"}); for (int i = 0; i < D; ++i) for (int j = 0; j < N; ++j) m[i * N + j] = sin(1.7 * i + 2.9 * j + 0.4) * (j == D ? 4 : 1); add({4, 0, 0, 0, m, "dense affine matrix"}); for (int j = 0; j < D; ++j) m[D * N + j] = 0.02 * (j + 1) * (j % 2 ? -1 : 1); m[D * N + D] = 1.3; add({4, 0, 0, 0, m, "dense projective matrix"}); m[D * N + D] = -2.6; add({4, 0, 0, 0, m, "projective matrix with negative weight"}); { auto sm = m; for (auto &x : sm) x *= 1e-4; add({4, 0, 0, 0, sm, "projective matrix with tiny entries"}); sm = m; for (auto &x : sm) x *= 3e9; add({4, 0, 0, 0, sm, "projective matrix with huge entries"}); } auto p = id(); for (int i = 0; i < D; ++i) { p[i * N + i] = 0; p[i * N + (i + 1) % D] = 1; } add({4, 0, 0, 0, p, "cyclic permutation matrix"}); }
  base = (int)O.size(); // from here on: parameters next to special values, applied first only
  std::vector<double> sp = {-M_PI / 2, 3 * M_PI / 2, -3 * M_PI / 2, 5 * M_PI / 2, -M_PI, 2 * M_PI, -2 * M_PI, 4 * M_PI, M_PI / 2 + 1e-7, M_PI / 2 - 3e-5, 3 * M_PI / 2 + 1e-6, M_PI + 1e-5, -M_PI + 1e-9, M_PI - 2e-7, 2 * M_PI - 1e-6, 2 * M_PI + 1e-9, 4e-5, 1e-6, 1e-9, -1e-12, 1e-16, 1e-30, -1e6, 3e9, M_PI / 4, -M_PI / 3, 1, -1, 6.5, -6.5, 7.5, 13, 100};
  for (double t : sp) { if (D == 2) add({3, t, 0, 1, {}, mc::strf("rotate %.17g", t)}); if (D == 3) for (int x = 0; x < 3; ++x) add({3, t, x, 0, {}, mc::strf("rotate %.17g about axis %d", t, x)}); if (D == 4) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) if (a != b) add({3, t, a, b, {}, mc::strf("rotate %.17g in plane %d %d", t, a, b)}); }
  for (double t : {1e-6, -1e-9, 1e-13, -1e-16, 1.0, -1.0, 1e9, -1e15, 1e-30}) for (int j = 0; j < D; ++j) { Op o{0, 0, 0, 0, std::vector<double>(D, 0.0), ""}; o.m[j] = t; o.name = mc::strf("translate axis %d by %g", j, t); add(o); }
  for (double f : {1 + 1e-6, 1 - 1e-9, 1 + 1e-13, -1.0, -1 - 1e-9, 1e-10, -1e-20, 1e15, 0.5, 3.0}) { add({1, f, 0, 0, std::vector<double>(D, f), mc::strf("scale by %.17g", f)}); if (D == 4) for (int j = 0; j < 4; ++j) { Op o{1, 0, 0, 0, {1, 1, 1, 1}, mc::strf("scale axis %d by %.17g", j, f)}; o.m[j] = f; add(o); } }
  for (double f : {1.0, -1.0, 1e-8, -1e-10, 1e-14, 1e-30, 0.0, 1e9}) for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) if (a != b) add({2, f, a, b, {}, mc::strf("shear %g axis %d across %d", f, a, b)});
  for (double f : {1e-6, -1e-9, 1e-12, -1e-15, 1e-40}) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { auto m = id(); m[i * N + j] += f; add({4, 0, i, j, m, mc::strf("identity matrix with %g added at %d %d", f, i, j)}); }
  for (double f : {-1.0, 2.0, 1e-12, -1e12, 1e-100}) { auto m = id(); for (auto &x : m) x *= f; add({4, 0, 0, 0, m, mc::strf("identity matrix times %g", f)}); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i * N + j] = f * ((i == j ? 2 : 0) + 0.02 * sin(i + 3 * j)); add({4, 0, 0, 0, m, mc::strf("projective matrix times %g", f)}); }
  return O;
}
typedef std::vector<std::vector<L>> Pts;
// applies the stated map and carries a bound on the accumulated round-off; false when the weight comes too close to zero
template <int D> static bool ref(const Op &o, Pts &P, L &err) {
  const L u = 1.2e-16L; L e = err;
  for (auto &p : P) { auto q = p; L m0 = 0; for (L x : q) m0 = std::max(m0, fabsl(x)); switch (o.kind) {
    case 0: for (int j = 0; j < D; ++j) { p[j] = q[j] + o.m[j]; e = std::max(e, err + u * fabsl(p[j])); } break;
    case 1: for (int j = 0; j < D; ++j) { p[j] = q[j] * o.m[j]; e = std::max(e, err * fabsl(o.m[j]) + u * fabsl(p[j])); } break;
    case 2: p[o.i] = q[o.i] + o.a * q[o.j]; e = std::max(e, err * (1 + fabsl(o.a)) + 2 * u * (fabsl(q[o.i]) + fabsl(o.a * q[o.j]))); break;
    case 3: { int a = o.i, b = o.j; if (D == 3) { a = (o.i + 1) % 3; b = (o.i + 2) % 3; } L c = cosl(o.a), s = sinl(o.a); p[a] = c * q[a] - s * q[b]; p[b] = s * q[a] + c * q[b]; e = std::max(e, 1.5L * err + 4 * u * (fabsl(q[a]) + fabsl(q[b]))); break; }
    case 4: { const int N = D + 1; L w = o.m[D * N + D], W = fabsl(w), RW = 0; for (int j = 0; j < D; ++j) { L t = q[j] * o.m[D * N + j]; w += t; W += fabsl(t); RW += fabsl(o.m[D * N + j]); } if (fabsl(w) < 0.05L * W) return false; L ew = err * RW + 6 * u * W;
      for (int i = 0; i < D; ++i) { L t = o.m[i * N + D], T = fabsl(t), R = 0; for (int j = 0; j < D; ++j) { L x = q[j] * o.m[i * N + j]; t += x; T += fabsl(x); R += fabsl(o.m[i * N + j]); } p[i] = t / w; e = std::max(e, (err * R + 6 * u * T + fabsl(p[i]) * ew) / fabsl(w) * 1.1L + u * fabsl(p[i])); } } } }
  err = e; return true;
}
template <int D> struct X;
template <> struct X<2> { typedef r2d_poly P; static double &co(P *p, int v, int j) { return p->verts[v].pos.xy[j]; }
  static void run(P *p, const Op &o) { if (o.kind == 0) { r2d_rvec2 t; t.x = o.m[0]; t.y = o.m[1]; r2d_translate(p, t); } else if (o.kind == 1) r2d_scale(p, o.a); else if (o.kind == 2) r2d_shear(p, o.a, o.i, o.j); else if (o.kind == 3) r2d_rotate(p, o.a); else { double m[3][3], k[3][3]; memcpy(m, o.m.data(), sizeof m); memcpy(k, m, sizeof m); r2d_affine(p, m); if (memcmp(m, k, sizeof m)) mc::fail("the matrix was altered"); } } };
template <> struct X<3> { typedef r3d_poly P; static double &co(P *p, int v, int j) { return p->verts[v].pos.xyz[j]; }
  static void run(P *p, const Op &o) { if (o.kind == 0) { r3d_rvec3 t; for (int j = 0; j < 3; ++j) t.xyz[j] = o.m[j]; r3d_translate(p, t); } else if (o.kind == 1) r3d_scale(p, o.a); else if (o.kind == 2) r3d_shear(p, o.a, o.i, o.j); else if (o.kind == 3) r3d_rotate(p, o.a, o.i); else { double m[4][4], k[4][4]; memcpy(m, o.m.data(), sizeof m); memcpy(k, m, sizeof m); r3d_affine(p, m); if (memcmp(m, k, sizeof m)) mc::fail("the matrix was altered"); } } };
template <> struct X<4> { typedef rNd_poly P; static double &co(P *p, int v, int j) { return p->verts[v].pos.xyz[j]; }
  static void run(P *p, const Op &o) { if (o.kind == 0) { rNd_rvec t; for (int j = 0; j < 4; ++j) t.xyz[j] = o.m[j]; rNd_translate(p, t); } else if (o.kind == 1) { rNd_rvec t; for (int j = 0; j < 4; ++j) t.xyz[j] = o.m[j]; rNd_scale(p, t); } else if (o.kind == 2) rNd_shear(p, o.a, o.i, o.j); else if (o.kind == 3) rNd_rotate(p, o.a, o.i, o.j); else { double m[5][5], k[5][5]; memcpy(m, o.m.data(), sizeof m); memcpy(k, m, sizeof m); rNd_affine(p, m); if (memcmp(m, k, sizeof m)) mc::fail("the matrix was altered"); } } };
static std::vector<std::pair<std::string, r2d_poly *>> S2_; static std::vector<std::pair<std::string, r3d_poly *>> S3_; static std::vector<std::pair<std::string, rNd_poly *>> S4_;
static std::vector<Op> O2, O3, O4; struct CaseRef { int dim, shape, op; }; static std::vector<CaseRef> CS; static int it = -1, dep, nb[5];
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); O2 = ops<2>(tier, nb[2]); O3 = ops<3>(tier, nb[3]); O4 = ops<4>(tier, nb[4]); S2_.clear(); S3_.clear(); S4_.clear(); dep = tier ? 3 : 2;
  for (auto s : shapes2()) { if (s.name == "hole" || s.name == "tri" || s.name == "W" || s.name == "ngon24") for (double sc : {1.0, 0x1p-60, 0x1p60}) { if (sc != 1 && s.name != "hole") continue; auto s0 = s; Shape2 s = s0; xform(s, 0.7 * sc, {0.1 * sc, -0.2 * sc}, 1); if (sc != 1) s.name += sc < 1 ? " minute" : " enormous"; r2d_poly *p = newpoly<r2d_poly>(); make2(p, s); S2_.push_back({s.name, p}); } }
  { r2d_poly *p = newpoly<r2d_poly>(); Shape2 s{"ngon256", {ngon(R2D_MAX_VERTS, 3, 1, -2)}, true}; make2(p, s); S2_.push_back({s.name, p}); p = newpoly<r2d_poly>(); p->nverts = 0; S2_.push_back({"empty", p}); }
  for (auto s : shapes3()) { if (s.name == "frame" || s.name == "tet" || s.name == "cavity" || s.name == "octahedron") for (double sc : {1.0, 0x1p-60, 0x1p60}) { if (sc != 1 && s.name != "octahedron") continue; auto s0 = s; Shape3 s = s0; xform(s, 0.7 * sc, {0.1 * sc, -0.2 * sc, 0.3 * sc}, 1); if (sc != 1) s.name += sc < 1 ? " minute" : " enormous"; r3d_poly *p = newpoly<r3d_poly>(); make3(p, s); S3_.push_back({s.name, p}); } }
  { r3d_poly *p = newpoly<r3d_poly>(); make3(p, prism("prism", ngon(R3D_MAX_VERTS / 2, 3, 1, -2), -1, 2, true)); S3_.push_back({"full prism", p}); p = newpoly<r3d_poly>(); p->nverts = 0; S3_.push_back({"empty", p}); }
  { rNd_poly *p; rNd_rvec v[5]; for (double sc : {2.0, 0x1p-60, 0x1p60}) { p = newpoly<rNd_poly>(); for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) v[i].xyz[j] = sin(2.3 * i + 1.1 * j * j + 0.2) * sc; rNd_init_simplex(p, v); S4_.push_back({mc::strf("simplex %g", sc), p}); } p = newpoly<rNd_poly>(); for (int j = 0; j < 4; ++j) { v[0].xyz[j] = -0.5 - j * 0.2; v[1].xyz[j] = 1.25 + 0.3 * j; } rNd_init_box(p, v); S4_.push_back({"box", p}); p = newpoly<rNd_poly>(); memset((void *)p, 0, sizeof *p); S4_.push_back({"empty", p});
    p = newpoly<rNd_poly>(); memset((void *)p, 0, sizeof *p); p->nverts = RND_MAX_VERTS; p->nfaces = 77; for (int i = 0; i < RND_MAX_VERTS; ++i) for (int j = 0; j < 4; ++j) { p->verts[i].pos.xyz[j] = sin(0.37 * i + j) * 2; p->verts[i].pnbrs[j] = (i + j + 1) % RND_MAX_VERTS; for (int k = 0; k < 4; ++k) p->verts[i].finds[j][k] = i * 16 + j * 4 + k; } S4_.push_back({"full buffer", p}); }
  for (int s = 0; s < (int)S2_.size(); ++s) for (int o = 0; o < (int)O2.size(); ++o) CS.push_back({2, s, o}); for (int s = 0; s < (int)S3_.size(); ++s) for (int o = 0; o < (int)O3.size(); ++o) CS.push_back({3, s, o}); for (int s = 0; s < (int)S4_.size(); ++s) for (int o = 0; o < (int)O4.size(); ++o) CS.push_back({4, s, o});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("all transform sequences of length <= %d over %zu (2D), %zu (3D), %zu (4D) transforms (all axes, planes, matrix positions, perspective rows; the first one also from %zu, %zu and %zu with parameters next to special values) on shapes including the empty, buffer-filling, minute (2^-60) and enormous (2^60) ones", dep, (size_t)nb[2], (size_t)nb[3], (size_t)nb[4], O2.size() - nb[2], O3.size() - nb[3], O4.size() - nb[4]); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("%dD shape %s first %s", r.dim, r.dim == 2 ? S2_[r.shape].first.c_str() : r.dim == 3 ? S3_[r.shape].first.c_str() : S4_[r.shape].first.c_str(), r.dim == 2 ? O2[r.op].name.c_str() : r.dim == 3 ? O3[r.op].name.c_str() : O4[r.op].name.c_str()); }
static std::string trail;
template <int D> static void dfs(const std::vector<Op> &O, const typename X<D>::P *in, const Pts &P0, int left, int first, L err) {
  typedef typename X<D>::P P; static P *buf[5]; P *&p = buf[left]; if (!p) p = newpoly<P>(); int n = in->nverts;
  for (int k = first >= 0 ? first : 0; k < (first >= 0 ? first + 1 : nb[D]); ++k) {
    Pts Q = P0; L er = err; if (!ref<D>(O[k], Q, er)) { mc::skipped(); continue; } std::string save = trail; trail += " | " + O[k].name; mc::path_s(trail);
    cp(p, in); X<D>::run(p, O[k]); mc::trans(); mc::compared(); L e = 4 * er;
    if (p->nverts != n) mc::fail("the vertex count changed from %d to %d", n, p->nverts);
    for (int v = 0; v < n; ++v) { if (memcmp(p->verts[v].pnbrs, in->verts[v].pnbrs, sizeof p->verts[v].pnbrs)) mc::fail("the links of vertex %d changed", v); for (int j = 0; j < D; ++j) if (!(fabsl(X<D>::co(p, v, j) - Q[v][j]) <= e)) mc::fail("vertex %d coordinate %d is %.17g, the stated map gives %.17Lg", v, j, X<D>::co(p, v, j), Q[v][j]); }
    if constexpr (D == 4) { if (p->nfaces != in->nfaces) mc::fail("the face count changed"); for (int v = 0; v < n; ++v) if (memcmp(p->verts[v].finds, in->verts[v].finds, sizeof p->verts[v].finds)) mc::fail("the face labels of vertex %d changed", v); }
    mc::state(hpoly(p, D)); if (left > 1 && n < 40) dfs<D>(O, p, Q, left - 1, -1, er); trail = save;
  }
}
template <int D> static void go(const std::vector<Op> &O, std::pair<std::string, typename X<D>::P *> &s, int op) { Pts P; for (int v = 0; v < s.second->nverts; ++v) { std::vector<L> q; for (int j = 0; j < D; ++j) q.push_back(X<D>::co(s.second, v, j)); P.push_back(q); } trail = s.first; dfs<D>(O, s.second, P, op < nb[D] ? dep : 2, op, 0); }
void check_case(uint64_t cc) { CaseRef r = CS[cc]; if (r.dim == 2) go<2>(O2, S2_[r.shape], r.op); else if (r.dim == 3) go<3>(O3, S3_[r.shape], r.op); else go<4>(O4, S4_[r.shape], r.op); if (cc % 97 == 3) mc::sample(check_describe(cc)); }
MC_MAIN
