// C14: face planes derived from vertices
#include "dim.h"
const char *CHECK_ID = "C14";
struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static int it = -1, S2big, S3big; static std::vector<Shape3> S3; static std::vector<Shape2> S2;
enum { NB = 10 };
static const double B[NB][2] = {{0, 1}, {-2.5, 0}, {-3e-9, 2e-9}, {-2, 3}, {-5, -4}, {0.1, 0.1001}, {-1e6, 2e6}, {100.25, 101}, {-0.75, 1.5}, {7, 7.5}};
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); S3 = shapes3(); S2 = shapes2();
  for (auto &s : shapes2()) if (s.loops.size() == 1 && s.name != "inverted") S3.push_back(prism(("prism over " + s.name).c_str(), s.loops[0], -1, 1.5, false));
  for (int i = 0; i < (tier ? 27 * 27 : 27 * 9); ++i) CS.push_back({0, i, 0});
  S2big = (int)S2.size(); S3big = (int)S3.size(); for (auto &b : bigshapes2()) S2.push_back(b); for (int n : {101, 129, 256}) S2.push_back({mc::strf("ngon%d", n), {ngon(n, 3, -1, 2)}, true}); for (auto &b : bigshapes3()) S3.push_back(b); S3.push_back(prism("prism255", ngon(255, 3, -1, 2), -2, 1, true));
  for (int i = 0; i < 64; ++i) CS.push_back({1, i, 0});
  for (int i = 0; i < NB; ++i) CS.push_back({2, i, 0});
  for (int i = 0; i < (int)S2.size(); ++i) for (int p = 0; p < NPLACE; ++p) CS.push_back({3, i, p});
  for (int i = 0; i < (int)S3.size(); ++i) for (int p = 0; p < NPLACE; ++p) CS.push_back({4, i, p});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("tetrahedra over ordered 4-tuples of the 3^3 lattice (%s of the first two points) and of the unit cube in 11 placements; all boxes over 10 intervals per axis in 2D and 3D; %zu polygons and %zu polyhedra in 11 placements, every starting vertex of every loop (shapes of hundreds of vertices or faces: a few), both directions", tier ? "all" : "a third", S2.size(), S3.size()); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d item %d (%s) placement %d", r.kind, r.a, r.kind == 3 ? S2[r.a].name.c_str() : r.kind == 4 ? S3[r.a].name.c_str() : "", r.b); }
template <int D, class PL> static L dist(const PL &f, const std::array<double, D> &p) { L t = f.d; for (int j = 0; j < D; ++j) t += (L)((const double *)&f.n)[j] * p[j]; return t; }
template <int D, class PL> static void unit(const PL &f, const char *w) { L l = 0; for (int j = 0; j < D; ++j) l += (L)((const double *)&f.n)[j] * ((const double *)&f.n)[j]; if (!(fabsl(l - 1) < 1e-10L)) mc::fail("%s: normal has length %Lg", w, sqrtl(l)); }
template <int D> static void clipto(const std::vector<typename T<D>::RPlane> &pl, const Region<D> &R, const char *w) { // clip a larger box by the planes
  typedef typename T<D>::Poly P; static P *p = newpoly<P>(); std::array<double, D> lo, hi; for (int j = 0; j < D; ++j) { lo[j] = 1e300; hi[j] = -1e300; } for (auto &s : R) for (int i = 0; i <= D; ++i) for (int j = 0; j < D; ++j) { lo[j] = std::min(lo[j], (double)s.v[i][j]); hi[j] = std::max(hi[j], (double)s.v[i][j]); }
  L size = 0; for (int j = 0; j < D; ++j) size = std::max(size, (L)hi[j] - lo[j]); double rb[2][3]; for (int j = 0; j < D; ++j) { double m = 0.37 * (double)size; rb[0][j] = lo[j] - m; rb[1][j] = hi[j] + m * (1 + 0.1 * j); }
  memset((void *)p, 0x7b, sizeof *p); if constexpr (D == 2) { r2d_rvec2 b[2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) b[i].xy[j] = rb[i][j]; r2d_init_box(p, b); } else { r3d_rvec3 b[2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) b[i].xyz[j] = rb[i][j]; r3d_init_box(p, b); }
  auto q = pl; mc::trans(); T<D>::clip(p, q.data(), (int)q.size()); if (!T<D>::bad(p).empty()) mc::fail("%s: clipping by the planes gives a malformed shape", w); mc::compared();
  std::array<L, D> c; for (int j = 0; j < D; ++j) c[j] = ((L)lo[j] + hi[j]) / 2; auto a = lmom<D>(region_of(p), c), b = lmom<D>(R, c); L big = maxabs<D>(R); int k; Scale sc{size * (1 + 1e-6L * big / size), powl(size, D) * (1 + 1e-5L * big / size)};
  if (!close_moments<D>(a.data(), b.data(), 2, sc, 1e-9L, &k)) mc::fail("%s: clipping a larger box by the face planes gives moment %d = %.15Lg, expected %.15Lg", w, k, a[k], b[k]);
}
static void tet(const std::array<double, 3> *v, const char *w, bool clip) {
  Simp<3> s; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) s.v[i][j] = v[i][j]; L dt = sdet<3>(s), big = 0, size = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { big = std::max(big, fabsl(s.v[i][j])); size = std::max(size, fabsl(s.v[i][j] - s.v[0][j])); } if (fabsl(dt) <= 1e-6L * size * size * size) return; s.sg = dt > 0 ? 1 : -1;
  r3d_rvec3 x[4], y[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) x[i].xyz[j] = v[i][j]; memcpy(y, x, sizeof x); r3d_plane f[5]; for (auto &q : f) { q.n.x = q.n.y = q.n.z = q.d = NAN; } f[4].d = 42; mc::trans(); r3d_tet_faces_from_verts(f, x); mc::compared();
  if (memcmp(x, y, sizeof x)) mc::fail("%s: vertices altered", w); if (f[4].d != 42 || !std::isnan(f[4].n.x)) mc::fail("%s: wrote past the four planes", w); L tol = 1e-10L * (size + big); int used = 0;
  for (int k = 0; k < 4; ++k) { unit<3>(f[k], w); int off = -1, n0 = 0; for (int i = 0; i < 4; ++i) { L t = dist<3>(f[k], v[i]); if (fabsl(t) <= tol) ++n0; else { off = i; if ((t > 0) != (dt > 0)) mc::fail("%s: plane %d does not point %s", w, k, dt > 0 ? "inward" : "outward"); } } if (n0 != 3) mc::fail("%s: plane %d passes through %d vertices", w, k, n0); used |= 1 << off; }
  if (used != 15) mc::fail("%s: the planes are not one per face", w); uint64_t h = mc::hash_bytes(f, sizeof(r3d_plane) * 4); mc::state(h);
  if (clip && dt > 0) clipto<3>({f, f + 4}, {s}, w);
}
template <int D> static void box(const double (*b)[2], const char *w) {
  typename T<D>::RPlane f[2 * D + 1]; memset((void *)f, 0xff, sizeof f); L big = 0, size = 0; for (int j = 0; j < D; ++j) { big = std::max({big, fabsl(b[j][0]), fabsl(b[j][1])}); size = std::max(size, (L)b[j][1] - b[j][0]); }
  f[2 * D].d = 42; mc::trans(); if constexpr (D == 2) { r2d_rvec2 r[2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) r[i].xy[j] = b[j][i]; r2d_box_faces_from_verts(f, r); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (r[i].xy[j] != b[j][i]) mc::fail("bounds altered"); } else { r3d_rvec3 r[2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) r[i].xyz[j] = b[j][i]; r3d_box_faces_from_verts(f, r); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (r[i].xyz[j] != b[j][i]) mc::fail("bounds altered"); }
  mc::compared(); if (f[2 * D].d != 42) mc::fail("%s: wrote past the planes", w); std::vector<char> used(2 * D, 0);
  for (int k = 0; k < 2 * D; ++k) { unit<D>(f[k], w); int ax = -1; for (int j = 0; j < D; ++j) if (fabs(((const double *)&f[k].n)[j]) > 0.5) ax = j; for (int j = 0; j < D; ++j) if (j != ax && ((const double *)&f[k].n)[j] != 0) mc::fail("%s: plane %d is not axis-aligned", w, k); double sg = ((const double *)&f[k].n)[ax]; int side = sg > 0 ? 0 : 1; if (used[2 * ax + side]++) mc::fail("%s: two planes for the same face", w); if (!(fabsl(f[k].d + sg * (L)b[ax][side]) <= 1e-14L * (1e-300L + fabsl(b[ax][side])))) mc::fail("%s: plane %d (axis %d, side %d) has d=%.15g, face lies at %.15g", w, k, ax, side, f[k].d, b[ax][side]); }
  L lo[D], hi[D]; for (int j = 0; j < D; ++j) { lo[j] = b[j][0]; hi[j] = b[j][1]; } mc::state(mc::hash_bytes(f, sizeof f)); L mn = 1e300L; for (int j = 0; j < D; ++j) mn = std::min(mn, hi[j] - lo[j]); if (mn > 1e-5L * (big + size)) clipto<D>({f, f + 2 * D}, region_box<D>(lo, hi), w);
}
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 0) { int i0 = r.a % 27, i1 = (r.a / 27) * (mc::tier ? 1 : 3) % 27; if (i0 == i1) return; auto lat = [](int i) { return std::array<double, 3>{(double)(i % 3), (double)(i / 3 % 3) - 1, (double)(i / 9)}; };
    for (int i2 = 0; i2 < 27; ++i2) for (int i3 = 0; i3 < 27; ++i3) { std::array<double, 3> v[4] = {lat(i0), lat(i1), lat(i2), lat(i3)}; tet(v, mc::strf("tet of lattice points %d %d %d %d", i0, i1, i2, i3).c_str(), (i2 * 7 + i3) % 53 == 0); } }
  else if (r.kind == 1) { for (int k = 0; k < 64; ++k) for (int pl = 0; pl < NPLACE; ++pl) { int id[4] = {r.a % 8, r.a / 8, k % 8, k / 8}; Shape3 s; for (int i = 0; i < 4; ++i) s.V.push_back({(double)(id[i] & 1), (double)(id[i] >> 1 & 1), (double)(id[i] >> 2)}); place<3>(s, pl); tet(s.V.data(), mc::strf("tet of cube corners %d %d %d %d placement %d", id[0], id[1], id[2], id[3], pl).c_str(), k % 5 == 0); } }
  else if (r.kind == 2) { for (int a = 0; a < NB; ++a) { double b2[2][2] = {{B[r.a][0], B[r.a][1]}, {B[a][0], B[a][1]}}; box<2>(b2, mc::strf("2D box %d %d", r.a, a).c_str()); for (int c = 0; c < NB; ++c) { double b3[3][2] = {{B[r.a][0], B[r.a][1]}, {B[a][0], B[a][1]}, {B[c][0], B[c][1]}}; box<3>(b3, mc::strf("box %d %d %d", r.a, a, c).c_str()); } } }
  else if (r.kind == 3) {
    Shape2 s = S2[r.a]; place<2>(s, r.b);
    for (auto &l0 : s.loops) for (size_t rot = 0; rot < l0.size(); rot += r.a < S2big || rot + 1 == l0.size() ? 1 : std::max<size_t>(1, std::min(l0.size() / 3, l0.size() - 1 - rot))) for (int rev = 0; rev < 2; ++rev) {
      auto l = l0; std::rotate(l.begin(), l.begin() + rot, l.end()); if (rev) std::reverse(l.begin(), l.end()); int n = (int)l.size(); std::vector<r2d_rvec2> v(n); L A = 0, big = 0, size = 0; for (int i = 0; i < n; ++i) { v[i].x = l[i][0]; v[i].y = l[i][1]; auto &p = l[i], &q = l[(i + 1) % n]; A += ((L)p[0] - l[0][0]) * ((L)q[1] - l[0][1]) - ((L)p[1] - l[0][1]) * ((L)q[0] - l[0][0]); for (int j = 0; j < 2; ++j) { big = std::max(big, fabsl(p[j])); size = std::max(size, fabsl((L)p[j] - l[0][j])); } }
      auto v0 = v; std::vector<r2d_plane> f(n + 1); memset((void *)f.data(), 0xff, sizeof(r2d_plane) * (n + 1)); f[n].d = 42; mc::trans(); r2d_poly_faces_from_verts(f.data(), v.data(), n); mc::compared(); if (f[n].d != 42) mc::fail("wrote past the planes"); if (memcmp(v.data(), v0.data(), sizeof(r2d_rvec2) * n)) mc::fail("vertices altered"); mc::state(mc::hash_bytes(f.data(), sizeof(r2d_plane) * n));
      L tol = 1e-9L * size + 1e-11L * big; for (int i = 0; i < n; ++i) { std::string w = mc::strf("polygon %s edge %d", s.name.c_str(), i); unit<2>(f[i], w.c_str()); if (!(fabsl(dist<2>(f[i], l[i])) <= tol) || !(fabsl(dist<2>(f[i], l[(i + 1) % n])) <= tol)) mc::fail("%s: the line does not pass through the edge", w.c_str()); L ex = (L)l[(i + 1) % n][0] - l[i][0], ey = (L)l[(i + 1) % n][1] - l[i][1]; if (A > 0 && !(-ey * f[i].n.x + ex * f[i].n.y > 0)) mc::fail("%s: the normal does not point inward", w.c_str()); }
      if (s.convex && A > 0 && s.loops.size() == 1 && n <= 128) { std::vector<std::array<L, 2>> ll; for (auto &p : l) ll.push_back({p[0], p[1]}); f.pop_back(); clipto<2>(f, region_from_loops({ll}), ("polygon " + s.name).c_str()); }
    }
  } else {
    Shape3 s0 = S3[r.a]; place<3>(s0, r.b); size_t mx = 0; for (auto &f : s0.F) mx = std::max(mx, f.size());
    for (size_t rot = 0; rot < mx; rot += r.a < S3big || rot + 1 == mx ? 1 : std::max<size_t>(1, std::min(mx / 3, mx - 1 - rot))) for (int rev = 0; rev < 2; ++rev) {
      Shape3 s = s0; for (auto &f : s.F) { std::rotate(f.begin(), f.begin() + rot % f.size(), f.end()); if (rev) std::reverse(f.begin(), f.end()); }
      Desc3 d = desc3(s), d0 = desc3(s); int n = (int)s.F.size(); std::vector<r3d_plane> f(n + 1); memset((void *)f.data(), 0xff, sizeof(r3d_plane) * (n + 1)); f[n].d = 42; mc::trans(); r3d_poly_faces_from_verts(f.data(), d.V.data(), (int)d.V.size(), d.fp.data(), d.nf.data(), n); mc::compared(); if (f[n].d != 42) mc::fail("wrote past the planes"); if (memcmp(d.V.data(), d0.V.data(), sizeof(r3d_rvec3) * d.V.size()) || d.f != d0.f || d.nf != d0.nf) mc::fail("inputs altered"); mc::state(mc::hash_bytes(f.data(), sizeof(r3d_plane) * n));
      L big = 0, size = 0; for (auto &p : s.V) for (int j = 0; j < 3; ++j) { big = std::max(big, fabsl(p[j])); size = std::max(size, fabsl((L)p[j] - s.V[0][j])); } L tol = 1e-9L * size + 1e-11L * big;
      for (int i = 0; i < n; ++i) { std::string w = mc::strf("%s face %d start %zu %s", s.name.c_str(), i, rot, rev ? "reversed" : ""); unit<3>(f[i], w.c_str()); L N[3] = {0, 0, 0}; auto &o = s.V[s.F[i][0]]; size_t m = s.F[i].size();
        for (size_t k = 0; k < m; ++k) { auto &p = s.V[s.F[i][k]], &q = s.V[s.F[i][(k + 1) % m]]; L a[3], b[3]; for (int j = 0; j < 3; ++j) { a[j] = (L)p[j] - o[j]; b[j] = (L)q[j] - o[j]; } for (int j = 0; j < 3; ++j) N[j] += a[(j + 1) % 3] * b[(j + 2) % 3] - a[(j + 2) % 3] * b[(j + 1) % 3]; if (!(fabsl(dist<3>(f[i], p)) <= tol)) mc::fail("%s: the plane misses vertex %zu of the face by %Lg", w.c_str(), k, dist<3>(f[i], p)); }
        L t = 0; for (int j = 0; j < 3; ++j) t += N[j] * f[i].n.xyz[j]; L l = sqrtl(N[0] * N[0] + N[1] * N[1] + N[2] * N[2]); if (!(t > 0.999999L * l)) mc::fail("%s: the normal does not point to the counterclockwise side (cosine %Lg)", w.c_str(), t / l); }
    }
  }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
