// dim.h - 2D/3D traits so that the clip and split explorations are written once.
#pragma once
#include "lib.h"
template <int D> struct T;
template <> struct T<2> {
  typedef r2d_poly Poly; typedef r2d_plane RPlane; typedef Shape2 Shape; enum { MAXV = R2D_MAX_VERTS };
  static std::vector<Shape> shapes() { return shapes2(); } static std::vector<Shape> bigshapes() { return bigshapes2(); } enum { NP = 2 };
  static bool make(Poly *p, const Shape &s) { make2(p, s); return true; }
  static RPlane pl(const DP<2> &p) { return P2(p); }
  static int clip(Poly *p, RPlane *q, int n) { return status_of(r2d_clip, p, q, n); }
  static int split(Poly *in, int n, RPlane q, Poly *a, Poly *b) { return status_of(r2d_split, in, n, q, a, b); }
  static std::string bad(const Poly *p) { return bad2(p); }
  static int good(Poly *p) { return r2d_is_good(p); }
  static double co(const Poly *p, int v, int j) { return p->verts[v].pos.xy[j]; }
  static std::vector<std::array<double, 2>> pts(const Shape &s) { std::vector<std::array<double, 2>> r; for (auto &l : s.loops) for (auto &p : l) r.push_back(p); return r; }
  static std::string dumpp(const Poly *p) { return dump(p); }
};
template <> struct T<3> {
  typedef r3d_poly Poly; typedef r3d_plane RPlane; typedef Shape3 Shape; enum { MAXV = R3D_MAX_VERTS };
  static std::vector<Shape> shapes() { return shapes3(); } static std::vector<Shape> bigshapes() { return bigshapes3(); } enum { NP = 3 };
  static bool make(Poly *p, const Shape &s) { return make3(p, s) != 0; }
  static RPlane pl(const DP<3> &p) { return P3(p); }
  static int clip(Poly *p, RPlane *q, int n) { return status_of(r3d_clip, p, q, n); }
  static int split(Poly *in, int n, RPlane q, Poly *a, Poly *b) { return status_of(r3d_split, in, n, q, a, b); }
  static std::string bad(const Poly *p) { return bad3(p); }
  static int good(Poly *p) { return r3d_is_good(p); }
  static double co(const Poly *p, int v, int j) { return p->verts[v].pos.xyz[j]; }
  static std::vector<std::array<double, 3>> pts(const Shape &s) { return s.V; }
  static std::string dumpp(const Poly *p) { return dump(p); }
};
// a seed: a shape in one placement, with its model region and comparison scale
template <int D> struct Seed { typename T<D>::Shape shape; std::string name; Region<D> R; Scale sc; L size; std::vector<DP<D>> A, B; std::array<L, D> ctr; bool general; };
template <int D> static Region<D> shifted(const Region<D> &R, const std::array<L, D> &c) { Region<D> Q = R; for (auto &s : Q) for (int i = 0; i <= D; ++i) for (int j = 0; j < D; ++j) s.v[i][j] -= c[j]; return Q; }
// moments (order<=2) about the seed centre; relative comparison at the seed's own scale
template <int D> static std::vector<L> lmom(const Region<D> &R, const std::array<L, D> &c) { std::vector<L> o(nmom<D>(2), 0.0L); Region<D> Q = shifted<D>(R, c); mom2_add<D>(Q, 2, o.data()); return o; }
// placements: as is; tilted and offset; small; large; far away; small and offset; minute; enormous; squeezed and tilted; far away on the negative side, tilted; a million sizes away
enum { NPLACE = 11 };
static const double PLACE_SC[NPLACE] = {1, 1, 0x1p-20, 0x1p20, 1, 3.7e-4, 0x1p-60, 0x1p60, 1, 1, 1};
static const double PLACE_OFF[NPLACE][3] = {{0, 0, 0}, {0.123, -0.456, 0.789}, {0, 0, 0}, {0, 0, 0}, {-1000, 512, 77}, {1, -1, 0.5}, {0, 0, 0}, {0, 0, 0}, {-2, 1, 0.25}, {-40, -730, -260}, {1234567.375, -1876543.125, 567890.625}};
static const int PLACE_ROT[NPLACE] = {0, 1, 0, 1, 0, 1, 1, 0, 2, 1, 1};
template <int D, class Sh> static void place(Sh &s, int pl) { std::array<double, D> off; for (int j = 0; j < D; ++j) off[j] = PLACE_OFF[pl][j] * (PLACE_SC[pl] > 100 ? PLACE_SC[pl] : 1); xform(s, PLACE_SC[pl], off, PLACE_ROT[pl]); }
template <int D> static std::vector<Seed<D>> seeds(const std::vector<int> &places, int maxoffA, int nB, bool big = false) {
  std::vector<Seed<D>> S;
  for (int pl : places) for (auto s : big ? T<D>::bigshapes() : T<D>::shapes()) {
    place<D>(s, pl);
    Seed<D> z; z.shape = s; z.name = s.name + "@" + std::to_string(pl); z.R = shape_region(s); z.general = false;
    auto P = T<D>::pts(s); for (int j = 0; j < D; ++j) { z.ctr[j] = 0; for (auto &q : P) z.ctr[j] += (L)q[j] / P.size(); }
    z.sc.V = absvol<D>(z.R); z.sc.R = maxabs<D>(shifted<D>(z.R, z.ctr)); L big = maxabs<D>(z.R);
    z.size = z.sc.R; // absolute position error scales with the largest coordinate
    z.sc.R = z.size * (1 + 1e-6L * big / z.size); z.sc.V *= (1 + 1e-5L * big / z.size);
    z.A = planes_for<D>(P, maxoffA, true, true);
    auto g = planes_for<D>(P, 3, false, true); auto l = planes_for<D>(P, 3, true, false);
    // B: a small mixed family of generic and incident planes
    for (int i = 0; i < nB; ++i) { if (i % 2) z.B.push_back(l[(size_t)(i * 37 + 5) % l.size()]); else z.B.push_back(g[(size_t)(i * 7 + 1) % g.size()]); }
    S.push_back(z);
  }
  return S;
}
// is there room for `per` new vertices on every edge the plane cuts (vertices close to the plane counted against it)?
template <int D> static bool roomfor(const typename T<D>::Poly *p, const DP<D> &pl, L size, int per) {
  std::vector<int> sg(p->nverts > 0 ? p->nverts : 0); for (int v = 0; v < p->nverts; ++v) { L t = pl.d; for (int j = 0; j < D; ++j) t += (L)pl.n[j] * T<D>::co(p, v, j); sg[v] = fabsl(t) < 1e-7L * size ? 0 : t > 0 ? 1 : -1; }
  int c = 0; for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < T<D>::NP; ++k) { int w = p->verts[v].pnbrs[k]; if (v < w && (sg[v] != sg[w] || !sg[v])) ++c; }
  return p->nverts + per * c <= (int)T<D>::MAXV;
}
// compare implementation object with the model region
template <int D> static std::string differs(const typename T<D>::Poly *p, const Region<D> &R, const Seed<D> &s, L rel = 1e-9L) {
  std::string b = T<D>::bad(p); if (!b.empty()) return "malformed result: " + b + "; " + T<D>::dumpp(p);
  std::vector<L> a = lmom<D>(region_of(p), s.ctr), m = lmom<D>(R, s.ctr); int w = -1; mc::compared();
  if (!close_moments<D>(a.data(), m.data(), 2, s.sc, rel, &w)) return mc::strf("moment %d of the result region is %.15Lg, exact intersection has %.15Lg (scale V=%Lg R=%Lg); ", w, a[w], m[w], s.sc.V, s.sc.R) + T<D>::dumpp(p);
  return "";
}
