// grid.h - 2D/3D/ traits for grids (index boxes, clamping, voxelization)
#pragma once
#include "dim.h"
template <int D> struct G;
template <> struct G<2> {
  typedef r2d_dvec2 IV; typedef r2d_rvec2 RV;
  static void ibox(r2d_poly *p, IV *b, RV d) { r2d_get_ibox(p, b, d); }
  static void clamp(r2d_poly *p, IV *b, IV *c, RV d) { r2d_clamp_ibox(p, b, c, d); }
  static int vox(r2d_poly *p, IV *b, double *g, RV d, int o) { return status_of(r2d_rasterize, p, b, g, d, o); }
  static int &at(IV &v, int j) { return v.ij[j]; } static double &at(RV &v, int j) { return v.xy[j]; }
};
template <> struct G<3> {
  typedef r3d_dvec3 IV; typedef r3d_rvec3 RV;
  static void ibox(r3d_poly *p, IV *b, RV d) { r3d_get_ibox(p, b, d); }
  static void clamp(r3d_poly *p, IV *b, IV *c, RV d) { r3d_clamp_ibox(p, b, c, d); }
  static int vox(r3d_poly *p, IV *b, double *g, RV d, int o) { return status_of(r3d_voxelize, p, b, g, d, o); }
  static int &at(IV &v, int j) { return v.ijk[j]; } static double &at(RV &v, int j) { return v.xyz[j]; }
};
// spacing configurations: cells per axis relative to the extent (generic), or absolute aligned spacings
struct Spacing { double n[3]; bool abs; };
static std::vector<Spacing> spacings(bool aligned, int tier) {
  std::vector<Spacing> s = {{{2.7, 1.6, 3.3}, false}, {{1.3, 4.6, 0.7}, false}, {{0.45, 0.4, 0.3}, false}, {{29.3, 0.8, 0.6}, false}, {{0.7, 36.4, 1.2}, false}, {{1.4, 0.9, 33.7}, false}, {{4.4, 4.9, 4.2}, false}};
  if (aligned) { s.push_back({{1, 1, 1}, true}); s.push_back({{0.5, 1, 2}, true}); s.push_back({{2, 0.5, 1}, true}); s.push_back({{0.75, 0.75, 1.5}, true}); }
  if (tier) { s.push_back({{9.3, 7.2, 5.9}, false}); s.push_back({{3.1, 16.4, 2.2}, false}); s.push_back({{17.2, 2.1, 3.9}, false}); s.push_back({{2.2, 3.4, 64.7}, false}); if (aligned) { s.push_back({{0.25, 2, 0.5}, true}); s.push_back({{0.3, 0.7, 0.9}, true}); } }
  return s;
}
template <int D> static typename G<D>::RV spacing_for(const Spacing &s, const typename T<D>::Poly *p) {
  typename G<D>::RV d; for (int j = 0; j < D; ++j) { double lo = 1e300, hi = -1e300; for (int v = 0; v < p->nverts; ++v) { double x = T<D>::co(p, v, j); lo = std::min(lo, x); hi = std::max(hi, x); } G<D>::at(d, j) = s.abs ? s.n[j] : (hi - lo) / s.n[j]; }
  return d;
}
// per-cell reference moments: slabs axis by axis, cells row-major over [lo,hi)
template <int D> static void cells_rec(const Region<D> &R, int ax, const int *lo, const int *hi, const double *d, int order, std::vector<std::vector<L>> &out) {
  if (ax == D) { out.push_back(moments<D>(R, order)); return; }
  for (int i = lo[ax]; i < hi[ax]; ++i) {
    Plane<D> a, b; for (int j = 0; j < D; ++j) a.n[j] = b.n[j] = 0; a.n[ax] = 1; a.d = -(L)(double)(d[ax] * i); b.n[ax] = -1; b.d = (L)(double)(d[ax] * (i + 1));
    Region<D> Q = clip<D>(clip<D>(R, a), b); mc::beat(); cells_rec<D>(Q, ax + 1, lo, hi, d, order, out);
  }
}
// tolerance for a sum of moments of order k about the origin of a region of measure V and max coordinate R (extents E)
