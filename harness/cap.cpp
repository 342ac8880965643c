// C20: behaviour around the vertex capacity. Built once per R3D_MAX_VERTS setting; -DCAP24 adds the fixed 2D and 4D capacities.
#include "grid.h"
#include "fourd.h"
#ifdef FITS_ONLY // C23: only operations whose vertices all fit
const char *CHECK_ID = "C23"; enum { FITS = 1 };
#else
const char *CHECK_ID = "C20"; enum { FITS = 0 };
#endif
enum { M3 = R3D_MAX_VERTS, M2 = R2D_MAX_VERTS, M4 = RND_MAX_VERTS };
struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static int it = -1; static std::vector<Shape3> S3; static std::vector<Shape2> S2; static int nladder;
static Poly2 saw(int k, double w = 1) { Poly2 p; for (int i = 0; i < k; ++i) { p.push_back({w * i, 1.0 + 0.01 * (i % 3)}); p.push_back({w * (i + 0.5), 3.0 + 0.02 * (i % 4)}); } p.push_back({w * k, 0.97}); p.push_back({w * k, 0}); p.push_back({0, 0}); std::reverse(p.begin(), p.end()); return p; }
#define DEPTH(t, q) (M3 > 100 ? (mc::tier ? 2 : 1) : mc::tier ? (t) : (q))
static Shape3 scaled(Shape3 s) { xform(s, 1, {0.123, -0.456, 0.789}, 1); return s; }
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); S3.clear(); S2.clear();
  if (M3 <= 100) for (auto &s : shapes3()) if (s.name != "inverted" && s.name != "touching") { S3.push_back(s); S3.push_back(scaled(s)); }
  nladder = (int)S3.size(); int top = M3 + 4; if (top > 70) top = 70;
  std::vector<int> sizes; if (M3 <= 100) for (int n = 3; n <= top / 2 + 3; ++n) sizes.push_back(n); else for (int k : {6, 4, 3, 2}) for (int d = -2; d <= 2; ++d) if (tier || d % 2 == 0) sizes.push_back(M3 / k + (d == -2 ? -M3 / 40 * 2 : d));
  for (int n : sizes) { S3.push_back(prism(mc::strf("prism%d", n).c_str(), ngon(n, 2, 2, 2), 0, 2, true)); S3.push_back(cone(mc::strf("cone%d", n).c_str(), ngon(n, 2, 2, 2), 0, {2.1, 2.2, 3}, true)); S3.push_back(bicone(mc::strf("bicone%d", n).c_str(), ngon(n, 2, 2, 2), 0, {2.1, 2.2, 3}, {1.9, 2, -2}, true)); if (n % 2 == 0 && n >= 4) { Poly2 z = saw(n / 2 - 1 > 0 ? n / 2 - 1 : 1); S3.push_back(prism(mc::strf("sawprism%zu", z.size()).c_str(), z, 0, 2, false)); } }
  for (int s = 0; s < (int)S3.size(); ++s) { CS.push_back({0, s, 0}); for (int b = 0; b < 4; ++b) { CS.push_back({1, s, b}); CS.push_back({2, s, b}); } for (int ax = 0; ax < 3; ++ax) CS.push_back({3, s, ax}); CS.push_back({4, s, 0}); }
#ifdef CAP24
  for (int k = 1; k <= 130; ++k) { CS.push_back({5, k, 0}); CS.push_back({6, k, 0}); for (int g = 0; g < 5; ++g) CS.push_back({7, k, g}); } for (int k = 240; k <= 270; ++k) CS.push_back({8, k, 0});
  for (int k = 0; k < (tier ? 24 : 8); ++k) for (int b = 0; b < 2; ++b) CS.push_back({9, k, b}); for (int ax = 0; ax < 4; ++ax) for (int k = 0; k < 4; ++k) CS.push_back({10, k, ax});
#endif
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier);
#ifdef CAP24
  const char *more = "; 2D capacity 256: sawtooth polygons with 1..130 teeth x cut heights and slopes x clip/split/rasterize, polygon initialisation with 240..270 vertices; 4D capacity 1024: tangent-plane lists driven through the limit, clip and voxelize";
#else
  const char *more = "";
#endif
  return mc::strf("R3D_MAX_VERTS=%d: %zu shapes (all seeds plus prisms, cones, bicones and sawtooth prisms with every size across the limit) x initialise, all clip/split trees of depth up to %d over 6 planes, one-plane and many-plane voxelizations, conversions of full buffers%s", M3, S3.size(), DEPTH(4, 3), more); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d %s %d,%d", r.kind, r.kind <= 4 ? S3[r.a].name.c_str() : "", r.a, r.b); }
// counts of a pending cut: vertices inside/outside, crossing edges; false when some vertex is too close to the plane
struct Cut { int in, out, cross; };
template <class P, class CO> static bool cut_of(const P *p, int D, CO co, const L *n, L d, L margin, Cut &c) { c = {0, 0, 0}; std::vector<int> sd(p->nverts); for (int v = 0; v < p->nverts; ++v) { L t = d; for (int j = 0; j < D; ++j) t += n[j] * co(v, j); if (fabsl(t) < margin) return false; sd[v] = t > 0; (t > 0 ? c.in : c.out)++; } for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < D; ++k) if (sd[v] && !sd[p->verts[v].pnbrs[k]]) ++c.cross; return true; }
template <int D> static bool cutof(const typename T<D>::Poly *p, const DP<D> &pl, L margin, Cut &c) { L n[D]; for (int j = 0; j < D; ++j) n[j] = pl.n[j]; return cut_of(p, D, [&](int v, int j) { return (L)T<D>::co(p, v, j); }, n, (L)pl.d, margin, c); }
static void verdict(int st, bool mustfail, bool mustok, const char *op, int need, int fin, int cap) {
  if (mustfail && st != 0) mc::fail("%s: the result needs %d vertices, capacity %d, but %s", op, fin, cap, st < 0 ? "the function cannot report failure" : "success was reported");
  if (mustok && st == 0) mc::fail("%s: failure reported although at most %d of %d vertices are ever needed", op, need, cap);
}
template <int D> static Seed<D> mkseed(const typename T<D>::Shape &s) { Seed<D> z; z.shape = s; z.name = s.name; z.R = shape_region(s); auto P = T<D>::pts(s); for (int j = 0; j < D; ++j) { z.ctr[j] = 0; for (auto &q : P) z.ctr[j] += (L)q[j] / P.size(); } z.sc.V = absvol<D>(z.R); z.size = maxabs<D>(shifted<D>(z.R, z.ctr)); z.sc.R = z.size * 1.00001L; return z; }
template <int D> static std::vector<DP<D>> fam(const Seed<D> &z, const std::vector<std::array<double, D>> &P) {
  std::vector<DP<D>> F; auto g = planes_for<D>(P, 3, false, true); for (int i : {1, 4, 8, 12, 15}) F.push_back(g[i % g.size()]);
  DP<D> h; double lo = 1e300, hi = -1e300; for (auto &p : P) { lo = std::min(lo, p[D - 1]); hi = std::max(hi, p[D - 1]); } for (int j = 0; j < D; ++j) h.n[j] = 0; h.n[D - 1] = 1; h.d = -(lo + 0.513 * (hi - lo)); F.push_back(h); (void)z; return F;
}
static void slots(int m, const char *) { (void)m; }
template <int D> static void cliptree(const Seed<D> &z, const std::vector<DP<D>> &F, typename T<D>::Poly *p, const Region<D> &R, int left, int cap, int first, const std::string &tr, typename T<D>::Poly *seedp, std::vector<DP<D>> hist) {
  typedef typename T<D>::Poly Poly;
  for (int i = first < 0 ? 0 : first; i < (first < 0 ? (int)F.size() : first + 1); ++i) for (int sg = 0; sg < 2; ++sg) {
    DP<D> pl = F[i]; if (sg) { for (int j = 0; j < D; ++j) pl.n[j] = -pl.n[j]; pl.d = -pl.d; } Cut c; if (!cutof<D>(p, pl, 1e-7L * z.size, c)) { mc::skipped(); continue; }
    if (FITS && p->nverts + (c.in ? c.cross : 0) > cap) { mc::skipped(); continue; } Poly *q = newpoly<Poly>(); cp(q, p); std::string t2 = tr + " | clip " + pstr<D>(pl); mc::path_s(t2); auto rp = T<D>::pl(pl); mc::trans(); int st = T<D>::clip(q, &rp, 1); int need = p->nverts + (c.in ? c.cross : 0), fin = c.in ? (c.out ? c.in + c.cross : p->nverts) : 0; verdict(st, fin > cap, need <= cap, "clip", need, fin, cap);
    std::vector<DP<D>> h2 = hist; h2.push_back(pl); bool sure_fail = fin > cap, sure_ok = need <= cap;
    { Poly *q2 = newpoly<Poly>(); cp(q2, seedp); std::vector<typename T<D>::RPlane> L2; for (auto &x : h2) L2.push_back(T<D>::pl(x)); mc::path_s("one call:" + t2); mc::trans(); int s2 = T<D>::clip(q2, L2.data(), (int)L2.size()); if (s2 == 0 && sure_ok && st != 0) mc::fail("one call with the whole list fails although every step succeeds"); if (s2 != 0 && sure_fail) mc::fail("one call with the whole list reports success although the result needs %d vertices, capacity %d", fin, cap); if (s2 != 0 && !sure_fail) { Region<D> R1 = clip<D>(R, toL(pl)); std::string d = differs<D>(q2, R1, z); if (!d.empty()) mc::fail("%s", d.c_str()); } free(q2); }
    mc::path_s(t2);
    if (st != 0) { Region<D> R1 = clip<D>(R, toL(pl)); std::string d = differs<D>(q, R1, z); if (!d.empty()) mc::fail("clip reported success: %s", d.c_str()); if (q->nverts > 0 && !T<D>::good(q)) mc::fail("validity test rejects the result"); bool fresh = mc::state(hpoly(q, left + cap)); if (left > 1 && fresh && q->nverts > 0) cliptree<D>(z, F, q, R1, left - 1, cap, -1, t2, seedp, h2); }
    free(q);
  }
}
template <int D> static void splittree(const Seed<D> &z, const std::vector<DP<D>> &F, typename T<D>::Poly *p, const Region<D> &R, int left, int cap, int first, const std::string &tr) {
  typedef typename T<D>::Poly Poly;
  for (int i = first < 0 ? 0 : first; i < (first < 0 ? (int)F.size() : first + 1); ++i) for (int two = 0; two < 2; ++two) {
    DP<D> pl = F[i]; Cut c; if (!cutof<D>(p, pl, 1e-7L * z.size, c)) { mc::skipped(); continue; }
    if (FITS && p->nverts + (c.in && c.out ? 2 * c.cross : 0) > cap) { mc::skipped(); continue; } Poly *in = (Poly *)malloc(sizeof(Poly) * (1 + two)), *a = (Poly *)malloc(sizeof(Poly) * (1 + two)), *b = (Poly *)malloc(sizeof(Poly) * (1 + two)); memset((void *)a, 0x7b, sizeof(Poly) * (1 + two)); memset((void *)b, 0x7b, sizeof(Poly) * (1 + two)); for (int k = 0; k <= two; ++k) cp(&in[k], p);
    std::string t2 = tr + (two ? " | split two copies " : " | split ") + pstr<D>(pl); mc::path_s(t2); mc::trans(); int st = T<D>::split(in, 1 + two, T<D>::pl(pl), a, b); bool cuts = c.in && c.out; int need = p->nverts + (cuts ? 2 * c.cross : 0), f1 = cuts ? c.in + c.cross : c.in, f2 = cuts ? c.out + c.cross : c.out; verdict(st, std::max(f1, f2) > cap, need <= cap, "split", need, std::max(f1, f2), cap);
    if (st != 0) for (int k = 0; k <= two; ++k) { Region<D> Ra = clip<D>(R, toL(pl)), Rb = clip<D>(R, flip<D>(toL(pl))); std::string d = differs<D>(&a[k], Ra, z); if (!d.empty()) mc::fail("split reported success, first side: %s", d.c_str()); d = differs<D>(&b[k], Rb, z); if (!d.empty()) mc::fail("split reported success, second side: %s", d.c_str()); if (!two) { bool f1 = mc::state(hpoly(a, left + cap)); bool f2 = mc::state(hpoly(b, left + cap)); if (left > 1 && f1 && a->nverts > 0) splittree<D>(z, F, a, Ra, left - 1, cap, -1, t2 + "+"); if (left > 1 && f2 && b->nverts > 0) splittree<D>(z, F, b, Rb, left - 1, cap, -1, t2 + "-"); } }
    free(in); free(a); free(b);
  }
}
// g: 0..D-1 one internal grid plane on axis g (need known exactly); otherwise a fine grid (success must be exact)
template <int D> static void gridop(const Seed<D> &z, typename T<D>::Poly *p, const Region<D> &R, int g, int cap, bool convex, int nfaces) {
  typedef typename T<D>::Poly Poly; typedef G<D> GG; double lo[D], hi[D], dd[D]; for (int j = 0; j < D; ++j) { lo[j] = 1e300; hi[j] = -1e300; for (int v = 0; v < p->nverts; ++v) { lo[j] = std::min(lo[j], T<D>::co(p, v, j)); hi[j] = std::max(hi[j], T<D>::co(p, v, j)); } }
  for (int variant = 0; variant < 3; ++variant) {
    typename GG::RV d; typename GG::IV ib[2], ic[2]; long nc = 1; int need = p->nverts; bool known = g < D, skip = false;
    for (int j = 0; j < D; ++j) { if (g < D) { if (j != g) { dd[j] = 1000; GG::at(ib[0], j) = lo[j] < 0 ? -1 : 0; GG::at(ib[1], j) = hi[j] > 0 ? 1 : 0; if (GG::at(ib[1], j) - GG::at(ib[0], j) != 1) { skip = true; } } else { double x = lo[j] + (0.31 + 0.22 * variant) * (hi[j] - lo[j]); double m = std::max(fabs(lo[j]), fabs(hi[j])); int k = 1; dd[j] = x; if (x <= 0) { dd[j] = -x; k = -1; } if (dd[j] < 0.3 * m) { skip = true; } GG::at(ib[0], j) = k - 1; GG::at(ib[1], j) = k + 1; if ((k - 1) * dd[j] > lo[j] || (k + 1) * dd[j] < hi[j]) skip = true; } } else { dd[j] = (hi[j] - lo[j]) / (1.7 + variant + 0.45 * j); GG::at(ib[0], j) = (int)floor(lo[j] / dd[j]); GG::at(ib[1], j) = (int)ceil(hi[j] / dd[j]); } GG::at(d, j) = dd[j]; nc *= GG::at(ib[1], j) - GG::at(ib[0], j); }
    if (skip || nc <= 0) { mc::skipped(); continue; }
    if (known) { DP<D> pl; for (int j = 0; j < D; ++j) pl.n[j] = j == g; pl.d = -(double)(dd[g] * (GG::at(ib[0], g) + 1)); Cut c; if (!cutof<D>(p, pl, 1e-7L * z.size, c)) { mc::skipped(); continue; } need = p->nverts + 2 * c.cross; if (std::max(c.in, c.out) + c.cross > cap) need = 1 << 30; }
    if (FITS && need > cap) { mc::skipped(); continue; }
    int ilo[D], ihi[D]; for (int j = 0; j < D; ++j) { ilo[j] = GG::at(ib[0], j); ihi[j] = GG::at(ib[1], j); } ic[0] = ib[0]; ic[1] = ib[1];
    Poly *q = newpoly<Poly>(); cp(q, p); double *gr = (double *)calloc(nc, sizeof(double)); mc::path("%s voxelize g=%d variant %d", z.name.c_str(), g, variant); mc::trans(); int st = GG::vox(q, ib, gr, d, 0); mc::compared();
    if (known) verdict(st, need == 1 << 30, need <= cap, "voxelize", need, need, cap); else if (convex && st == 0 && D == 3 && 4 * nfaces + 20 <= cap) mc::fail("voxelize: failure reported although the pieces of a convex polyhedron with %d faces never need more than %d of %d vertices", nfaces, 4 * nfaces + 20, cap);
    if (st != 0) { std::vector<std::vector<L>> ref; cells_rec<D>(R, 0, ilo, ihi, dd, 0, ref); for (long c = 0; c < nc; ++c) if (!(fabsl(gr[c] - ref[c][0]) <= 1e-9L * z.sc.V + 1e-11L * powl(z.size, D))) mc::fail("voxelize reported success but cell %ld is %.15g, exact overlap %.15Lg", c, gr[c], ref[c][0]); mc::state(mc::hash_bytes(gr, nc * sizeof(double), cap)); }
    free(gr); free(q);
  }
}
static int nfaces_of(const r3d_poly *p) { int n = p->nverts, F = 0; std::vector<char> m(3 * n, 0); for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (!m[3 * v + k]) { int u = v, e = k; ++F; while (!m[3 * u + e]) { m[3 * u + e] = 1; int w = p->verts[u].pnbrs[e], j = 0; while (p->verts[w].pnbrs[j] != u) ++j; u = w; e = (j + 1) % 3; } } return F; }
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind <= 4) {
    Shape3 &s = S3[r.a]; Seed<3> z = mkseed<3>(s); r3d_poly *p = newpoly<r3d_poly>(); Desc3 D = desc3(s); std::vector<int> val(s.V.size(), 0); for (auto &f : s.F) for (int v : f) ++val[v]; int inter = 0, fin = 0; bool simple = true; for (int v : val) { inter += v; fin += v - 2; if (v != 3) simple = false; } if (simple) inter = (int)s.V.size();
    if (FITS && inter > M3) { mc::skipped(); free(p); return; } mc::trans(); int st = status_of(r3d_init_poly, p, D.V.data(), (r3d_int)D.V.size(), D.fp.data(), D.nf.data(), (r3d_int)D.nf.size()); verdict(st, fin > M3, inter <= M3, "init_poly", inter, fin, M3);
    if (st == 0) { free(p); return; } std::string d = differs<3>(p, z.R, z); if (!d.empty()) mc::fail("init_poly reported success: %s", d.c_str()); if (p->nverts != fin) mc::fail("init_poly: %d vertices, expected %d", p->nverts, fin); poison(p); mc::state(hpoly(p)); auto P = T<3>::pts(s); auto F = fam<3>(z, P);
    if (r.kind == 0) { if (!r3d_is_good(p)) mc::fail("validity test rejects the initialised polyhedron"); // also with the links ordered for the longest list of pending vertices
      int n = p->nverts; std::vector<char> seen(n, 0); for (int s0 = 0; s0 < n; ++s0) { std::vector<int> st{s0}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (seen[v]) continue; seen[v] = 1; r3d_int *a = p->verts[v].pnbrs; int b = -1, bo = 99; for (int k = 0; k < 3; ++k) if (!seen[a[k]]) { int c = 0; for (int j = 0; j < 3; ++j) c += !seen[p->verts[a[k]].pnbrs[j]]; if (!c) c = 50; if (c < bo) { bo = c; b = k; } } if (b >= 0) std::swap(a[b], a[2]); for (int k = 0; k < 3; ++k) st.push_back(a[k]); } } mc::path_s(check_describe(cc) + " links reordered"); mc::trans(); mc::compared(); if (!r3d_is_good(p)) mc::fail("validity test rejects a well-formed link table"); }
    if (r.kind == 1) { for (int i = r.b; i < (int)F.size(); i += 4) cliptree<3>(z, F, p, z.R, DEPTH(4, r.a < nladder ? 3 : 2), M3, i, s.name, p, {}); }
    if (r.kind == 2) { for (int i = r.b; i < (int)F.size(); i += 4) splittree<3>(z, F, p, z.R, DEPTH(3, 2), M3, i, s.name); }
    if (r.kind == 3) { gridop<3>(z, p, z.R, r.b, M3, s.convex, nfaces_of(p)); if (r.b == 0) gridop<3>(z, p, z.R, 3, M3, s.convex, nfaces_of(p)); }
    if (r.kind == 4) { uint64_t h = hpoly(p); r3d_brep *b = 0; r3d_int nc = 0; mc::trans(); r3d_init_brep(p, &b, &nc); if (hpoly(p) != h) mc::fail("conversion altered the polyhedron"); if (nc != s.ncomp) mc::fail("%d components, expected %d", nc, s.ncomp); int nv = 0; for (int c = 0; c < nc; ++c) nv += b[c].numvertices; if (nv != (int)s.V.size() && nv != p->nverts) mc::fail("%d vertices in the boundary, %d in the polyhedron", nv, p->nverts); r3d_free_brep(&b, nc); double m[4]; r3d_reduce(p, m, 1); std::vector<L> e = moments<3>(z.R, 1); for (int i = 0; i < 4; ++i) if (!(fabsl(m[i] - e[i]) < 1e-9L * (1 + z.sc.V * 10))) mc::fail("moment %d of a full buffer is %.15g, exact %.15Lg", i, m[i], e[i]); r3d_dvec3 ib[2]; r3d_rvec3 dd; dd.x = dd.y = dd.z = 0.3; r3d_get_ibox(p, ib, dd); mc::trans(2); mc::compared(3); }
    free(p);
  }
#ifdef CAP24
  else if (r.kind <= 7) { // 2D sawtooth with k teeth
    Shape2 s{mc::strf("saw%d", r.a), {saw(r.a, 0.25)}, false}; int n = (int)s.loops[0].size(); r2d_poly *p = newpoly<r2d_poly>(); std::vector<r2d_rvec2> v(n); for (int i = 0; i < n; ++i) { v[i].x = s.loops[0][i][0]; v[i].y = s.loops[0][i][1]; } mc::trans(); int st = status_of(r2d_init_poly, p, v.data(), n); verdict(st, n > M2, n <= M2, "init_poly", n, n, M2); if (st == 0 || n > M2) { free(p); return; } Seed<2> z = mkseed<2>(s); std::string d = differs<2>(p, z.R, z); if (!d.empty()) mc::fail("init_poly reported success: %s", d.c_str()); poison(p); if (!r2d_is_good(p)) mc::fail("validity test rejects the initialised polygon"); mc::state(hpoly(p));
    std::vector<DP<2>> F; for (double y : {0.5, 1.6, 2.2, 2.9}) F.push_back({{0, 1}, -y}); for (double f : {0.35, 0.8}) { double w = 0.25 * r.a; double nx = 2.5 / w, ny = 1, l = sqrt(nx * nx + ny * ny); F.push_back({{-nx / l, ny / l}, -(1.2 - nx * w * (f - 0.5)) / l}); } F.push_back({{1, 0}, -0.25 * r.a * 0.515});
    if (r.kind == 5) for (int i = 0; i < (int)F.size(); ++i) cliptree<2>(z, F, p, z.R, 2, M2, i, s.name, p, {}); if (r.kind == 6) for (int i = 0; i < (int)F.size(); ++i) splittree<2>(z, F, p, z.R, 2, M2, i, s.name); if (r.kind == 7) gridop<2>(z, p, z.R, r.b >= 2 ? 2 : r.b, M2, false, 0);
    free(p);
  } else if (r.kind == 8) { // regular polygons around the limit
    int n = r.a; std::vector<r2d_rvec2> v(n); Poly2 q = ngon(n, 2, 0.3, 0.4); for (int i = 0; i < n; ++i) { v[i].x = q[i][0]; v[i].y = q[i][1]; } r2d_poly *p = newpoly<r2d_poly>(); mc::trans(); int st = status_of(r2d_init_poly, p, v.data(), n); verdict(st, n > M2, n <= M2, "init_poly", n, n, M2); if (n <= M2 && st != 0) { Shape2 s{mc::strf("ngon%d", n), {q}, true}; Seed<2> z = mkseed<2>(s); std::string d = differs<2>(p, z.R, z); if (!d.empty()) mc::fail("%s", d.c_str()); if (!r2d_is_good(p)) mc::fail("validity test rejects a full polygon"); auto F = fam<2>(z, T<2>::pts(s)); for (int i = 0; i < (int)F.size(); ++i) { cliptree<2>(z, F, p, z.R, 2, M2, i, s.name, p, {}); splittree<2>(z, F, p, z.R, 2, M2, i, s.name); } for (int g = 0; g < 3; ++g) gridop<2>(z, p, z.R, g, M2, false, 0); } free(p);
  } else { // 4D: clip a box by planes tangent to a sphere until the buffer is full
    rNd_poly *p = newpoly<rNd_poly>(); rNd_rvec b[2]; for (int j = 0; j < 4; ++j) { b[0].xyz[j] = -2 - 0.1 * j; b[1].xyz[j] = 2 + 0.07 * j; } rNd_init_box(p, b); mc::trans(); int seedk = r.a; int fails = 0; auto rnd = [s = (uint64_t)(12345 + 977 * seedk)]() mutable { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (double)(s >> 11) / 9007199254740992.0; };
    for (int k = 0; k < 260 && fails < 6; ++k) { DP<4> pl; double l = 0; do { l = 0; for (int j = 0; j < 4; ++j) { pl.n[j] = 2 * rnd() - 1; l += pl.n[j] * pl.n[j]; } } while (l > 1 || l < 0.05); l = sqrt(l); for (int j = 0; j < 4; ++j) pl.n[j] /= l; pl.d = 1.0 + 0.1 * rnd();
      L n[4]; for (int j = 0; j < 4; ++j) n[j] = pl.n[j]; Cut c; if (!cut_of(p, 4, [&](int v, int j) { return (L)p->verts[v].pos.xyz[j]; }, n, (L)pl.d, 1e-5L, c)) continue; if (!c.out || !c.in) continue;
      rNd_poly *q = newpoly<rNd_poly>(); cp(q, p); rNd_plane rp = P4(pl); mc::path("4D list %d plane %d, %d vertices", r.a, k, p->nverts); mc::trans(); int st = status_of(rNd_clip, q, &rp, 1); int need = p->nverts + c.cross, fin = c.in + c.cross; verdict(st, fin > M4, need <= M4, "4D clip", need, fin, M4); mc::compared();
      if (st != 0) { if (q->nverts != fin) mc::fail("4D clip: %d vertices, expected %d", q->nverts, fin); std::string e = bad4(q); if (!e.empty()) mc::fail("4D clip reported success: %s", e.c_str()); mc::state(hpoly4(q)); cp(p, q); } else ++fails; free(q); }
    if (fails < 6 && r.kind == 9) mc::fail("the list did not reach the capacity: %d vertices", p->nverts);
    // voxelize the nearly full polytope
    for (int variant = 0; variant < 2; ++variant) for (int ax = 0; ax < 4; ++ax) { if (r.kind == 10 && ax != r.b) continue; if (r.kind == 9 && (ax % 2 != r.b || variant)) continue; rNd_rvec d; rNd_dvec ib[2]; long nc = 1; double m[4]; for (int j = 0; j < 4; ++j) m[j] = 1000; for (int j = 0; j < 4; ++j) { d.xyz[j] = j == ax ? 3.1 : 1000; double off = 0; (void)off; ib[0].ijk[j] = -1; ib[1].ijk[j] = 1; nc *= 2; }
      // internal planes x_j = 0 in every axis; only the first split has a known need
      L n[4] = {0, 0, 0, 0}; n[0] = 1; Cut c; bool ok = cut_of(p, 4, [&](int v, int j) { return (L)p->verts[v].pos.xyz[j]; }, n, 0, 1e-6L, c); rNd_poly *q = newpoly<rNd_poly>(); cp(q, p); double *g = (double *)calloc(nc, sizeof(double)); mc::path("4D voxelize list %d axis %d, %d vertices", r.a, ax, p->nverts); mc::trans(); int st = status_of(rNd_voxelize, q, ib, g, d, 0); if (ok && st != 0 && (c.in + c.cross > M4 || c.out + c.cross > M4)) mc::fail("4D voxelize reported success although a piece needs %d of %d vertices", std::max(c.in, c.out) + c.cross, M4); mc::compared();
      if (st != 0) { double tot = 0, vol = 0; for (long i = 0; i < nc; ++i) tot += g[i]; rNd_reduce(p, &vol, 0); if (!(fabs(tot - vol) <= 1e-3 * fabs(vol))) mc::fail("4D voxelize reported success but the cells sum to %.12g, the polytope has %.12g", tot, vol); }
      free(g); free(q); }
    free(p);
  }
#endif
  if (cc % 501 == 7) mc::sample(check_describe(cc));
}
MC_MAIN
