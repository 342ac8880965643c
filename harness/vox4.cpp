// C18: 4D index boxes, clamping and voxelization against slab-clipped simplices
#include "fourd.h"
const char *CHECK_ID = "C18";
static std::vector<Seed4> S; struct CaseRef { int seed, sp, cl, pre; }; static std::vector<CaseRef> CS; static int it = -1;
static const double NS[10][4] = {{1.37, 2.21, 0.63, 1.43}, {0.4, 0.37, 0.44, 0.31}, {2.63, 1.81, 2.33, 1.27}, {7.3, 0.41, 0.57, 0.83}, {0.47, 6.7, 0.71, 0.37}, {0.52, 0.61, 8.4, 0.33}, {0.43, 0.56, 0.39, 9.3}, {3.37, 3.21, 2.63, 0.43}, {0.9, 3.31, 3.63, 3.43}, {1.9, 5.31, 1.63, 2.43}};
static void init(int tier) { if (it == tier) return; it = tier; CS.clear(); S = seeds4(tier); S.erase(std::remove_if(S.begin(), S.end(), [](const Seed4 &q) { return q.big > 1e5 * q.size; }), S.end()); for (int s = 0; s < (int)S.size(); ++s) for (int k = 0; k < (tier ? 10 : 7); ++k) for (int c = 0; c < 18; ++c) for (int p : {0, 1, 2, 6, 9}) { if (!tier && (p == 2 || p == 9)) continue; if (p > 5 && (k > (tier ? 4 : 2) || (!tier && (s + c + k) % 2))) continue; if (c >= 14 && (p || k != c % 3 || (!tier && (s + c) % 2))) continue; if (!tier && p && (c + k + s) % 3) continue; CS.push_back({s, k, c, p}); } for (int k = 0; k < 40; ++k) CS.push_back({-1, k, 0, 0}); for (int k = 0; k < 9; ++k) CS.push_back({-2, k, 0, 0}); for (int k = 0; k < 2; ++k) CS.push_back({-3, k, 0, 0}); }
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu simplices and boxes (optionally clipped first) x %d spacings (compact grids and grids long in each axis) x 14 ranges (clamped on each side, all sides, disjoint, larger; unclamped; and a patch larger than the index box), patches extending for tens of thousands of cells along each axis, every cell compared; index boxes and clamps at indices of both signs up to 1e9 on every axis, and of boxes with extremes on, 2^-22 to 2^-40 of a cell below and above a cell boundary, and of tables of up to 1024 vertices with the extreme at every one of them", S.size(), tier ? 10 : 7); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; if (r.seed < 0) return mc::strf("%s, part %d", r.seed == -3 ? "many vertices" : r.seed == -2 ? "extremes next to cell boundaries" : "far out", r.sp); return mc::strf("seed %s spacing %d clamp %d preclip %d", S[r.seed].name.c_str(), r.sp, r.cl, r.pre); }
static void cells(const Region<4> &R, int ax, const int *lo, const int *hi, const double *d, std::vector<L> &out) { if (ax == 4) { out.push_back(absvol<4>(R)); return; } for (int i = lo[ax]; i < hi[ax]; ++i) { Plane<4> a, b; for (int j = 0; j < 4; ++j) a.n[j] = b.n[j] = 0; a.n[ax] = 1; a.d = -(L)d[ax] * i; b.n[ax] = -1; b.d = (L)d[ax] * (i + 1); mc::beat(); cells(clip<4>(clip<4>(R, a), b), ax + 1, lo, hi, d, out); } }
// a simplex and a box moved far out, to indices of both signs near the limits of the index type
static void far(int part) {
  static rNd_poly *p = newpoly<rNd_poly>(), *q = newpoly<rNd_poly>(); static const double OFF[10] = {1.5e3, -1.5e3, 4.0e4, -7.0e4, 1.25e6, -3.5e6, 9.0e7, -1.2e8, 1.07e9, -1.06e9}, DD[4][4] = {{1, 1, 1, 1}, {0.75, 1.25, 0.625, 1.5}, {0x1p60, 0x1p60, 0x1p60, 0x1p60}, {0x1p103, 0x1p103, 0x1p103, 0x1p103}};
  for (int c = part; c < 10000; c += 40) for (int z = 0; z < 4; ++z) for (int k = 0; k < 2; ++k) {
    rNd_rvec v[5], d; int x = c; for (int j = 0; j < 4; ++j) { double o = OFF[x % 10] + 0.28125 * (j + 1); x /= 10; d.xyz[j] = DD[z][j]; if (k) { v[0].xyz[j] = o; v[1].xyz[j] = o + 0.5 + 0.75 * j; } else for (int i = 0; i < 5; ++i) v[i].xyz[j] = o + (i == j + 1 ? 2.25 : 0.125 * ((i * 3 + j) % 4)); } if (z >= 2) for (auto &w : v) for (double &y : w.xyz) y *= DD[z][0]; mc::path("%s moved far out, combination %d spacing %d", k ? "box" : "simplex", c, z); mc::trans(); if (k) rNd_init_box(p, v); else rNd_init_simplex(p, v);
    rNd_dvec ib[2]; memset(ib, 0x7b, sizeof ib); rNd_get_ibox(p, ib, d); mc::compared();
    for (int j = 0; j < 4; ++j) { L lo = 1e300L, hi = -1e300L; for (int i = 0; i < p->nverts; ++i) { lo = std::min(lo, (L)p->verts[i].pos.xyz[j]); hi = std::max(hi, (L)p->verts[i].pos.xyz[j]); } L a = lo / (L)d.xyz[j], b = hi / (L)d.xyz[j]; auto amb = [](L y) { return fabsl(y - roundl(y)) < 1e-6L; }; int ga = ib[0].ijk[j], gb = ib[1].ijk[j]; if ((ga != (int)floorl(a) && !(amb(a) && abs(ga - (int)roundl(a)) <= 1)) || (gb != (int)ceill(b) && !(amb(b) && abs(gb - (int)roundl(b)) <= 1))) mc::fail("axis %d: index box %d..%d, minimal is %d..%d", j, ga, gb, (int)floorl(a), (int)ceill(b)); }
    for (int m = 0; m <= 8; ++m) { cp(q, p); rNd_dvec b2[2] = {ib[0], ib[1]}, cl[2]; for (int j = 0; j < 4; ++j) { cl[0].ijk[j] = -2000000000; cl[1].ijk[j] = 2000000000; } if (m) { int j = (m - 1) / 2; if (m % 2) cl[1].ijk[j] = ib[0].ijk[j]; else cl[0].ijk[j] = ib[1].ijk[j]; } uint64_t h0 = hpoly4(q); mc::trans(); rNd_clamp_ibox(q, b2, cl, d); mc::compared();
      if (!m) { if (memcmp(b2, ib, sizeof ib) || hpoly4(q) != h0) mc::fail("clamping to a containing range changed the polytope or the range"); } else { bool e = false; for (int j = 0; j < 4; ++j) e |= b2[1].ijk[j] <= b2[0].ijk[j]; if (!e || q->nverts != 0) mc::fail("ranges do not overlap but the polytope or the range is not empty"); } }
    mc::state(mc::hash_bytes(ib, sizeof ib));
  }
}
// boxes whose extremes lie on, just below or just above cell boundaries; the spacing is a power of two, so every quotient is exact
static void near4(int part) {
  static rNd_poly *p = newpoly<rNd_poly>(); static const int EX[3] = {-22, -33, -40}; static const double DD[3] = {1, 0.5, 4};
  for (int e = 0; e < 3; ++e) for (int a = -2; a <= 1; ++a) for (int w = 1; w <= 2; ++w) for (int m = 0; m < 81; ++m) {
    int dz = part % 3, off = part / 3; rNd_rvec v[2], d; int x = m, lo[4], hi[4]; for (int j = 0; j < 4; ++j) { int sl = x % 3 - 1, sh = (x + j + off) % 3 - 1; x /= 3; double eps = ldexp(1, EX[e]); d.xyz[j] = DD[(dz + j) % 3]; int b = a + (j == off); v[0].xyz[j] = (b + sl * eps) * d.xyz[j]; v[1].xyz[j] = (b + w + sh * eps) * d.xyz[j]; lo[j] = sl < 0 ? b - 1 : b; hi[j] = sh > 0 ? b + w + 1 : b + w; }
    mc::path("box from about %d to about %d cells, sides %d, offset 2^%d, spacing %d", a, a + w, m, EX[e], dz); mc::trans(); rNd_init_box(p, v); rNd_dvec ib[2]; memset(ib, 0x7b, sizeof ib); rNd_get_ibox(p, ib, d); mc::compared();
    for (int j = 0; j < 4; ++j) if (ib[0].ijk[j] != lo[j] || ib[1].ijk[j] != hi[j]) mc::fail("axis %d: index box %d..%d, minimal is %d..%d", j, ib[0].ijk[j], ib[1].ijk[j], lo[j], hi[j]);
    mc::state(mc::hash_bytes(ib, sizeof ib));
  }
}
// a full vertex buffer with the extreme of each axis and side at one vertex only, wherever in the numbering it is
static void many4(int part) {
  static rNd_poly *p = newpoly<rNd_poly>(); int n = part ? RND_MAX_VERTS : 200; memset((void *)p, 0, sizeof *p); p->nverts = n; p->nfaces = n; for (int i = 0; i < n; ++i) for (int j = 0; j < 4; ++j) { p->verts[i].pos.xyz[j] = sin(0.37 * i + j) * 2; p->verts[i].pnbrs[j] = (i + (j < 2 ? j + 1 : n - j + 1)) % n; for (int k = 0; k < 4; ++k) p->verts[i].finds[j][k] = i; }
  rNd_rvec d; for (int j = 0; j < 4; ++j) d.xyz[j] = 0.375 + 0.25 * j;
  for (int v = 0; v < n; ++v) for (int j = 0; j < 4; ++j) for (int sd = 0; sd < 2; ++sd) { double keep = p->verts[v].pos.xyz[j]; p->verts[v].pos.xyz[j] = sd ? 9.1 + 0.01 * (v % 90) : -8.7 - 0.01 * (v % 90); mc::path("%d vertices, vertex %d drawn out along axis %d, %s side", n, v, j, sd ? "upper" : "lower"); rNd_dvec ib[2]; memset(ib, 0x7b, sizeof ib); mc::trans(); rNd_get_ibox(p, ib, d); mc::compared();
    for (int i = 0; i < 4; ++i) { L lo = 1e300L, hi = -1e300L; for (int w = 0; w < n; ++w) { L x = p->verts[w].pos.xyz[i]; lo = std::min(lo, x); hi = std::max(hi, x); } L a = lo / (L)d.xyz[i], b = hi / (L)d.xyz[i]; auto amb = [](L y) { return fabsl(y - roundl(y)) < 1e-10L; }; if ((ib[0].ijk[i] != (int)floorl(a) && !amb(a)) || (ib[1].ijk[i] != (int)ceill(b) && !amb(b))) mc::fail("axis %d: index box %d..%d, minimal is %d..%d", i, ib[0].ijk[i], ib[1].ijk[i], (int)floorl(a), (int)ceill(b)); }
    mc::state(mc::hash_bytes(ib, sizeof ib, v * 8 + j * 2 + sd)); p->verts[v].pos.xyz[j] = keep; }
}
void check_case(uint64_t cc) {
  if (CS[cc].seed == -3) { mc::path_s(check_describe(cc)); many4(CS[cc].sp); return; }
  if (CS[cc].seed == -2) { mc::path_s(check_describe(cc)); near4(CS[cc].sp); return; }
  if (CS[cc].seed < 0) { mc::path_s(check_describe(cc)); far(CS[cc].sp); return; }
  CaseRef r = CS[cc]; Seed4 &s = S[r.seed]; mc::path_s(check_describe(cc)); static rNd_poly *p = newpoly<rNd_poly>(), *q = newpoly<rNd_poly>(); make4(p, s); Region<4> R = s.R; HPoly H = s.H;
  if (r.pre) { auto F = planes4(s, 4, 3); int done = 0; for (size_t i = r.pre * 5 + r.sp; i < F.size() && done < r.pre; ++i) { HPoly H1 = H; H1.F.push_back(unitp(toL(F[i]))); std::vector<HV> M; if (!enumerate(H1, 1e-4L * s.size, M) || M.empty()) continue; bool cut = false; for (auto &v : M) for (int f : v.f) cut |= f == (int)H1.F.size() - 1; if (!cut) continue; rNd_plane pl = P4(F[i]); status_of(rNd_clip, p, &pl, 1); R = clip<4>(R, toL(F[i])); H = H1; ++done; } if (p->nverts <= 0 || !bad4(p).empty()) return; }
  std::vector<HV> M; if (!enumerate(H, 1e-7L * s.size, M) || M.empty()) return; if (!differs4(p, M, tol4(s)).empty()) return; // 4D clipping itself is another property
  double lo[4], hi[4]; rNd_rvec d; double dd[4]; for (int j = 0; j < 4; ++j) { lo[j] = 1e300; hi[j] = -1e300; for (int v = 0; v < p->nverts; ++v) { lo[j] = std::min(lo[j], p->verts[v].pos.xyz[j]); hi[j] = std::max(hi[j], p->verts[v].pos.xyz[j]); } d.xyz[j] = dd[j] = (hi[j] - lo[j]) / NS[r.sp][j] * (1 + 0.0137 * j); }
  int ex0[4], ex1[4]; for (int j = 0; j < 4; ++j) { L a = (L)lo[j] / dd[j], b = (L)hi[j] / dd[j]; ex0[j] = (int)floorl(a); ex1[j] = (int)ceill(b); if (fabsl(a - roundl(a)) < 1e-6L && fabsl(a - roundl(a)) > 0) return; if (fabsl(b - roundl(b)) < 1e-6L && fabsl(b - roundl(b)) > 0) return; }
  rNd_dvec ib[2]; memset(ib, 0x7b, sizeof ib); uint64_t h0 = hpoly4(p); mc::trans(); rNd_get_ibox(p, ib, d); mc::compared(); if (hpoly4(p) != h0) mc::fail("computing the index box altered the polytope"); for (int j = 0; j < 4; ++j) if (ib[0].ijk[j] != ex0[j] || ib[1].ijk[j] != ex1[j]) mc::fail("axis %d: index box is %d..%d, minimal is %d..%d", j, ib[0].ijk[j], ib[1].ijk[j], ex0[j], ex1[j]);
  if (r.cl == 13) for (int j = 0; j < 4; ++j) { ib[0].ijk[j] -= (j + r.seed) % 3 == 0; ib[1].ijk[j] += (j + r.sp) % 3 == 1; }
  if (r.cl && r.cl < 13) {
    rNd_dvec c[2], cs[2]; for (int j = 0; j < 4; ++j) { int a = ex0[j], b = ex1[j]; switch (r.cl) { case 1: a -= 2; b += 3; break; case 2: case 3: case 4: case 5: if (j == r.cl - 2) ++a; break; case 6: case 7: case 8: case 9: if (j == r.cl - 6) --b; break; case 10: ++a; --b; break; case 11: if (j == (r.seed + r.sp) % 4) { a = b; b = b + 2; } break; case 12: if (j == (r.seed + r.sp) % 4) { b = a; a = a - 3; } else --a; break; } c[0].ijk[j] = a; c[1].ijk[j] = b; }
    // in a grid one cell wide a clamp range may be empty or inverted: only ask when it is a proper range
    for (int j = 0; j < 4; ++j) if (c[0].ijk[j] >= c[1].ijk[j]) { if (r.cl == 10) { c[0].ijk[j] = ex0[j]; c[1].ijk[j] = ex1[j]; } else return; }
    HPoly HC = H; Region<4> RC = R; bool ok = true; int e0[4], e1[4]; bool disjoint = false;
    for (int j = 0; j < 4; ++j) { e0[j] = std::max(ex0[j], c[0].ijk[j]); e1[j] = std::min(ex1[j], c[1].ijk[j]); if (e0[j] >= e1[j]) disjoint = true; for (int k = 0; k < 2; ++k) { if (k == 0 ? c[0].ijk[j] <= ex0[j] : c[1].ijk[j] >= ex1[j]) continue; Plane<4> h; for (int i = 0; i < 4; ++i) h.n[i] = 0; h.n[j] = k ? -1 : 1; L x = (L)dd[j] * c[k].ijk[j]; h.d = k ? x : -x; std::vector<HV> N; if (!enumerate(HC, 1e-7L * s.size, N)) ok = false; for (auto &v : N) if (fabsl(ev(h, v.p)) < 1e-6L * s.size) ok = false; HC.F.push_back(h); RC = clip<4>(RC, h); } }
    if (!ok || !enumerate(HC, 1e-6L * s.size, M)) { mc::skipped(); return; } cs[0] = c[0]; cs[1] = c[1]; mc::trans(); rNd_clamp_ibox(p, ib, c, d); mc::compared(); if (memcmp(c, cs, sizeof c)) mc::fail("the clamp range was altered");
    if (disjoint || M.empty()) { if (p->nverts != 0) mc::fail("clamped to a disjoint range but not empty"); bool e = false; for (int j = 0; j < 4; ++j) if (ib[1].ijk[j] <= ib[0].ijk[j]) e = true; if (disjoint && !e) mc::fail("clamped to a disjoint range but the index range left is not empty"); return; }
    for (int j = 0; j < 4; ++j) if (ib[0].ijk[j] != e0[j] || ib[1].ijk[j] != e1[j]) mc::fail("axis %d: clamped index box is %d..%d, expected %d..%d", j, ib[0].ijk[j], ib[1].ijk[j], e0[j], e1[j]);
    std::string df = differs4(p, M, tol4(s)); if (!df.empty()) mc::fail("clamped polytope: %s", df.c_str()); R = RC; h0 = hpoly4(p);
  }
  long n = 1; int g0[4], g1[4]; for (int j = 0; j < 4; ++j) { g0[j] = ib[0].ijk[j]; g1[j] = ib[1].ijk[j]; n *= g1[j] - g0[j]; } if (n > (mc::tier ? 2000 : 420)) return;
  { std::vector<Plane<4>> G; for (int j = 0; j < 4; ++j) for (int i = g0[j]; i <= g1[j]; ++i) { if (i <= ex0[j] || i >= ex1[j]) continue; Plane<4> h; for (int k = 0; k < 4; ++k) h.n[k] = 0; h.n[j] = 1; h.d = -(L)dd[j] * i; G.push_back(h); } mc::beat(); if (!general_position(H, G, 1e-6L * s.size)) { mc::skipped(); return; } }
  std::vector<L> ref0, ref; cells(R, 0, g0, g1, dd, ref0); if (r.cl >= 14) { int ax = r.cl - 14, lo_ = r.seed % 2 ? 33000 / (int)(n / (g1[ax] - g0[ax])) : 3, hi_ = r.seed % 2 ? 1 : 40000 / (int)(n / (g1[ax] - g0[ax])); ib[0].ijk[ax] -= lo_; ib[1].ijk[ax] += hi_; n = 1; for (int j = 0; j < 4; ++j) n *= ib[1].ijk[j] - ib[0].ijk[j]; }
  ref.assign(n, 0); { long k = 0; int x[4]; for (x[0] = g0[0]; x[0] < g1[0]; ++x[0]) for (x[1] = g0[1]; x[1] < g1[1]; ++x[1]) for (x[2] = g0[2]; x[2] < g1[2]; ++x[2]) for (x[3] = g0[3]; x[3] < g1[3]; ++x[3]) { long g = 0; for (int j = 0; j < 4; ++j) g = g * (ib[1].ijk[j] - ib[0].ijk[j]) + (x[j] - ib[0].ijk[j]); ref[g] = ref0[k++]; } }
  L V = absvol<4>(R), cv = (L)dd[0] * dd[1] * dd[2] * dd[3]; double *g = (double *)malloc(sizeof(double) * n); for (long i = 0; i < n; ++i) g[i] = 0.25 * (i % 3) * (double)cv; rNd_dvec ic[2] = {ib[0], ib[1]}; cp(q, p); mc::trans(); int st = status_of(rNd_voxelize, q, ic, g, d, 0); if (st == 0) mc::fail("reported failure although capacity suffices"); if (hpoly4(q) != h0) mc::fail("voxelization altered the polytope"); if (memcmp(ic, ib, sizeof ib)) mc::fail("the index box was altered");
  L worst = 0; for (long i = 0; i < n; ++i) { L got = (L)g[i] - (double)(0.25 * (i % 3) * (double)cv), e = fabsl(got - ref[i]); worst = std::max(worst, e / cv); L tol = 1e-7L * cv + 1e-10L * powl(s.big + s.size, 4); if (!(e <= tol)) { free(g); mc::fail("cell %ld of %ld increased by %.15Lg, exact overlap is %.15Lg (cell volume %Lg)", i, n, got, ref[i], cv); } }
  if (mc::replaying) fprintf(stderr, "worst %Lg\n", worst); mc::compared(n); mc::state(mc::hash_bytes(g, sizeof(double) * n)); free(g); (void)V;
  if (cc % 17 == 0) mc::sample(check_describe(cc) + mc::strf(" cells %ld worst error %.3Lg of a cell volume", n, worst));
}
MC_MAIN
