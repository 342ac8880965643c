// C10: index boxes and clamping in 2D and 3D
#include "grid.h"
const char *CHECK_ID = "C10";
template <int D> struct World {
  typedef T<D> TT; typedef typename TT::Poly Poly; typedef G<D> GG;
  std::vector<Seed<D>> S; std::vector<std::vector<Spacing>> SP; int ncl;
  void init(int tier) {
    std::vector<int> pl = tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6, 7, 9, 10}; S = seeds<D>(pl, 3, 6); int ns = (int)TT::shapes().size(); SP.clear();
    for (size_t s = 0; s < S.size(); ++s) SP.push_back(spacings(pl[s / ns] == 0, tier));
  }
  // shapes far out on every side, up to indices near the limits of the index type: boxes only, no clamping beyond the range
  void far(int k) {
    static Poly *sp = newpoly<Poly>(), *q = newpoly<Poly>(); static const double OFF[] = {1.5e3, -1.5e3, 4.0e4, -7.0e4, 1.25e6, -3.5e6, 9.0e7, -1.2e8, 1.07e9, -1.06e9}; const int NO = 10;
    int tot = 1; for (int j = 0; j < D; ++j) tot *= NO; static const double DD[5][3] = {{1, 1, 1}, {0.75, 1.25, 0.625}, {1.5, 0.5625, 3}, {0x1p60, 0x1p60, 0x1p60}, {0x1p103, 0x1p103, 0x1p103}};
    for (int c = k; c < tot; c += 20) for (int z = 0; z < 5; ++z) for (auto &s0 : {S[0], S[1]}) {
      auto sh = s0.shape; std::array<double, D> off; int x = c; double sc = z >= 3 ? DD[z][0] : 1; for (int j = 0; j < D; ++j) { off[j] = (OFF[x % NO] + 0.28125 * (j + 1)) * sc; x /= NO; } xform(sh, sc, off, 0);
      if (!TT::make(sp, sh)) mc::fail("seed initialisation failed"); typename GG::RV d; for (int j = 0; j < D; ++j) GG::at(d, j) = DD[z][j]; std::string ds = mc::strf("%dD %s moved far out (offset combination %d), spacing %d", D, sh.name.c_str(), c, z); mc::path_s(ds);
      typename GG::IV ib[2], cl[2], b2[2]; memset(ib, 0x5a, sizeof ib); mc::trans(); GG::ibox(sp, ib, d); mc::compared();
      for (int j = 0; j < D; ++j) { L lo = 1e300L, hi = -1e300L; for (int v = 0; v < sp->nverts; ++v) { L y = TT::co(sp, v, j); lo = std::min(lo, y); hi = std::max(hi, y); } L a = lo / (L)DD[z][j], b = hi / (L)DD[z][j]; auto amb = [](L y) { return fabsl(y - roundl(y)) < 1e-6L; }; int ga = GG::at(ib[0], j), gb = GG::at(ib[1], j); if ((ga != (int)floorl(a) && !(amb(a) && abs(ga - (int)roundl(a)) <= 1)) || (gb != (int)ceill(b) && !(amb(b) && abs(gb - (int)roundl(b)) <= 1))) mc::fail("axis %d: index range [%d,%d), minimal range is [%d,%d)", j, ga, gb, (int)floorl(a), (int)ceill(b)); }
      // clamp to everything, then to a disjoint range on one axis
      for (int m = 0; m <= 2 * D; ++m) { cp(q, sp); for (int j = 0; j < D; ++j) { b2[0] = ib[0]; b2[1] = ib[1]; GG::at(cl[0], j) = -2000000000; GG::at(cl[1], j) = 2000000000; } if (m) { int j = (m - 1) / 2; if (m % 2) { GG::at(cl[1], j) = GG::at(ib[0], j); } else GG::at(cl[0], j) = GG::at(ib[1], j); } uint64_t h0 = hpoly(q); mc::path("%s clamp %d", ds.c_str(), m); mc::trans(); GG::clamp(q, b2, cl, d); mc::compared();
        if (!m) { if (memcmp(b2, ib, sizeof ib) || hpoly(q) != h0) mc::fail("clamping to a containing range changed the shape or the range"); } else { bool e = false; for (int j = 0; j < D; ++j) if (GG::at(b2[1], j) <= GG::at(b2[0], j)) e = true; if (!e || q->nverts > 0) mc::fail("ranges do not overlap but the shape has %d vertices and the range is %s", q->nverts, e ? "empty" : "not empty"); } }
      mc::state(mc::hash_bytes(ib, sizeof ib));
    }
  }
  // extremes a hair (2^-34 .. 2^-42 of a cell) to either side of a cell boundary
  void near(int k) {
    static Poly *sp = newpoly<Poly>(); static const double BND[] = {0, 1, 2, -1, -3, 7, 100}; static const double HAIR[] = {-0x1p-34, 0x1p-34, -0x1p-38, 0x1p-38, -0x1p-42, 0x1p-42, 0};
    for (int b0 = 0; b0 < 7; ++b0) for (int h0 = 0; h0 < 7; ++h0) for (int h1 = 0; h1 < 7; ++h1) for (int z = 0; z < 3; ++z) {
      static const double DD[3][3] = {{1, 1, 1}, {0.5, 0.25, 2}, {4, 0x1p-10, 0x1p20}}; typename GG::RV d, lo, hi; int el[D], eh[D]; for (int j = 0; j < D; ++j) { GG::at(d, j) = DD[z][j]; int jj = (j + k) % D; double a = BND[(b0 + 2 * jj) % 7], b = a + 1 + (b0 + jj) % 3, x = HAIR[(h0 + 3 * jj) % 7], y = HAIR[(h1 + 5 * jj) % 7]; GG::at(lo, j) = (a + x) * DD[z][j]; GG::at(hi, j) = (b + y) * DD[z][j]; el[j] = (int)a - (x < 0); eh[j] = (int)b + (y > 0); }
      auto sh = TT::shapes()[k % 2 == 0 ? 0 : 1]; std::array<double, D> mn, mx; auto P = TT::pts(sh); for (int j = 0; j < D; ++j) { mn[j] = 1e300; mx[j] = -1e300; for (auto &q : P) { mn[j] = std::min(mn[j], q[j]); mx[j] = std::max(mx[j], q[j]); } }
      if (!TT::make(sp, sh)) mc::fail("seed initialisation failed"); for (int v = 0; v < sp->nverts; ++v) for (int j = 0; j < D; ++j) { double c = TT::co(sp, v, j); setco(sp, v, j, c == mn[j] ? GG::at(lo, j) : c == mx[j] ? GG::at(hi, j) : 0.5 * (GG::at(lo, j) + GG::at(hi, j))); }
      mc::path("%dD extremes near cell boundaries, case %d/%d/%d/%d/%d", D, k, b0, h0, h1, z); typename GG::IV ib[2]; memset(ib, 0x5a, sizeof ib); mc::trans(); GG::ibox(sp, ib, d); mc::compared(); for (int j = 0; j < D; ++j) if (GG::at(ib[0], j) != el[j] || GG::at(ib[1], j) != eh[j]) mc::fail("axis %d: extent %.17g..%.17g, spacing %g: index range [%d,%d), minimal range is [%d,%d)", j, (double)GG::at(lo, j), (double)GG::at(hi, j), DD[z][j], GG::at(ib[0], j), GG::at(ib[1], j), el[j], eh[j]); mc::state(mc::hash_bytes(ib, sizeof ib));
    }
  }
  // shapes of many vertices, the extreme of each axis and side reached at one vertex only, wherever in the numbering it is
  static Shape2 manyv(int n, r2d_poly *) { Shape2 s; s.name = mc::strf("%d-gon", n); s.loops.push_back(ngon(n, 3, 0.25, -0.5, 0.1)); return s; }
  static Shape3 manyv(int n, r3d_poly *) { return prism(mc::strf("%d-gon prism", n / 2).c_str(), ngon(n / 2, 3, 0.25, -0.5, 0.1), -3.25, 3.75, true); }
  void many(int k) {
    static Poly *sp = newpoly<Poly>(); static const int NN[2][4] = {{65, 130, 255, 256}, {66, 140, 300, 512}}; int n = NN[D - 2][k % 4]; auto sh = manyv(n, sp); if (!TT::make(sp, sh)) mc::fail("seed initialisation failed"); n = sp->nverts; typename GG::RV d; for (int j = 0; j < D; ++j) GG::at(d, j) = 0.375 + 0.25 * j;
    for (int v = 0; v < n; ++v) for (int j = 0; j < D; ++j) for (int sd = 0; sd < 2; ++sd) {
      double keep = TT::co(sp, v, j); setco(sp, v, j, sd ? 9.1 + 0.01 * (v % 90) : -8.7 - 0.01 * (v % 90)); mc::path("%s, vertex %d drawn out along axis %d, %s side", sh.name.c_str(), v, j, sd ? "upper" : "lower"); typename GG::IV ib[2]; memset(ib, 0x5a, sizeof ib); mc::trans(); GG::ibox(sp, ib, d); mc::compared();
      for (int i = 0; i < D; ++i) { L lo = 1e300L, hi = -1e300L; for (int w = 0; w < n; ++w) { L x = TT::co(sp, w, i); lo = std::min(lo, x); hi = std::max(hi, x); } L a = lo / (L)GG::at(d, i), b = hi / (L)GG::at(d, i); int ga = GG::at(ib[0], i), gb = GG::at(ib[1], i); auto amb = [](L y) { return fabsl(y - roundl(y)) < 1e-10L; }; if ((ga != (int)floorl(a) && !amb(a)) || (gb != (int)ceill(b) && !amb(b))) mc::fail("axis %d: index range [%d,%d), minimal range is [%d,%d)", i, ga, gb, (int)floorl(a), (int)ceill(b)); }
      mc::state(mc::hash_bytes(ib, sizeof ib, v * 8 + j * 2 + sd)); setco(sp, v, j, keep);
    }
  }
  static void setco(r2d_poly *p, int v, int j, double x) { p->verts[v].pos.xy[j] = x; }
  static void setco(r3d_poly *p, int v, int j, double x) { p->verts[v].pos.xyz[j] = x; }
  void run(int si, int k) {
    static Poly *sp = newpoly<Poly>(), *q = newpoly<Poly>(); Seed<D> &s = S[si]; std::string ds = mc::strf("%dD seed %s spacing %d", D, s.name.c_str(), k); mc::path_s(ds);
    if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed");
    typename GG::RV d = spacing_for<D>(SP[si][k], sp); double dd[D]; for (int j = 0; j < D; ++j) dd[j] = GG::at(d, j);
    typename GG::IV ib[2]; memset(ib, 0x5a, sizeof ib); uint64_t h0 = hpoly(sp); mc::trans(); GG::ibox(sp, ib, d); mc::compared();
    if (hpoly(sp) != h0) mc::fail("computing the index box altered the shape");
    for (int j = 0; j < D; ++j) {
      L lo = 1e300L, hi = -1e300L; for (int v = 0; v < sp->nverts; ++v) { L x = TT::co(sp, v, j); lo = std::min(lo, x); hi = std::max(hi, x); }
      L a = lo / dd[j], b = hi / dd[j]; int ga = GG::at(ib[0], j), gb = GG::at(ib[1], j);
      auto amb = [](L x) { return x != roundl(x) && fabsl(x - roundl(x)) < 1e-12L * (1 + fabsl(x)); };
      bool oka = ga == (int)floorl(a) || (amb(a) && (ga == (int)roundl(a) || ga == (int)roundl(a) - 1)); bool okb = gb == (int)ceill(b) || (amb(b) && (gb == (int)roundl(b) || gb == (int)roundl(b) + 1));
      if (!oka || !okb) mc::fail("axis %d: index range [%d,%d), minimal range is [%d,%d)", j, ga, gb, (int)floorl(a), (int)ceill(b));
    }
    mc::state(mc::hash_bytes(ib, sizeof ib, h0));
    // clamp ranges relative to the index box, per axis
    Region<D> R = region_of(sp); int tot = 1; const int NR = 9; for (int j = 0; j < D; ++j) tot *= NR;
    for (int c = 0; c < tot; ++c) {
      if (D == 3 && !mc::tier && c % 3 != si % 3) continue;   // quick: a third of the 729 combinations per seed
      typename GG::IV cl[2], b2[2] = {ib[0], ib[1]}, want[2]; int x = c; bool none = false; std::string cs;
      for (int j = 0; j < D; ++j) { int lo = GG::at(ib[0], j), hi = GG::at(ib[1], j), n = hi - lo, m = lo + (n + 1) / 2, a, b; switch (x % NR) { case 0: a = lo; b = hi; break; case 1: a = lo - 2; b = hi + 3; break; case 2: a = lo - 4; b = lo; break; case 3: a = hi; b = hi + 2; break; case 4: a = lo + 1; b = hi + 1; break; case 5: a = lo - 1; b = hi - 1; break; case 6: a = m; b = m + 1; break; case 7: a = lo - 5; b = lo - 2; break; default: a = lo + n / 3; b = std::max(hi - n / 3, a + 1); } x /= NR;
        GG::at(cl[0], j) = a; GG::at(cl[1], j) = b; GG::at(want[0], j) = std::max(a, lo); GG::at(want[1], j) = std::min(b, hi); if (b <= a) goto skip; if (GG::at(want[1], j) <= GG::at(want[0], j)) none = true; cs += mc::strf("[%d,%d) ", a, b); }
      {
        typename GG::IV c0[2] = {cl[0], cl[1]}; cp(q, sp); mc::path("%s clamp to %s", ds.c_str(), cs.c_str()); mc::trans(); GG::clamp(q, b2, cl, d); mc::compared();
        if (memcmp(c0, cl, sizeof cl)) mc::fail("the clamp range was altered");
        if (none) { bool e = false; for (int j = 0; j < D; ++j) if (GG::at(b2[1], j) <= GG::at(b2[0], j)) e = true; if (!e || q->nverts > 0) mc::fail("ranges do not overlap but the shape has %d vertices and the range is %s", q->nverts, e ? "empty" : "not empty"); }
        else {
          for (int j = 0; j < D; ++j) if (GG::at(b2[0], j) != GG::at(want[0], j) || GG::at(b2[1], j) != GG::at(want[1], j)) mc::fail("axis %d: clamped range [%d,%d), intersection is [%d,%d)", j, GG::at(b2[0], j), GG::at(b2[1], j), GG::at(want[0], j), GG::at(want[1], j));
          Region<D> Q = R; for (int j = 0; j < D; ++j) { Plane<D> a, b; for (int i = 0; i < D; ++i) a.n[i] = b.n[i] = 0; a.n[j] = 1; a.d = -(L)(double)(GG::at(cl[0], j) * dd[j]); b.n[j] = -1; b.d = (L)(double)(GG::at(cl[1], j) * dd[j]); Q = clip<D>(clip<D>(Q, a), b); }
          std::string e = differs<D>(q, Q, s); if (!e.empty()) mc::fail("%s", e.c_str()); mc::state(hpoly(q));
        }
      }
      skip:;
    }
  }
};
static World<2> W2; static World<3> W3; struct CaseRef { int dim, s, k; }; static std::vector<CaseRef> CS; static int it = -1;
static void init(int tier) { if (it == tier) return; it = tier; CS.clear(); W2.init(tier); W3.init(tier); for (size_t s = 0; s < W3.S.size(); ++s) for (size_t k = 0; k < W3.SP[s].size(); ++k) CS.push_back({3, (int)s, (int)k}); for (size_t s = 0; s < W2.S.size(); ++s) for (size_t k = 0; k < W2.SP[s].size(); ++k) CS.push_back({2, (int)s, (int)k}); for (int k = 0; k < 20; ++k) { CS.push_back({2, -1, k}); CS.push_back({3, -1, k}); } for (int k = 0; k < 6; ++k) { CS.push_back({2, -2, k}); CS.push_back({3, -2, k}); } for (int k = 0; k < 4; ++k) { CS.push_back({2, -3, k}); CS.push_back({3, -3, k}); } }
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu 2D and %zu 3D seed placements x spacings (aligned and generic); per axis nine relations of the clamp range to the index box (equal, containing, inside, overlapping either end, touching and disjoint on either side), all combinations over the axes%s; two shapes moved out to indices of both signs up to 1e9 on every axis, in all combinations; extremes within 2^-42 of a cell of a cell boundary, on either side; shapes of up to 256/512 vertices with the extreme of each axis and side at every one of them", W2.S.size(), W3.S.size(), tier ? "" : " (a third of them per 3D seed)"); }
std::string check_describe(uint64_t c) { return mc::strf("%dD seed %d spacing %d", CS[c].dim, CS[c].s, CS[c].k); }
void check_case(uint64_t c) { auto &r = CS[c]; if (r.s == -3) { if (r.dim == 2) W2.many(r.k); else W3.many(r.k); } else if (r.s == -2) { if (r.dim == 2) W2.near(r.k); else W3.near(r.k); } else if (r.s < 0) { if (r.dim == 2) W2.far(r.k); else W3.far(r.k); } else if (r.dim == 2) W2.run(r.s, r.k); else W3.run(r.s, r.k); if (c % 197 == 3) mc::sample(check_describe(c)); }
MC_MAIN
