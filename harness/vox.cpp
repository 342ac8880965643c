// C08 (-DDIM=2) / C09 (-DDIM=3): rasterization / voxelization against slab-clipped reference cells
#include "grid.h"
#ifndef DIM
#define DIM 3
#endif
const char *CHECK_ID = DIM == 2 ? "C08" : "C09";
typedef T<DIM> TT; typedef TT::Poly Poly; typedef G<DIM> GG;
static std::vector<Seed<DIM>> S; static std::vector<std::vector<Spacing>> SP; static int init_tier = -1, ORD;
struct CaseRef { int seed, sp, clampk, pre; }; static std::vector<CaseRef> CS;
static void init(int tier) {
  if (init_tier == tier) return; init_tier = tier; CS.clear(); SP.clear();
  std::vector<int> pl = tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6, 7, 9, 10}; S = seeds<DIM>(pl, 3, 6); ORD = tier ? 4 : 3;
  int ns = (int)TT::shapes().size(), nb = (int)S.size(); for (auto &b : seeds<DIM>({0, 1}, 3, 6, true)) S.push_back(b);
  for (int s = nb; s < (int)S.size(); ++s) { static Poly *p = newpoly<Poly>(); SP.resize(nb); if (!TT::make(p, S[s].shape) || (DIM == 3 && 2 * p->nverts > TT::MAXV) || S[s].name.substr(0, 3) == "saw") { S.erase(S.begin() + s); --s; } } SP.clear(); // room for the cuts
  for (int s = 0; s < (int)S.size(); ++s) {
    bool big = s >= nb, al = !big && pl[s / ns] == 0; SP.push_back(spacings(al, tier)); if (big) { for (int k = 0; k < (int)SP[s].size(); ++k) for (int pre = 0; pre < 2; ++pre) if (tier || (s + k + pre) % (DIM == 2 ? 2 : 3) == 0) CS.push_back({s, k, 0, pre}); continue; }
    for (int k = 0; k < (int)SP[s].size(); ++k) for (int c = 0; c < (tier ? 9 : 5); ++c) for (int pre = 0; pre < 2; ++pre) { if (!tier && DIM == 3 && ((s + k + c) % 2 || (pre && (s + k + c) % 4))) { if (!(k >= 3 && k <= 5 && c == 0 && !pre)) continue; } CS.push_back({s, k, c, pre}); }
    // ranges larger than the index box, a few of them very large
    for (int k = 0; k < (int)SP[s].size(); ++k) for (int c = 9; c < 15; ++c) { if (SP[s][k].n[0] > 20 || SP[s][k].n[1] > 20 || SP[s][k].n[2] > 20) continue; if (c >= 11 && (k != 2 || (c == 14 ? s % 4 != 1 : s % ns != c % 3) || (!tier && s >= 2 * ns))) continue; if (!tier && c < 11 && (s + k + c) % (DIM == 2 ? 2 : 5)) continue; CS.push_back({s, k, c, (s + k) & 1}); }
  }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%d seed placements (some with hundreds of vertices) x up to %zu spacings (aligned with the vertices, generic, long and thin grids) x clamp ranges and larger ranges (up to tens of thousands of cells along an axis, or a million in all) x optionally clipped first, orders 0..%d (0..%d on a part of the small grids), every cell compared", (int)S.size(), SP[0].size(), ORD, tier ? 8 : 6); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("seed %s spacing %d clamp %d preclip %d", S[r.seed].name.c_str(), r.sp, r.clampk, r.pre); }
void check_case(uint64_t cc) {
  static Poly *sp = newpoly<Poly>(), *q = newpoly<Poly>();
  CaseRef r = CS[cc]; Seed<DIM> &s = S[r.seed]; mc::path_s(check_describe(cc));
  if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed");
  if (r.pre) { auto p = TT::pl(s.B[0]); TT::clip(sp, &p, 1); auto p2 = TT::pl(s.B[2]); TT::clip(sp, &p2, 1); if (sp->nverts <= 0) return; }
  if (!TT::bad(sp).empty()) return; // other properties
  GG::RV d = spacing_for<DIM>(SP[r.seed][r.sp], sp); double dd[DIM]; for (int j = 0; j < DIM; ++j) dd[j] = GG::at(d, j);
  for (int j = 0; j < DIM; ++j) if (!(dd[j] > 0)) return;
  GG::IV ib[2], cl[2]; for (int j = 0; j < DIM; ++j) { double lo = 1e300, hi = -1e300; for (int v = 0; v < sp->nverts; ++v) { double x = TT::co(sp, v, j); lo = std::min(lo, x); hi = std::max(hi, x); } GG::at(ib[0], j) = (int)floor(lo / dd[j]); GG::at(ib[1], j) = (int)ceil(hi / dd[j]); if (GG::at(ib[1], j) <= GG::at(ib[0], j)) GG::at(ib[1], j) = GG::at(ib[0], j) + 1; }
  Region<DIM> R = region_of(sp); L Vall = absvol<DIM>(R), Rm = maxabs<DIM>(R);
  if (r.clampk > 0 && r.clampk < 9) { // clamp through the library, as a caller would
    static const int C[9][3][2] = {{{0, 0}, {0, 0}, {0, 0}}, {{1, 0}, {0, 1}, {0, 0}}, {{1, 1}, {1, 1}, {1, 1}}, {{-2, -3}, {1, 0}, {-1, 1}}, {{0, 1}, {-5, -5}, {1, 0}}, {{2, 0}, {1, 0}, {1, 0}}, {{0, 2}, {0, 1}, {0, 1}}, {{0, 0}, {2, 2}, {0, 0}}, {{-1, -1}, {-1, -1}, {2, -1}}};
    GG::ibox(sp, ib, d); bool ok = true; for (int j = 0; j < DIM; ++j) { GG::at(cl[0], j) = GG::at(ib[0], j) + C[r.clampk][j][0]; GG::at(cl[1], j) = GG::at(ib[1], j) - C[r.clampk][j][1]; if (GG::at(cl[1], j) <= GG::at(cl[0], j)) ok = false; } if (!ok) return;
    GG::clamp(sp, ib, cl, d);
    if (sp->nverts <= 0) return;
    if (!TT::bad(sp).empty()) return; R = region_of(sp);
  }
  int lo[DIM], hi[DIM]; long ncell = 1; for (int j = 0; j < DIM; ++j) { lo[j] = GG::at(ib[0], j); hi[j] = GG::at(ib[1], j); if (hi[j] <= lo[j]) mc::fail("index box empty for a non-empty shape"); if (hi[j] - lo[j] > 5000) mc::fail("index box unreasonably large"); ncell *= hi[j] - lo[j]; } if (ncell > 200000) mc::fail("index box unreasonably large");
  int ord = r.clampk < 9 && ncell <= 40 && cc % 5 == 0 ? (mc::tier ? 8 : 6) : ORD; // higher orders on a part of the small grids
  std::vector<std::vector<L>> ref; mc::beat(); cells_rec<DIM>(R, 0, lo, hi, dd, ord, ref);
  int top = ord, ilo[DIM], ihi[DIM]; for (int j = 0; j < DIM; ++j) { ilo[j] = lo[j]; ihi[j] = hi[j]; }
  if (r.clampk >= 9) { // a larger range of cells around the shape
    static const int M[7][3][2] = {{{1, 2}, {0, 1}, {2, 0}}, {{0, 5}, {3, 0}, {1, 1}}, {{40000, 25000}, {0, 1}, {0, 0}}, {{1, 0}, {30000, 41000}, {0, 0}}, {{600, 424}, {3, 900}, {0, 0}}, {{90, 60}, {0, 127}, {70, 55}}, {{3, 0}, {DIM == 2 ? 40000 : 6, 0}, {40000, 0}}};
    ncell = 1; top = r.clampk >= 11 ? 1 : 2; for (int j = 0; j < DIM; ++j) { lo[j] -= M[DIM == 3 && r.clampk == 13 ? 5 : r.clampk == 14 ? 6 : r.clampk - 9][j][0]; hi[j] += M[DIM == 3 && r.clampk == 13 ? 5 : r.clampk == 14 ? 6 : r.clampk - 9][j][1]; GG::at(ib[0], j) = lo[j]; GG::at(ib[1], j) = hi[j]; ncell *= hi[j] - lo[j]; }
  }
  std::vector<L> zero(256, 0); auto exact = [&](long c) -> const std::vector<L> & { long x = c, in = 0, st = 1; bool out = false; for (int j = DIM - 1; j >= 0; --j) { int i = lo[j] + (int)(x % (hi[j] - lo[j])); x /= hi[j] - lo[j]; if (i < ilo[j] || i >= ihi[j]) out = true; else in += st * (i - ilo[j]); st *= ihi[j] - ilo[j]; } return out ? zero : ref[in]; };
  static std::vector<std::array<int, DIM>> ex = exps<DIM>(8);
  for (int o = 0; o <= top; ++o) {
    int nm = nmom<DIM>(o); long n = ncell * nm; double *raw = (double *)malloc(sizeof(double) * (n + 16)), *g = raw + 8;
    for (long i = 0; i < n + 16; ++i) raw[i] = 7.7e66; for (long i = 0; i < n; ++i) g[i] = 0.25 * (i % 5) * (double)Vall;
    // the grid handed to the library is an exact-size allocation in the sanitized build
    double *gg = (double *)malloc(sizeof(double) * n); memcpy(gg, g, sizeof(double) * n);
    cp(q, sp); GG::IV ic[2] = {ib[0], ib[1]}; uint64_t h0 = hpoly(q); mc::path("%s order %d", check_describe(cc).c_str(), o); mc::trans();
    double *dst = (cc & 1) ? gg : g; int st = GG::vox(q, ic, dst, d, o);
    if (st == 0) mc::fail("reported failure although capacity suffices");
    if (hpoly(q) != h0) mc::fail("the shape was altered"); if (memcmp(ic, ib, sizeof ib)) mc::fail("the index box was altered");
    for (int i = 0; i < 8; ++i) if (raw[i] != 7.7e66 || raw[n + 8 + i] != 7.7e66) mc::fail("wrote outside the destination patch");
    for (long c = 0; c < ncell; ++c) { const std::vector<L> &want = exact(c); for (int m = 0; m < nm; ++m) {
      int k = 0; for (int j = 0; j < DIM; ++j) k += ex[m][j]; L base = 0.25 * ((c * nm + m) % 5) * (double)Vall; L t = 1e-9L * Vall * powl(Rm, k) + 1e-13L * powl(Rm, DIM + k) + 1e-14L * fabsl(base);
      L got = (L)dst[c * nm + m] - base; if (!(fabsl(got - want[m]) <= t)) { std::string w; long x = c; int id[DIM]; for (int j = DIM - 1; j >= 0; --j) { id[j] = lo[j] + (int)(x % (hi[j] - lo[j])); x /= hi[j] - lo[j]; } for (int j = 0; j < DIM; ++j) w += mc::strf("%d ", id[j]); double gv = dst[c * nm + m]; free(raw); free(gg); mc::fail("order %d cell (%s) moment %d increased by %.15Lg (now %.15g), exact overlap has %.15Lg", o, w.c_str(), m, got, gv, want[m]); }
    } }
    mc::compared(ncell); mc::state(mc::hash_bytes(dst, sizeof(double) * n)); free(raw); free(gg);
  }
  if (cc % 397 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
