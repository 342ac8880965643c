// Exhaustive exploration of clip sequences, model in lockstep (C01: -DDIM=2, C02: -DDIM=3)
#include "dim.h"
#ifndef DIM
#define DIM 3
#endif
const char *CHECK_ID = DIM == 2 ? "C01" : "C02";
typedef T<DIM> TT; typedef TT::Poly Poly;
static std::vector<Seed<DIM>> S; static int dA, dB, NS;
// families of cases: 0 = depth-dA tree over family A, root plane fixed; 1 = depth-dB tree over family B; 2 = long plane lists
struct CaseRef { int kind, seed, idx; };
static std::vector<CaseRef> CS;
static int init_tier = -1;
static void init(int tier) {
  if (init_tier == tier) return; init_tier = tier; CS.clear();
  S = seeds<DIM>(tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 5, 6, 7, 8, 9, 10}, DIM == 2 ? (tier ? 13 : 9) : (tier ? 9 : 7), tier ? 16 : 10);
  dA = 2; dB = tier ? (DIM == 2 ? 5 : 4) : (DIM == 2 ? 4 : 3);
  if (!tier && DIM == 3) for (auto &s : S) if (s.name.find("@0") == std::string::npos) { std::vector<DP<DIM>> t; for (size_t i = 0; i < s.A.size(); i += 2) t.push_back(s.A[i]); s.A = t; } // quick: full family only in the first placement
  for (int s = 0; s < (int)S.size(); ++s) {
    for (int i = 0; i < (int)S[s].A.size(); ++i) CS.push_back({0, s, i});
    for (int i = 0; i < (int)S[s].B.size(); ++i) CS.push_back({1, s, i});
    for (int i = 0; i < (tier ? 40 : 16); ++i) CS.push_back({2, s, i});
    if (s % 4 == 1) { CS.push_back({4, s, 0}); CS.push_back({4, s, 1}); }
  }
  NS = (int)S.size(); for (auto &b : seeds<DIM>(tier ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1}, 3, tier ? 10 : 6, true)) S.push_back(b);
  for (int s = NS; s < (int)S.size(); ++s) { for (int i = 0; i < (int)S[s].A.size(); i += tier ? 1 : (DIM == 2 ? 2 : 5)) CS.push_back({0, s, i}); for (int i = 0; i < (int)S[s].B.size(); ++i) CS.push_back({1, s, i}); }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%d seed placements x all sequences of planes: depth %d over a per-seed family of all {-1,0,1} unit normals at incident and intermediate offsets plus generic normals (%zu planes for the first seed), depth %d over a mixed family of %zu, and long plane lists (up to 70000) in one call; %d placements of shapes with up to %d vertices, depth 1-2", NS, dA, S[0].A.size(), dB, S[0].B.size(), (int)S.size() - NS, (int)TT::MAXV); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; auto &s = S[r.seed]; return mc::strf("kind %d seed %s root %d %s", r.kind, s.name.c_str(), r.idx, r.kind < 2 ? pstr<DIM>(r.kind ? s.B[r.idx] : s.A[r.idx]).c_str() : ""); }

static Poly *stackp[16]; static Poly *tmp;
static std::string trail;
static void step(Seed<DIM> &s, Poly *p, const Region<DIM> &R0, const DP<DIM> &pl, Region<DIM> &R1) {
  L lo = 1e300L, hi = -1e300L; int n0 = p->nverts;
  for (int v = 0; v < n0; ++v) { L t = pl.d; for (int j = 0; j < DIM; ++j) t += (L)pl.n[j] * TT::co(p, v, j); if (t < lo) lo = t; if (t > hi) hi = t; }
  TT::RPlane q = TT::pl(pl), qc = q; mc::trans();
  int st = TT::clip(p, &q, 1);
  if (memcmp(&q, &qc, sizeof q)) mc::fail("the plane list was modified");
  if (st == 0) mc::fail("clip reported failure although capacity suffices");
  R1 = clip<DIM>(R0, toL(pl));
  std::string d = differs<DIM>(p, R1, s); if (!d.empty()) mc::fail("%s", d.c_str());
  L eps = 1e-9L * s.size * (1 + 1e-5L * maxabs<DIM>(s.R) / s.size);
  if (n0 > 0 && hi < -eps && p->nverts != 0) mc::fail("polygon/polyhedron strictly outside the plane is not empty: %s", TT::dumpp(p).c_str());
  for (int v = 0; v < p->nverts; ++v) { L t = pl.d; for (int j = 0; j < DIM; ++j) t += (L)pl.n[j] * TT::co(p, v, j); if (t < -eps) mc::fail("vertex %d on the wrong side of the plane by %Lg: %s", v, -t, TT::dumpp(p).c_str()); }
}
static void dfs(Seed<DIM> &s, const std::vector<DP<DIM>> &F, Poly *p, const Region<DIM> &R, int depth, int left, int first, std::vector<DP<DIM>> &hist, Poly *seedpoly) {
  for (int i = first >= 0 ? first : 0; i < (first >= 0 ? first + 1 : (int)F.size()); ++i) {
    if (&s - &S[0] >= NS && !roomfor<DIM>(p, F[i], s.size, 1)) { mc::skipped(); continue; }
    Poly *c = stackp[depth]; cp(c, p); hist.push_back(F[i]);
    std::string save = trail; trail += " | " + pstr<DIM>(F[i]); mc::path_s(trail);
    Region<DIM> R1; step(s, c, R, F[i], R1);
    bool fresh = mc::state(hpoly(c, 1000 + left));
    if (hist.size() >= 2 && (left <= 1)) { // the same list in a single call
      cp(tmp, seedpoly); std::vector<TT::RPlane> q; for (auto &h : hist) q.push_back(TT::pl(h));
      mc::path_s("one call with the whole list:" + trail); mc::trans(); int st = TT::clip(tmp, q.data(), (int)q.size());
      if (st == 0) mc::fail("clip reported failure although capacity suffices");
      std::string d = differs<DIM>(tmp, R1, s); if (!d.empty()) mc::fail("%s", d.c_str());
    }
    if (left > 1 && fresh && c->nverts > 0) dfs(s, F, c, R1, depth + 1, left - 1, -1, hist, seedpoly);
    trail = save; hist.pop_back();
  }
}
void check_case(uint64_t cc) {
  for (int i = 0; i < 16; ++i) if (!stackp[i]) stackp[i] = newpoly<Poly>(); if (!tmp) tmp = newpoly<Poly>();
  static Poly *sp = newpoly<Poly>();
  CaseRef r = CS[cc]; Seed<DIM> &s = S[r.seed]; trail = "seed " + s.name; mc::path_s(trail);
  if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed");
  std::string d = differs<DIM>(sp, s.R, s); if (!d.empty()) mc::fail("seed: %s", d.c_str());
  mc::state(hpoly(sp));
  std::vector<DP<DIM>> hist;
  if (r.seed >= NS) { dfs(s, r.kind ? s.B : s.A, sp, s.R, 0, r.kind ? 2 : 1, r.idx, hist, sp); if (cc % 97 == 3) mc::sample(check_describe(cc)); return; }
  if (r.kind == 4) { // very long lists: a dozen planes tangent to a ball, at the beginning and at the very end
    std::vector<DP<DIM>> F; Region<DIM> R = s.R; for (int i = 0; i < 12; ++i) { double ph = i * 2.399963229728653, z = 1 - 2 * (i + 0.5) / 12, q = sqrt(1 - z * z); DP<DIM> p; p.n[0] = cos(ph); p.n[1] = sin(ph); if (DIM == 3) { p.n[0] *= q; p.n[1] *= q; p.n[DIM - 1] = z; } L o = 0; for (int j = 0; j < DIM; ++j) o += p.n[j] * s.ctr[j]; p.d = (double)((double)s.size * 0.4 - o); F.push_back(p); R = clip<DIM>(R, toL(p)); }
int n = r.idx ? 70000 : 300; // the rest of the list lies outside the shape and cuts nothing (cutting again and again along the same planes would pile up rounding slivers)
    std::vector<TT::RPlane> q; for (int i = 0; i < n; ++i) { DP<DIM> p = F[i % 7]; p.d += 4 * (double)s.size; int k = i < 4 ? i : i >= n - 8 ? i - n + 12 : -1; if (k >= 0) p = F[k]; q.push_back(TT::pl(p)); } // the last planes come only at the very end
    cp(stackp[0], sp); mc::path("seed %s, %d planes, tangent to a ball", s.name.c_str(), n); mc::trans(); if (TT::clip(stackp[0], q.data(), n) == 0) mc::fail("clip reported failure although capacity suffices"); d = differs<DIM>(stackp[0], R, s, 1e-8L); if (!d.empty()) mc::fail("%s", d.c_str()); mc::state(hpoly(stackp[0], 6)); return;
  }
  if (r.kind == 0) dfs(s, s.A, sp, s.R, 0, dA, r.idx, hist, sp);
  else if (r.kind == 1) dfs(s, s.B, sp, s.R, 0, dB, r.idx, hist, sp);
  else { // long lists: n planes tangent to a ball about the centre, listed in two orders, plus prefixes
    int n = 3 + 3 * r.idx; std::vector<DP<DIM>> F;
    for (int i = 0; i < n; ++i) { double u = (i + 0.5) / n, ph = i * 2.399963229728653; DP<DIM> p; double rr = (double)s.size * (0.35 + 0.02 * (i % 5));
      if (DIM == 3) { double z = 1 - 2 * u, q = sqrt(1 - z * z); p.n[0] = q * cos(ph); p.n[1] = q * sin(ph); p.n[DIM - 1] = z; } else { p.n[0] = cos(ph); p.n[1] = sin(ph); }
      L o = 0; for (int j = 0; j < DIM; ++j) o += p.n[j] * s.ctr[j]; p.d = (double)(rr - o); F.push_back(p); }
    for (int ord = 0; ord < 2; ++ord) {
      Region<DIM> R = s.R; cp(stackp[0], sp); trail = mc::strf("seed %s, %d planes tangent to a ball, order %d", s.name.c_str(), n, ord);
      std::vector<TT::RPlane> q; for (auto &p : F) { Region<DIM> R1 = clip<DIM>(R, toL(p)); R.swap(R1); q.push_back(TT::pl(p)); mc::beat(); }
      mc::path_s(trail); mc::trans(); int st = TT::clip(stackp[0], q.data(), n);
      if (st == 0) mc::fail("clip reported failure although capacity suffices");
      d = differs<DIM>(stackp[0], R, s, 1e-8L); if (!d.empty()) mc::fail("%s", d.c_str());
      mc::state(hpoly(stackp[0], 5));
      std::reverse(F.begin(), F.end());
    }
    cp(stackp[0], sp); mc::path("no planes"); mc::trans(); TT::clip(stackp[0], 0, 0); d = differs<DIM>(stackp[0], s.R, s); if (!d.empty()) mc::fail("clip with no planes: %s", d.c_str());
    // an empty object stays empty
    stackp[0]->nverts = 0; TT::RPlane q = TT::pl(F[0]); mc::path("clip of an empty shape"); if (TT::clip(stackp[0], &q, 1) == 0) mc::fail("clipping an empty shape reported failure"); if (stackp[0]->nverts != 0) mc::fail("empty object did not stay empty");
  }
  if (cc % 997 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
