// Exhaustive exploration of split trees, model in lockstep (C03: -DDIM=2, C04: -DDIM=3)
#include "dim.h"
#ifndef DIM
#define DIM 3
#endif
const char *CHECK_ID = DIM == 2 ? "C03" : "C04";
typedef T<DIM> TT; typedef TT::Poly Poly;
static std::vector<Seed<DIM>> S; static int dA, dB, NS;
struct CaseRef { int kind, seed, idx; };
static std::vector<CaseRef> CS; static int init_tier = -1;
static void init(int tier) {
  if (init_tier == tier) return; init_tier = tier; CS.clear();
  S = seeds<DIM>(tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6, 7, 8, 9, 10}, DIM == 2 ? (tier ? 11 : 7) : (tier ? 7 : 5), tier ? 10 : 6);
  dA = 2; dB = tier ? 4 : 3;
  if (!tier && DIM == 3) for (auto &s : S) if (s.name.find("@0") == std::string::npos) { std::vector<DP<DIM>> t; for (size_t i = 0; i < s.A.size(); i += 2) t.push_back(s.A[i]); s.A = t; } // quick: full family only in the first placement
  for (int s = 0; s < (int)S.size(); ++s) {
    for (int i = 0; i < (int)S[s].A.size(); ++i) CS.push_back({0, s, i});
    for (int i = 0; i < (int)S[s].B.size(); ++i) CS.push_back({1, s, i});
    for (int i = 0; i < (int)S[s].A.size(); ++i) CS.push_back({2, s, i});
    if (s % 8 == 1) CS.push_back({3, s, 0});
  }
  NS = (int)S.size(); for (auto &b : seeds<DIM>(tier ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1}, 3, tier ? 10 : 6, true)) S.push_back(b);
  for (int s = NS; s < (int)S.size(); ++s) { for (int i = 0; i < (int)S[s].A.size(); i += tier ? 1 : (DIM == 2 ? 2 : 5)) CS.push_back({0, s, i}); for (int i = 0; i < (int)S[s].B.size(); ++i) CS.push_back({1, s, i}); }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%d seed placements; full split trees: depth %d over a family of %zu incident/intermediate/generic planes, depth %d over %zu mixed planes; arrays of up to 5 elements with empties in every position, and of 300; %d placements of shapes with up to %d vertices, depth 1-2", NS, dA, S[0].A.size(), dB, S[0].B.size(), (int)S.size() - NS, (int)TT::MAXV); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; auto &s = S[r.seed]; return mc::strf("kind %d seed %s root plane %s", r.kind, s.name.c_str(), pstr<DIM>(r.kind == 1 || r.kind == 3 ? s.B[r.idx] : s.A[r.idx]).c_str()); }
static std::string trail;
// compare one split result (pos, neg) of an input with pre-state p and model R
static void judge(Seed<DIM> &s, const Poly *pre, const Region<DIM> &R, const DP<DIM> &pl, const Poly *a, const Poly *b, Region<DIM> &Ra, Region<DIM> &Rb) {
  L lo = 1e300L, hi = -1e300L; for (int v = 0; v < pre->nverts; ++v) { L t = pl.d; for (int j = 0; j < DIM; ++j) t += (L)pl.n[j] * TT::co(pre, v, j); if (t < lo) lo = t; if (t > hi) hi = t; }
  Ra = clip<DIM>(R, toL(pl)); Rb = clip<DIM>(R, flip<DIM>(toL(pl)));
  L eps = 1e-9L * s.size * (1 + 1e-5L * maxabs<DIM>(s.R) / s.size);
  std::string d = differs<DIM>(a, Ra, s); if (!d.empty()) mc::fail("positive side: %s", d.c_str());
  d = differs<DIM>(b, Rb, s); if (!d.empty()) mc::fail("negative side: %s", d.c_str());
  if (pre->nverts <= 0 && (a->nverts || b->nverts)) mc::fail("splitting an empty element gave a non-empty fragment");
  if (pre->nverts > 0 && hi < -eps && a->nverts) mc::fail("element lies on the negative side but positive output is not empty");
  if (pre->nverts > 0 && lo > eps && b->nverts) mc::fail("element lies on the positive side but negative output is not empty");
  int ones = 0, zeros = 0; for (int j = 0; j < DIM; ++j) { ones += fabs(pl.n[j]) == 1; zeros += pl.n[j] == 0; }
  if (pre->nverts > 0 && lo >= 0 && ones == 1 && zeros == DIM - 1 && b->nverts) mc::fail("no vertex of the element is on the negative side (axis-aligned plane, exact distances) but the negative output is not empty");
  for (int q = 0; q < 2; ++q) { const Poly *o = q ? b : a; for (int v = 0; v < o->nverts; ++v) { L t = pl.d; for (int j = 0; j < DIM; ++j) t += (L)pl.n[j] * TT::co(o, v, j); if (q ? t > eps : t < -eps) mc::fail("vertex %d of the %s fragment on the wrong side by %Lg", v, q ? "negative" : "positive", t); } }
}
static Poly *in[8], *oa[8], *ob[8];
static void dfs(Seed<DIM> &s, const std::vector<DP<DIM>> &F, const Poly *p, const Region<DIM> &R, int depth, int left, int first) {
  for (int i = first >= 0 ? first : 0; i < (first >= 0 ? first + 1 : (int)F.size()); ++i) {
    if (&s - &S[0] >= NS && !roomfor<DIM>(p, F[i], s.size, 2)) { mc::skipped(); continue; }
    cp(in[depth], p); poison_some(oa[depth], 64); poison_some(ob[depth], 64); oa[depth]->nverts = 12345; ob[depth]->nverts = -7;
    std::string save = trail; trail += " | " + pstr<DIM>(F[i]); mc::path_s(trail);
    mc::trans(); int st = TT::split(in[depth], 1, TT::pl(F[i]), oa[depth], ob[depth]); if (st == 0) mc::fail("split reported failure although capacity suffices");
    Region<DIM> Ra, Rb; judge(s, p, R, F[i], oa[depth], ob[depth], Ra, Rb);
    bool fa = mc::state(hpoly(oa[depth], 1000 + left)), fb = mc::state(hpoly(ob[depth], 1000 + left));
    if (left > 1) {
      std::string t2 = trail;
      if (fa && oa[depth]->nverts > 0) { trail = t2 + " +"; dfs(s, F, oa[depth], Ra, depth + 1, left - 1, -1); }
      if (fb && ob[depth]->nverts > 0) { trail = t2 + " -"; dfs(s, F, ob[depth], Rb, depth + 1, left - 1, -1); }
    }
    trail = save;
  }
}
void check_case(uint64_t cc) {
  for (int i = 0; i < 8; ++i) if (!in[i]) { in[i] = newpoly<Poly>(); oa[i] = newpoly<Poly>(); ob[i] = newpoly<Poly>(); }
  static Poly *sp = newpoly<Poly>(), *sp2 = newpoly<Poly>();
  CaseRef r = CS[cc]; Seed<DIM> &s = S[r.seed]; trail = "seed " + s.name; mc::path_s(trail);
  if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed");
  if (r.seed >= NS) dfs(s, r.kind ? s.B : s.A, sp, s.R, 0, r.kind ? 2 : 1, r.idx);
  else if (r.kind == 3) { // a long array: every element must be treated like the first
    int n = 300; DP<DIM> pl = s.B[0]; Poly *A = (Poly *)malloc(sizeof(Poly) * n), *PA = (Poly *)malloc(sizeof(Poly) * n), *NA = (Poly *)malloc(sizeof(Poly) * n); for (int i = 0; i < n; ++i) { if (i % 7 == 3) A[i].nverts = 0; else { memcpy((void *)A[i].verts, (void *)sp->verts, sizeof(sp->verts[0]) * sp->nverts); A[i].nverts = sp->nverts; } PA[i].nverts = NA[i].nverts = 77; }
    mc::path("seed %s, array of %d, plane %s", s.name.c_str(), n, pstr<DIM>(pl).c_str()); mc::trans(n); int st = TT::split(A, n, TT::pl(pl), PA, NA); Region<DIM> Ra, Rb, E; static Poly *emp = newpoly<Poly>(); emp->nverts = 0;
    try { if (st == 0) mc::fail("split reported failure although capacity suffices"); for (int i = 0; i < n; ++i) { mc::beat(); mc::path("seed %s, array of %d, element %d, plane %s", s.name.c_str(), n, i, pstr<DIM>(pl).c_str()); if (i % 7 == 3) judge(s, emp, E, pl, &PA[i], &NA[i], Ra, Rb); else judge(s, sp, s.R, pl, &PA[i], &NA[i], Ra, Rb); } } catch (mc::CaseFail &) { free(A); free(PA); free(NA); throw; } free(A); free(PA); free(NA);
  }
  else if (r.kind == 0) dfs(s, s.A, sp, s.R, 0, dA, r.idx);
  else if (r.kind == 1) dfs(s, s.B, sp, s.R, 0, dB, r.idx);
  else {
    // arrays: every arrangement of {this shape, another shape of the same placement, empty} over 3 slots, and longer ones
    DP<DIM> pl = s.A[r.idx]; size_t other = (size_t)r.seed; do { other = (other + 1) % NS; } while (S[other].name.substr(S[other].name.find('@')) != s.name.substr(s.name.find('@')));
    Seed<DIM> &o = S[other]; if (!TT::make(sp2, o.shape)) mc::fail("seed initialisation failed");
    static Poly *A = (Poly *)malloc(sizeof(Poly) * 5), *PA, *NA; static bool once = false; if (!once) { once = true; }
    for (int n = 0; n <= 5; ++n) {
      int tot = 1; if (n <= 3) for (int i = 0; i < n; ++i) tot *= 3; else tot = n == 4 ? 3 : 2;
      for (int code = 0; code < tot; ++code) {
        // exact-size heap arrays so that the sanitizer sees any overrun
        A = (Poly *)malloc(sizeof(Poly) * (n ? n : 1)); PA = (Poly *)malloc(sizeof(Poly) * (n ? n : 1)); NA = (Poly *)malloc(sizeof(Poly) * (n ? n : 1));
        int what[5]; int q = code; for (int i = 0; i < n; ++i) { what[i] = n <= 3 ? q % 3 : (i + code) % 3; q /= 3; }
        for (int i = 0; i < (n ? n : 1); ++i) { PA[i].nverts = 4321; NA[i].nverts = -3; PA[i].verts[0].pnbrs[0] = 99; A[i].nverts = 0; }
        for (int i = 0; i < n; ++i) { if (what[i] == 0) cp(&A[i], sp); else if (what[i] == 1) cp(&A[i], sp2); else { A[i].nverts = 0; poison_some(&A[i], 8); } }
        trail = mc::strf("seed %s other %s array n=%d code=%d plane %s", s.name.c_str(), o.name.c_str(), n, code, pstr<DIM>(pl).c_str()); mc::path_s(trail);
        mc::trans(n); int st = TT::split(A, n, TT::pl(pl), PA, NA);
        try {
          if (st == 0) mc::fail("split reported failure although capacity suffices");
          for (int i = 0; i < n; ++i) {
            Poly *pre = what[i] == 0 ? sp : sp2; static Poly *emp = newpoly<Poly>(); emp->nverts = 0; if (what[i] == 2) pre = emp;
            Region<DIM> Ra, Rb, E; judge(what[i] == 1 ? o : s, pre, what[i] == 0 ? s.R : what[i] == 1 ? o.R : E, pl, &PA[i], &NA[i], Ra, Rb);
          }
          mc::state(mc::hash_bytes(what, sizeof(int) * n, cc));
        } catch (mc::CaseFail &) { free(A); free(PA); free(NA); throw; }
        free(A); free(PA); free(NA);
      }
    }
  }
  if (cc % 997 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
