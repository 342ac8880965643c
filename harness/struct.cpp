// C05: invariant exploration - every shape reachable by sequences of clip / split-keep-positive / split-keep-negative
// is well-formed, stays inside the surviving region, and every operation terminates.
#include "dim.h"
const char *CHECK_ID = "C05";
template <int D> struct W { std::vector<Seed<D>> S; };
static W<2> W2; static W<3> W3; static int dep2, dep3, nb2, nb3; // seeds from nb2, nb3 on have many vertices
struct CaseRef { int dim, seed, fam, op, idx; };
static std::vector<CaseRef> CS; static int init_tier = -1;
template <int D> static std::vector<DP<D>> fam(const Seed<D> &s, int f, int tier) {
  std::vector<DP<D>> P = planes_for<D>(T<D>::pts(s.shape), 3, f == 1, f == 0), Q;
  size_t want = f == 0 ? (tier ? 9 : 6) : (tier ? 14 : 9); // family 0: generic planes only; family 1: incident planes
  for (size_t i = 0; i < want; ++i) Q.push_back(P[(i * 29 + 3) % P.size()]);
  return Q;
}
static void init(int tier) {
  if (init_tier == tier) return; init_tier = tier; CS.clear();
  W2.S = seeds<2>({0, 1, 5, 6, 8, 9, 10}, 3, 2); W3.S = seeds<3>(tier ? std::vector<int>{0, 1, 5, 6, 8, 9, 10} : std::vector<int>{0, 1, 6, 9, 10}, 3, 2);
  nb2 = (int)W2.S.size(); nb3 = (int)W3.S.size(); for (auto &b : seeds<2>({0, 1}, 3, 2, true)) W2.S.push_back(b); for (auto &b : seeds<3>({0, 1}, 3, 2, true)) W3.S.push_back(b);
  dep2 = tier ? 5 : 4; dep3 = tier ? 4 : 3;
  for (int d = 2; d <= 3; ++d) for (int s = 0; s < (int)(d == 2 ? W2.S.size() : W3.S.size()); ++s) for (int f = 0; f < 2; ++f) {
    size_t n = d == 2 ? fam<2>(W2.S[s], f, tier).size() : fam<3>(W3.S[s], f, tier).size();
    for (int o = 0; o < 3; ++o) for (int i = 0; i < (int)n; ++i) CS.push_back({d, s, f, o, i});
    if (f == 0 && s < (d == 2 ? nb2 : nb3) && (tier || (d == 2 ? W2.S[s].name : W3.S[s].name).find("@8") == std::string::npos)) { size_t m = d == 2 ? W2.S[s].A.size() : W3.S[s].A.size(); for (int i = 0; i < (int)m; ++i) CS.push_back({d, s, 2, 0, i}); } // lists of planes in one call
    if (f == 0 && s < (d == 2 ? nb2 : nb3)) for (int i = 0; i < 3; ++i) if (tier || i != 1 || s % 4 == 0) CS.push_back({d, s, 3, 0, i}); // very long lists, arrays
  }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu 2D and %zu 3D seed placements (some filling most of the vertex buffer, depth 2); all sequences of {clip, split keep +, split keep -} x {generic family, incident family}, depth %d (2D) and %d (3D); all ordered pairs of planes, each pair preceded and followed by a generic plane, as lists in one call; lists of 300 and 70000 planes and arrays of 300 shapes", W2.S.size(), W3.S.size(), dep2, dep3); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("%dD seed %s family %d (2: plane lists, 3: very long lists and arrays) first op %d plane #%d", r.dim, r.dim == 2 ? W2.S[r.seed].name.c_str() : W3.S[r.seed].name.c_str(), r.fam, r.op, r.idx); }
static std::string trail;
template <int D> struct X {
  typedef T<D> TT; typedef typename TT::Poly Poly;
  static Poly *a[12], *b[12], *c[12];
  static bool big; static void dfs(Seed<D> &s, const std::vector<DP<D>> &F, const Poly *p, int depth, int left, int fo, int fi, bool gen, std::vector<DP<D>> &cuts) {
    static const char *on[3] = {"clip", "split+", "split-"};
    for (int o = fo >= 0 ? fo : 0; o < (fo >= 0 ? fo + 1 : 3); ++o) for (int i = fi >= 0 ? fi : 0; i < (fi >= 0 ? fi + 1 : (int)F.size()); ++i) {
      if (big && !roomfor<D>(p, F[i], s.size, o ? 2 : 1)) { mc::skipped(); continue; } std::string save = trail; trail += mc::strf(" | %s ", on[o]) + pstr<D>(F[i]); mc::path_s(trail);
      // is the plane in general position with the current shape?
      L m = 1e300L; for (int v = 0; v < p->nverts; ++v) { L t = F[i].d; for (int j = 0; j < D; ++j) t += (L)F[i].n[j] * TT::co(p, v, j); m = std::min(m, fabsl(t)); }
      bool g = gen && m > 1e-6L * s.size;
      cp(a[depth], p); Poly *r = a[depth]; DP<D> cut = F[i]; int st; mc::trans();
      if (o == 0) { auto q = TT::pl(F[i]); st = TT::clip(r, &q, 1); }
      else { poison_some(b[depth], 64); b[depth]->nverts = c[depth]->nverts = -99; st = TT::split(r, 1, TT::pl(F[i]), b[depth], c[depth]); r = o == 1 ? b[depth] : c[depth]; if (o == 2) { for (int j = 0; j < D; ++j) cut.n[j] = -cut.n[j]; cut.d = -cut.d; }
        std::string e = TT::bad(o == 1 ? c[depth] : b[depth]); if (!e.empty()) mc::fail("malformed other fragment: %s", e.c_str()); }
      if (st == 0) mc::fail("operation reported failure although capacity suffices");
      std::string e = TT::bad(r); mc::compared(); if (!e.empty()) mc::fail("malformed: %s; %s", e.c_str(), TT::dumpp(r).c_str());
      cuts.push_back(cut); L eps = 1e-9L * s.size * (1 + 1e-5L * maxabs<D>(s.R) / s.size);
      for (int v = 0; v < r->nverts; ++v) {
        for (auto &q : cuts) { L t = q.d; for (int j = 0; j < D; ++j) t += (L)q.n[j] * TT::co(r, v, j); if (t < -eps) mc::fail("vertex %d outside the surviving region by %Lg: %s", v, -t, TT::dumpp(r).c_str()); }
        for (int j = 0; j < D; ++j) { L lo = 1e300L, hi = -1e300L; for (auto &q : TT::pts(s.shape)) { lo = std::min(lo, (L)q[j]); hi = std::max(hi, (L)q[j]); } if (TT::co(r, v, j) < lo - eps || TT::co(r, v, j) > hi + eps) mc::fail("vertex %d outside the bounds of the original shape", v); }
      }
      if (r->nverts > 0) {
        uint64_t h0 = hpoly(r); int good = TT::good(r);
        if (hpoly(r) != h0) mc::fail("validity test altered the shape");
        if (D == 2 && !good) mc::fail("library validity test rejects a well-formed polygon: %s", TT::dumpp(r).c_str());
        if (D == 3 && g && s.shape.convex && !good) mc::fail("library validity test rejects a convex shape clipped in general position: %s", TT::dumpp(r).c_str());
      }
      bool fresh = mc::state(hpoly(r, 1000 + left + 100 * g));
      if (left > 1 && fresh && r->nverts > 0) { cp(c[depth + 1], r); static Poly *hold[12]; if (!hold[depth]) hold[depth] = newpoly<Poly>(); cp(hold[depth], r); dfs(s, F, hold[depth], depth + 1, left - 1, -1, -1, g, cuts); }
      cuts.pop_back(); trail = save;
    }
  }
  static void lists(Seed<D> &s, const Poly *sp, int i) {
    L eps = 1e-9L * s.size * (1 + 1e-5L * maxabs<D>(s.R) / s.size); auto &F = s.A; auto &g = s.B[0];
    for (size_t j = 0; j < F.size(); ++j) for (int k = 0; k < ((i + j) % 3 ? 1 : 3); ++k) {
      std::vector<DP<D>> q = {F[i], F[j]}; if (k == 1) q.push_back(g); if (k == 2) q.insert(q.begin(), g);
      trail = "seed " + s.name + " one call:"; for (auto &x : q) trail += " | " + pstr<D>(x); mc::path_s(trail);
      std::vector<typename TT::RPlane> rp; for (auto &x : q) rp.push_back(TT::pl(x)); cp(a[0], sp); mc::trans();
      int st = TT::clip(a[0], rp.data(), (int)rp.size()); if (st == 0) mc::fail("operation reported failure although capacity suffices");
      std::string e = TT::bad(a[0]); mc::compared(); if (!e.empty()) mc::fail("malformed: %s; %s", e.c_str(), TT::dumpp(a[0]).c_str());
      for (int v = 0; v < a[0]->nverts; ++v) for (auto &x : q) { L t = x.d; for (int c = 0; c < D; ++c) t += (L)x.n[c] * TT::co(a[0], v, c); if (t < -eps) mc::fail("vertex %d outside the surviving region by %Lg: %s", v, -t, TT::dumpp(a[0]).c_str()); }
      mc::state(hpoly(a[0], 77));
    }
  }
  // lists of 300 and of 70000 planes in one call, a dozen of them cutting; arrays of 300 shapes split at once
  static void longer(Seed<D> &s, const Poly *sp, int kind) {
    L eps = 1e-9L * s.size * (1 + 1e-5L * maxabs<D>(s.R) / s.size); auto inside = [&](Poly *r, const std::vector<DP<D>> &q, const char *w) { std::string e = TT::bad(r); mc::compared(); if (!e.empty()) mc::fail("%s: malformed: %s; %s", w, e.c_str(), TT::dumpp(r).c_str()); for (int v = 0; v < r->nverts; ++v) for (auto &x : q) { L t = x.d; for (int c = 0; c < D; ++c) t += (L)x.n[c] * TT::co(r, v, c); if (t < -eps) mc::fail("%s: vertex %d outside the surviving region by %Lg", w, v, -t); } mc::state(hpoly(r, 78)); };
    if (kind < 2) { int n = kind ? 70000 : 300; std::vector<DP<D>> F; std::vector<typename TT::RPlane> q; for (int i = 0; i < 12; ++i) { double ph = i * 2.399963229728653, z = 1 - 2 * (i + 0.5) / 12, w = sqrt(1 - z * z); DP<D> p; p.n[0] = cos(ph); p.n[1] = sin(ph); if (D == 3) { p.n[0] *= w; p.n[1] *= w; p.n[D - 1] = z; } L o = 0; for (int j = 0; j < D; ++j) o += p.n[j] * s.ctr[j]; p.d = (double)((double)s.size * 0.4 - o); F.push_back(p); }
      for (int i = 0; i < n; ++i) { DP<D> p = F[i % 7]; p.d += 4 * (double)s.size; int k = i < 4 ? i : i >= n - 8 ? i - n + 12 : -1; if (k >= 0) p = F[k]; q.push_back(TT::pl(p)); }
      cp(a[0], sp); mc::path("seed %s, %d planes in one call", s.name.c_str(), n); mc::trans(); if (TT::clip(a[0], q.data(), n) == 0) mc::fail("operation reported failure although capacity suffices"); inside(a[0], F, "long list"); return; }
    int n = 300; Poly *A = (Poly *)malloc(sizeof(Poly) * n), *P = (Poly *)malloc(sizeof(Poly) * n), *N = (Poly *)malloc(sizeof(Poly) * n); for (int i = 0; i < n; ++i) { if (i % 9 == 4) A[i].nverts = 0; else { memcpy((void *)A[i].verts, (void *)sp->verts, sizeof(sp->verts[0]) * sp->nverts); A[i].nverts = sp->nverts; } P[i].nverts = N[i].nverts = 77; }
    DP<D> c1 = s.B[0], c2 = c1; for (int j = 0; j < D; ++j) c2.n[j] = -c2.n[j]; c2.d = -c2.d; mc::path("seed %s, array of %d split at once", s.name.c_str(), n); mc::trans(n); if (TT::split(A, n, TT::pl(c1), P, N) == 0) mc::fail("operation reported failure although capacity suffices"); for (int i = 0; i < n; ++i) { inside(&P[i], {c1}, "positive part"); inside(&N[i], {c2}, "negative part"); } free(A); free(P); free(N);
  }
  static void run(Seed<D> &s, const CaseRef &r, int depth) {
    for (int i = 0; i < 12; ++i) if (!a[i]) { a[i] = newpoly<Poly>(); b[i] = newpoly<Poly>(); c[i] = newpoly<Poly>(); }
    static Poly *sp = newpoly<Poly>(); trail = "seed " + s.name; mc::path_s(trail);
    if (!TT::make(sp, s.shape)) mc::fail("seed initialisation failed");
    std::string e = TT::bad(sp); if (!e.empty()) mc::fail("malformed seed: %s", e.c_str());
    if (s.shape.convex && !TT::good(sp)) mc::fail("library validity test rejects the seed");
    big = r.seed >= (D == 2 ? nb2 : nb3); if (big) depth = 2;
    if (r.fam == 2) { lists(s, sp, r.idx); return; } if (r.fam == 3) { longer(s, sp, r.idx); return; }
    std::vector<DP<D>> cuts; dfs(s, fam<D>(s, r.fam, mc::tier), sp, 0, depth, r.op, r.idx, true, cuts);
  }
};
template <int D> bool X<D>::big; template <int D> typename X<D>::Poly *X<D>::a[12]; template <int D> typename X<D>::Poly *X<D>::b[12]; template <int D> typename X<D>::Poly *X<D>::c[12];
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; if (r.dim == 2) X<2>::run(W2.S[r.seed], r, dep2); else X<3>::run(W3.S[r.seed], r, dep3);
  if (cc % 397 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
