// C17: 4D clip sequences against brute-force facet enumeration
#include "fourd.h"
const char *CHECK_ID = "C17";
static std::vector<Seed4> S; static std::vector<std::vector<DP<4>>> A, B; struct CaseRef { int kind, seed, idx; }; static std::vector<CaseRef> CS; static int it = -1, dB;
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); A.clear(); B.clear(); S = seeds4(tier); dB = tier ? 5 : 4;
  for (int s = 0; s < (int)S.size(); ++s) { A.push_back(planes4(S[s], tier ? 10 : 6, tier ? 4 : 7)); auto b = planes4(S[s], 6, tier ? 13 : 19); std::vector<DP<4>> c; for (auto &p : b) { L lo = 1e300L, hi = -1e300L; for (auto &t : S[s].R) for (int i = 0; i < 5; ++i) { V4 x; for (int j = 0; j < 4; ++j) x[j] = t.v[i][j]; L e = ev(toL(p), x); lo = std::min(lo, e); hi = std::max(hi, e); } if (lo < 0 && hi > 0) c.push_back(p); } B.push_back(c);
    for (int i = 0; i < (int)A[s].size(); ++i) { CS.push_back({0, s, i}); CS.push_back({2, s, i}); } for (int i = 0; i < (int)B[s].size(); ++i) CS.push_back({1, s, i}); for (int i = 0; i < (tier ? 6 : 3); ++i) CS.push_back({3, s, i}); if (s % 4 == 1) { CS.push_back({4, s, 0}); CS.push_back({4, s, 1}); CS.push_back({5, s, 0}); } }
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu simplices and boxes; all sequences of depth 3 over %zu hyperplanes (cutting, missing and excluding, both orientations), depth %d over %zu cutting ones, lists of up to 6 in one call in several orders, up to %d hyperplanes tangent to a ball one after the other and in one call (a few hundred vertices), lists of 300 and 70000, and 11000 parallel cuts each removing the one before", S.size(), A[0].size(), dB, B[0].size(), tier ? 72 : 56); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return r.kind >= 3 ? mc::strf("%s seed %s variant %d", r.kind == 3 ? "ball" : r.kind == 5 ? "parallel cuts" : "long list", S[r.seed].name.c_str(), r.idx) : mc::strf("kind %d seed %s hyperplane %s", r.kind, S[r.seed].name.c_str(), pstr<4>(r.kind == 1 ? B[r.seed][r.idx] : A[r.seed][r.idx]).c_str()); }
static std::string trail; static rNd_poly *buf[8];
static void tree(const Seed4 &s, const std::vector<DP<4>> &F, const rNd_poly *p, HPoly H, int left, int first) {
  rNd_poly *&q = buf[left]; if (!q) q = newpoly<rNd_poly>();
  for (int i = first >= 0 ? first : 0; i < (first >= 0 ? first + 1 : (int)F.size()); ++i) {
    L lo = 1e300L, hi = -1e300L, mn = 1e300L; Plane<4> h = toL(F[i]); for (int v = 0; v < p->nverts; ++v) { V4 x; for (int j = 0; j < 4; ++j) x[j] = p->verts[v].pos.xyz[j]; L t = ev(h, x); lo = std::min(lo, t); hi = std::max(hi, t); mn = std::min(mn, fabsl(t)); }
    if (mn < 1e-6L * s.size) { mc::skipped(); continue; } HPoly H1 = H; H1.F.push_back(unitp(h)); std::vector<HV> M; if (!enumerate(H1, 1e-6L * s.size, M)) { mc::skipped(); continue; }
    std::string save = trail; trail += " | " + pstr<4>(F[i]); mc::path_s(trail); cp(q, p); rNd_plane pl = P4(F[i]), pc = pl; uint64_t h0 = hpoly4(q); mc::trans(); int st = status_of(rNd_clip, q, &pl, 1); if (st == 0 && q->nverts > 0) mc::fail("reported failure although capacity suffices"); if (memcmp(&pl, &pc, sizeof pl)) mc::fail("the hyperplane was altered");
    if (hi < 0 && q->nverts != 0) mc::fail("strictly outside the hyperplane but not empty: %s", dump(q).c_str());
    if (lo > 0 && hpoly4(q) != h0) mc::fail("entirely inside the hyperplane but changed: %s", dump(q).c_str());
    std::string d = differs4(q, M, tol4(s)); if (!d.empty()) mc::fail("%s", d.c_str());
    bool fresh = mc::state(hpoly4(q, left)); if (left > 1 && fresh && q->nverts > 0) tree(s, F, q, H1, left - 1, -1); trail = save;
  }
}
static void balls(const Seed4 &s, int var) {
  static rNd_poly *p = newpoly<rNd_poly>(), *q = newpoly<rNd_poly>(); int n = mc::tier ? 72 : 56; auto Q = ball(s, n, var); HPoly H = s.H; std::vector<HV> M; make4(p, s); trail = s.name; std::vector<rNd_plane> pl;
  for (int i = 0; i < n; ++i) {
    L mn = 1e300L; for (int v = 0; v < p->nverts; ++v) { V4 x; for (int j = 0; j < 4; ++j) x[j] = p->verts[v].pos.xyz[j]; mn = std::min(mn, fabsl(ev(toL(Q[i]), x))); } if (mn < 1e-6L * s.size) { mc::skipped(); continue; }
    HPoly H1 = H; H1.F.push_back(unitp(toL(Q[i]))); bool look = i < 12 || i % 15 == 10 || i == n - 1; mc::beat(); if (look && !enumerate(H1, 1e-6L * s.size, M)) { mc::skipped(); look = false; } H = H1; trail += " | " + pstr<4>(Q[i]); mc::path_s(trail); pl.push_back(P4(Q[i])); mc::trans(); if (status_of(rNd_clip, p, &pl.back(), 1) == 0) mc::fail("reported failure although capacity suffices"); mc::state(hpoly4(p)); std::string d = bad4(p); if (!d.empty()) mc::fail("malformed: %s", d.c_str()); if (!look) continue; mc::beat(); d = differs4(p, M, tol4(s)); if (!d.empty()) mc::fail("%s", d.c_str());
    if (i > 12) { make4(q, s); mc::trans(); if (status_of(rNd_clip, q, pl.data(), (rNd_int)pl.size()) == 0) mc::fail("one call: reported failure although capacity suffices"); d = differs4(q, M, tol4(s)); if (!d.empty()) mc::fail("one call: %s", d.c_str()); }
  }
  mc::sample(mc::strf("%s: %d vertices after %zu hyperplanes", s.name.c_str(), p->nverts, pl.size()));
}
static void longlist(const Seed4 &s, int var) {
  static rNd_poly *p = newpoly<rNd_poly>(); int n = var ? 70000 : 300; auto F = ball(s, 8, 2); HPoly H = s.H; std::vector<HV> M; for (auto &f : F) { H.F.push_back(unitp(toL(f))); if (!enumerate(H, 1e-6L * s.size, M)) { mc::skipped(); return; } }
  std::vector<rNd_plane> q; for (int i = 0; i < n; ++i) { DP<4> f = F[i % 5]; f.d += 8 * (double)s.size; int k = i < 3 ? i : i >= n - 5 ? i - n + 8 : -1; if (k >= 0) f = F[k]; q.push_back(P4(f)); }
  make4(p, s); mc::path("%s, list of %d", s.name.c_str(), n); mc::trans(); if (status_of(rNd_clip, p, q.data(), (rNd_int)n) == 0) mc::fail("reported failure although capacity suffices"); std::string d = differs4(p, M, tol4(s)); if (!d.empty()) mc::fail("list of %d: %s", n, d.c_str()); mc::state(hpoly4(p, 98));
}
// thousands of cuts by parallel hyperplanes, each removing the previous cut: the final result is that of the last one
static void shave(const Seed4 &s) {
  static rNd_poly *p = newpoly<rNd_poly>(); int n = 11000; auto F = ball(s, 3, 4); for (int dir = 0; dir < 3; ++dir) { DP<4> f = F[dir]; L hi = -1e300L, lo = 1e300L; for (auto &t : s.R) for (int i = 0; i < 5; ++i) { L e = 0; for (int j = 0; j < 4; ++j) e += (L)f.n[j] * t.v[i][j]; hi = std::max(hi, e); lo = std::min(lo, e); }
    HPoly H = s.H; f.d = (double)-(lo + 0.31L * (hi - lo)); H.F.push_back(unitp(toL(f))); std::vector<HV> M; if (!enumerate(H, 1e-6L * s.size, M)) { mc::skipped(); continue; }
    make4(p, s); std::vector<rNd_plane> one; std::string d; for (int i = 1; i <= n; ++i) { DP<4> g = f; g.d = (double)-(lo + 0.31L * i / n * (hi - lo)); if (i == n) g = f; bool near = false; for (int v = 0; v < p->nverts && !near; ++v) { L e = g.d; for (int j = 0; j < 4; ++j) e += (L)g.n[j] * p->verts[v].pos.xyz[j]; near = fabsl(e) < 1e-9L * s.size; } if (near) { mc::skipped(); continue; } rNd_plane q = P4(g); if (dir == 2) { one.push_back(q); continue; } mc::path("%s, cut %d of %d in direction %d", s.name.c_str(), i, n, dir); mc::trans(); if (status_of(rNd_clip, p, &q, 1) == 0) mc::fail("reported failure although capacity suffices"); if (i % 1000 == 0) { d = bad4(p); if (!d.empty()) mc::fail("malformed: %s", d.c_str()); mc::state(hpoly4(p)); mc::beat(); } }
    if (dir == 2) { mc::path("%s, %zu cuts in one call", s.name.c_str(), one.size()); mc::trans(); if (status_of(rNd_clip, p, one.data(), (rNd_int)one.size()) == 0) mc::fail("reported failure although capacity suffices"); }
    d = differs4(p, M, tol4(s)); if (!d.empty()) mc::fail("after %d parallel cuts: %s", n, d.c_str()); mc::compared(); }
}
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; Seed4 &s = S[r.seed]; mc::path_s(check_describe(cc)); static rNd_poly *p = newpoly<rNd_poly>(); make4(p, s); if (!bad4(p).empty()) mc::fail("malformed initial polytope"); trail = s.name;
  if (r.kind == 3) { balls(s, r.idx); return; } if (r.kind == 4) { longlist(s, r.idx); return; } if (r.kind == 5) { shave(s); return; }
  if (r.kind < 2) tree(s, r.kind ? B[r.seed] : A[r.seed], p, s.H, r.kind ? dB : 3, r.idx);
  else for (int n = 2; n <= 6; ++n) for (int rot = 0; rot < n; ++rot) for (int rev = 0; rev < 2; ++rev) { // one call
    std::vector<DP<4>> Q; for (int i = 0; i < n; ++i) Q.push_back(A[r.seed][(r.idx + i * (n + 3)) % A[r.seed].size()]); std::rotate(Q.begin(), Q.begin() + rot, Q.end()); if (rev) std::reverse(Q.begin(), Q.end());
    HPoly H = s.H; std::vector<HV> M; bool ok = true; for (auto &d : Q) { std::vector<HV> N; enumerate(H, 1e-6L * s.size, N); for (auto &x : N) if (fabsl(ev(toL(d), x.p)) < 1e-6L * s.size) ok = false; H.F.push_back(unitp(toL(d))); if (!enumerate(H, 1e-6L * s.size, M)) ok = false; } if (!ok) { mc::skipped(); continue; }
    std::string t = s.name + " list"; std::vector<rNd_plane> pl; for (auto &d : Q) { pl.push_back(P4(d)); t += " | " + pstr<4>(d); } mc::path_s(t); auto pc = pl; make4(p, s); mc::trans(); status_of(rNd_clip, p, pl.data(), (rNd_int)n); if (memcmp(pl.data(), pc.data(), sizeof(rNd_plane) * n)) mc::fail("the hyperplanes were altered"); std::string d = differs4(p, M, tol4(s)); if (!d.empty()) mc::fail("list of %d: %s", n, d.c_str()); mc::state(hpoly4(p, 99));
  }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
