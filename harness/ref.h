// ref.h - the reference model: a region is a finite signed sum of simplices (long double), clipped by
// half-spaces by recursive bisection of simplices; integrals by closed forms (order <= 2) or by an exact
// conical Gauss rule (any order).  Shares no code and no method with the library.
#pragma once
#include <math.h>
#include <vector>
#include <array>
typedef long double L;

template <int D> struct Simp { L v[D + 1][D]; int sg; };
template <int D> struct Plane { L n[D]; L d; };
template <int D> using Region = std::vector<Simp<D>>;

template <int D> static inline L det(L a[D][D]) {
  L r = 1;
  for (int c = 0; c < D; ++c) {
    int p = c; for (int i = c + 1; i < D; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
    if (a[p][c] == 0) return 0;
    if (p != c) { for (int j = 0; j < D; ++j) { L t = a[p][j]; a[p][j] = a[c][j]; a[c][j] = t; } r = -r; }
    r *= a[c][c];
    for (int i = c + 1; i < D; ++i) { L f = a[i][c] / a[c][c]; for (int j = c; j < D; ++j) a[i][j] -= f * a[c][j]; }
  }
  return r;
}
template <int D> static inline L sdet(const Simp<D> &s) {
  L a[D][D]; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) a[i][j] = s.v[i + 1][j] - s.v[0][j];
  return det<D>(a);
}
constexpr L fact(int n) { return n <= 1 ? 1.0L : n * fact(n - 1); }
template <int D> static inline L svol(const Simp<D> &s) { return fabsl(sdet<D>(s)) / fact(D); }

template <int D> static void clip_rec(const Simp<D> &s, const L *sd, Region<D> &out) {
  int p = -1, q = -1;
  for (int i = 0; i <= D; ++i) { if (sd[i] > 0) p = i; if (sd[i] < 0) q = i; }
  if (q < 0) { if (p >= 0) out.push_back(s); return; } // entirely inside (or flat on the plane: measure zero)
  if (p < 0) return;
  L w = sd[p] / (sd[p] - sd[q]);
  L r[D]; for (int j = 0; j < D; ++j) r[j] = s.v[p][j] + w * (s.v[q][j] - s.v[p][j]);
  Simp<D> t = s; L e[D + 1];
  for (int i = 0; i <= D; ++i) e[i] = sd[i];
  for (int j = 0; j < D; ++j) t.v[q][j] = r[j]; e[q] = 0; clip_rec<D>(t, e, out);
  t = s; for (int i = 0; i <= D; ++i) e[i] = sd[i];
  for (int j = 0; j < D; ++j) t.v[p][j] = r[j]; e[p] = 0; clip_rec<D>(t, e, out);
}
template <int D> static Region<D> clip(const Region<D> &R, const Plane<D> &P) {
  Region<D> out; out.reserve(R.size() + 8);
  for (auto &s : R) {
    L sd[D + 1]; bool neg = false, pos = false;
    for (int i = 0; i <= D; ++i) { sd[i] = P.d; for (int j = 0; j < D; ++j) sd[i] += P.n[j] * s.v[i][j]; if (sd[i] < 0) neg = true; if (sd[i] > 0) pos = true; }
    if (!neg) { out.push_back(s); continue; }
    if (!pos) continue;
    clip_rec<D>(s, sd, out);
  }
  return out;
}
template <int D> static Plane<D> flip(const Plane<D> &P) { Plane<D> Q; for (int i = 0; i < D; ++i) Q.n[i] = -P.n[i]; Q.d = -P.d; return Q; }

// number of moments up to order k
template <int D> static inline int nmom(int k) { long r = 1; for (int i = 1; i <= D; ++i) r = r * (k + i) / i; return (int)r; }
// exponents of all monomials, row-major: 1, x, y, (z), x^2, xy, ...
template <int D> static void exps_rec(int left, int pos, std::array<int, D> &e, std::vector<std::array<int, D>> &o) {
  if (pos == D - 1) { e[pos] = left; o.push_back(e); return; }
  for (int i = left; i >= 0; --i) { e[pos] = i; exps_rec<D>(left - i, pos + 1, e, o); }
}
template <int D> static std::vector<std::array<int, D>> exps(int order) {
  std::vector<std::array<int, D>> o; std::array<int, D> e; for (int k = 0; k <= order; ++k) exps_rec<D>(k, 0, e, o); return o;
}
// closed forms for order <= 2; out has nmom<D>(order) entries, added to
template <int D> static void mom2_add(const Region<D> &R, int order, L *out) {
  for (auto &s : R) {
    L V = s.sg * svol<D>(s); if (V == 0) continue;
    out[0] += V; if (order < 1) continue;
    L S[D]; for (int j = 0; j < D; ++j) { S[j] = 0; for (int i = 0; i <= D; ++i) S[j] += s.v[i][j]; }
    for (int j = 0; j < D; ++j) out[1 + j] += V * S[j] / (D + 1);
    if (order < 2) continue;
    int m = 1 + D;
    for (int a = 0; a < D; ++a) for (int b = a; b < D; ++b, ++m) {
      L t = S[a] * S[b]; for (int i = 0; i <= D; ++i) t += s.v[i][a] * s.v[i][b];
      out[m] += V * t / ((D + 1) * (D + 2));
    }
  }
}
static void gauss01(int n, std::vector<L> &x, std::vector<L> &w) {
  x.resize(n); w.resize(n); const L PI = 3.14159265358979323846264338327950288L;
  for (int i = 0; i < n; ++i) {
    L z = cosl(PI * (i + 0.75L) / (n + 0.5L)), pp = 1;
    for (int it = 0; it < 100; ++it) {
      L p1 = 1, p2 = 0; for (int j = 0; j < n; ++j) { L p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
      pp = n * (z * p1 - p2) / (z * z - 1); L dz = p1 / pp; z -= dz; if (fabsl(dz) < 1e-19L) break;
    }
    x[i] = (1 - z) / 2; w[i] = 1 / ((1 - z * z) * pp * pp);
  }
}
// any order: conical product Gauss rule, exact for polynomials of the given order
template <int D> static void momN_add(const Region<D> &R, int order, L *out) {
  if (order <= 2) { mom2_add<D>(R, order, out); return; }
  static std::vector<L> gx[64], gw[64]; static std::vector<std::array<int, D>> ex[64];
  int n = (order + D) / 2 + 1; if (gx[n].empty()) gauss01(n, gx[n], gw[n]);
  if (ex[order].empty()) ex[order] = exps<D>(order);
  auto &E = ex[order]; int M = (int)E.size();
  int tot = 1; for (int i = 0; i < D; ++i) tot *= n;
  std::vector<std::array<L, D>> pw(order + 1);
  for (auto &s : R) {
    L J = fabsl(sdet<D>(s)); if (J == 0) continue;
    for (int q = 0; q < tot; ++q) {
      L lam[D + 1], rem = 1, wt = s.sg * J; int k = q;
      for (int i = 0; i < D; ++i) { int a = k % n; k /= n; L t = gx[n][a]; wt *= gw[n][a]; lam[i] = rem * t; for (int z = 0; z < D - 1 - i; ++z) wt *= (1 - t); rem *= (1 - t); }
      lam[D] = rem;
      L x[D]; for (int j = 0; j < D; ++j) { x[j] = 0; for (int i = 0; i <= D; ++i) x[j] += lam[i] * s.v[i][j]; }
      for (int j = 0; j < D; ++j) { pw[0][j] = 1; for (int e = 1; e <= order; ++e) pw[e][j] = pw[e - 1][j] * x[j]; }
      for (int m = 0; m < M; ++m) { L t = wt; for (int j = 0; j < D; ++j) t *= pw[E[m][j]][j]; out[m] += t; }
    }
  }
}
template <int D> static inline std::vector<L> moments(const Region<D> &R, int order) { std::vector<L> o(nmom<D>(order), 0.0L); momN_add<D>(R, order, o.data()); return o; }
template <int D> static inline L absvol(const Region<D> &R) { L s = 0; for (auto &t : R) s += svol<D>(t); return s; }
template <int D> static inline L maxabs(const Region<D> &R) { L s = 0; for (auto &t : R) for (int i = 0; i <= D; ++i) for (int j = 0; j < D; ++j) if (fabsl(t.v[i][j]) > s) s = fabsl(t.v[i][j]); return s; }

// ---- building regions ----
// closed oriented boundary -> signed simplices fanned from a reference point
static Region<2> region_from_loops(const std::vector<std::vector<std::array<L, 2>>> &loops) {
  Region<2> R; L o[2] = {0, 0}; int n = 0; for (auto &l : loops) for (auto &p : l) { o[0] += p[0]; o[1] += p[1]; ++n; }
  if (!n) return R; o[0] /= n; o[1] /= n;
  for (auto &l : loops) for (size_t i = 0; i < l.size(); ++i) {
    auto &a = l[i], &b = l[(i + 1) % l.size()];
    Simp<2> s; s.v[0][0] = o[0]; s.v[0][1] = o[1]; for (int j = 0; j < 2; ++j) { s.v[1][j] = a[j]; s.v[2][j] = b[j]; }
    L dd = sdet<2>(s); if (dd == 0) continue; s.sg = dd > 0 ? 1 : -1; R.push_back(s);
  }
  return R;
}
// faces: counterclockwise seen from outside
static Region<3> region_from_faces(const std::vector<std::array<L, 3>> &V, const std::vector<std::vector<int>> &F) {
  Region<3> R; L o[3] = {0, 0, 0}; for (auto &p : V) for (int j = 0; j < 3; ++j) o[j] += p[j]; if (V.empty()) return R;
  for (int j = 0; j < 3; ++j) o[j] /= V.size();
  for (auto &f : F) for (size_t i = 1; i + 1 < f.size(); ++i) {
    Simp<3> s; for (int j = 0; j < 3; ++j) { s.v[0][j] = o[j]; s.v[1][j] = V[f[0]][j]; s.v[2][j] = V[f[i]][j]; s.v[3][j] = V[f[i + 1]][j]; }
    L dd = sdet<3>(s); if (dd == 0) continue; s.sg = dd > 0 ? 1 : -1; R.push_back(s);
  }
  return R;
}
template <int D> static Region<D> region_box(const L *lo, const L *hi) { // Kuhn triangulation
  Region<D> R; int p[D]; for (int i = 0; i < D; ++i) p[i] = i;
  for (;;) {
    Simp<D> s; L x[D]; for (int j = 0; j < D; ++j) x[j] = lo[j];
    for (int j = 0; j < D; ++j) s.v[0][j] = x[j];
    for (int i = 0; i < D; ++i) { x[p[i]] = hi[p[i]]; for (int j = 0; j < D; ++j) s.v[i + 1][j] = x[j]; }
    s.sg = 1; R.push_back(s);
    int i = D - 2; while (i >= 0 && p[i] > p[i + 1]) --i; if (i < 0) break;
    int k = D - 1; while (p[k] < p[i]) --k; int t = p[i]; p[i] = p[k]; p[k] = t;
    for (int a = i + 1, b = D - 1; a < b; ++a, --b) { t = p[a]; p[a] = p[b]; p[b] = t; }
  }
  return R;
}
