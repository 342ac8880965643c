// C15: orientation functions
#include "dim.h"
const char *CHECK_ID = "C15";
struct CaseRef { int kind, a; }; static std::vector<CaseRef> CS; static int it = -1;
static void init(int tier) { if (it == tier) return; it = tier; CS.clear(); for (int i = 0; i < 25; ++i) CS.push_back({2, i}); for (int i = 0; i < 27 * 27; ++i) if (tier || i % 2 == 0) CS.push_back({3, i}); for (int i = 0; i < 256; ++i) CS.push_back({4, i}); for (int i = 0; i < 9 * 8; ++i) CS.push_back({5, i}); }
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { return mc::strf("2D: all ordered triples of the 5x5 lattice; 3D: all ordered 4-tuples of the 3^3 lattice%s; 4D: all ordered 5-tuples of {0,1}^4; all ordered tuples of 9 generic points per dimension in 7 placements (scales 2^-60..2^60, large offsets)", tier ? "" : " (every second pair of first two points)"); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d part %d", r.kind, r.a); }
template <int D> static L lib(const std::array<double, D> *v) {
  mc::trans(); if constexpr (D == 2) { r2d_rvec2 p[3]; for (int i = 0; i < 3; ++i) { p[i].x = v[i][0]; p[i].y = v[i][1]; } return r2d_orient(p[0], p[1], p[2]); }
  else if constexpr (D == 3) { r3d_rvec3 p[4], q[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) p[i].xyz[j] = v[i][j]; memcpy(q, p, sizeof p); L x = r3d_orient(p); if (memcmp(p, q, sizeof p)) mc::fail("points altered"); return x; }
  else { rNd_rvec p[5], q[5]; for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) p[i].xyz[j] = v[i][j]; memcpy(q, p, sizeof p); L x = rNd_orient(p); if (memcmp(p, q, sizeof p)) mc::fail("points altered"); return x; }
}
template <int D> static void one(const std::array<double, D> *v, bool mom) {
  Simp<D> s; L size = 0, big = 0; for (int i = 0; i <= D; ++i) for (int j = 0; j < D; ++j) { s.v[i][j] = v[i][j]; size = std::max(size, fabsl((L)v[i][j] - v[0][j])); big = std::max(big, fabsl(v[i][j])); } L f = D == 2 ? 2 : D == 3 ? 6 : 24; L want = sdet<D>(s) / f; L got = lib<D>(v); mc::compared(); L tol = 1e-13L * powl(size, D) + 1e-15L * big * powl(size, D - 1);
  if (!(fabsl(got - want) <= tol)) { std::string t; for (int i = 0; i <= D; ++i) { t += " ("; for (int j = 0; j < D; ++j) t += mc::strf("%.17g ", v[i][j]); t += ")"; } mc::fail("%dD orientation is %.17Lg, signed measure is %.17Lg for%s", D, got, want, t.c_str()); }
  if (mom && D < 4 && fabsl(want) > 1e-6L * powl(size, D)) { double m[1] = {NAN}; if constexpr (D == 2) { static r2d_poly *p = newpoly<r2d_poly>(); r2d_rvec2 x[3]; for (int i = 0; i < 3; ++i) { x[i].x = v[i][0]; x[i].y = v[i][1]; } status_of(r2d_init_poly, p, x, 3); r2d_reduce(p, m, 0); } else if constexpr (D == 3) { static r3d_poly *p = newpoly<r3d_poly>(); r3d_rvec3 x[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) x[i].xyz[j] = v[i][j]; r3d_init_tet(p, x); r3d_reduce(p, m, 0); } mc::trans(); if (!((m[0] > 0) == (got > 0))) mc::fail("%dD: sign of the orientation (%Lg) differs from the sign of the simplex's zeroth moment (%g)", D, got, m[0]); }
}
template <int D> static std::array<double, D> gp(int i, int pl) { static const double g[9][4] = {{0.31, 0.67, -0.52, 0.43}, {-0.71, 0.23, 0.59, -0.37}, {0.17, -0.83, 0.29, 0.61}, {-0.47, -0.39, -0.77, 0.13}, {0.93, 0.11, 0.19, -0.73}, {-0.05, 0.97, -0.91, -0.21}, {0.51, 0.49, 0.83, 0.97}, {-0.89, -0.63, 0.07, 0.79}, {0.03, 0.41, -0.27, -0.59}}; static const double sc[7] = {1, 1e-6, 1e6, 1, 3, 0x1p-60, 0x1p60}, of[7][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}, {1e5, -2e6, 0, 7}, {100, -50, 30, 77}, {1, 2, 3, 4}, {0, 0, 0, 0}, {0, 0x1p60, 0, -0x1p59}}; std::array<double, D> p; for (int j = 0; j < D; ++j) p[j] = sc[pl] * g[i][j] + of[pl][j]; return p; }
template <int D> static void gen(int a, int b) { for (int pl = 0; pl < 7; ++pl) { int n = 1; for (int i = 2; i <= D; ++i) n *= 9; for (int k = 0; k < n; ++k) { std::array<double, D> v[D + 1]; v[0] = gp<D>(a, pl); v[1] = gp<D>(b, pl); int q = k; for (int i = 2; i <= D; ++i) { v[i] = gp<D>(q % 9, pl); q /= 9; } one<D>(v, D == 2 || k % 3 == 0); mc::state(mc::hash_bytes(v, sizeof v)); } } }
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 2) { auto l = [](int i) { return std::array<double, 2>{i % 5 - 1.0, i / 5 * 0.5}; }; for (int a = 0; a < 25; ++a) for (int b = 0; b < 25; ++b) { std::array<double, 2> v[3] = {l(r.a), l(a), l(b)}; one<2>(v, true); mc::state(mc::hash_bytes(v, sizeof v)); } }
  else if (r.kind == 3) { auto l = [](int i) { return std::array<double, 3>{i % 3 - 1.0, i / 3 % 3 * 2.0, i / 9 * 0.5}; }; for (int a = 0; a < 27; ++a) for (int b = 0; b < 27; ++b) { std::array<double, 3> v[4] = {l(r.a % 27), l(r.a / 27), l(a), l(b)}; one<3>(v, (a + b) % 5 == 0); mc::state(mc::hash_bytes(v, sizeof v)); } }
  else if (r.kind == 4) { auto l = [](int i) { return std::array<double, 4>{(double)(i & 1), (double)(i >> 1 & 1), (double)(i >> 2 & 1), (double)(i >> 3)}; }; for (int k = 0; k < 4096; ++k) { std::array<double, 4> v[5] = {l(r.a & 15), l(r.a >> 4), l(k & 15), l(k >> 4 & 15), l(k >> 8)}; one<4>(v, false); mc::state(mc::hash_bytes(v, sizeof v)); } }
  else { int a = r.a / 8, b = (a + 1 + r.a % 8) % 9; gen<2>(a, b); gen<3>(a, b); gen<4>(a, b); }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
