// C11: initialisation of polygons and polyhedra
#include "dim.h"
const char *CHECK_ID = "C11";
static int it = -1; struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static std::vector<Shape3> S3; static std::vector<Shape2> S2; static int PL;
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); S3 = shapes3(); S2 = shapes2(); PL = NPLACE;
  { Shape3 s = prism("bigprism", ngon(60, 3, 1, 1), 0, 2, true); S3.push_back(s); S3.push_back(cone("bigcone", ngon(100, 3, 1, 1), 0, {1, 1, 2}, true)); S3.push_back(bicone("bibig", ngon(30, 3, 1, 1), 0, {1, 1, 2}, {1, 1, -1}, true)); S3.push_back(cone("cone128", ngon(128, 3, 1, 1), 0, {1, 1, 2}, true)); S3.push_back(globe("globe", 8, 10, 3)); S3.push_back(globe("globe2", 4, 21, 2)); }
  for (int i = 0; i < 64; ++i) CS.push_back({0, i, 0});          // lattice tetrahedra (first two points)
  for (int i = 0; i < 9; ++i) CS.push_back({1, i, 0});           // boxes
  for (int i = 0; i < (int)S3.size(); ++i) for (int p = 0; p < PL; ++p) CS.push_back({2, i, p}); // descriptions
  for (int i = 0; i < (int)S3.size(); ++i) CS.push_back({3, i, 0}); // invalid descriptions
  for (int i = 0; i < (int)S2.size(); ++i) for (int p = 0; p < PL; ++p) CS.push_back({4, i, p});
  for (int i = 3; i <= 256; i += (i < 40 || i > 250 ? 1 : 7)) CS.push_back({5, i, 0});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int) { return "all ordered nondegenerate 4-tuples of {0,1}^3 (plus scaled/offset copies), boxes over a lattice of bounds, every shape under all/cyclic/reversing/transposing vertex relabelings x face rotations x face orders, descriptions with a face removed or an unused vertex, 2D loops of 3..256 vertices with rotated starts; several kinds of stale contents"; }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d item %d (%s) variant %d", r.kind, r.a, r.kind == 2 || r.kind == 3 ? S3[r.a].name.c_str() : r.kind == 4 ? S2[r.a].name.c_str() : "", r.b); }
template <int D> static void cmp(const typename T<D>::Poly *p, const Region<D> &R, const char *what) {
  std::string b = T<D>::bad(p); if (!b.empty()) mc::fail("%s: malformed: %s; %s", what, b.c_str(), T<D>::dumpp(p).c_str());
  std::array<L, D> c; L n = 0; for (int j = 0; j < D; ++j) c[j] = 0; for (auto &s : R) for (int i = 0; i <= D; ++i) { for (int j = 0; j < D; ++j) c[j] += s.v[i][j]; n += 1; } if (n > 0) for (int j = 0; j < D; ++j) c[j] /= n;
  auto a = lmom<D>(region_of(p), c), m = lmom<D>(R, c); L Rm = maxabs<D>(shifted<D>(R, c)), big = maxabs<D>(R); Scale sc{Rm, (absvol<D>(R) + (D == 2 ? Rm * Rm : Rm * Rm * Rm)) * (1 + 1e-5L * big / (Rm > 0 ? Rm : 1))}; int w; mc::compared();
  if (!close_moments<D>(a.data(), m.data(), 2, sc, 1e-11L, &w)) mc::fail("%s: moment %d of the initialised shape is %.15Lg, described region has %.15Lg; %s", what, w, a[w], m[w], T<D>::dumpp(p).c_str());
}
template <class P> static P *garb(int k) { static P *p[3]; if (!p[k]) p[k] = (P *)malloc(sizeof(P)); memset((void *)p[k], k == 0 ? 0x00 : k == 1 ? 0xff : 0x7b, sizeof(P)); return p[k]; }
template <class P> static void same(P *a, P *b, const char *what) { if (hpoly(a) != hpoly(b)) mc::fail("%s: result depends on earlier contents of the object", what); }
static void tet(std::array<double, 3> *v, const char *what) {
  r3d_rvec3 x[4], y[4]; Simp<3> s; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { x[i].xyz[j] = v[i][j]; s.v[i][j] = v[i][j]; } memcpy(y, x, sizeof x);
  L dt = sdet<3>(s); if (dt == 0) return; s.sg = dt > 0 ? 1 : -1; mc::trans(); r3d_poly *p = garb<r3d_poly>(1), *q = garb<r3d_poly>(2); r3d_init_tet(p, x); r3d_init_tet(q, x); if (memcmp(x, y, sizeof x)) mc::fail("input vertices altered");
  same(p, q, what); cmp<3>(p, {s}, what); mc::state(hpoly(p)); if (p->nverts != 4) mc::fail("%s: %d vertices", what, p->nverts);
}
static bool init3(r3d_poly *p, Shape3 &s, const char *what) {
  Desc3 d = desc3(s), e = desc3(s); mc::trans(); int r = r3d_init_poly(p, d.V.data(), (int)d.V.size(), d.fp.data(), d.nf.data(), (int)d.nf.size());
  if (memcmp(d.V.data(), e.V.data(), sizeof(r3d_rvec3) * d.V.size()) || d.f != e.f || d.nf != e.nf) mc::fail("%s: input arrays altered", what); return r != 0;
}
static void one3(Shape3 &s, const Region<3> &R, const char *what, bool twice) {
  r3d_poly *p = garb<r3d_poly>(2); mc::path("%s", what); if (!init3(p, s, what)) mc::fail("%s: valid description refused", what);
  cmp<3>(p, R, what); mc::state(hpoly(p)); if (twice) { r3d_poly *q = garb<r3d_poly>(0), *z = garb<r3d_poly>(1); init3(q, s, what); init3(z, s, what); same(p, q, what); same(p, z, what); }
}
static Shape3 relabel(const Shape3 &s, const std::vector<int> &pm) { Shape3 t = s; for (size_t i = 0; i < pm.size(); ++i) t.V[pm[i]] = s.V[i]; for (auto &f : t.F) for (auto &v : f) v = pm[v]; return t; }
static void frot(Shape3 &s, int r) { if (r < 10) { for (auto &f : s.F) std::rotate(f.begin(), f.begin() + r % f.size(), f.end()); } else { int i = 0; for (auto &f : s.F) { std::rotate(f.begin(), f.begin() + (r * 7 + i * 3) % f.size(), f.end()); ++i; } } }
static void ford(Shape3 &s, int o) { size_t n = s.F.size(); if (o == 1) std::reverse(s.F.begin(), s.F.end()); else if (o >= 2) std::rotate(s.F.begin(), s.F.begin() + (o * n / 5) % n, s.F.end()); if (o == 4) for (size_t i = 0; i + 1 < n; i += 2) std::swap(s.F[i], s.F[i + 1]); }
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 0) {
    for (int k = 0; k < 64; ++k) for (int v = 0; v < 4; ++v) { int id[4] = {r.a % 8, r.a / 8, k % 8, k / 8}; std::array<double, 3> x[4]; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 3; ++j) { x[i][j] = (id[i] >> j) & 1; if (v == 1) x[i][j] = 0.37 * x[i][j] - 5.2 + 0.21 * ((id[i] * 5 + j * 3) % 7); if (v == 2) x[i][j] = 1e-5 * x[i][j] + 3; if (v == 3) x[i][j] = 1e6 * x[i][j] - 2e5; } } tet(x, mc::strf("tet %d %d %d %d variant %d", id[0], id[1], id[2], id[3], v).c_str()); }
  } else if (r.kind == 1) {
    static const double B[9][2] = {{0, 1}, {-2.5, 0}, {-3e-9, 2e-9}, {-2, 3}, {-5, -4}, {0.1, 0.1001}, {-1e6, 2e6}, {100.25, 101}, {-0.75, 1.5}};
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) {
      r3d_rvec3 rb[2], r0[2]; L lo[3], hi[3]; int id[3] = {r.a, a, b}; for (int j = 0; j < 3; ++j) { lo[j] = rb[0].xyz[j] = B[id[j]][0]; hi[j] = rb[1].xyz[j] = B[id[j]][1]; } memcpy(r0, rb, sizeof rb);
      mc::trans(); r3d_poly *p = garb<r3d_poly>(1), *q = garb<r3d_poly>(0); r3d_init_box(p, rb); r3d_init_box(q, rb); if (memcmp(r0, rb, sizeof rb)) mc::fail("bounds altered"); same(p, q, "box"); if (p->nverts != 8) mc::fail("box has %d vertices", p->nverts); cmp<3>(p, region_box<3>(lo, hi), "box"); mc::state(hpoly(p));
      r2d_rvec2 c2[2], c0[2]; for (int j = 0; j < 2; ++j) { c2[0].xy[j] = B[id[j]][0]; c2[1].xy[j] = B[id[j]][1]; } memcpy(c0, c2, sizeof c2); r2d_poly *p2 = garb<r2d_poly>(1), *q2 = garb<r2d_poly>(0); mc::trans(); r2d_init_box(p2, c2); r2d_init_box(q2, c2); if (memcmp(c0, c2, sizeof c2)) mc::fail("bounds altered"); same(p2, q2, "box"); if (p2->nverts != 4) mc::fail("2D box has %d vertices", p2->nverts); cmp<2>(p2, region_box<2>(lo, hi), "2D box"); mc::state(hpoly(p2));
    }
  } else if (r.kind == 2) {
    Shape3 s = S3[r.a]; place<3>(s, r.b); bool few = !mc::tier && r.b >= 3 && r.b != 6;
    Region<3> R = shape_region(s); int n = (int)s.V.size(); std::vector<std::vector<int>> perms; std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; perms.push_back(id);
    if (n <= 5 || (mc::tier && n <= 6)) { auto q = id; while (std::next_permutation(q.begin(), q.end())) perms.push_back(q); }
    else { auto q = id; std::reverse(q.begin(), q.end()); perms.push_back(q); int st = n > 40 ? n / 6 : 1; for (int k = st; k < n; k += st) { q = id; std::rotate(q.begin(), q.begin() + k, q.end()); perms.push_back(q); std::reverse(q.begin(), q.end()); perms.push_back(q); } int c = 0; for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (n <= 20 || (++c % (n > 40 ? 97 : 5)) == 0) { q = id; std::swap(q[a], q[b]); perms.push_back(q); } for (int m : {3, 5, 7}) if (n % m) { q = id; for (int i = 0; i < n; ++i) q[i] = (i * m + 1) % n; perms.push_back(q); } }
    for (size_t k = 0; k < perms.size(); ++k) for (int fr : {0, 1, 2, 3, 11, 12}) for (int fo = 0; fo < 5; ++fo) {
      if (k && (fr > 1 && fr != 11 || fo > 1) && (k % 4 || n > 40) && !mc::tier) continue; if (n > 40 && (fr > 1 || fo > 2) && k) continue; if (few && (k % 13 || fr % 11 > 1)) continue;
      Shape3 t = relabel(s, perms[k]); frot(t, fr); ford(t, fo); one3(t, R, mc::strf("%s placement %d relabeling %zu face rotation %d face order %d", s.name.c_str(), r.b, k, fr, fo).c_str(), fr == 0 && fo == 0);
    }
  } else if (r.kind == 3) {
    Shape3 s = S3[r.a]; auto refuse = [&](Shape3 &t, const std::string &w) { int mn = 1 << 30; std::vector<int> e(t.V.size(), 0); for (auto &f : t.F) for (int v : f) ++e[v]; for (int x : e) mn = std::min(mn, x); if (mn >= 3) return; for (int g = 0; g < 3; ++g) { r3d_poly *p = garb<r3d_poly>(g); if (g == 2) { r3d_rvec3 rb[2]; for (int z = 0; z < 3; ++z) { rb[0].xyz[z] = 0; rb[1].xyz[z] = 1; } r3d_init_box(p, rb); } mc::path_s(w); bool ok = init3(p, t, w.c_str()); mc::compared(); if (ok) mc::fail("%s: accepted", w.c_str()); if (p->nverts != 0) mc::fail("%s: refused but the result is not empty (nverts=%d)", w.c_str(), p->nverts); mc::state(mc::hash_bytes(w.data(), w.size(), g)); } };
    for (size_t f = 0; f < s.F.size(); ++f) { Shape3 t = s; t.F.erase(t.F.begin() + f); refuse(t, mc::strf("%s without face %zu", s.name.c_str(), f)); }
    for (size_t f = 0; f < s.F.size(); ++f) for (size_t g = f + 1; g < s.F.size() && s.F.size() < 30; ++g) { Shape3 t = s; t.F.erase(t.F.begin() + g); t.F.erase(t.F.begin() + f); refuse(t, mc::strf("%s without faces %zu %zu", s.name.c_str(), f, g)); }
    for (size_t at = 0; at <= s.V.size(); ++at) { Shape3 t = s; t.V.insert(t.V.begin() + at, {9, 9, 9}); for (auto &f : t.F) for (auto &v : f) if (v >= (int)at) ++v; refuse(t, mc::strf("%s with an unused vertex at %zu", s.name.c_str(), at)); }
    { Shape3 t = s; t.F.clear(); refuse(t, s.name + " without any face"); }
  } else if (r.kind == 4 || r.kind == 5) {
    std::vector<std::vector<std::array<double, 2>>> Ls; if (r.kind == 4) { Shape2 s = S2[r.a]; place<2>(s, r.b); Ls = s.loops; } else { auto l = ngon(r.a, 3, 1, -2, 0.2); Ls.push_back(l); for (size_t i = 0; i < l.size(); i += 2) { l[i][0] *= 0.6; l[i][1] *= 0.6; } Ls.push_back(l); }
    for (auto &l : Ls) for (size_t rot = 0; rot < (r.kind == 4 ? l.size() : 2); ++rot) for (int rev = 0; rev < 2; ++rev) {
      auto q = l; std::rotate(q.begin(), q.begin() + rot, q.end()); if (rev) std::reverse(q.begin(), q.end()); std::vector<r2d_rvec2> v; std::vector<std::array<L, 2>> ll; for (auto &p : q) { r2d_rvec2 x; x.x = p[0]; x.y = p[1]; v.push_back(x); ll.push_back({p[0], p[1]}); } auto v0 = v;
      mc::path("2D loop of %zu", q.size()); mc::trans(); r2d_poly *p = garb<r2d_poly>(1), *z = garb<r2d_poly>(0); int st = status_of(r2d_init_poly, p, v.data(), (r2d_int)v.size()); status_of(r2d_init_poly, z, v.data(), (r2d_int)v.size()); if (st == 0) mc::fail("valid loop refused"); if (memcmp(v.data(), v0.data(), sizeof(r2d_rvec2) * v.size())) mc::fail("input loop altered"); same(p, z, "loop"); if (p->nverts != (int)q.size()) mc::fail("loop of %zu vertices gave %d", q.size(), p->nverts);
      cmp<2>(p, region_from_loops({ll}), "2D loop"); mc::state(hpoly(p));
    }
  }
  if (cc % 37 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
