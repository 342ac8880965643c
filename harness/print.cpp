// C27: printed listings. Every listing is captured, cut into numbers and compared with the object that was printed.
#include "dim.h"
const char *CHECK_ID = "C27";
static std::vector<Seed<2>> S2; static std::vector<Seed<3>> S3; static int it = -1; struct CaseRef { int kind, s, i; }; static std::vector<CaseRef> CS;
static const double MAG[] = {1, -1, 0, -0.0, 1e-300, -3.25e-7, 123456.789, 9.999999e99, -1.7e308, 0.1, 1.0 / 3, 65536, 1e10};
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); std::vector<int> pl = tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6, 7, 9, 10}; S2 = seeds<2>(pl, 3, 4); S3 = seeds<3>(pl, 3, 4); for (auto &s : seeds<2>({0, 1}, 3, 4, true)) S2.push_back(s); for (auto &s : seeds<3>({0, 1}, 3, 4, true)) S3.push_back(s);
  for (int s = 0; s < (int)S2.size(); ++s) for (int i = -1; i < (int)S2[s].A.size(); ++i) CS.push_back({2, s, i});
  for (int s = 0; s < (int)S3.size(); ++s) for (int i = -1; i < (int)S3[s].A.size(); i += tier ? 1 : 2) CS.push_back({3, s, i});
  for (int i = 0; i < 60; ++i) CS.push_back({4, 0, i}); for (int i = 0; i < 13; ++i) CS.push_back({5, 0, i});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu 2D and %zu 3D seed placements and each of their clips by one plane of a family, their boundary representations, 4D simplices and boxes with one to three cuts, tables with every vertex count to the capacity and coordinates of %zu magnitudes; the empty shape", S2.size(), S3.size(), sizeof MAG / sizeof *MAG); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d seed %s item %d", r.kind, r.kind == 2 ? S2[r.s].name.c_str() : r.kind == 3 ? S3[r.s].name.c_str() : "", r.i); }
template <class F> static std::string capture(F f) {
  static int fd = memfd_create("listing", 0); fflush(stdout); if (ftruncate(fd, 0)) abort(); lseek(fd, 0, SEEK_SET); int old = dup(1); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); lseek(fd, 0, SEEK_SET); size_t got = 0; while (got < s.size()) { ssize_t k = read(fd, &s[got], s.size() - got); if (k <= 0) break; got += k; } return s;
}
// the numbers of a text, in order; a number is not part of a word
static std::vector<std::string> numbers(const std::string &s) {
  std::vector<std::string> R; size_t i = 0; while (i < s.size()) { bool word = i && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_'); size_t j = i; if (s[j] == '-' || s[j] == '+') ++j; if (!word && j < s.size() && isdigit((unsigned char)s[j])) { char *e; strtod(s.c_str() + i, &e); R.push_back(s.substr(i, e - s.c_str() - i)); i = e - s.c_str(); } else ++i; } return R;
}
struct Want { bool real; double x; long k; };
static void match(const std::string &text, const std::vector<Want> &w, const std::string &what) {
  auto t = numbers(text); mc::compared(); if (t.size() != w.size()) mc::fail("%s: the listing has %zu numbers, the object %zu: %s", what.c_str(), t.size(), w.size(), text.substr(0, 400).c_str());
  for (size_t i = 0; i < t.size(); ++i) { double x = strtod(t[i].c_str(), 0); if (w[i].real ? !(fabsl((L)x - w[i].x) <= 6e-6L * fabsl((L)w[i].x)) : x != (double)w[i].k) mc::fail("%s: number %zu of the listing is %s, the object has %.17g: %s", what.c_str(), i, t[i].c_str(), w[i].real ? w[i].x : (double)w[i].k, text.substr(0, 400).c_str()); }
}
static Want I(long k) { return {false, 0, k}; } static Want X(double x) { return {true, x, 0}; }
static size_t lines(const std::string &s) { size_t n = 0; bool any = false; for (char c : s) { if (c == '\n') { n += any; any = false; } else if (!isspace((unsigned char)c)) any = true; } return n + any; }
template <int D, class P> static void shape(P *p, const std::string &what) {
  uint64_t h = hpoly(p); mc::path_s(what); mc::trans(); std::string s = capture([&] { if constexpr (D == 2) r2d_print(p); else if constexpr (D == 3) r3d_print(p); else rNd_print(p); }); if (hpoly(p) != h) mc::fail("%s: printing altered the shape", what.c_str());
  std::vector<Want> w; for (int v = 0; v < p->nverts; ++v) { w.push_back(I(v)); for (int j = 0; j < D; ++j) { if constexpr (D == 2) w.push_back(X(p->verts[v].pos.xy[j])); else w.push_back(X(p->verts[v].pos.xyz[j])); } for (int j = 0; j < D; ++j) w.push_back(I(p->verts[v].pnbrs[j])); }
  match(s, w, what); if (lines(s) != (size_t)(p->nverts > 0 ? p->nverts : 0)) mc::fail("%s: %zu lines for %d vertices", what.c_str(), lines(s), p->nverts); mc::state(mc::hash_bytes(s.data(), s.size()));
}
static void brep(r3d_poly *p, const std::string &what) {
  r3d_brep *br = 0; r3d_int k = 0; mc::path_s(what); mc::trans(2); r3d_init_brep(p, &br, &k); auto list = [&] { std::vector<Want> w; w.push_back(I(k)); for (int c = 0; c < k; ++c) { w.push_back(I(c)); w.push_back(I(c)); w.push_back(I(br[c].numvertices)); for (int v = 0; v < br[c].numvertices; ++v) { w.push_back(I(v)); for (int j = 0; j < 3; ++j) w.push_back(X(br[c].vertices[v].xyz[j])); } w.push_back(I(c)); w.push_back(I(br[c].numfaces)); for (int f = 0; f < br[c].numfaces; ++f) { w.push_back(I(f)); w.push_back(I(br[c].numvertsperface[f])); for (int v = 0; v < br[c].numvertsperface[f]; ++v) w.push_back(I(br[c].faceinds[f][v])); } } return w; };
  auto w = list(); std::string s = capture([&] { r3d_print_brep(&br, k); }); match(s, w, what); match(s, list(), what + " (afterwards)"); mc::state(mc::hash_bytes(s.data(), s.size())); r3d_free_brep(&br, k);
}
template <int D> static void seed(Seed<D> &s, int i, const std::string &what) {
  static typename T<D>::Poly *p = newpoly<typename T<D>::Poly>(); if (!T<D>::make(p, s.shape)) mc::fail("seed initialisation failed"); if (i >= 0) { if (!roomfor<D>(p, s.A[i], s.size, 1)) { mc::skipped(); return; } auto q = T<D>::pl(s.A[i]); T<D>::clip(p, &q, 1); } if (!T<D>::bad(p).empty()) return;
  shape<D>(p, what); if constexpr (D == 3) brep(p, what + " boundary");
}
template <int D, class P> static void table(P *p, int n, int m, const std::string &what) { int M = sizeof MAG / sizeof *MAG; p->nverts = n; for (int v = 0; v < n; ++v) for (int j = 0; j < D; ++j) { double x = MAG[(v * D + j + m) % M]; if constexpr (D == 2) p->verts[v].pos.xy[j] = x; else p->verts[v].pos.xyz[j] = x; p->verts[v].pnbrs[j] = (v * 7 + j * 131 + 1) % n; } shape<D>(p, what); }
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; std::string what = check_describe(cc); mc::path_s(what);
  if (r.kind == 2) seed<2>(S2[r.s], r.i, what);
  else if (r.kind == 3) seed<3>(S3[r.s], r.i, what);
  else if (r.kind == 4) { // four dimensions
    static rNd_poly *p = newpoly<rNd_poly>(); rNd_rvec v[5], b[2]; for (int k = 0; k < 5; ++k) for (int j = 0; j < 4; ++j) v[k].xyz[j] = (k == j + 1 ? 1.5 : 0) - 0.3 * j + 0.01 * k; for (int j = 0; j < 4; ++j) { b[0].xyz[j] = -1 - j; b[1].xyz[j] = 0.5 + j; }
    if (r.i % 2) rNd_init_box(p, b); else rNd_init_simplex(p, v); for (int c = 0; c < r.i / 2 % 4; ++c) { rNd_plane q; L l = 0; for (int j = 0; j < 4; ++j) { q.n.xyz[j] = sin(1.3 * r.i + 2.1 * c + 0.7 * j + 0.2); l += q.n.xyz[j] * q.n.xyz[j]; } for (int j = 0; j < 4; ++j) q.n.xyz[j] /= sqrtl(l); q.d = 0.2; rNd_clip(p, &q, 1); } shape<4>(p, what);
  } else { // every vertex count, whatever the coordinates
    static r2d_poly *a = newpoly<r2d_poly>(); static r3d_poly *b = newpoly<r3d_poly>(); static rNd_poly *c = newpoly<rNd_poly>();
    for (int n = 0; n <= (int)R2D_MAX_VERTS; n += n < 20 || n > R2D_MAX_VERTS - 4 ? 1 : 11) table<2>(a, n, r.i, mc::strf("2D table of %d", n)); for (int n = 0; n <= (int)R3D_MAX_VERTS; n += n < 20 || n > R3D_MAX_VERTS - 4 ? 1 : 11) table<3>(b, n, r.i, mc::strf("3D table of %d", n)); for (int n = 0; n <= (int)RND_MAX_VERTS; n += n < 20 || n > RND_MAX_VERTS - 4 ? 1 : 37) table<4>(c, n, r.i, mc::strf("4D table of %d", n));
  }
  if (cc % 397 == 3) mc::sample(what);
}
MC_MAIN
