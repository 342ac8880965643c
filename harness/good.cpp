// C13: validity tests against a brute-force verdict, over link-table mutations and surgeries.
#include "dim.h"
#include <limits.h>
const char *CHECK_ID = "C13";
template <int K> struct G; // K links per vertex
template <> struct G<2> { typedef r2d_poly P; enum { MAX = R2D_MAX_VERTS }; static int good(P *p) { return r2d_is_good(p); } static void pos(P *p, int v) { p->verts[v].pos.x = v; p->verts[v].pos.y = v * v; } };
template <> struct G<3> { typedef r3d_poly P; enum { MAX = R3D_MAX_VERTS }; static int good(P *p) { return r3d_is_good(p); } static void pos(P *p, int v) { p->verts[v].pos.x = v; p->verts[v].pos.y = v * v % 17; p->verts[v].pos.z = v % 5; } };
template <> struct G<4> { typedef rNd_poly P; enum { MAX = RND_MAX_VERTS }; static int good(P *p) { return rNd_is_good(p); } static void pos(P *p, int v) { for (int j = 0; j < RND_DIM; ++j) p->verts[v].pos.xyz[j] = v % (j + 3); } };
template <int K> using Tab = std::vector<std::array<int, K>>;
// 0 must be rejected, 1 regular and K-connected (acceptable), 2 not settled by the property
template <int K> static int verdict(const Tab<K> &t) {
  int n = (int)t.size(); std::vector<int> in(n, 0);
  for (int v = 0; v < n; ++v) for (int k = 0; k < K; ++k) { int w = t[v][k]; if (w < 0 || w >= n || w == v) return 0; for (int j = 0; j < k; ++j) if (t[v][j] == w) return 0; ++in[w]; }
  for (int v = 0; v < n; ++v) if (in[v] != K) return 0;
  for (int v = 0; v < n; ++v) for (int k = 0; k < K; ++k) { bool m = false; for (int j = 0; j < K; ++j) m |= t[t[v][k]][j] == v; if (!m) return 2; }
  if (K == 2) return 1;
  std::vector<int> comp(n, -1); std::vector<std::vector<int>> C; for (int v = 0; v < n; ++v) if (comp[v] < 0) { C.emplace_back(); std::vector<int> st{v}; comp[v] = (int)C.size() - 1; while (!st.empty()) { int u = st.back(); st.pop_back(); C.back().push_back(u); for (int w : t[u]) if (comp[w] < 0) { comp[w] = comp[v]; st.push_back(w); } } }
  std::vector<char> seen(n); std::vector<int> st;
  for (auto &c : C) { int m = (int)c.size(); for (int a = 0; a < m; ++a) for (int b = a + 1; b < m; ++b) for (int d = K == 4 ? b + 1 : m; d < (K == 4 ? m : m + 1); ++d) {
    for (int v : c) seen[v] = 0; seen[c[a]] = seen[c[b]] = 1; int cnt = 2; if (K == 4) { seen[c[d]] = 1; cnt = 3; } int s = 0; while (seen[c[s]]) ++s; st.assign(1, c[s]); seen[c[s]] = 1; ++cnt;
    while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : t[u]) if (!seen[w]) { seen[w] = 1; ++cnt; st.push_back(w); } } if (cnt != m) return 0; } }
  return 1;
}
template <int K> static std::string show(const Tab<K> &t) { std::string s; for (size_t v = 0; v < t.size() && v < 20; ++v) { s += mc::strf(" %zu:", v); for (int k = 0; k < K; ++k) s += mc::strf("%d%s", t[v][k], k + 1 < K ? "," : ""); } return s; }
template <int K> static void set(const Tab<K> &t) {}
// the buffer is allocated once with guard slots poisoned; slots past the live part hold out-of-range links
template <int K> static typename G<K>::P *load(const Tab<K> &t) {
  static typename G<K>::P *p = 0; if (!p) { p = (typename G<K>::P *)malloc(sizeof *p); memset((void *)p, 0x7b, sizeof *p); }
  int md = (int)(mc::hash_bytes(t.data(), t.size() * sizeof(t[0])) % 6); // positions play no part: also coincident, minute, huge, negative
  for (size_t v = 0; v < t.size(); ++v) { for (int k = 0; k < K; ++k) p->verts[v].pnbrs[k] = t[v][k]; G<K>::pos(p, (int)v); double *x = (double *)&p->verts[v].pos; for (int k = 0; k < K; ++k) x[k] = md == 1 ? 0 : md == 2 ? x[k] * 1e3 - 5e5 : md == 3 ? x[k] * 1e-9 + 1e-7 : md == 4 ? 3e7 - x[k] * 1e4 : x[k]; } p->nverts = (int)t.size();
  for (size_t v = t.size(); v < t.size() + 3 && v < G<K>::MAX; ++v) for (int k = 0; k < K; ++k) p->verts[v].pnbrs[k] = 0x7b7b7b7b; return p;
}
// what earlier calls left on the stack must not matter
static void __attribute__((noinline)) smear() { static unsigned k; int *p = (int *)alloca(24576); unsigned x = ++k * 2654435761u; for (int i = 0; i < 6144; ++i) { if (!(i & 31)) x = x * 1664525u + 1013904223u; p[i] = (int)(x >> 30); } asm volatile("" : : "r"(p) : "memory"); }
template <int K> static int ask(const Tab<K> &t, const char *what) { auto *p = load<K>(t); mc::path("%s:%s", what, show<K>(t).c_str()); mc::trans(); smear(); int g = G<K>::good(p); for (size_t v = 0; v < t.size(); ++v) for (int k = 0; k < K; ++k) if (p->verts[v].pnbrs[k] != t[v][k]) mc::fail("%s: the test altered the shape", what); if (p->nverts != (int)t.size()) mc::fail("%s: the test altered the vertex count", what); return g; }
template <int K> static void judge(const Tab<K> &t, bool wf, const char *what) { // wf: known to be a genuine shape
  int g = ask<K>(t, what), v = verdict<K>(t); mc::compared(); mc::state(mc::hash_bytes(t.data(), t.size() * sizeof(t[0]), K));
  if (v == 0 && g) mc::fail("%s: malformed %dD shape accepted:%s", what, K, show<K>(t).c_str());
  if (v == 1 && wf && !g) mc::fail("%s: well-formed %dD shape rejected:%s", what, K, show<K>(t).c_str());
}
template <int K> static Tab<K> relab(const Tab<K> &t, const std::vector<int> &pm) { Tab<K> r(t.size()); for (size_t v = 0; v < t.size(); ++v) for (int k = 0; k < K; ++k) r[pm[v]][k] = pm[t[v][k]]; return r; }
template <int K> static Tab<K> plus(const Tab<K> &a, const Tab<K> &b) { Tab<K> r = a; for (auto x : b) { for (auto &w : x) w += (int)a.size(); r.push_back(x); } return r; }
static std::vector<std::vector<int>> perms(int n) { std::vector<std::vector<int>> R; std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; R.push_back(id); auto q = id; std::reverse(q.begin(), q.end()); R.push_back(q); for (int m : {3, 5, 7}) if (n % m) { q = id; for (int i = 0; i < n; ++i) q[i] = (i * m + 1) % n; R.push_back(q); } q.clear(); q.resize(n); for (int i = 0; i < n; ++i) q[i] = i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1; R.push_back(q); return R; }
template <int K> static void mutate(const Tab<K> &t0, const std::string &nm, int lvl) {
  int n = (int)t0.size(), M = G<K>::MAX; judge<K>(t0, true, nm.c_str());
  for (auto &pm : perms(n)) judge<K>(relab<K>(t0, pm), true, (nm + " relabelled").c_str());
  std::vector<int> vals = {INT_MIN, -1000, -3, -2, -1, n, n + 1, n + 2, M - 1, M, M + 1, 2 * M, INT_MAX}; for (int i = 0; i < n; ++i) vals.push_back(i);
  for (int v = 0; v < n; ++v) for (int k = 0; k < K; ++k) for (int x : vals) { if (x == t0[v][k]) continue; Tab<K> t = t0; t[v][k] = x; judge<K>(t, false, mc::strf("%s, vertex %d link %d := %d", nm.c_str(), v, k, x).c_str()); }
  for (int v = 0; v < n; ++v) { Tab<K> t = t0; for (int k = 0; k < K; ++k) t[v][k] = v; judge<K>(t, false, "all links to itself"); for (int k = 0; k < K; ++k) t[v][k] = -1; judge<K>(t, false, "all links -1"); }
  { Tab<K> t = t0; if (n) { t.pop_back(); judge<K>(t, false, (nm + " last vertex dropped").c_str()); } }
  if (n <= 64) for (int v = 0; v < n; ++v) for (int k = 0; k < K; ++k) for (int w = 0; w < n; ++w) for (int j = 0; j < K; ++j) if (w != v) { bool dup = t0[w][j] == v; for (int i = 0; i < K; ++i) dup |= i != k && t0[v][i] == t0[w][j]; if (!dup) continue; // counts stay right, a link is doubled or leads back
    Tab<K> t = t0; std::swap(t[v][k], t[w][j]); judge<K>(t, false, mc::strf("%s, links %d.%d and %d.%d exchanged", nm.c_str(), v, k, w, j).c_str()); }
  if (n > (lvl ? 26 : 12)) return;
  for (int v = 0; v < n; ++v) for (int k = 0; k < K; ++k) for (int w = v; w < n; ++w) for (int j = 0; j < K; ++j) if (w > v || j > k) { Tab<K> t = t0; std::swap(t[v][k], t[w][j]); judge<K>(t, false, mc::strf("%s, links %d.%d and %d.%d exchanged", nm.c_str(), v, k, w, j).c_str()); }
}
// mutual surgery: replace edges ab, cd by ac, bd
template <int K> static bool switch2(Tab<K> &t, int a, int ka, int c, int kc) { int b = t[a][ka], d = t[c][kc]; if (a == c || a == d || b == c || b == d) return false; int kb = -1, kd = -1; for (int k = 0; k < K; ++k) { if (t[b][k] == a) kb = k; if (t[d][k] == c) kd = k; } if (kb < 0 || kd < 0) return false; t[a][ka] = c; t[c][kc] = a; t[b][kb] = d; t[d][kd] = b; return true; }
template <int K> static void surgery(const Tab<K> &t0, const std::string &nm, int depth, int from) {
  int n = (int)t0.size();
  for (int a = from < 0 ? 0 : from / K; a < (from < 0 ? n : from / K + 1); ++a) for (int ka = from < 0 ? 0 : from % K; ka < (from < 0 ? K : from % K + 1); ++ka) for (int c = a + 1; c < n; ++c) for (int kc = 0; kc < K; ++kc) {
    Tab<K> t = t0; if (!switch2<K>(t, a, ka, c, kc)) continue; std::string w = nm + mc::strf(" surgery %d.%d/%d.%d", a, ka, c, kc); judge<K>(t, false, w.c_str());
    if (depth == 1 && from < 0 && !mc::tier) continue; // quick tier: relabel only single surgeries
    if (depth == 1) { int v = verdict<K>(t); if (v == 0) for (auto &pm : perms(n)) judge<K>(relab<K>(t, pm), false, (w + " relabelled").c_str());
      if (v == 0 && n <= 10) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { std::vector<int> pm(n); for (int q = 0; q < n; ++q) pm[q] = q; std::swap(pm[i], pm[j]); judge<K>(relab<K>(t, pm), false, (w + " relabelled").c_str()); } }
    else surgery<K>(t, w, depth - 1, -1);
  }
}
static std::vector<std::pair<std::string, Tab<2>>> T2; static std::vector<std::pair<std::string, Tab<3>>> T3; static std::vector<std::pair<std::string, Tab<4>>> T4;
template <int K, class P> static Tab<K> tab(const P *p) { Tab<K> t; for (int v = 0; v < p->nverts; ++v) { std::array<int, K> a; for (int k = 0; k < K; ++k) a[k] = p->verts[v].pnbrs[k]; t.push_back(a); } return t; }
struct CaseRef { int kind, a, b; }; static std::vector<CaseRef> CS; static int it = -1;
static Tab<4> simplex4() { Tab<4> t; for (int v = 0; v < 5; ++v) { std::array<int, 4> a; for (int i = 0; i < 4; ++i) a[i] = (v + i + 1) % 5; t.push_back(a); } return t; }
static Tab<4> box4() { Tab<4> t; for (int v = 0; v < 16; ++v) { std::array<int, 4> a; for (int i = 0; i < 4; ++i) a[i] = v ^ (1 << i); t.push_back(a); } return t; }
static Tab<4> cut4(const Tab<4> &t, int v) { // cut off one vertex of a simple polytope: replaced by a tetrahedron
  Tab<4> r = t; int n = (int)t.size(); for (int i = 0; i < 3; ++i) r.push_back({}); int id[4] = {v, n, n + 1, n + 2}; for (int i = 0; i < 4; ++i) { int w = t[v][i]; for (auto &x : r[w]) if (x == v) x = id[i] + (1 << 20); int q = 0; std::array<int, 4> a; a[q++] = w; for (int j = 0; j < 4; ++j) if (j != i) a[q++] = id[j]; r[id[i]] = a; } for (auto &x : r) for (auto &y : x) if (y >= (1 << 20)) y -= 1 << 20; return r; }
static void init(int tier) {
  if (it == tier) return; it = tier; CS.clear(); T2.clear(); T3.clear(); T4.clear(); static r3d_poly *p = newpoly<r3d_poly>(); static r2d_poly *q = newpoly<r2d_poly>();
  T2.push_back({"empty", {}}); T3.push_back({"empty", {}}); T4.push_back({"empty", {}});
  for (auto &s : shapes2()) { make2(q, s); T2.push_back({s.name, tab<2>(q)}); }
  { Tab<3> k4; for (int v = 0; v < 4; ++v) k4.push_back({(v + 1) % 4, (v + 2) % 4, (v + 3) % 4}); T3.push_back({"k4", k4}); T3.push_back({"k4+k4", plus<3>(k4, k4)}); T3.push_back({"k4+k4+k4", plus<3>(plus<3>(k4, k4), k4)}); }
  for (auto &s : shapes3()) { if (!make3(p, s) || !bad3(p).empty()) continue; auto t = tab<3>(p); T3.push_back({s.name, t}); auto P = planes_for<3>(s.V, 3, false, true); for (size_t i = 0; i < P.size(); i += tier ? 2 : 5) { make3(p, s); auto pl = P3(P[i]); r3d_clip(p, &pl, 1); if (p->nverts > 0 && bad3(p).empty()) T3.push_back({s.name + " clipped", tab<3>(p)}); } }
  T4.push_back({"simplex", simplex4()}); T4.push_back({"box", box4()}); T4.push_back({"two simplices", plus<4>(simplex4(), simplex4())}); T4.push_back({"cut simplex", cut4(simplex4(), 2)}); T4.push_back({"cut cut simplex", cut4(cut4(simplex4(), 2), 6)}); T4.push_back({"cut box", cut4(box4(), 7)}); T4.push_back({"simplex+box", plus<4>(simplex4(), box4())}); T4.push_back({"three", plus<4>(plus<4>(simplex4(), cut4(simplex4(), 0)), simplex4())});
  for (size_t i = 0; i < T2.size(); ++i) CS.push_back({2, (int)i, 0}); for (size_t i = 0; i < T3.size(); ++i) CS.push_back({3, (int)i, 0}); for (size_t i = 0; i < T4.size(); ++i) CS.push_back({4, (int)i, 0});
  for (size_t i = 1; i < T3.size(); ++i) if (T3[i].second.size() <= (tier ? 16u : 12u)) { int n = (int)T3[i].second.size(); for (int f = 0; f < 3 * n; ++f) { CS.push_back({30, (int)i, f}); if (n <= 8) CS.push_back({31, (int)i, f}); } }
  for (int i : {1, 3, 4, 5, 2}) { int n = (int)T4[i].second.size(); if (n > 12 && !tier) continue; for (int f = 0; f < 4 * n; ++f) { CS.push_back({40, i, f}); if (n <= 10) CS.push_back({41, i, f}); } }
  for (int i = 0; i < 23; ++i) CS.push_back({50, i, 0});
}
uint64_t check_ncases(int tier) { init(tier); return CS.size(); }
std::string check_bounds(int tier) { init(tier); return mc::strf("%zu polygons, %zu polyhedra (initialised and clipped), %zu 4D link tables, each: relabellings, every single-link change to every index and to out-of-range values of both signs, every exchange of two links (small tables; up to 64 vertices every one that doubles a link or leads back to its vertex); every edge surgery (depth 1, depth 2 for small tables) with relabellings; tables filling the buffers (links out of range, doubled, and redirected to another vertex, at both ends and in the middle of the table), with links in the order that makes the walk deepest; large pieces joined by two edges with their end points far apart in the numbering", T2.size(), T3.size(), T4.size()); }
std::string check_describe(uint64_t c) { auto &r = CS[c]; return mc::strf("kind %d table %d (%s) part %d", r.kind, r.a, r.kind == 2 ? T2[r.a].first.c_str() : r.kind == 3 || r.kind / 10 == 3 ? T3[r.a].first.c_str() : r.kind == 4 || r.kind / 10 == 4 ? T4[r.a].first.c_str() : "full buffer", r.b); }
static Tab<3> prismt(int n) { Tab<3> t; for (int i = 0; i < n; ++i) t.push_back({(i + 1) % n, (i + n - 1) % n, i + n}); for (int i = 0; i < n; ++i) t.push_back({(i + 1) % n + n, (i + n - 1) % n + n, i}); return t; }
template <int K> static void full_mut(const Tab<K> &t, const char *nm) { int n = (int)t.size(), M = G<K>::MAX; for (int v : {0, 1, n / 2, n - 2, n - 1}) for (int k = 0; k < K; ++k) for (int x : {INT_MIN, -1, -2, n, n + 1, M, M + 7, INT_MAX, v, t[v][(k + 1) % K]}) if (x < 0 || x >= n || x == v || x == t[v][(k + 1) % K]) { Tab<K> q = t; q[v][k] = x; if (ask<K>(q, nm)) mc::fail("%s: vertex %d link %d := %d accepted", nm, v, k, x); mc::compared(); }
  for (int v : {0, 1, n / 2, n - 4, n - 2, n - 1}) for (int k = 0; k < K; ++k) for (int w : {0, 1, 2, n / 4, n / 2, n / 2 + 1, n - 5, n - 4, n - 3, n - 2, n - 1}) { if (v < 0 || w < 0 || w == v) continue; bool has = false; for (int x : t[v]) has |= x == w; if (has) continue; // one vertex referred to once too often, one once too little
    Tab<K> q = t; q[v][k] = w; if (ask<K>(q, nm)) mc::fail("%s: vertex %d link %d := %d accepted although %d is then missing a reference", nm, v, k, w, t[v][k]); mc::compared(); } }
// order the links so that a depth-first walk that takes the last link first holds as many pending vertices as possible
template <int K> static Tab<K> deep(Tab<K> t) { int n = (int)t.size(); std::vector<char> seen(n, 0); auto open = [&](int v) { int c = 0; for (int w : t[v]) c += !seen[w]; return c; };
  for (int s = 0; s < n; ++s) { if (seen[s]) continue; std::vector<int> st{s}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (seen[v]) continue; seen[v] = 1; auto &a = t[v]; int b = -1, bo = 99; for (int k = 0; k < K; ++k) if (!seen[a[k]] && open(a[k]) < bo && open(a[k]) > 0) { bo = open(a[k]); b = k; } if (b < 0) for (int k = 0; k < K; ++k) if (!seen[a[k]]) b = k; if (b >= 0) std::swap(a[b], a[K - 1]); for (int w : a) st.push_back(w); } } return t; }
static std::vector<int> scatter(int n, int m) { std::vector<int> q(n); while (std::__gcd(n, m) != 1) ++m; for (int i = 0; i < n; ++i) q[i] = (int)((long)i * m % n); return q; }
void check_case(uint64_t cc) {
  CaseRef r = CS[cc]; mc::path_s(check_describe(cc));
  if (r.kind == 2) mutate<2>(T2[r.a].second, T2[r.a].first, 1);
  else if (r.kind == 3) mutate<3>(T3[r.a].second, T3[r.a].first, mc::tier);
  else if (r.kind == 4) mutate<4>(T4[r.a].second, T4[r.a].first, mc::tier);
  else if (r.kind == 30) surgery<3>(T3[r.a].second, T3[r.a].first, 1, r.b);
  else if (r.kind == 31) surgery<3>(T3[r.a].second, T3[r.a].first, 2, r.b);
  else if (r.kind == 40) surgery<4>(T4[r.a].second, T4[r.a].first, 1, r.b);
  else if (r.kind == 41) surgery<4>(T4[r.a].second, T4[r.a].first, 2, r.b);
  else if (r.a == 0) { for (int n = 3; n <= R2D_MAX_VERTS; n += n < 20 || n > 250 ? 1 : 9) { Tab<2> t; for (int i = 0; i < n; ++i) t.push_back({(i + 1) % n, (i + n - 1) % n}); judge<2>(t, true, "loop"); full_mut<2>(t, "loop"); } }
  else if (r.a == 1) { Tab<2> t; while ((int)t.size() + 3 <= R2D_MAX_VERTS) { int o = (int)t.size(); for (int i = 0; i < 3; ++i) t.push_back({o + (i + 1) % 3, o + (i + 2) % 3}); } judge<2>(t, true, "triangles"); full_mut<2>(t, "triangles"); }
  else if (r.a == 2) { Tab<3> k4, t; for (int v = 0; v < 4; ++v) k4.push_back({(v + 1) % 4, (v + 2) % 4, (v + 3) % 4}); for (int i = 0; i < R3D_MAX_VERTS / 4; ++i) t = plus<3>(t, k4); if (!ask<3>(t, "128 tetrahedra")) mc::fail("128 disjoint tetrahedra rejected"); mc::compared(); full_mut<3>(t, "128 tetrahedra"); for (int a : {0, 250, 508}) for (int c : {4, 100, 504}) if (a != c) { Tab<3> q = t; if (switch2<3>(q, a, 0, c, 1) && ask<3>(q, "joined tetrahedra")) mc::fail("two tetrahedra joined by two edges accepted"); } }
  else if (r.a >= 3 && r.a <= 6) { int n = std::vector<int>{R3D_MAX_VERTS / 2, R3D_MAX_VERTS / 2 - 1, 100, 60}[r.a - 3]; auto t = prismt(n); if (!ask<3>(t, "large prism")) mc::fail("prism over a %d-gon rejected", n); mc::compared(); full_mut<3>(t, "large prism"); }
  else if (r.a == 7) { Tab<4> t; for (int i = 0; i < RND_MAX_VERTS / 5; ++i) t = plus<4>(t, simplex4()); full_mut<4>(t, "204 simplices"); if (mc::tier && !ask<4>(t, "204 simplices")) mc::fail("204 disjoint simplices rejected"); mc::compared(); for (int a : {0, 500, 1015}) { Tab<4> q = t; if (switch2<4>(q, 0, 0, 7, 1) && a == 0 && ask<4>(q, "joined simplices")) mc::fail("two simplices joined by two edges accepted"); } }
  else if (r.a == 8) { Tab<4> t; for (int i = 0; i < 12; ++i) t = plus<4>(t, simplex4()); judge<4>(t, true, "12 simplices"); full_mut<4>(t, "12 simplices"); for (int a = 0; a < 60; a += 7) for (int c = 0; c < 60; c += 5) for (int k = 0; k < 4; ++k) { Tab<4> q = t; if (a / 5 != c / 5 && switch2<4>(q, a, k, c, (k + a) % 4)) { if (ask<4>(q, "joined simplices")) mc::fail("two of twelve simplices joined by two edges accepted"); mc::compared(); } } }
  else if (r.a >= 20 && r.a <= 22) { Tab<4> t; if (r.a == 20) for (int i = 0; i < 26; ++i) t = plus<4>(t, simplex4()); else { t = box4(); for (int i = 0; i < (r.a == 21 ? 40 : 60); ++i) t = cut4(t, (i * 17 + r.a) % (int)t.size()); } if (!ask<4>(t, "more than a hundred vertices")) mc::fail("well-formed 4D shape with %zu vertices rejected", t.size()); mc::compared(); full_mut<4>(t, "more than a hundred vertices"); }
  else if (r.a == 9) { // a buffer-filling 4-regular graph that falls apart on removing three vertices: a ring of 204 opened simplices
    Tab<4> t; int m = RND_MAX_VERTS / 5; for (int i = 0; i < m; ++i) t = plus<4>(t, simplex4()); for (int i = 0; i + 1 < m; ++i) { bool ok = false; for (int ka = 0; ka < 4 && !ok; ++ka) for (int kc = 0; kc < 4 && !ok; ++kc) { int a = 5 * i + 4, c = 5 * i + 5; if (t[a][ka] / 5 == i && t[c][kc] / 5 == i + 1) ok = switch2<4>(t, a, ka, c, kc); } }
    std::vector<int> pm(t.size()); for (size_t i = 0; i < t.size(); ++i) pm[i] = (int)i; if (ask<4>(t, "ring of simplices")) mc::fail("chain of %d simplices accepted", m); mc::compared(); }
  else if (r.a == 10 || r.a == 11) { Tab<4> t = box4(); for (int i = 0; i < (mc::tier ? 16 : 8); ++i) t = cut4(t, (i * 5 + r.a) % (int)t.size()); judge<4>(t, true, "repeatedly cut box"); for (auto &pm : perms((int)t.size())) judge<4>(relab<4>(t, pm), true, "repeatedly cut box relabelled"); }
  else if (r.a == 12 || r.a == 13) { // two large pieces joined by two edges only, the four end points far apart in the numbering
    for (auto mk : std::vector<std::array<int, 2>>{{8, 9}, {17, 30}, {40, 40}, {60, 67}, {100, 25}, {120, 130}}) { if (r.a == 13 && mk[0] > 60) continue; Tab<3> t = plus<3>(prismt(mk[0]), prismt(mk[1])); int n = (int)t.size();
      for (int a : {0, mk[0] / 2, 2 * mk[0] - 1}) for (int c : {2 * mk[0], 2 * mk[0] + mk[1], n - 1}) for (int ka = 0; ka < 3; ++ka) for (int kc = 0; kc < 3; ++kc) { Tab<3> q = t; if (!switch2<3>(q, a, ka, c, kc)) continue; int e[4] = {a, t[a][ka], c, t[c][kc]};
        // place the four end points evenly over the numbering, in every arrangement (13) or one (12)
        int o[4] = {0, 1, 2, 3}; do { std::vector<int> pm(n, -1); std::vector<char> used(n, 0); int at[4] = {0, n / 3, 2 * n / 3, n - 1}; for (int i = 0; i < 4; ++i) { pm[e[o[i]]] = at[i]; used[at[i]] = 1; } int x = 0; for (int i = 0; i < n; ++i) if (pm[i] < 0) { while (used[x]) ++x; pm[i] = x++; } auto z = relab<3>(q, pm); if (ask<3>(z, "joined prisms")) mc::fail("two prisms with %d and %d vertices joined by two edges only accepted (end points numbered %d,%d,%d,%d)", 2 * mk[0], 2 * mk[1], pm[a], pm[e[1]], pm[c], pm[e[3]]); mc::compared(); mc::state(mc::hash_bytes(z.data(), z.size() * sizeof(z[0]))); } while (r.a == 13 && std::next_permutation(o, o + 4)); } } }
  else if (r.a >= 14 && r.a <= 17) { // full buffers with links ordered for the longest list of pending vertices
    int M = R3D_MAX_VERTS; std::vector<Tab<3>> ts; for (int n : {M / 2, M / 2 - 1, M / 4, 50}) ts.push_back(prismt(n)); ts.push_back(plus<3>(prismt(M / 4), prismt(M / 4))); int part = r.a - 14;
    for (size_t i = 0; i < ts.size(); ++i) { auto t = deep<3>(part == 0 ? ts[i] : relab<3>(ts[i], scatter((int)ts[i].size(), part == 1 ? 2 : part == 2 ? 7 : 101))); if (!ask<3>(t, "prism, deep link order")) mc::fail("prism with %zu vertices rejected", t.size()); mc::compared(); full_mut<3>(t, "prism, deep link order"); } }
  else if (r.a == 18) { Tab<4> t = box4(); int i = 0; while ((int)t.size() + 3 <= RND_MAX_VERTS) t = cut4(t, (i++ * 17) % (int)t.size()); full_mut<4>(t, "often cut box"); Tab<4> two = box4(); for (i = 0; (int)two.size() + 3 + 5 <= RND_MAX_VERTS; ++i) two = cut4(two, (i * 29) % (int)two.size()); two = plus<4>(simplex4(), two); switch2<4>(two, 0, 0, 9, 1); if (ask<4>(deep<4>(two), "simplex joined to an often cut box")) mc::fail("simplex joined by two edges to a full box accepted"); mc::compared(); }
  else if (r.a == 19) { for (int m : {6, 14}) { Tab<4> A = box4(), B = box4(); for (int i = 0; i < m; ++i) { A = cut4(A, (i * 5 + 1) % (int)A.size()); B = cut4(B, (i * 7 + 2) % (int)B.size()); } int na = (int)A.size(), n = 2 * na; Tab<4> t = plus<4>(A, B); for (int a : {0, na / 2}) for (int c : {na, n - 1}) for (int ka = 0; ka < 4; ++ka) for (int kc = 0; kc < 4; kc += m == 6 ? 1 : 3) { Tab<4> q = t; if (!switch2<4>(q, a, ka, c, kc)) continue; int e[4] = {a, t[a][ka], c, t[c][kc]}, at[4] = {0, n / 3, 2 * n / 3, n - 1}; std::vector<int> pm(n, -1); std::vector<char> used(n, 0); for (int i = 0; i < 4; ++i) { pm[e[i]] = at[i]; used[at[i]] = 1; } int x = 0; for (int i = 0; i < n; ++i) if (pm[i] < 0) { while (used[x]) ++x; pm[i] = x++; } if (ask<4>(relab<4>(q, pm), "joined boxes")) mc::fail("two 4D pieces with %d vertices each joined by two edges only accepted", na); mc::compared(); } } }
  if (cc % 97 == 3) mc::sample(check_describe(cc));
}
MC_MAIN
