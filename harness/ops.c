// ops.c - a table of concrete calls over the whole public API, compiled together with the library into one
// shared object per build variant.  Each op builds its arguments (with a chosen garbage pattern wherever the
// interface does not say the contents matter), makes the call, and writes out everything a user can observe.
#include "ops.h"
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  OpCtx *x; int ds;
  r2d_poly *a2, *b2, *c2; r3d_poly *a3, *b3, *c3; rNd_poly *a4;
} C;

static void BEGIN(C *c) { if (c->x->before) c->x->before(c->x); }
static void END(C *c) { if (c->x->after) c->x->after(c->x); }
static void oput(C *c, double v, double sc, int kind) { OpCtx *x = c->x; if (x->n < x->max) { x->val[x->n] = v; x->sc[x->n] = sc; x->kind[x->n] = kind; } x->n++; }
static void o_int(C *c, long v) { oput(c, (double)v, 0, OK_INT); }        // exact in every configuration
static void o_st(C *c, long v) { oput(c, (double)v, 0, OK_STRUCT); }      // exact within one configuration
static void o_real(C *c, double v, double sc) { oput(c, v, sc, OK_REAL); } // comparable across configurations at scale sc
static void o_sreal(C *c, double v) { oput(c, v, 0, OK_STRUCT); }         // bitwise within one configuration

// ---- garbage ----
static void junk(C *c, void *p, size_t n) {
  switch (c->x->pat) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0x7b, n); break;
    default: { int *q = (int *)p; for (size_t i = 0; i < n / 4; ++i) q[i] = (int)((i * 7 + 3) % 11); }
  }
}
static void junk2(C *c, r2d_poly *p, int from) { // plausible leftovers for pattern 3: another polygon's vertices
  if (c->x->pat < 3) { junk(c, &p->verts[from], sizeof(r2d_vertex) * (R2D_MAX_VERTS - from)); return; }
  for (int i = from; i < R2D_MAX_VERTS; ++i) { p->verts[i].pnbrs[0] = (i + 1) % 7; p->verts[i].pnbrs[1] = (i + 6) % 7; p->verts[i].pos.x = 1.5 + i; p->verts[i].pos.y = -0.25 * i; }
}
static void junk3(C *c, r3d_poly *p, int from) {
  if (c->x->pat < 3) { junk(c, &p->verts[from], sizeof(r3d_vertex) * (R3D_MAX_VERTS - from)); return; }
  for (int i = from; i < R3D_MAX_VERTS; ++i) for (int k = 0; k < 3; ++k) { p->verts[i].pnbrs[k] = (i + 1 + k) % 5; p->verts[i].pos.xyz[k] = 1.5 + i - 2 * k; }
}
static void junk4(C *c, rNd_poly *p, int from) {
  if (c->x->pat < 3) { junk(c, &p->verts[from], sizeof(rNd_vertex) * (RND_MAX_VERTS - from)); return; }
  for (int i = from; i < RND_MAX_VERTS; ++i) for (int k = 0; k < RND_DIM; ++k) { p->verts[i].pnbrs[k] = (i + 1 + k) % 6; p->verts[i].pos.xyz[k] = 1.5 + i - 2 * k; for (int j = 0; j < RND_DIM; ++j) p->verts[i].finds[k][j] = (k + j) % 6; }
}
static void out2(C *c, r2d_poly *p) { junk2(c, p, 0); junk(c, &p->nverts, sizeof p->nverts); } // an output object: everything is garbage
static void out3(C *c, r3d_poly *p) { junk3(c, p, 0); junk(c, &p->nverts, sizeof p->nverts); }
static void out4(C *c, rNd_poly *p) { junk4(c, p, 0); junk(c, &p->nverts, sizeof p->nverts); junk(c, &p->nfaces, sizeof p->nfaces); }

// ---- shapes: two data sets so that concurrent calls work on different objects and values ----
static double PX(C *c, int j, double v) { static const double off[6][4] = {{0.25, -0.5, 0.125, 0.0625}, {-1.5, 2.25, 0.75, -0.375}, {1048576, -524288, 786432, 262144}, {1024, -512, 768, 256}, {0.1, -33.3, 1234.567, 7e-3}, {0.25, -0.5, 0.125, 0.0625}}; static const double s[6] = {1.0, 0.5, 1.0, 1.0, 0.70710678118654752, 0.5}; return v * s[c->ds] + off[c->ds][j]; }
static const double S2[8][20] = { // vertex count, then x,y
  {3, 0,0, 4,0, 0,4}, {4, 0,0, 2,0, 2,2, 0,2}, {6, 4,2, 3,4, 1,4, 0,2, 1,0, 3,0}, {6, 0,0, 4,0, 4,2, 2,2, 2,4, 0,4},
  {8, 0,0, 6,0, 6,4, 4,4, 4,2, 2,2, 2,4, 0,4}, {8, 6,3, 4,4, 3,6, 2,4, 0,3, 2,2, 3,0, 4,2}, {8, 0,0, 4,0, 4,4, 0,4, 1,1, 1,3, 3,3, 3,1} /* hole */, {0} };
enum { N2 = 8, BIG = 8, NB = 40 }; // shape BIG: a polygon of 120 vertices, a prism over a polygon of NB
static void mk2(C *c, r2d_poly *p, int s) {
  int n = s == BIG ? 120 : (int)S2[s][0]; out2(c, p); p->nverts = n;
  if (s == BIG) { for (int i = 0; i < n; ++i) { double a = i * 6.283185307179586 / n, r = 2.5 + 0.375 * (i % 3); p->verts[i].pos.x = PX(c, 0, 3 + r * cos(a)); p->verts[i].pos.y = PX(c, 1, 3 + r * sin(a)); p->verts[i].pnbrs[0] = (i + 1) % n; p->verts[i].pnbrs[1] = (i + n - 1) % n; } return; }
  for (int i = 0; i < n; ++i) { int o = (s == 6 && i >= 4) ? 4 : 0, k = s == 6 ? 4 : n; p->verts[i].pos.x = PX(c, 0, S2[s][1 + 2 * i]); p->verts[i].pos.y = PX(c, 1, S2[s][2 + 2 * i]); p->verts[i].pnbrs[0] = o + (i - o + 1) % k; p->verts[i].pnbrs[1] = o + (i - o + k - 1) % k; }
}
typedef struct { int nv, nf; double v[17][3]; int f[20][7]; } Sh3;
static const Sh3 S3[8] = {
  {4, 4, {{0,0,0},{2,0,0},{0,2,0},{0,0,2}}, {{3,0,2,1},{3,0,1,3},{3,0,3,2},{3,1,2,3}}},
  {8, 6, {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{0,0,2},{2,0,2},{2,2,2},{0,2,2}}, {{4,3,2,1,0},{4,4,5,6,7},{4,0,1,5,4},{4,1,2,6,5},{4,2,3,7,6},{4,3,0,4,7}}},
  {6, 8, {{4,2,2},{2,4,2},{0,2,2},{2,0,2},{2,2,4},{2,2,0}}, {{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4},{3,1,0,5},{3,2,1,5},{3,3,2,5},{3,0,3,5}}},
  {12, 8, {{0,0,0},{4,0,0},{4,2,0},{2,2,0},{2,4,0},{0,4,0},{0,0,2},{4,0,2},{4,2,2},{2,2,2},{2,4,2},{0,4,2}}, {{6,5,4,3,2,1,0},{6,6,7,8,9,10,11},{4,0,1,7,6},{4,1,2,8,7},{4,2,3,9,8},{4,3,4,10,9},{4,4,5,11,10},{4,5,0,6,11}}},
  {5, 5, {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2}}, {{4,3,2,1,0},{3,0,1,4},{3,1,2,4},{3,2,3,4},{3,3,0,4}}},
  {8, 8, {{0,0,0},{2,0,0},{0,2,0},{0,0,2},{3,0,0},{5,0,0},{3,2,0},{3,0,2}}, {{3,0,2,1},{3,0,1,3},{3,0,3,2},{3,1,2,3},{3,4,6,5},{3,4,5,7},{3,4,7,6},{3,5,6,7}}},
  {16, 16, {{0,0,0},{6,0,0},{6,6,0},{0,6,0},{0,0,2},{6,0,2},{6,6,2},{0,6,2},{2,2,0},{4,2,0},{4,4,0},{2,4,0},{2,2,2},{4,2,2},{4,4,2},{2,4,2}},
    {{4,0,1,5,4},{4,9,8,12,13},{4,4,5,13,12},{4,1,0,8,9},{4,1,2,6,5},{4,10,9,13,14},{4,5,6,14,13},{4,2,1,9,10},{4,2,3,7,6},{4,11,10,14,15},{4,6,7,15,14},{4,3,2,10,11},{4,3,0,4,7},{4,8,11,15,12},{4,7,4,12,15},{4,0,3,11,8}}},
  {0, 0} };
enum { N3 = 8 };
typedef struct { r3d_rvec3 v[2 * NB]; r3d_int f[NB + 2][NB]; r3d_int *fp[NB + 2]; r3d_int nf[NB + 2]; int nv, n; } D3;
static void desc(C *c, D3 *d, int s) {
  if (s == BIG) { d->nv = 2 * NB; d->n = NB + 2; for (int i = 0; i < NB; ++i) { double a = i * 6.283185307179586 / NB; for (int k = 0; k < 2; ++k) { d->v[i + k * NB].x = PX(c, 0, 3 + 2.5 * cos(a)); d->v[i + k * NB].y = PX(c, 1, 3 + 2.5 * sin(a)); d->v[i + k * NB].z = PX(c, 2, k ? 4 : 0.5); } int j = (i + 1) % NB, f[4] = {i, j, NB + j, NB + i}; d->nf[i] = 4; for (int k = 0; k < 4; ++k) d->f[i][k] = f[k]; d->f[NB][i] = NB - 1 - i; d->f[NB + 1][i] = NB + i; } d->nf[NB] = d->nf[NB + 1] = NB; for (int i = 0; i < NB + 2; ++i) d->fp[i] = d->f[i]; return; }
  const Sh3 *q = &S3[s]; d->nv = q->nv; d->n = q->nf;
  for (int i = 0; i < q->nv; ++i) for (int j = 0; j < 3; ++j) d->v[i].xyz[j] = PX(c, j, q->v[i][j]);
  for (int i = 0; i < q->nf; ++i) { d->nf[i] = q->f[i][0]; for (int j = 0; j < q->f[i][0]; ++j) d->f[i][j] = q->f[i][1 + j]; d->fp[i] = d->f[i]; }
}
static void mk3(C *c, r3d_poly *p, int s) {
  out3(c, p); if (s != BIG && S3[s].nv == 0) { p->nverts = 0; return; }
  D3 d; desc(c, &d, s); int fresh = c->x->pat; c->x->pat = 0; out3(c, p); c->x->pat = fresh; // the preparation itself is not under test
  r3d_init_poly(p, d.v, d.nv, d.fp, d.nf, d.n);
  if (p->nverts >= 0 && p->nverts < R3D_MAX_VERTS) junk3(c, p, p->nverts);
}
enum { N4 = 4 };
static void mk4(C *c, rNd_poly *p, int s) {
  int pat = c->x->pat; c->x->pat = 0; out4(c, p); c->x->pat = pat;
  if (s == 3) { p->nverts = 0; p->nfaces = 0; out4(c, p); p->nverts = 0; p->nfaces = 0; return; }
  if (s == 1) { rNd_rvec b[2]; for (int j = 0; j < RND_DIM; ++j) { b[0].xyz[j] = PX(c, j, 0); b[1].xyz[j] = PX(c, j, 1 + 0.5 * j); } rNd_init_box(p, b); }
  else { rNd_rvec v[RND_DIM + 1]; for (int i = 0; i <= RND_DIM; ++i) for (int j = 0; j < RND_DIM; ++j) v[i].xyz[j] = PX(c, j, (i == j + 1 ? 2.0 : 0.0) + (s == 2 ? 0.3 * ((i * 3 + j * 5) % 4) : 0)); rNd_init_simplex(p, v); }
  if (p->nverts >= 0 && p->nverts < RND_MAX_VERTS) junk4(c, p, p->nverts);
}
static const double GN[6][4] = {{0.31, 0.67, -0.52, 0.43}, {-0.71, 0.23, 0.59, -0.37}, {0.17, -0.83, 0.29, 0.61}, {-0.47, -0.39, -0.77, 0.13}, {0.93, 0.11, 0.19, -0.73}, {-0.05, 0.97, -0.91, -0.21}};
// plane q of a shape: 0..11 generic through the interior, 12.. incident with vertices (axis-aligned), 15 excludes everything
static void plane_for(C *c, int D, double (*pt)(C *, const void *, int, int), const void *sh, int nv, int q, double *n, double *d) {
  double l = 0; for (int j = 0; j < D; ++j) n[j] = 0;
  if (q < 12) { for (int j = 0; j < D; ++j) { n[j] = GN[q % 6][j]; l += n[j] * n[j]; } l = sqrt(l); for (int j = 0; j < D; ++j) n[j] /= l; }
  else n[(q - 12) % D] = q % 2 ? 1 : -1;
  double lo = 1e300, hi = -1e300; for (int i = 0; i < nv; ++i) { double s = 0; for (int j = 0; j < D; ++j) s += n[j] * pt(c, sh, i, j); if (s < lo) lo = s; if (s > hi) hi = s; }
  if (nv == 0) lo = 0, hi = 1;
  if (q < 12) *d = -(lo + (q < 6 ? 0.37 : 0.71) * (hi - lo)); else if (q < 15) *d = -(lo + 0.5 * (hi - lo)); else *d = -(hi + 1);
}
static double pt2(C *c, const void *p, int i, int j) { (void)c; return ((const r2d_poly *)p)->verts[i].pos.xy[j]; }
static double pt3(C *c, const void *p, int i, int j) { (void)c; return ((const r3d_poly *)p)->verts[i].pos.xyz[j]; }
static double pt4(C *c, const void *p, int i, int j) { (void)c; return ((const rNd_poly *)p)->verts[i].pos.xyz[j]; }
static r2d_plane pl2(C *c, r2d_poly *p, int q) { double n[4], d; plane_for(c, 2, pt2, p, p->nverts, q, n, &d); r2d_plane r; r.n.x = n[0]; r.n.y = n[1]; r.d = d; return r; }
static r3d_plane pl3(C *c, r3d_poly *p, int q) { double n[4], d; plane_for(c, 3, pt3, p, p->nverts, q, n, &d); r3d_plane r; for (int j = 0; j < 3; ++j) r.n.xyz[j] = n[j]; r.d = d; return r; }
static rNd_plane pl4(C *c, rNd_poly *p, int q) { double n[4], d; plane_for(c, 4, pt4, p, p->nverts, q, n, &d); rNd_plane r; for (int j = 0; j < 4; ++j) r.n.xyz[j] = n[j]; r.d = d; return r; }

// ---- observing ----
// region moments of a result by plain fans (independent of the library), for comparison across configurations
static void reg2(C *c, const r2d_poly *p, double sc) {
  double m[3] = {0, 0, 0}; int n = p->nverts; if (n > 0 && n <= R2D_MAX_VERTS) { double ox = p->verts[0].pos.x, oy = p->verts[0].pos.y;
    for (int v = 0; v < n; ++v) { int w = p->verts[v].pnbrs[0]; if (w < 0 || w >= n) { o_int(c, -777); continue; } double ax = p->verts[v].pos.x - ox, ay = p->verts[v].pos.y - oy, bx = p->verts[w].pos.x - ox, by = p->verts[w].pos.y - oy, t = 0.5 * (ax * by - ay * bx); m[0] += t; m[1] += t * ((ax + bx) / 3 + ox); m[2] += t * ((ay + by) / 3 + oy); } }
  for (int i = 0; i < 3; ++i) o_real(c, m[i], sc);
}
static void reg3(C *c, const r3d_poly *p, double sc) {
  double m[4] = {0, 0, 0, 0}; int n = p->nverts;
  if (n > 0 && n <= R3D_MAX_VERTS) {
    unsigned char mk[3 * R3D_MAX_VERTS]; memset(mk, 0, sizeof mk);
    double o[3]; for (int j = 0; j < 3; ++j) o[j] = p->verts[0].pos.xyz[j];
    for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (!mk[3 * v + k]) {
      int u = v, e = k, f0 = v, prev = -1, guard = 0;
      while (!mk[3 * u + e] && guard++ < 3 * n) { mk[3 * u + e] = 1;
        if (u != f0 && prev >= 0 && prev != f0) { double A[3][3]; for (int j = 0; j < 3; ++j) { A[0][j] = p->verts[f0].pos.xyz[j] - o[j]; A[1][j] = p->verts[prev].pos.xyz[j] - o[j]; A[2][j] = p->verts[u].pos.xyz[j] - o[j]; }
          double t = (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])) / 6; m[0] += t; for (int j = 0; j < 3; ++j) m[1 + j] += t * ((A[0][j] + A[1][j] + A[2][j]) / 4 + o[j]); }
        prev = u; int w = p->verts[u].pnbrs[e], j = 0; if (w < 0 || w >= n) { o_int(c, -777); return; } while (j < 3 && p->verts[w].pnbrs[j] != u) ++j; if (j == 3) { o_int(c, -778); return; } u = w; e = (j + 2) % 3; }
    }
  }
  for (int i = 0; i < 4; ++i) o_real(c, m[i], sc);
}
static void obs2(C *c, const r2d_poly *p, int general, double sc) {
  if (general) o_int(c, p->nverts); else o_st(c, p->nverts);
  reg2(c, p, sc);
  for (int v = 0; v < p->nverts && v < R2D_MAX_VERTS; ++v) { for (int k = 0; k < 2; ++k) o_st(c, p->verts[v].pnbrs[k]); for (int k = 0; k < 2; ++k) o_sreal(c, p->verts[v].pos.xy[k]); }
}
static void obs3(C *c, const r3d_poly *p, int general, double sc) {
  if (general) o_int(c, p->nverts); else o_st(c, p->nverts);
  reg3(c, p, sc);
  for (int v = 0; v < p->nverts && v < R3D_MAX_VERTS; ++v) { for (int k = 0; k < 3; ++k) o_st(c, p->verts[v].pnbrs[k]); for (int k = 0; k < 3; ++k) o_sreal(c, p->verts[v].pos.xyz[k]); }
}
static void obs4(C *c, const rNd_poly *p, double sc) {
  o_int(c, p->nverts); double s[RND_DIM], s2 = 0; for (int k = 0; k < RND_DIM; ++k) s[k] = 0;
  for (int v = 0; v < p->nverts && v < RND_MAX_VERTS; ++v) for (int k = 0; k < RND_DIM; ++k) { s[k] += p->verts[v].pos.xyz[k]; s2 += p->verts[v].pos.xyz[k] * p->verts[v].pos.xyz[k]; }
  for (int k = 0; k < RND_DIM; ++k) o_real(c, s[k], sc * (1 + p->nverts)); o_real(c, s2, sc * (1 + p->nverts));
  for (int v = 0; v < p->nverts && v < RND_MAX_VERTS; ++v) for (int k = 0; k < RND_DIM; ++k) { o_st(c, p->verts[v].pnbrs[k]); o_sreal(c, p->verts[v].pos.xyz[k]); for (int j = 0; j < RND_DIM; ++j) if (j != k) o_st(c, p->verts[v].finds[k][j]); }
  if (p->nverts > 0) o_st(c, p->nfaces);
}
// read-only arguments: written out before and after; the two halves must agree
static int same(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
#define RO(ptr, len, CALL) do { void *ro_ = malloc(len); memcpy(ro_, (const void *)(ptr), len); CALL; oput(c, same(ro_, (const void *)(ptr), len) ? 0 : 1, 0, OK_RO); free(ro_); } while (0)
static int eq2(const r2d_poly *a, const r2d_poly *b) { if (a->nverts != b->nverts) return 0; for (int v = 0; v < a->nverts; ++v) if (!same(a->verts[v].pnbrs, b->verts[v].pnbrs, sizeof a->verts[v].pnbrs) || !same(&a->verts[v].pos, &b->verts[v].pos, sizeof a->verts[v].pos)) return 0; return 1; }
static int eq3(const r3d_poly *a, const r3d_poly *b) { if (a->nverts != b->nverts) return 0; for (int v = 0; v < a->nverts; ++v) if (!same(a->verts[v].pnbrs, b->verts[v].pnbrs, sizeof a->verts[v].pnbrs) || !same(&a->verts[v].pos, &b->verts[v].pos, sizeof a->verts[v].pos)) return 0; return 1; }
static int eq4(const rNd_poly *a, const rNd_poly *b) { if (a->nverts != b->nverts || a->nfaces != b->nfaces) return 0; for (int v = 0; v < a->nverts; ++v) { const rNd_vertex *p = &a->verts[v], *q = &b->verts[v]; if (!same(p->pnbrs, q->pnbrs, sizeof p->pnbrs) || !same(&p->pos, &q->pos, sizeof p->pos)) return 0; for (int i = 0; i < RND_DIM; ++i) for (int j = 0; j < RND_DIM; ++j) if (i != j && p->finds[i][j] != q->finds[i][j]) return 0; } return 1; }
#define ROP(T, EQ, ptr, CALL) do { T *rp_ = (T *)malloc(sizeof(T)); memcpy((void *)rp_, (const void *)(ptr), sizeof(T)); CALL; oput(c, EQ(rp_, ptr) ? 0 : 1, 0, OK_RO); free(rp_); } while (0)
#define RO2(p, CALL) ROP(r2d_poly, eq2, p, CALL)
#define RO3(p, CALL) ROP(r3d_poly, eq3, p, CALL)
#define RO4(p, CALL) ROP(rNd_poly, eq4, p, CALL)
#define CALLED(X) do { BEGIN(c); X; END(c); } while (0)

#define SC2 64.0
#define SC3 256.0
#define SC4 64.0
static int status2(C *c, int r) { o_int(c, r != 0); return r; }
// parameters of transforms and grids differ between shapes and data sets, so that a value kept from another call shows
#define VAR(x) ((x) + 0.125 * s + 0.0625 * c->ds)
#define GRID(x) ((x) * (s == BIG ? 3.1 : 1) * (1 + 0.03 * s + 0.017 * c->ds))
// ---- 2D; s selects the shape, q the parameter ----
static void op_clip2(C *c, int s, int q) {
  mk2(c, c->a2, s); r2d_plane P[3]; int n = q >= 16 ? 3 : 1, r = 0;
  for (int i = 0; i < 3; ++i) P[i] = pl2(c, c->a2, q >= 16 ? (q - 16 + 4 * i) % 12 : q);
  RO(P, sizeof P, CALLED(r = r2d_clip(c->a2, P, n))); status2(c, r); obs2(c, c->a2, q < 12, SC2);
}
static void op_split2(C *c, int s, int q) {
  r2d_poly *in = (r2d_poly *)malloc(9 * sizeof *in), *o1 = in + 3, *o2 = in + 6; int r = 0;
  mk2(c, &in[0], s); mk2(c, &in[1], 7); mk2(c, &in[2], (s + 3) % N2); for (int i = 0; i < 3; ++i) { out2(c, &o1[i]); out2(c, &o2[i]); }
  r2d_plane P = pl2(c, &in[s == 7 ? 2 : 0], q); CALLED(r = r2d_split(in, 3, P, o1, o2)); status2(c, r);
  for (int i = 0; i < 3; ++i) { obs2(c, &o1[i], 0, SC2); obs2(c, &o2[i], 0, SC2); } free(in);
}
static void op_reduce2(C *c, int s, int q) {
  mk2(c, c->a2, s); r2d_real m[80]; junk(c, m, sizeof m); RO2(c->a2, CALLED(r2d_reduce(c->a2, m, q)));
  for (int i = 0, k = 0; k <= q; ++k) for (int j = 0; j <= k; ++j, ++i) o_real(c, m[i], SC2 * pow(8, k));
}
static void op_good2(C *c, int s, int q) {
  mk2(c, c->a2, s); if (q && c->a2->nverts) { c->a2->verts[1].pnbrs[q & 1] = q == 1 ? 0 : q == 2 ? 1 : q == 3 ? -1 : 300; }
  int r = 0; RO2(c->a2, CALLED(r = r2d_is_good(c->a2))); o_int(c, r != 0);
}
static void op_center2(C *c, int s, int q) { (void)q; mk2(c, c->a2, s); r2d_rvec2 v; v.x = v.y = 0; RO2(c->a2, CALLED(v = r2d_poly_center(c->a2))); if (c->a2->nverts) { o_real(c, v.x, 8); o_real(c, v.y, 8); } }
static void op_shift2(C *c, int s, int q) { (void)s; r2d_real m[80]; for (int i = 0; i < 80; ++i) m[i] = 1.0 / (i + 2); r2d_rvec2 v; v.x = PX(c, 0, 0.7); v.y = PX(c, 1, -0.3); CALLED(r2d_shift_moments(m, q, v)); for (int i = 0; i < 80; ++i) o_real(c, m[i], 4096); }
static void op_orient2(C *c, int s, int q) { mk2(c, c->a2, s); r2d_rvec2 *v[3]; for (int i = 0; i < 3; ++i) v[i] = &c->a2->verts[(i * (1 + q)) % 3].pos; double r; BEGIN(c); r = r2d_orient(*v[0], *v[1], *v[2]); END(c); o_real(c, r, 64); }
static void op_xform2(C *c, int s, int q) {
  mk2(c, c->a2, s); r2d_rvec2 t; t.x = VAR(0.5); t.y = -VAR(1.25); r2d_real M[3][3] = {{VAR(1), 0.5, 2}, {-0.25, 1, VAR(1)}, {0.03125, 0.0625, 1}};
  RO(M, sizeof M, BEGIN(c); if (q == 0) r2d_translate(c->a2, t); else if (q == 1) r2d_scale(c->a2, VAR(1.5)); else if (q == 2) r2d_shear(c->a2, VAR(0.75), 0, 1); else if (q == 3) r2d_shear(c->a2, VAR(0.75), 1, 0); else if (q == 4) r2d_rotate(c->a2, VAR(0.7)); else r2d_affine(c->a2, M); END(c));
  obs2(c, c->a2, 1, SC2 * 8);
}
static void op_initbox2(C *c, int s, int q) { (void)s; r2d_rvec2 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0); b[1].x = PX(c, 0, 1 + q); b[1].y = PX(c, 1, 2); out2(c, c->a2); RO(b, sizeof b, CALLED(r2d_init_box(c->a2, b))); obs2(c, c->a2, 1, SC2); }
static void op_initpoly2(C *c, int s, int q) {
  int n = q ? q : (int)S2[s][0]; r2d_rvec2 *v = (r2d_rvec2 *)malloc(sizeof(*v) * (n + 1)); int r = 0; out2(c, c->a2);
  for (int i = 0; i < n; ++i) { v[i].x = q ? PX(c, 0, 2 * cos(i * 6.283185307 / n)) : PX(c, 0, S2[s][1 + 2 * i]); v[i].y = q ? PX(c, 1, 2 * sin(i * 6.283185307 / n)) : PX(c, 1, S2[s][2 + 2 * i]); }
  v[n].x = v[n].y = 0; RO(v, sizeof(*v) * (n + 1), CALLED(r = r2d_init_poly(c->a2, v, n))); status2(c, r); if (r) obs2(c, c->a2, 1, SC2); free(v);
}
static void op_faces2(C *c, int s, int q) {
  r2d_plane f[12]; junk(c, f, sizeof f); int n = (int)S2[s][0];
  if (q) { r2d_rvec2 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0); b[1].x = PX(c, 0, 1 + s); b[1].y = PX(c, 1, 2); n = 4; RO(b, sizeof b, CALLED(r2d_box_faces_from_verts(f, b))); }
  else { r2d_rvec2 v[12]; memset(v, 0, sizeof v); for (int i = 0; i < n; ++i) { v[i].x = PX(c, 0, S2[s][1 + 2 * i]); v[i].y = PX(c, 1, S2[s][2 + 2 * i]); } RO(v, sizeof v, CALLED(r2d_poly_faces_from_verts(f, v, n))); }
  for (int i = 0; i < n; ++i) { o_real(c, f[i].n.x, 8); o_real(c, f[i].n.y, 8); o_real(c, f[i].d, 64); }
}
static void op_rast(C *c, int s, int q) {
  mk2(c, c->a2, s); r2d_rvec2 h; h.x = GRID(0.43); h.y = GRID(0.59); r2d_dvec2 ib[2]; junk(c, ib, sizeof ib); int order = q & 3;
  if (c->a2->nverts == 0) { ib[0].i = ib[0].j = 0; ib[1].i = ib[1].j = 2; } else r2d_get_ibox(c->a2, ib, h);
  int nc = (ib[1].i - ib[0].i) * (ib[1].j - ib[0].j), nm = R2D_NUM_MOMENTS(order), r = 0; if (nc < 0 || nc > 4096) { o_int(c, -779); return; }
  r2d_real *g = (r2d_real *)calloc((size_t)nc * nm + 1, sizeof *g);
  RO(ib, sizeof ib, RO2(c->a2, CALLED(r = r2d_rasterize(c->a2, ib, g, h, order)))); status2(c, r);
  for (int i = 0; i < nc; ++i) for (int k = 0, m = 0; k <= order; ++k) for (int j = 0; j <= k; ++j, ++m) o_real(c, g[i * nm + m], 32 * pow(8, k));
  free(g);
}
static void op_ibox2(C *c, int s, int q) {
  mk2(c, c->a2, s); if (!c->a2->nverts) { o_int(c, 0); return; }
  r2d_rvec2 h; h.x = GRID(0.43); h.y = GRID(0.59); r2d_dvec2 ib[2], cl[2]; junk(c, ib, sizeof ib);
  if (q == 0) { RO2(c->a2, CALLED(r2d_get_ibox(c->a2, ib, h))); }
  else { r2d_get_ibox(c->a2, ib, h); cl[0] = ib[0]; cl[1] = ib[1]; if (q & 1) { cl[0].i += 1; cl[1].i -= 1; } if (q & 2) cl[1].j -= 2; if (q & 4) { cl[0].j = ib[1].j + 3; cl[1].j = ib[1].j + 6; } RO(cl, sizeof cl, CALLED(r2d_clamp_ibox(c->a2, ib, cl, h))); obs2(c, c->a2, 0, SC2); }
  for (int k = 0; k < 2; ++k) { o_int(c, ib[k].i); o_int(c, ib[k].j); }
}
static void op_print2(C *c, int s, int q) { (void)q; mk2(c, c->a2, s); RO2(c->a2, CALLED(r2d_print(c->a2))); }
// ---- 3D ----
static void op_clip3(C *c, int s, int q) {
  mk3(c, c->a3, s); r3d_plane P[3]; int n = q >= 16 ? 3 : 1, r = 0;
  for (int i = 0; i < 3; ++i) P[i] = pl3(c, c->a3, q >= 16 ? (q - 16 + 4 * i) % 12 : q);
  RO(P, sizeof P, CALLED(r = r3d_clip(c->a3, P, n))); status2(c, r); obs3(c, c->a3, q < 12 && s != 2 && s != 4 && s != 6, SC3);
}
static void op_split3(C *c, int s, int q) {
  r3d_poly *in = (r3d_poly *)malloc(9 * sizeof *in), *o1 = in + 3, *o2 = in + 6; int r = 0;
  mk3(c, &in[0], s); mk3(c, &in[1], 7); mk3(c, &in[2], (s + 3) % N3); for (int i = 0; i < 3; ++i) { out3(c, &o1[i]); out3(c, &o2[i]); }
  r3d_plane P = pl3(c, &in[s == 7 ? 2 : 0], q); CALLED(r = r3d_split(in, 3, P, o1, o2)); status2(c, r);
  for (int i = 0; i < 3; ++i) { obs3(c, &o1[i], 0, SC3); obs3(c, &o2[i], 0, SC3); } free(in);
}
static void op_reduce3(C *c, int s, int q) {
  mk3(c, c->a3, s); r3d_real m[240]; junk(c, m, sizeof m); RO3(c->a3, CALLED(r3d_reduce(c->a3, m, q)));
  for (int i = 0, k = 0; k <= q; ++k) for (int j = 0; j < (k + 1) * (k + 2) / 2; ++j, ++i) o_real(c, m[i], SC3 * pow(8, k));
}
static void op_good3(C *c, int s, int q) {
  mk3(c, c->a3, s); if (q && c->a3->nverts) { c->a3->verts[1].pnbrs[q % 3] = q == 1 ? 0 : q == 2 ? 1 : q == 3 ? -1 : q == 4 ? 5000 : c->a3->verts[1].pnbrs[(q + 1) % 3]; }
  int r = 0; RO3(c->a3, CALLED(r = r3d_is_good(c->a3))); o_int(c, r != 0);
}
static void op_center3(C *c, int s, int q) { (void)q; mk3(c, c->a3, s); r3d_rvec3 v; v.x = v.y = v.z = 0; RO3(c->a3, CALLED(v = r3d_poly_center(c->a3))); if (c->a3->nverts) for (int j = 0; j < 3; ++j) o_real(c, v.xyz[j], 8); }
static void op_shift3(C *c, int s, int q) { (void)s; r3d_real m[240]; for (int i = 0; i < 240; ++i) m[i] = 1.0 / (i + 2); r3d_rvec3 v; v.x = PX(c, 0, 0.7); v.y = PX(c, 1, -0.3); v.z = PX(c, 2, 0.4); CALLED(r3d_shift_moments(m, q, v)); for (int i = 0; i < 240; ++i) o_real(c, m[i], 65536); }
static void op_orient3(C *c, int s, int q) { D3 d; desc(c, &d, s); r3d_rvec3 v[4]; for (int i = 0; i < 4; ++i) v[i] = d.v[(i + q) % 4]; double r; RO(v, sizeof v, BEGIN(c); r = r3d_orient(v); END(c)); o_real(c, r, 256); }
static void op_xform3(C *c, int s, int q) {
  mk3(c, c->a3, s); r3d_rvec3 t; t.x = VAR(0.5); t.y = -VAR(1.25); t.z = VAR(0.75); r3d_real M[4][4] = {{VAR(1), 0.5, 0.25, 2}, {-0.25, 1, 0.125, VAR(1)}, {0.5, -0.125, 1, -1}, {0.03125, 0.0625, -0.03125, 1}};
  RO(M, sizeof M, BEGIN(c); if (q == 0) r3d_translate(c->a3, t); else if (q == 1) r3d_scale(c->a3, VAR(1.5)); else if (q < 5) r3d_shear(c->a3, VAR(0.75), q - 2, (q - 1) % 3); else if (q < 8) r3d_rotate(c->a3, VAR(0.7), q - 5); else r3d_affine(c->a3, M); END(c));
  obs3(c, c->a3, 1, SC3 * 8);
}
static void op_init3(C *c, int s, int q) {
  (void)s; out3(c, c->a3);
  if (q == 0) { r3d_rvec3 v[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) v[i].xyz[j] = PX(c, j, S3[0].v[i][j]); RO(v, sizeof v, CALLED(r3d_init_tet(c->a3, v))); }
  else { r3d_rvec3 b[2]; for (int j = 0; j < 3; ++j) { b[0].xyz[j] = PX(c, j, 0); b[1].xyz[j] = PX(c, j, q + j); } RO(b, sizeof b, CALLED(r3d_init_box(c->a3, b))); }
  obs3(c, c->a3, 1, SC3);
}
static void op_initpoly3(C *c, int s, int q) { // q=1: one face missing (refused)
  D3 *d = (D3 *)malloc(sizeof *d); memset(d, 0, sizeof *d); desc(c, d, s); out3(c, c->a3); int r = 0;
  if (q) d->n = 2; RO(d, sizeof *d, CALLED(r = r3d_init_poly(c->a3, d->v, d->nv, d->fp, d->nf, d->n))); status2(c, r); obs3(c, c->a3, 1, SC3); free(d);
}
static void op_faces3(C *c, int s, int q) {
  r3d_plane f[NB + 2]; junk(c, f, sizeof f); int n;
  if (q == 0) { r3d_rvec3 v[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) v[i].xyz[j] = PX(c, j, S3[0].v[(i + s) % 4][j]); n = 4; RO(v, sizeof v, CALLED(r3d_tet_faces_from_verts(f, v))); }
  else if (q == 1) { r3d_rvec3 b[2]; for (int j = 0; j < 3; ++j) { b[0].xyz[j] = PX(c, j, 0); b[1].xyz[j] = PX(c, j, 1 + s + j); } n = 6; RO(b, sizeof b, CALLED(r3d_box_faces_from_verts(f, b))); }
  else { D3 *d = (D3 *)malloc(sizeof *d); memset(d, 0, sizeof *d); desc(c, d, s); n = d->n; RO(d, sizeof *d, CALLED(r3d_poly_faces_from_verts(f, d->v, d->nv, d->fp, d->nf, d->n))); free(d); }
  for (int i = 0; i < n; ++i) { for (int j = 0; j < 3; ++j) o_real(c, f[i].n.xyz[j], 8); o_real(c, f[i].d, 64); }
}
static void op_brep(C *c, int s, int q) { // q=0: init and free; q=1: after a general clip; q=2: also print
  mk3(c, c->a3, s); if (q) { r3d_plane P = pl3(c, c->a3, 1); r3d_clip(c->a3, &P, 1); if (c->a3->nverts >= 0) junk3(c, c->a3, c->a3->nverts); }
  r3d_brep *b; r3d_int nc; junk(c, &b, sizeof b); junk(c, &nc, sizeof nc);
  RO3(c->a3, CALLED(r3d_init_brep(c->a3, &b, &nc))); o_int(c, nc);
  for (int k = 0; k < nc; ++k) { o_int(c, b[k].numvertices); o_int(c, b[k].numfaces); for (int v = 0; v < b[k].numvertices; ++v) for (int j = 0; j < 3; ++j) o_sreal(c, b[k].vertices[v].xyz[j]); for (int f = 0; f < b[k].numfaces; ++f) { o_st(c, b[k].numvertsperface[f]); for (int v = 0; v < b[k].numvertsperface[f]; ++v) o_st(c, b[k].faceinds[f][v]); } }
  if (q == 2) CALLED(r3d_print_brep(&b, nc)); CALLED(r3d_free_brep(&b, nc));
}
static void op_vox(C *c, int s, int q) {
  mk3(c, c->a3, s); r3d_rvec3 h; h.x = GRID(0.83); h.y = GRID(0.71); h.z = GRID(0.59); r3d_dvec3 ib[2]; junk(c, ib, sizeof ib);
  if (c->a3->nverts == 0) { for (int j = 0; j < 3; ++j) { ib[0].ijk[j] = 0; ib[1].ijk[j] = 2; } } else r3d_get_ibox(c->a3, ib, h);
  int nc = 1, nm = R3D_NUM_MOMENTS(q), r = 0; for (int j = 0; j < 3; ++j) nc *= ib[1].ijk[j] - ib[0].ijk[j]; if (nc < 0 || nc > 4096) { o_int(c, -779); return; }
  r3d_real *g = (r3d_real *)calloc((size_t)nc * nm + 1, sizeof *g);
  RO(ib, sizeof ib, RO3(c->a3, CALLED(r = r3d_voxelize(c->a3, ib, g, h, q)))); status2(c, r);
  for (int i = 0; i < nc; ++i) for (int k = 0, m = 0; k <= q; ++k) for (int j = 0; j < (k + 1) * (k + 2) / 2; ++j, ++m) o_real(c, g[i * nm + m], 32 * pow(8, k));
  free(g);
}
static void op_ibox3(C *c, int s, int q) {
  mk3(c, c->a3, s); if (!c->a3->nverts) { o_int(c, 0); return; }
  r3d_rvec3 h; h.x = GRID(0.83); h.y = GRID(0.71); h.z = GRID(0.59); r3d_dvec3 ib[2], cl[2]; junk(c, ib, sizeof ib);
  if (q == 0) { RO3(c->a3, CALLED(r3d_get_ibox(c->a3, ib, h))); }
  else { r3d_get_ibox(c->a3, ib, h); cl[0] = ib[0]; cl[1] = ib[1]; if (q & 1) { cl[0].i += 1; cl[1].i -= 1; } if (q & 2) cl[1].j -= 2; if (q & 4) { cl[0].k = ib[1].k + 3; cl[1].k = ib[1].k + 6; } RO(cl, sizeof cl, CALLED(r3d_clamp_ibox(c->a3, ib, cl, h))); obs3(c, c->a3, 0, SC3); }
  for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) o_int(c, ib[k].ijk[j]);
}
static void op_print3(C *c, int s, int q) { (void)q; mk3(c, c->a3, s); RO3(c->a3, CALLED(r3d_print(c->a3))); }
// ---- 4D ----
static void op_clip4(C *c, int s, int q) {
  mk4(c, c->a4, s); rNd_plane P[3]; int n = q >= 16 ? 3 : 1, r = 0; for (int i = 0; i < 3; ++i) P[i] = pl4(c, c->a4, q >= 16 ? (q - 16 + 4 * i) % 12 : q);
  RO(P, sizeof P, CALLED(r = rNd_clip(c->a4, P, n))); status2(c, r); obs4(c, c->a4, SC4);
}
static void op_reduce4(C *c, int s, int q) {
  mk4(c, c->a4, s); if (q) { rNd_plane P = pl4(c, c->a4, q); rNd_clip(c->a4, &P, 1); if (c->a4->nverts >= 0) junk4(c, c->a4, c->a4->nverts); }
  rNd_real m[4]; junk(c, m, sizeof m); RO4(c->a4, CALLED(rNd_reduce(c->a4, m, 0))); o_real(c, m[0], SC4 * 4);
}
static void op_good4(C *c, int s, int q) {
  mk4(c, c->a4, s); if (q && c->a4->nverts) { c->a4->verts[1].pnbrs[q % RND_DIM] = q == 1 ? 0 : q == 2 ? 1 : q == 3 ? -1 : 5000; }
  int r = 0; RO4(c->a4, CALLED(r = rNd_is_good(c->a4))); o_int(c, r != 0);
}
static void op_orient4(C *c, int s, int q) { rNd_rvec v[RND_DIM + 1]; for (int i = 0; i <= RND_DIM; ++i) for (int j = 0; j < RND_DIM; ++j) { int k = (i + q) % (RND_DIM + 1); v[i].xyz[j] = PX(c, j, (k == j + 1 ? 2.0 : 0.0) + 0.3 * s * ((k * 3 + j * 5) % 4)); } double r; RO(v, sizeof v, BEGIN(c); r = rNd_orient(v); END(c)); o_real(c, r, 64); }
static void op_xform4(C *c, int s, int q) {
  mk4(c, c->a4, s); rNd_rvec t; for (int j = 0; j < RND_DIM; ++j) t.xyz[j] = VAR(0.5) + 0.25 * j; rNd_real M[RND_DIM + 1][RND_DIM + 1]; for (int i = 0; i <= RND_DIM; ++i) for (int j = 0; j <= RND_DIM; ++j) M[i][j] = (i == j) + 0.03125 * ((i * 5 + j * 3 + s + c->ds) % 7);
  RO(M, sizeof M, BEGIN(c); if (q == 0) rNd_translate(c->a4, t); else if (q == 1) rNd_scale(c->a4, t); else if (q < 6) rNd_shear(c->a4, VAR(0.75), q - 2, (q - 1) % 4); else if (q < 10) rNd_rotate(c->a4, VAR(0.7), q - 6, (q - 4) % 4); else rNd_affine(c->a4, M); END(c));
  obs4(c, c->a4, SC4 * 8);
}
static void op_init4(C *c, int s, int q) {
  out4(c, c->a4);
  if (q) { rNd_rvec b[2]; for (int j = 0; j < RND_DIM; ++j) { b[0].xyz[j] = PX(c, j, 0); b[1].xyz[j] = PX(c, j, 1 + 0.5 * j + s); } RO(b, sizeof b, CALLED(rNd_init_box(c->a4, b))); }
  else { rNd_rvec v[RND_DIM + 1]; for (int i = 0; i <= RND_DIM; ++i) for (int j = 0; j < RND_DIM; ++j) v[i].xyz[j] = PX(c, j, (i == j + 1 ? 2.0 : 0.0) + 0.3 * s * ((i * 3 + j * 5) % 4)); RO(v, sizeof v, CALLED(rNd_init_simplex(c->a4, v))); }
  obs4(c, c->a4, SC4);
}
static void op_vox4(C *c, int s, int q) {
  mk4(c, c->a4, s); rNd_rvec h; for (int j = 0; j < RND_DIM; ++j) h.xyz[j] = GRID(q == 1 ? 0.53 : 1.07) + 0.03 * j; rNd_dvec ib[2]; junk(c, ib, sizeof ib);
  if (c->a4->nverts == 0) { for (int j = 0; j < RND_DIM; ++j) { ib[0].ijk[j] = 0; ib[1].ijk[j] = 2; } } else rNd_get_ibox(c->a4, ib, h);
  int nc = 1, r = 0; for (int j = 0; j < RND_DIM; ++j) nc *= ib[1].ijk[j] - ib[0].ijk[j]; if (nc < 0 || nc > 4096) { o_int(c, -779); return; }
  rNd_real *g = (rNd_real *)calloc((size_t)nc + 1, sizeof *g);
  RO(ib, sizeof ib, RO4(c->a4, CALLED(r = rNd_voxelize(c->a4, ib, g, h, 0)))); status2(c, r);
  for (int i = 0; i < nc; ++i) o_real(c, g[i], SC4); free(g);
}
static void op_ibox4(C *c, int s, int q) {
  mk4(c, c->a4, s); if (!c->a4->nverts) { o_int(c, 0); return; }
  rNd_rvec h; for (int j = 0; j < RND_DIM; ++j) h.xyz[j] = GRID(0.27) + 0.03 * j; rNd_dvec ib[2], cl[2]; junk(c, ib, sizeof ib);
  if (q == 0) { RO4(c->a4, CALLED(rNd_get_ibox(c->a4, ib, h))); }
  else { rNd_get_ibox(c->a4, ib, h); cl[0] = ib[0]; cl[1] = ib[1]; for (int j = 0; j < RND_DIM; ++j) if (q >> j & 1) { cl[0].ijk[j] += 1; cl[1].ijk[j] -= 1; } RO(cl, sizeof cl, CALLED(rNd_clamp_ibox(c->a4, ib, cl, h))); obs4(c, c->a4, SC4); }
  for (int k = 0; k < 2; ++k) for (int j = 0; j < RND_DIM; ++j) o_int(c, ib[k].ijk[j]);
}
static void op_print4(C *c, int s, int q) { (void)q; mk4(c, c->a4, s); RO4(c->a4, CALLED(rNd_print(c->a4))); }

static void op_big2(C *c, int s, int q) { s = BIG; if (q == 0) op_clip2(c, s, 1); else if (q == 1) op_clip2(c, s, 17); else if (q == 2) op_split2(c, s, 4); else if (q == 3) op_reduce2(c, s, 2); else if (q == 4) op_good2(c, s, 0); else op_rast(c, s, 1); }
static void op_big3(C *c, int s, int q) { s = BIG; if (q == 0) op_clip3(c, s, 1); else if (q == 1) op_clip3(c, s, 17); else if (q == 2) op_split3(c, s, 4); else if (q == 3) op_reduce3(c, s, 1); else if (q == 4) op_vox(c, s, 0); else op_clip3(c, s, 12); }
static void op_bigd3(C *c, int s, int q) { s = BIG; if (q == 0) op_initpoly3(c, s, 0); else if (q == 1) op_brep(c, s, 1); else if (q == 2) op_faces3(c, s, 2); else op_ibox3(c, s, 3); }
typedef struct { const char *name; int dim; void (*f)(C *, int, int); int ns, nq; const signed char *qs; } Fam;
static const signed char Q_clip[] = {0, 1, 3, 5, 7, 8, 12, 13, 14, 15, 16, 17, 18}, Q_split[] = {0, 4, 9, 12, 13, 15}, Q_ord[] = {0, 1, 2, 3, 5}, Q_ip2[] = {0, 40, 100}, Q_bit[] = {0, 1, 2, 3, 4, 7}, Q_b4[] = {0, 1, 2, 8, 15}, Q_t0[] = {0}, Q_t1[] = {1}, Q_h2[] = {2, 3}, Q_r2[] = {4}, Q_a2[] = {5}, Q_h3[] = {2, 3, 4}, Q_r3[] = {5, 6, 7}, Q_a3[] = {8}, Q_h4[] = {2, 3, 4, 5}, Q_r4[] = {6, 7, 8, 9}, Q_a4[] = {10}, Q_c4[] = {0, 1, 2, 4, 7, 9, 15, 16, 17};
#define QN(a) (int)sizeof(a), a
static const Fam FAM[] = {
  {"r2d_clip", 2, op_clip2, N2, QN(Q_clip)}, {"r2d_split", 2, op_split2, N2, QN(Q_split)}, {"r2d_reduce", 2, op_reduce2, N2, QN(Q_ord)}, {"r2d_is_good", 2, op_good2, N2, 5, 0}, {"r2d_poly_center", 2, op_center2, N2, 1, 0},
  {"r2d_shift_moments", 2, op_shift2, 1, 5, 0}, {"r2d_orient", 2, op_orient2, 7, 2, 0}, {"r2d_translate", 2, op_xform2, 5, QN(Q_t0)}, {"r2d_scale", 2, op_xform2, 5, QN(Q_t1)}, {"r2d_shear", 2, op_xform2, 5, QN(Q_h2)}, {"r2d_rotate", 2, op_xform2, 5, QN(Q_r2)}, {"r2d_affine", 2, op_xform2, 5, QN(Q_a2)}, {"r2d_init_box", 2, op_initbox2, 1, 2, 0}, {"r2d_init_poly", 2, op_initpoly2, 6, QN(Q_ip2)}, {"r2d_faces", 2, op_faces2, 6, 2, 0},
  {"r2d_rasterize", 2, op_rast, N2, 4, 0}, {"r2d_ibox", 2, op_ibox2, N2, QN(Q_bit)}, {"r2d_print", 2, op_print2, 2, 1, 0}, {"r2d_big", 2, op_big2, 1, 6, 0}, {"r3d_big", 3, op_big3, 1, 6, 0}, {"r3d_big_boundary", 3, op_bigd3, 1, 4, 0},
  {"r3d_clip", 3, op_clip3, N3, QN(Q_clip)}, {"r3d_split", 3, op_split3, N3, QN(Q_split)}, {"r3d_reduce", 3, op_reduce3, N3, QN(Q_ord)}, {"r3d_is_good", 3, op_good3, N3, 6, 0}, {"r3d_poly_center", 3, op_center3, N3, 1, 0},
  {"r3d_shift_moments", 3, op_shift3, 1, 5, 0}, {"r3d_orient", 3, op_orient3, 7, 2, 0}, {"r3d_translate", 3, op_xform3, 4, QN(Q_t0)}, {"r3d_scale", 3, op_xform3, 4, QN(Q_t1)}, {"r3d_shear", 3, op_xform3, 4, QN(Q_h3)}, {"r3d_rotate", 3, op_xform3, 4, QN(Q_r3)}, {"r3d_affine", 3, op_xform3, 4, QN(Q_a3)}, {"r3d_init_tet/box", 3, op_init3, 1, 3, 0}, {"r3d_init_poly", 3, op_initpoly3, 7, 2, 0}, {"r3d_faces", 3, op_faces3, 4, 3, 0}, {"r3d_brep", 3, op_brep, N3, 3, 0},
  {"r3d_voxelize", 3, op_vox, N3, 3, 0}, {"r3d_ibox", 3, op_ibox3, N3, QN(Q_bit)}, {"r3d_print", 3, op_print3, 2, 1, 0},
  {"rNd_clip", 4, op_clip4, N4, QN(Q_c4)}, {"rNd_reduce", 4, op_reduce4, N4, 3, 0}, {"rNd_is_good", 4, op_good4, N4, 5, 0}, {"rNd_orient", 4, op_orient4, 2, 2, 0}, {"rNd_translate", 4, op_xform4, 3, QN(Q_t0)}, {"rNd_scale", 4, op_xform4, 3, QN(Q_t1)}, {"rNd_shear", 4, op_xform4, 3, QN(Q_h4)}, {"rNd_rotate", 4, op_xform4, 3, QN(Q_r4)}, {"rNd_affine", 4, op_xform4, 3, QN(Q_a4)}, {"rNd_init", 4, op_init4, 2, 2, 0},
  {"rNd_voxelize", 4, op_vox4, N4, 2, 0}, {"rNd_ibox", 4, op_ibox4, N4, QN(Q_b4)}, {"rNd_print", 4, op_print4, 2, 1, 0},
};
enum { NFAM = sizeof FAM / sizeof *FAM };
static int count(void) { int n = 0; for (int i = 0; i < NFAM; ++i) n += FAM[i].ns * FAM[i].nq; return n; }
static const Fam *find(int i, int *s, int *q) { for (int k = 0; k < NFAM; ++k) { int m = FAM[k].ns * FAM[k].nq; if (i < m) { *s = i / FAM[k].nq; int j = i % FAM[k].nq; *q = FAM[k].qs ? FAM[k].qs[j] : j; return &FAM[k]; } i -= m; } return 0; }
static void name(int i, char *b, int n) { int s, q; const Fam *f = find(i, &s, &q); snprintf(b, n, "%s[shape %d, variant %d]", f->name, s, q); }
static int dims(int i) { int s, q; return find(i, &s, &q)->dim; }
static void run(int i, int ds, OpCtx *x) {
  int s, q; const Fam *f = find(i, &s, &q); C c; c.x = x; c.ds = ds; x->n = 0;
  c.a2 = (r2d_poly *)malloc(sizeof(r2d_poly)); c.a3 = (r3d_poly *)malloc(sizeof(r3d_poly)); c.a4 = (rNd_poly *)malloc(sizeof(rNd_poly)); c.b2 = c.c2 = 0; c.b3 = c.c3 = 0;
  r2d_poly *m2 = c.a2; r3d_poly *m3 = c.a3; rNd_poly *m4 = c.a4; if (x->fixed[0]) { c.a2 = x->fixed[0]; c.a3 = x->fixed[1]; c.a4 = x->fixed[2]; }
  f->f(&c, s, q); free(m2); free(m3); free(m4);
}
__attribute__((visibility("default"))) OpTable ops_table = {count, name, dims, run, R3D_MAX_VERTS, (int)sizeof(r3d_real)};
