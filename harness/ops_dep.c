// ops_dep.c - the table of concrete calls (see ops.c) for the deprecated library, flat or USE_TREE build.
#include "ops.h"
#include "r2d.h"
#include "r3d.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { OpCtx *x; int ds; r2d_poly *a2; r3d_poly *a3; } C;
static void BEGIN(C *c) { if (c->x->before) c->x->before(c->x); }
static void END(C *c) { if (c->x->after) c->x->after(c->x); }
static void oput(C *c, double v, double sc, int kind) { OpCtx *x = c->x; if (x->n < x->max) { x->val[x->n] = v; x->sc[x->n] = sc; x->kind[x->n] = kind; } x->n++; }
static void o_int(C *c, long v) { oput(c, (double)v, 0, OK_INT); }
static void o_real(C *c, double v) { oput(c, v, 1, OK_REAL); }
#define CALLED(X) do { BEGIN(c); X; END(c); } while (0)
#define RO(ptr, len, CALL) do { void *ro_ = malloc(len); memcpy(ro_, (const void *)(ptr), len); CALL; oput(c, memcmp(ro_, (const void *)(ptr), len) ? 1 : 0, 0, OK_RO); free(ro_); } while (0)
static void junk(C *c, void *p, size_t n) {
  switch (c->x->pat) { case 0: memset(p, 0, n); break; case 1: memset(p, 0xff, n); break; case 2: memset(p, 0x7b, n); break;
    default: { int *q = (int *)p; for (size_t i = 0; i < n / 4; ++i) q[i] = (int)((i * 7 + 3) % 11); } }
}
static double PX(C *c, int j, double v) { static const double off[6][3] = {{0.125, 0.0625, 0.1875}, {0.25, 0.3125, 0.0625}, {64, 32, 48}, {8, 4, 2}, {0.1, 0.033, 0.21}, {0.125, 0.0625, 0.1875}}; static const double s[6] = {1, 0.75, 1, 1, 0.70710678118654752, 0.5}; return v * s[c->ds] + off[c->ds][j]; }
static const double V2[4][7][2] = {{{0, 0}, {2, 0}, {0.3, 1.7}}, {{0.1, 0.2}, {1.9, 0.1}, {2.1, 1.8}, {0.2, 1.4}}, {{2, 1}, {1.5, 1.9}, {0.6, 1.9}, {0, 1}, {0.5, 0.1}, {1.5, 0}}, {{0, 0}, {2, 1}, {2.1, 1.3}}};
static const int NV2[4] = {3, 4, 6, 3};
static const double V3[3][4][3] = {{{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}, {{0.1, 0, 0.2}, {2.3, 0.7, 0}, {0.8, 2.1, 0.6}, {0.7, 0.3, 2.2}}, {{0, 0, 0}, {1.9, 1.8, 0.1}, {1.7, 2, 1.9}, {0.2, 0.6, 1.1}}};
static void out2(C *c) { junk(c, c->a2, sizeof *c->a2); } static void out3(C *c) { junk(c, c->a3, sizeof *c->a3); }
static void mk2(C *c, int s) { // 0..3 polygons, 4 box
  r2d_poly *p = c->a2; out2(c);
  if (s == 4) { r2d_rvec2 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0.1); b[1].x = PX(c, 0, 1.7); b[1].y = PX(c, 1, 2); r2du_init_box(p, b); return; }
  int n = NV2[s]; p->nverts = n; for (int i = 0; i < n; ++i) { p->verts[i].pos.x = PX(c, 0, V2[s][i][0]); p->verts[i].pos.y = PX(c, 1, V2[s][i][1]); p->verts[i].pnbrs[0] = (i + n - 1) % n; p->verts[i].pnbrs[1] = (i + 1) % n; p->verts[i].orient.fflags = 0x0f; }
}
static void mk3(C *c, int s) { // 0..2 tetrahedra, 3 box
  r3d_poly *p = c->a3; out3(c);
  if (s == 3) { r3d_rvec3 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0.1); b[0].z = PX(c, 2, -0.2); b[1].x = PX(c, 0, 1.7); b[1].y = PX(c, 1, 2); b[1].z = PX(c, 2, 1.4); r3du_init_box(p, b); return; }
  static const int LK[4][3] = {{1, 3, 2}, {2, 3, 0}, {0, 3, 1}, {1, 2, 0}};
  p->nverts = 4; for (int i = 0; i < 4; ++i) { p->verts[i].pos.x = PX(c, 0, V3[s][i][0]); p->verts[i].pos.y = PX(c, 1, V3[s][i][1]); p->verts[i].pos.z = PX(c, 2, V3[s][i][2]); for (int k = 0; k < 3; ++k) p->verts[i].pnbrs[k] = LK[i][k]; p->verts[i].orient.fflags = 0x0f; }
}
static double pln(C *c, int k, double *n, int D) { static const double N[6][3] = {{0.6, 0.8, 0}, {-0.8, 0.36, 0.48}, {0, -1, 0}, {0.28, -0.96, 0}, {-1, 0, 0}, {0.48, 0.6, -0.64}}; static const double P[6][3] = {{0.4, 0.5, 0.3}, {1.1, 0.9, 0.5}, {0.7, 1.1, 0.2}, {0.9, 1.2, 0.4}, {1.3, 0, 0}, {0.5, 0.4, 0.9}};
  double l = 0, d = 0; for (int j = 0; j < D; ++j) l += N[k][j] * N[k][j]; l = sqrt(l); for (int j = 0; j < D; ++j) { n[j] = N[k][j] / l; d -= n[j] * PX(c, j, P[k][j]); } return d; }
static const int PLS[7][5] = {{1, 0}, {1, 1}, {2, 0, 2}, {2, 1, 5}, {3, 0, 3, 4}, {4, 0, 1, 2, 5}, {4, 5, 4, 3, 0}};
#define FLAGS(p, POS, D) do { double n_[3]; ac = 0x0f; for (int v = 0; v < p->nverts; ++v) { p->verts[v].orient.fflags = 0; for (int f = 0; f < 4; ++f) if (f < PLS[q][0]) { double t = pln(c, PLS[q][1 + f], n_, D); POS; p->verts[v].orient.fdist[f] = t; if (t > 0) p->verts[v].orient.fflags |= 1 << f; } else p->verts[v].orient.fflags |= 1 << f; ac &= p->verts[v].orient.fflags; } } while (0)
static void red2(C *c, int lo, int hi) { for (int o = lo; o <= hi; ++o) { double m[6]; junk(c, m, sizeof m); CALLED(r2d_reduce(c->a2, o, m)); for (int i = 0; i < r2d_num_moments[o]; ++i) o_real(c, m[i]); } }
static void red3(C *c, int lo, int hi) { for (int o = lo; o <= hi; ++o) { double m[10]; junk(c, m, sizeof m); CALLED(r3d_reduce(c->a3, o, m)); for (int i = 0; i < r3d_num_moments[o]; ++i) o_real(c, m[i]); } }
static void op_clip2(C *c, int s, int q) { mk2(c, s); unsigned char ac; FLAGS(c->a2, t += n_[0] * c->a2->verts[v].pos.x + n_[1] * c->a2->verts[v].pos.y, 2); CALLED(r2d_clip_quad(c->a2, ac)); red2(c, 2, 2); }
static void op_clip3(C *c, int s, int q) { mk3(c, s); unsigned char ac; FLAGS(c->a3, t += n_[0] * c->a3->verts[v].pos.x + n_[1] * c->a3->verts[v].pos.y + n_[2] * c->a3->verts[v].pos.z, 3); CALLED(r3d_clip_tet(c->a3, ac)); red3(c, 2, 2); }
static void op_red2(C *c, int s, int q) { mk2(c, s); unsigned char ac; q += 0; { int q = 6; FLAGS(c->a2, t += n_[0] * c->a2->verts[v].pos.x + n_[1] * c->a2->verts[v].pos.y, 2); } r2d_clip_quad(c->a2, ac); red2(c, q, q); }
static void op_red3(C *c, int s, int q) { mk3(c, s); unsigned char ac; { int q = 6; FLAGS(c->a3, t += n_[0] * c->a3->verts[v].pos.x + n_[1] * c->a3->verts[v].pos.y + n_[2] * c->a3->verts[v].pos.z, 3); } r3d_clip_tet(c->a3, ac); red3(c, q, q); }
static void op_box2(C *c, int s, int q) { (void)s; (void)q; out2(c); r2d_rvec2 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0.1); b[1].x = PX(c, 0, 1.7); b[1].y = PX(c, 1, 2); RO(b, sizeof b, CALLED(r2du_init_box(c->a2, b))); o_int(c, c->a2->nverts); for (int v = 0; v < c->a2->nverts; ++v) { o_real(c, c->a2->verts[v].pos.x); o_real(c, c->a2->verts[v].pos.y); o_int(c, c->a2->verts[v].pnbrs[0]); o_int(c, c->a2->verts[v].pnbrs[1]); } }
static void op_box3(C *c, int s, int q) { (void)s; (void)q; out3(c); r3d_rvec3 b[2]; b[0].x = PX(c, 0, 0); b[0].y = PX(c, 1, 0.1); b[0].z = PX(c, 2, -1); b[1].x = PX(c, 0, 1.7); b[1].y = PX(c, 1, 2); b[1].z = PX(c, 2, 3); RO(b, sizeof b, CALLED(r3du_init_box(c->a3, b))); o_int(c, c->a3->nverts); for (int v = 0; v < c->a3->nverts; ++v) { o_real(c, c->a3->verts[v].pos.x); o_real(c, c->a3->verts[v].pos.y); o_real(c, c->a3->verts[v].pos.z); for (int k = 0; k < 3; ++k) o_int(c, c->a3->verts[v].pnbrs[k]); } }
static int faces2(C *c, int s, r2d_plane *F, int timed) { r2d_rvec2 v[7]; memset(v, 0, sizeof v); for (int i = 0; i < NV2[s]; ++i) { v[i].x = PX(c, 0, V2[s][i][0]); v[i].y = PX(c, 1, V2[s][i][1]); } if (timed) RO(v, sizeof v, CALLED(r2du_faces_from_verts(v, NV2[s], F))); else r2du_faces_from_verts(v, NV2[s], F); return NV2[s]; }
static void faces3(C *c, int s, r3d_plane *F, int timed) { r3d_rvec3 v[4]; for (int i = 0; i < 4; ++i) { v[i].x = PX(c, 0, V3[s][i][0]); v[i].y = PX(c, 1, V3[s][i][1]); v[i].z = PX(c, 2, V3[s][i][2]); } if (timed) RO(v, sizeof v, CALLED(r3du_tet_faces_from_verts(v, F))); else r3du_tet_faces_from_verts(v, F); }
static void op_faces2(C *c, int s, int q) { (void)q; r2d_plane F[8]; junk(c, F, sizeof F); int n = faces2(c, s, F, 1); for (int i = 0; i < n; ++i) { o_real(c, F[i].n.x); o_real(c, F[i].n.y); o_real(c, F[i].d); } }
static void op_faces3(C *c, int s, int q) { (void)q; r3d_plane F[4]; junk(c, F, sizeof F); faces3(c, s, F, 1); for (int i = 0; i < 4; ++i) { o_real(c, F[i].n.x); o_real(c, F[i].n.y); o_real(c, F[i].n.z); o_real(c, F[i].d); } }
static void op_orient2(C *c, int s, int q) { r2d_rvec2 v[3]; for (int i = 0; i < 3; ++i) { v[i].x = PX(c, 0, V2[s][(i + q) % 3][0]); v[i].y = PX(c, 1, V2[s][(i + q) % 3][1]); } double r; BEGIN(c); r = r2du_orient(v[0], v[1], v[2]); END(c); o_real(c, r); }
static void op_orient3(C *c, int s, int q) { r3d_rvec3 v[4]; for (int i = 0; i < 4; ++i) { const double *w = V3[s][(i + q) % 4]; v[i].x = PX(c, 0, w[0]); v[i].y = PX(c, 1, w[1]); v[i].z = PX(c, 2, w[2]); } double r; BEGIN(c); r = r3du_orient(v[0], v[1], v[2], v[3]); END(c); o_real(c, r); }
static const int GN[3][3] = {{3, 4, 2}, {7, 2, 3}, {9, 8, 7}}; static const double GD[3][3] = {{0.75, 0.5, 1.1}, {0.41, 1.07, 0.73}, {0.3, 0.33, 0.37}};
static void op_rast(C *c, int s, int q) { // s 0 triangle, 1 quadrilateral; q = grid * 3 + order
  int g = q / 3, o = q % 3; r2d_plane F[8]; memset(F, 0, sizeof F); if (faces2(c, s, F, 0) == 3) F[3] = F[1]; r2d_dest_grid G; junk(c, &G, sizeof G); G.polyorder = o; G.n.i = GN[g][0]; G.n.j = GN[g][1]; G.d.x = GD[g][0]; G.d.y = GD[g][1]; long nc = (long)G.n.i * G.n.j, ng = (long)(G.n.i + 1) * (G.n.j + 1); G.bufsz = ng;
  for (int m = 0; m < 6; ++m) { G.moments[m] = (double *)malloc(sizeof(double) * nc); junk(c, G.moments[m], sizeof(double) * nc); } G.orient = (r2d_orientation *)malloc(sizeof(r2d_orientation) * ng); junk(c, G.orient, sizeof(r2d_orientation) * ng);
  RO(F, sizeof F, CALLED(r2d_rasterize_quad(F, &G))); for (int m = 0; m < r2d_num_moments[o]; ++m) for (long i = 0; i < nc; ++i) o_real(c, G.moments[m][i]); for (int m = 0; m < 6; ++m) free(G.moments[m]); free(G.orient); }
static void op_vox(C *c, int s, int q) {
  int g = q / 3, o = q % 3; r3d_plane F[4]; faces3(c, s, F, 0); r3d_dest_grid G; junk(c, &G, sizeof G); G.polyorder = o; G.n.i = GN[g][0]; G.n.j = GN[g][1]; G.n.k = GN[g][2]; G.d.x = GD[g][0]; G.d.y = GD[g][1]; G.d.z = GD[g][2]; long nc = (long)G.n.i * G.n.j * G.n.k, ng = (long)(G.n.i + 1) * (G.n.j + 1) * (G.n.k + 1); G.bufsz = ng;
  for (int m = 0; m < 10; ++m) { G.moments[m] = (double *)malloc(sizeof(double) * nc); junk(c, G.moments[m], sizeof(double) * nc); } G.orient = (r3d_orientation *)malloc(sizeof(r3d_orientation) * ng); junk(c, G.orient, sizeof(r3d_orientation) * ng);
  RO(F, sizeof F, CALLED(r3d_voxelize_tet(F, &G))); for (int m = 0; m < r3d_num_moments[o]; ++m) for (long i = 0; i < nc; ++i) o_real(c, G.moments[m][i]); for (int m = 0; m < 10; ++m) free(G.moments[m]); free(G.orient); }
typedef struct { const char *name; int dim; void (*f)(C *, int, int); int ns, nq; } Fam;
static const Fam FAM[] = {{"legacy r2d_clip_quad", 2, op_clip2, 5, 7}, {"legacy r2d_reduce", 2, op_red2, 5, 3}, {"legacy r2du_init_box", 2, op_box2, 1, 1}, {"legacy r2du_faces_from_verts", 2, op_faces2, 3, 1}, {"legacy r2du_orient", 2, op_orient2, 3, 2}, {"legacy r2d_rasterize_quad", 2, op_rast, 2, 9},
  {"legacy r3d_clip_tet", 3, op_clip3, 4, 7}, {"legacy r3d_reduce", 3, op_red3, 4, 3}, {"legacy r3du_init_box", 3, op_box3, 1, 1}, {"legacy r3du_tet_faces_from_verts", 3, op_faces3, 3, 1}, {"legacy r3du_orient", 3, op_orient3, 3, 2}, {"legacy r3d_voxelize_tet", 3, op_vox, 3, 9}};
enum { NFAM = sizeof FAM / sizeof *FAM };
static int count(void) { int n = 0; for (int i = 0; i < NFAM; ++i) n += FAM[i].ns * FAM[i].nq; return n; }
static const Fam *find(int i, int *s, int *q) { for (int k = 0; k < NFAM; ++k) { int m = FAM[k].ns * FAM[k].nq; if (i < m) { *s = i / FAM[k].nq; *q = i % FAM[k].nq; return &FAM[k]; } i -= m; } return 0; }
static void name(int i, char *b, int n) { int s, q; const Fam *f = find(i, &s, &q); snprintf(b, n, "%s[shape %d, variant %d]", f->name, s, q); }
static int dims(int i) { int s, q; return find(i, &s, &q)->dim; }
static void run(int i, int ds, OpCtx *x) { int s, q; const Fam *f = find(i, &s, &q); C c; c.x = x; c.ds = ds; x->n = 0; r2d_poly *m2 = (r2d_poly *)malloc(sizeof *m2); r3d_poly *m3 = (r3d_poly *)malloc(sizeof *m3); c.a2 = x->fixed[0] ? (r2d_poly *)x->fixed[0] : m2; c.a3 = x->fixed[1] ? (r3d_poly *)x->fixed[1] : m3; f->f(&c, s, q); free(m2); free(m3); }
__attribute__((visibility("default"))) OpTable ops_table = {count, name, dims, run, R3D_MAX_VERTS, (int)sizeof(r3d_real)};
