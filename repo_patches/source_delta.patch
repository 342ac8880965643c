From 6d0f71807d59ab1a3d84efb3be1f6518d27fed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 01/19] fix: r2d_split put the negative side into out_pos and
 vice versa

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..ce49e10 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 5bb77996cf097b730c48e0d24c2e6d5ab9b61f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 02/19] fix: r2d_rotate wrote the rotated y coordinate into x

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index ce49e10..697b488 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -425,7 +425,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From 521e713017eb977a6a298bce58f3d09e7567265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 03/19] fix: r2d_box_faces_from_verts had the wrong sign of d
 for the lower faces

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 697b488..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -516,8 +516,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From 165ff3d37d6a8a490b61e30fed982697167390f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 04/19] fix: rNd_affine kept only the last matrix column and
 dropped the homogeneous constant

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From 08178c902d902d4a4cd465fc5a1b61d137baffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 05/19] fix: rNd_clamp_ibox overran its array of clip planes
 when clamping on more than six sides

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 4d7307b489fbcad63800e578782f23c77d27162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 06/19] fix: 2D clip, split, rasterize and init wrote past the
 vertex buffer when out of capacity

They now stop and return a status code, as r3d_clip, r3d_split and r3d_init_poly do.
---
 src/r2d.c | 35 ++++++++++++++++++++++++++++++-----
 src/r2d.h | 12 +++++++++---
 src/v2d.c | 27 +++++++++++++++++++--------
 src/v2d.h |  4 +++-
 4 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..8274acd 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -37,7 +37,7 @@
 }
 
 
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 
 	// variable declarations
 	r2d_int v, p, np, onv, vstart, vcur, vnext, numunclipped; 
@@ -45,7 +45,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 1;
 
 	// signed distances to the clipping plane
 	r2d_real sdists[R2D_MAX_VERTS];
@@ -73,7 +73,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -82,6 +82,12 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts >= R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_clip: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[1-np] = vcur;
 				vertbuffer[*nverts].pnbrs[np] = -1;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
@@ -119,9 +125,11 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			vertbuffer[v].pnbrs[1] = clipped[vertbuffer[v].pnbrs[1]];
 		}	
 	}
+
+	return 1;
 }
 
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
 
 	// direct access to vertex buffer
 	r2d_int* nverts;
@@ -176,6 +184,12 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!side[vnext]) continue;
+				if(*nverts > R2D_MAX_VERTS - 2) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_split: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				wav(vertbuffer[vcur].pos, -sdists[vnext],
 					vertbuffer[vnext].pos, sdists[vcur],
 					newpos);
@@ -223,6 +237,8 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np)
 				outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 void r2d_reduce(r2d_poly* poly, r2d_real* moments, r2d_int polyorder) {
@@ -498,7 +514,14 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 }
 
 
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+
+	if(numverts > R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+		fprintf(stderr, "r2d_init_poly: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+		return 0;
+	}
 
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
@@ -512,6 +535,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 		vertbuffer[v].pnbrs[0] = (v+1)%(*nverts);
 		vertbuffer[v].pnbrs[1] = (*nverts+v-1)%(*nverts);
 	}
+
+	return 1;
 }
 
 
diff --git a/src/r2d.h b/src/r2d.h
index 5fc57d4..0cc20ae 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -111,8 +111,10 @@ typedef struct {
  * \param[in] nplanes 
  * The number of planes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
 
 /**
  * \brief Splits a list of polygons across a single plane.  
@@ -136,8 +138,10 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
  * The output array of fragments on the negitive side of the clip plane. Must be at least npolys
  * long. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
 
 /**
  * \brief Integrate a polynomial density over a polygon using simplicial decomposition.
@@ -314,8 +318,10 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2* rbounds);
  * \param [in] numverts
  * Number of vertices in the input polygon. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
 
 /**
  * \brief Get four faces (unit normals and distances to the origin)
diff --git a/src/v2d.c b/src/v2d.c
index 9d98ca5..efae7e7 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -53,9 +54,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
 
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
 
 	r2d_int i, m, spax, dmax, nstack, siz;
 	r2d_int nmom = R2D_NUM_MOMENTS(polyorder);
@@ -66,7 +67,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 	// return if any parameters are bad 
 	for(i = 0; i < 2; ++i) gridsz.ij[i] = ibox[1].ij[i]-ibox[0].ij[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0) return 0;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -113,7 +114,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax);
+		if(!r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r2d_dvec2));
 		//stack[nstack].ibox[0].ij[spax] += dmax/2;
 		//stack[nstack+1].ibox[1].ij[spax] -= dmax-dmax/2; 
@@ -123,12 +124,14 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r2d_int* nverts = &inpoly->nverts;
 	r2d_vertex* vertbuffer = inpoly->verts; 
 	r2d_int v, np, onv, vcur, vnext, vstart, nright, cside;
@@ -151,12 +154,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -166,6 +169,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 		for(np = 0; np < 2; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts > R2D_MAX_VERTS - 2) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r2d_rasterize: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -212,6 +221,8 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 2; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
diff --git a/src/v2d.h b/src/v2d.h
index 3eb036c..d3dbdd2 100644
--- a/src/v2d.h
+++ b/src/v2d.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to rasterize. 
  * 0 for constant (1 moment), 1 for linear (3 moments), 2 for quadratic (6 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing,
-- 
2.43.0


From e9b5861213257504c120d3c31bcd4b2a20e971a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 07/19] fix: r3d_voxelize wrote past the vertex buffer when out
 of capacity

It now stops and returns a status code, as r3d_split does.
---
 src/v3d.c | 27 +++++++++++++++++++--------
 src/v3d.h |  4 +++-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/v3d.c b/src/v3d.c
index 7e6bcb1..0508adf 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -54,9 +55,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
 
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
 
 	r3d_int i, m, spax, dmax, nstack, siz;
 	r3d_int nmom = R3D_NUM_MOMENTS(polyorder);
@@ -67,7 +68,7 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 	// return if any parameters are bad 
 	for(i = 0; i < 3; ++i) gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return 0;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -115,18 +116,20 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r3d_dvec3));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r3d_int* nverts = &inpoly->nverts;
 	r3d_vertex* vertbuffer = inpoly->verts; 
 	r3d_int v, np, npnxt, onv, vcur, vnext, vstart, pnext, nright, cside;
@@ -149,12 +152,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -164,6 +167,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 		for(np = 0; np < 3; ++np) {
 			vnext = vertbuffer[vcur].pnbrs[np];
 			if(!side[vnext]) continue;
+			if(*nverts > R3D_MAX_VERTS - 2) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r3d_voxelize: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
@@ -213,6 +222,8 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 3; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
diff --git a/src/v3d.h b/src/v3d.h
index 5dc8a1e..a4f1c6e 100644
--- a/src/v3d.h
+++ b/src/v3d.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
-- 
2.43.0


From ce590a6652b2721c3c6d81708d8af70e41ee2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 08/19] fix: 4D clip and voxelize wrote past the vertex buffer
 when out of capacity

They now stop and return a status code, as the 3D functions do.
---
 src/rNd.c | 14 +++++++++++---
 src/rNd.h |  4 +++-
 src/vNd.c | 18 ++++++++++--------
 src/vNd.h |  4 +++-
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index b993a57..6d515e6 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -23,13 +23,13 @@
 #include <stdio.h>
 
 
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 
 	// direct access to vertex buffer
 	rNd_vertex* vertbuffer = poly->verts; 
 	rNd_int* nverts = &poly->nverts; 
 	rNd_int* nfaces = &poly->nfaces; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 1;
 
 	// variable declarations
 	rNd_int i, v, p, np, np0, np1, onv, vcur, fcur, vprev, vnext, vstart, 
@@ -63,7 +63,7 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -73,6 +73,12 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts >= RND_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "rNd_clip: Max vertex buffer size exceeded; Increase RND_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[0] = vcur;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
 				for(i = 0; i < RND_DIM; ++i) // weighted average of vertex positions
@@ -168,6 +174,8 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np)
 				vertbuffer[v].pnbrs[np] = clipped[vertbuffer[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 
diff --git a/src/rNd.h b/src/rNd.h
index 620839c..fdd2173 100644
--- a/src/rNd.h
+++ b/src/rNd.h
@@ -110,8 +110,10 @@ typedef struct {
  * \param[in] nplanes 
  * The number of hyperplanes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
 
 /**
  * \brief Integrate a polynomial density over a polytope. Still under development.
diff --git a/src/vNd.c b/src/vNd.c
index 39693f9..5221c04 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -48,9 +48,9 @@
 #include <stdint.h>
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
 
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
 	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
 	rNd_long gind;
@@ -59,10 +59,10 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 
 	// return if any parameters are bad 
 	// calculate grid size 
-	if(!poly || poly->nverts <= 0 || !dest_grid) return;
+	if(!poly || poly->nverts <= 0 || !dest_grid) return 0;
 	for(i = 0; i < RND_DIM; ++i) {
 		gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
-		if(gridsz.ijk[i] <= 0) return; 
+		if(gridsz.ijk[i] <= 0) return 0; 
 	}
 
 	// get the number of grid cells
@@ -129,15 +129,17 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax)) return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(rNd_dvec));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
 
 	// naive split for now
 	*outpolys[0] = *inpoly;
@@ -146,10 +148,10 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 	memset(&splane, 0, sizeof(splane));
 	splane.n.xyz[ax] = -1.0;
 	splane.d = coord;
-	rNd_clip(outpolys[0], &splane, 1);
+	if(!rNd_clip(outpolys[0], &splane, 1)) return 0;
 	splane.n.xyz[ax] *= -1; 
 	splane.d *= -1;
-	rNd_clip(outpolys[1], &splane, 1);
+	return rNd_clip(outpolys[1], &splane, 1);
 
 #if 0
 
diff --git a/src/vNd.h b/src/vNd.h
index 08022f3..445b6dc 100644
--- a/src/vNd.h
+++ b/src/vNd.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
-- 
2.43.0


From 92733ea06df34ed529a8b356c9c4ee9f583d661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 09/19] fix: validity tests overran their buffers on negative
 links and nearly full shapes, and accepted self-links

---
 src/r2d.c | 5 +++--
 src/r3d.c | 8 ++++++--
 src/rNd.c | 4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 8274acd..c23a0c4 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -419,8 +419,9 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..5a0d10d 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3*R3D_MAX_VERTS+1];
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
@@ -496,7 +496,11 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
diff --git a/src/rNd.c b/src/rNd.c
index 6d515e6..1f36892 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -329,7 +329,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS+1];
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
@@ -350,7 +350,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
-- 
2.43.0


From 918dff4183be57c17c94b1f558d101b6a1108b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 10/19] fix: r3d_init_brep read and wrote uninitialised memory
 for an empty polyhedron

---
 src/r3d.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index 5a0d10d..f8c15e2 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1063,6 +1063,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	// constants
 	r3d_int nverts = poly->nverts;
 
+	// an empty polyhedron has no components
+	if (nverts <= 0) {
+		*brep = NULL;
+		*numcomponents = 0;
+		return;
+	}
+
 	// local vertex buffer pointer
 	r3d_vertex *vertbuffer = poly->verts;
 
-- 
2.43.0


From 401608c54032a37a11e82af794c21a62aa772657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 11/19] fix: r3d_poly_faces_from_verts gave flipped normals for
 some nonconvex faces

---
 src/r3d.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index f8c15e2..bc17868 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1005,10 +1005,10 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 		faces[f].n.z = 0.0;
 
 		for (v = 0; v < numvertsperface[f]; ++v) {
-			// add cross product of edges to the total normal
-			p0 = vertices[faceinds[f][v]];
-			p1 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
-			p2 = vertices[faceinds[f][(v + 2) % numvertsperface[f]]];
+			// add the area vector of each triangle fanned from the first vertex
+			p0 = vertices[faceinds[f][0]];
+			p1 = vertices[faceinds[f][v]];
+			p2 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
 			faces[f].n.x +=
 					(p1.y - p0.y) * (p2.z - p0.z) - (p1.z - p0.z) * (p2.y - p0.y);
 			faces[f].n.y +=
@@ -1017,9 +1017,9 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 					(p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
 
 			// add the vertex position to the centroid
-			centroid.x += p0.x;
-			centroid.y += p0.y;
-			centroid.z += p0.z;
+			centroid.x += p1.x;
+			centroid.y += p1.y;
+			centroid.z += p1.z;
 		}
 
 		// normalize the normals and set the signed distance to origin
-- 
2.43.0


From 5dfe9847cce0142fac8c6446cda6dfd5e0f64d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 12/19] fix: r3d_init_brep read past its edge marks for a
 polyhedron that fills the vertex buffer

---
 src/r3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bc17868..fd9a4a0 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1211,8 +1211,8 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			}
 			vstart = nv;
 
-			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			// find an unwalked edge starting at the this vertex, if there is one
+			for (np = 0; nv < nverts && np < 3; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
-- 
2.43.0


From 217d882d719203364096393a02d96ebc12fee22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:52 +0000
Subject: [PATCH 13/19] fix: legacy reduce cleared moments beyond the requested
 order

---
 deprecated/r2d.c | 2 +-
 deprecated/r3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..2d55b21 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -559,7 +559,7 @@ void r2d_reduce(r2d_poly* poly, r2d_int polyorder, r2d_real* moments) {
 	r2d_int* nverts = &poly->nverts; 
 
 	// zero the moments
-	for(m = 0; m < 6; ++m)
+	for(m = 0; m < r2d_num_moments[polyorder]; ++m)
 		moments[m] = 0.0;
 
 	// iterate over vertices and compute sum over simplices
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..1afd526 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -718,7 +718,7 @@ void r3d_reduce(r3d_poly* poly, r3d_int polyorder, r3d_real* moments) {
 	unsigned char vstack[2*R3D_MAX_VERTS];
 
 	// zero the moments
-	for(m = 0; m < 10; ++m)
+	for(m = 0; m < r3d_num_moments[polyorder]; ++m)
 		moments[m] = 0.0;
 
 	// find the first unclipped vertex
-- 
2.43.0


From 0aaaa5efb3a67b091e0290711a3fde509de87997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:53 +0000
Subject: [PATCH 14/19] fix: legacy box initialisation left the vertex flags
 unset, so reducing an unclipped box read garbage

---
 deprecated/r2d.c | 3 +++
 deprecated/r3d.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 2d55b21..045c245 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -592,6 +592,7 @@ void r2du_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
+	r2d_int v;
 	
 	*nverts = 4;
 	vertbuffer[0].pnbrs[0] = 3;	
@@ -610,6 +611,8 @@ void r2du_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 	vertbuffer[2].pos.y = rbounds[1].y; 
 	vertbuffer[3].pos.x = rbounds[0].x; 
 	vertbuffer[3].pos.y = rbounds[0].y; 
+	for(v = 0; v < *nverts; ++v)
+		vertbuffer[v].orient.fflags = 0x00;
 }
 
 void r2du_faces_from_verts(r2d_rvec2* verts, r2d_int nverts, r2d_plane* faces) {
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 1afd526..577d4c9 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -866,6 +866,7 @@ void r3du_init_box(r3d_poly* poly, r3d_rvec3 rbounds[2]) {
 		vertbuffer[4*i+2*j+k].pos.x = rbounds[i].x;
 		vertbuffer[4*i+2*j+k].pos.y = rbounds[j].y;
 		vertbuffer[4*i+2*j+k].pos.z = rbounds[k].z;
+		vertbuffer[4*i+2*j+k].orient.fflags = 0x00;
 	}
 
 	// fill out vertex connectivity explicitly
-- 
2.43.0


From ed585a9ad8d53436f2f9e623db0b3cc71dfb3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:53 +0000
Subject: [PATCH 15/19] fix: legacy tree voxelization paired node corners with
 the wrong box vertices

---
 deprecated/r3d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 577d4c9..6b70cc0 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -82,6 +82,7 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 	r3d_treenode treestack[128];
 	r3d_int ntreestack;
 	r3d_treenode curnode;
+	const r3d_int nodecorner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 #else
 	r3d_long vv0;
 	r3d_long vv[8];
@@ -345,8 +346,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 
 			// initialize the unit cube connectivity 
 			r3du_init_box(&voxel, rbounds);
+			// (the node corners are not stored in the row-major order of the box vertices)
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[nodecorner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From 1830ab52a872c03188ec23c403c3b13ef3b57ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:46 +0000
Subject: [PATCH 16/19] fix: legacy r2d_clip_quad looped forever when nothing
 was left inside a line

---
 deprecated/r2d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 045c245..a148d17 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -499,8 +499,12 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 			}
 			vertbuffer[vcur].orient.fflags |= CLIP_MASK;
 			vcur = vnext;
+			if(vcur == vstart) break;
 		}
 
+		// all vertices lie outside, nothing is left
+		if(searching) return;
+
 		// traverse to the left
 		vcur = vstart;
 		searching = 1;
-- 
2.43.0


From 11e78adaf8b918d18680587f99fb5994028d0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 17/19] fix: r3d_clip reported failure when the polyhedron was
 already empty

---
 src/r3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3d.c b/src/r3d.c
index fd9a4a0..abea71c 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -45,7 +45,7 @@ int r3d_clip(r3d_poly *poly, r3d_plane *planes, r3d_int nplanes) {
 	// direct access to vertex buffer
 	r3d_vertex *vertbuffer = poly->verts;
 	r3d_int *nverts = &poly->nverts;
-	if (*nverts <= 0) return 0;
+	if (*nverts <= 0) return 1;
 
 	// variable declarations
 	r3d_int v, p, np, onv, vcur, vnext, vstart, pnext, numunclipped;
-- 
2.43.0


From 0206072f9fa26452d189be855c930b42ee4e6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:12 +0000
Subject: [PATCH 18/19] fix: legacy second moments of fully covered cells
 overflow past index 26754

---
 deprecated/r2d.c |  8 ++++----
 deprecated/r3d.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index a148d17..f7b7ca7 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -148,8 +148,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 				moments[2] = locvol*d.y*(j + 0.5); // y
 			}
 			if(polyorder >= 2) {
-				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 				moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 			}
 
@@ -271,8 +271,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 					moments[2] = locvol*d.y*(j + 0.5); // y
 				}
 				if(polyorder >= 2) {
-					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 					moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				}
 
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 6b70cc0..4ac4a43 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -156,9 +156,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 				moments[3] = locvol*d.z*(k + 0.5); // z
 			}
 			if(polyorder >= 2) {
-				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 				moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 				moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
@@ -315,9 +315,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 					moments[3] = locvol*d.z*(k + 0.5); // z
 				}
 				if(polyorder >= 2) {
-					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 					moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 					moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 					moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
-- 
2.43.0


From 655dc63b68fdb7dc6a6e01c468552dd16d1cb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:28 +0000
Subject: [PATCH 19/19] fix: index boxes of shapes with coordinates beyond 1e30

---
 src/v2d.c | 4 ++--
 src/v3d.c | 4 ++--
 src/vNd.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index efae7e7..4299558 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -229,8 +229,8 @@ void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
 	r2d_int i, v;
 	r2d_rvec2 rbox[2];
 	for(i = 0; i < 2; ++i) {
-		rbox[0].xy[i] = 1.0e30;
-		rbox[1].xy[i] = -1.0e30;
+		rbox[0].xy[i] = HUGE_VAL;
+		rbox[1].xy[i] = -HUGE_VAL;
 	}
 	for(v = 0; v < poly->nverts; ++v) {
 		for(i = 0; i < 2; ++i) {
diff --git a/src/v3d.c b/src/v3d.c
index 0508adf..8452605 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -230,8 +230,8 @@ void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
 	r3d_int i, v;
 	r3d_rvec3 rbox[2];
 	for(i = 0; i < 3; ++i) {
-		rbox[0].xyz[i] = 1.0e30;
-		rbox[1].xyz[i] = -1.0e30;
+		rbox[0].xyz[i] = HUGE_VAL;
+		rbox[1].xyz[i] = -HUGE_VAL;
 	}
 	for(v = 0; v < poly->nverts; ++v) {
 		for(i = 0; i < 3; ++i) {
diff --git a/src/vNd.c b/src/vNd.c
index 5221c04..948260a 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -251,8 +251,8 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 	rNd_int i, v;
 	rNd_rvec rbox[2];
 	for(i = 0; i < RND_DIM; ++i) {
-		rbox[0].xyz[i] = 1.0e30;
-		rbox[1].xyz[i] = -1.0e30;
+		rbox[0].xyz[i] = HUGE_VAL;
+		rbox[1].xyz[i] = -HUGE_VAL;
 	}
 	for(v = 0; v < poly->nverts; ++v) {
 		for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0

