From b46d60bd80f47731a9bd6855f6fabe480d60e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 01/16] fix: r2d_rotate updates the y coordinate instead of
 assigning x twice

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..37e35e9 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -426,7 +426,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From b29fa5f31d08f885ef5d873ea94431df52006515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 02/16] fix: r2d_box_faces_from_verts gives the lower faces the
 right signed distance

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 37e35e9..02efe1a 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -517,8 +517,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From 918bfc0b35945cd4ae5413ad4b3cef076b7ef677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 03/16] fix: r2d_split returns the positive side in out_pos, as
 documented and as r3d_split does

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 02efe1a..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 646af7a9b0627334d2ef1f75b28b131fba8d484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 04/16] fix: rNd_affine accumulates the matrix product and uses
 the full homogeneous row

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From d3106892f2e02ff725c722c19716cacf12b6a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 05/16] fix: rNd_clamp_ibox reserves room for two clip planes
 per dimension

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 959b37283e9b9b6a1a1271bad016f2fd4fbc8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 06/16] fix: r2d_is_good rejects self-pointing vertices and
 negative neighbor indices

---
 src/r2d.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..54a1515 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,8 +403,9 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
-- 
2.43.0


From 64a24ba5929ff082ff56e62e4dbcf48303c5bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 07/16] fix: r3d_is_good and rNd_is_good size the flood-fill
 stack for all pushed neighbors

---
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..8ddf768 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3 * R3D_MAX_VERTS];
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
diff --git a/src/rNd.c b/src/rNd.c
index b993a57..f2dc46d 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -321,7 +321,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS];
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
-- 
2.43.0


From 8f9507fcfd7eaf4119d47db5e3eed3730e8f5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 08/16] fix: r3d_is_good and rNd_is_good reject negative,
 self-pointing and one-way neighbor links

---
 src/r3d.c | 17 ++++++++++++++++-
 src/rNd.c | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index 8ddf768..8925566 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,10 +496,14 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
 		}
 
 		vct[vertbuffer[v].pnbrs[0]]++;
@@ -515,6 +519,17 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 			return 0;
 		}
 
+	// return false if any edge is not shared by both of its vertices
+	for (v = 0; v < *nverts; ++v)
+		for (np = 0; np < 3; ++np) {
+			vc = vertbuffer[v].pnbrs[np];
+			if (vertbuffer[vc].pnbrs[0] != v && vertbuffer[vc].pnbrs[1] != v &&
+					vertbuffer[vc].pnbrs[2] != v) {
+				printf("One-way edge.\n");
+				return 0;
+			}
+		}
+
 	// check for 3-vertex-connectedness this is O(nverts^2)
 
 	// handle multiply-connected polyhedra by testing each component separately.
diff --git a/src/rNd.c b/src/rNd.c
index f2dc46d..47e697d 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -342,7 +342,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
@@ -364,6 +364,18 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 		return 0;
 	}
 
+	// return false if any edge is not shared by both of its vertices
+	for(v = 0; v < *nverts; ++v)
+	for(np = 0; np < RND_DIM; ++np) {
+		vc = vertbuffer[v].pnbrs[np];
+		for(npp = 0; npp < RND_DIM; ++npp)
+			if(vertbuffer[vc].pnbrs[npp] == v) break;
+		if(npp == RND_DIM) {
+			printf("One-way edge.\n");
+			return 0;
+		}
+	}
+
 	/////////////////////////////////////////////////////////
 	// check for k-vertex-connectedness (Balinski's theorem)
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 1ea878af3f7685367c97288b46ba48006250857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 09/16] fix: r3d_init_brep returns zero components for an empty
 polyhedron

---
 src/r3d.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index 8925566..8760382 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1077,6 +1077,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	// local vertex buffer pointer
 	r3d_vertex *vertbuffer = poly->verts;
 
+	// an empty polyhedron has no components
+	if (nverts <= 0) {
+		*brep = NULL;
+		*numcomponents = 0;
+		return;
+	}
+
 	// locals
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
-- 
2.43.0


From 1cc46cea4d5d72dc580fc2dae19a100d7c87b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:57 +0000
Subject: [PATCH 10/16] fix: r3d_init_poly leaves the polyhedron empty when its
 vertices do not fit

---
 src/r3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.c b/src/r3d.c
index 8760382..d6fbbcd 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -828,6 +828,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 #if !defined(NDEBUG)
                           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
+                          *nverts = 0;
                           return 0;
                         }
         
-- 
2.43.0


From 4465070da2306363fd2641e0621c4b902cc0e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 11/16] fix: r3d_init_poly leaves an empty polyhedron when
 given more vertices than the capacity

The early capacity check returned failure without touching the output, so the
caller's polyhedron kept whatever it held before (possibly uninitialised
data); the other failure paths leave it empty.
---
 src/r3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.c b/src/r3d.c
index d6fbbcd..052e483 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -748,6 +748,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 #if !defined(NDEBUG)
           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
+          poly->nverts = 0;
           return 0;
         }
         
-- 
2.43.0


From fdddad004f9e7195f94b6da0641d4b234fe6f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 12/16] fix: r3d_poly_faces_from_verts returns the
 right-hand-rule normal for nonconvex faces too

---
 src/r3d.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index 052e483..eed4d3b 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1018,10 +1018,11 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 		faces[f].n.z = 0.0;
 
 		for (v = 0; v < numvertsperface[f]; ++v) {
-			// add cross product of edges to the total normal
-			p0 = vertices[faceinds[f][v]];
-			p1 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
-			p2 = vertices[faceinds[f][(v + 2) % numvertsperface[f]]];
+			// add the area vector of the triangle that the edge spans with the first
+			// vertex to the total normal (valid for convex and nonconvex faces)
+			p0 = vertices[faceinds[f][0]];
+			p1 = vertices[faceinds[f][v]];
+			p2 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
 			faces[f].n.x +=
 					(p1.y - p0.y) * (p2.z - p0.z) - (p1.z - p0.z) * (p2.y - p0.y);
 			faces[f].n.y +=
@@ -1030,9 +1031,9 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 					(p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
 
 			// add the vertex position to the centroid
-			centroid.x += p0.x;
-			centroid.y += p0.y;
-			centroid.z += p0.z;
+			centroid.x += p1.x;
+			centroid.y += p1.y;
+			centroid.z += p1.z;
 		}
 
 		// normalize the normals and set the signed distance to origin
-- 
2.43.0


From afe7a4c5ee810da37cdc17659af026f61e232cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:50 +0000
Subject: [PATCH 13/16] fix: r3d_init_brep reads past its edge marks for a
 polyhedron that fills the vertex buffer

---
 src/r3d.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index eed4d3b..ddb067a 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1225,13 +1225,15 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			}
 			vstart = nv;
 
-			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
-				if (edge_marked[nv][np] == 0) {
-					break;
+			// find an unwalked edge starting at the this vertex, if there is one
+			if (nv < nverts) {
+				for (np = 0; np < 3; np++) {
+					if (edge_marked[nv][np] == 0) {
+						break;
+					}
 				}
+				pedge = np;
 			}
-			pedge = np;
 
 			// increment the face counter
 			nf++;
-- 
2.43.0


From 9dce3efc0db9b3ebf34940035f000e929c55a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 14/16] fix: deprecated r2d_clip_quad loops forever when no
 vertex is left inside a face

---
 deprecated/r2d.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..4970b00 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -458,7 +458,16 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 		for(v = 0; vcur >= R2D_MAX_VERTS && v < *nverts; ++v) 
 			if(!(vertbuffer[v].orient.fflags & (CLIP_MASK | fmask))) vcur = v;
 		if(vcur >= R2D_MAX_VERTS) continue;
-				
+
+		// if no vertex lies inside of the face, nothing is left
+		for(v = 0; v < *nverts; ++v)
+			if((vertbuffer[v].orient.fflags & (CLIP_MASK | fmask)) == fmask) break;
+		if(v == *nverts) {
+			for(v = 0; v < *nverts; ++v)
+				vertbuffer[v].orient.fflags |= CLIP_MASK;
+			return;
+		}
+
 		// traverse to the right
 		vstart = vcur;
 		searching = 1;
-- 
2.43.0


From 6c6645498877f406404a876b6cd72a0efcbb307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 15/16] fix: deprecated tree voxelization assigns node corners
 to the wrong voxel vertices

---
 deprecated/r3d.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..aefbb3c 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -82,6 +82,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 	r3d_treenode treestack[128];
 	r3d_int ntreestack;
 	r3d_treenode curnode;
+
+	// node corner for each vertex of r3du_init_box(), which is in row-major order
+	static const unsigned char nodecorner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 #else
 	r3d_long vv0;
 	r3d_long vv[8];
@@ -346,7 +349,7 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 			// initialize the unit cube connectivity 
 			r3du_init_box(&voxel, rbounds);
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[nodecorner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From 6e3d3b5f990eeb5ebc31147105c08657b5023613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 16/16] fix: deprecated rNd_reduce clears only the moments of
 the requested order

---
 deprecated/r2d.c | 2 +-
 deprecated/r3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 4970b00..d039a27 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -568,7 +568,7 @@ void r2d_reduce(r2d_poly* poly, r2d_int polyorder, r2d_real* moments) {
 	r2d_int* nverts = &poly->nverts; 
 
 	// zero the moments
-	for(m = 0; m < 6; ++m)
+	for(m = 0; m < r2d_num_moments[polyorder]; ++m)
 		moments[m] = 0.0;
 
 	// iterate over vertices and compute sum over simplices
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index aefbb3c..58d7ae7 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -721,7 +721,7 @@ void r3d_reduce(r3d_poly* poly, r3d_int polyorder, r3d_real* moments) {
 	unsigned char vstack[2*R3D_MAX_VERTS];
 
 	// zero the moments
-	for(m = 0; m < 10; ++m)
+	for(m = 0; m < r3d_num_moments[polyorder]; ++m)
 		moments[m] = 0.0;
 
 	// find the first unclipped vertex
-- 
2.43.0

