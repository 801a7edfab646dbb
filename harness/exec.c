/* Executor: replays a command script against the real r2d/r3d/rNd code.
 *
 *   exec RESULT_FILE [nthreads] < SCRIPT
 *
 * Every command is one line.  Commands that observe something print exactly
 * one line to RESULT_FILE (the library itself may print on stdout/stderr).
 * "B <id>" starts a behaviour: all slots are dropped, results are flushed.
 * Poly objects live in exact-size heap blocks so that address sanitizer sees
 * every access outside them; they are filled with a garbage pattern first.
 */
#include <math.h>
#include <stdio.h>
#include <sys/time.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"

#ifndef MAXSLOT
#define MAXSLOT 400
#endif

typedef struct {
	char *p;
	FILE *out;
	long mods;
	r2d_poly *p2[MAXSLOT];
	r3d_poly *p3[MAXSLOT];
	rNd_poly *p4[MAXSLOT];
} ctx;

static long rdi(ctx *c) { return strtol(c->p, &c->p, 10); }
static double rdf(ctx *c) { return strtod(c->p, &c->p); }
static void word(ctx *c, char *w) {
	while (*c->p == ' ') c->p++;
	int n = 0;
	while (*c->p && *c->p != ' ' && *c->p != '\n' && n < 31) w[n++] = *c->p++;
	w[n] = 0;
}
static int fill = 0xA5, scrib;
static void *garbage(size_t n) {
	void *r = malloc(n ? n : 1);
	if (!r) exit(77);
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(memory_sanitizer)      /* there, fresh memory has to stay unknown */
	memset(r, fill, n);
#endif
	return r;
}
/* what fresh memory and the unused stack hold before a call: VF_FILL, VF_SCRIBBLE */
__attribute__((noinline)) static void scribble(int n) {
	volatile char b[1 << 16];
	for (unsigned i = 0; i < sizeof(b); i += 1) b[i] = (char)fill;
	if (n > 1) scribble(n - 1);
	b[0] = b[n];
}
/* arguments that a call is not to change */
typedef struct { const void *p; void *q; size_t n; } keep;
static keep hold(const void *p, size_t n) { keep k = {p, malloc(n ? n : 1), n}; memcpy(k.q, p, n); return k; }
static void held(ctx *c, keep k) { if (memcmp(k.p, k.q, k.n)) c->mods++; free(k.q); }
static void pd(ctx *c, double x) { fprintf(c->out, " %.17g", x); }

/* ---------------------------------------------------------------- slots */
static r2d_poly *s2(ctx *c, int i) {
	if (!c->p2[i]) { c->p2[i] = garbage(sizeof(r2d_poly)); c->p2[i]->nverts = 0; }
	return c->p2[i];
}
static r3d_poly *s3(ctx *c, int i) {
	if (!c->p3[i]) { c->p3[i] = garbage(sizeof(r3d_poly)); c->p3[i]->nverts = 0; }
	return c->p3[i];
}
static rNd_poly *s4(ctx *c, int i) {
	if (!c->p4[i]) { c->p4[i] = garbage(sizeof(rNd_poly)); c->p4[i]->nverts = 0; c->p4[i]->nfaces = 0; }
	return c->p4[i];
}
static void drop(ctx *c) {
	for (int i = 0; i < MAXSLOT; ++i) {
		free(c->p2[i]); free(c->p3[i]); free(c->p4[i]);
		c->p2[i] = 0; c->p3[i] = 0; c->p4[i] = 0;
	}
}
static r3d_rvec3 rv3(ctx *c) { r3d_rvec3 v; v.x = rdf(c); v.y = rdf(c); v.z = rdf(c); return v; }
static r2d_rvec2 rv2(ctx *c) { r2d_rvec2 v; v.x = rdf(c); v.y = rdf(c); return v; }
static rNd_rvec rv4(ctx *c) { rNd_rvec v; for (int i = 0; i < RND_DIM; ++i) v.xyz[i] = rdf(c); return v; }
static r3d_plane rp3(ctx *c) { r3d_plane q; q.n = rv3(c); q.d = rdf(c); return q; }
static r2d_plane rp2(ctx *c) { r2d_plane q; q.n = rv2(c); q.d = rdf(c); return q; }
static rNd_plane rp4(ctx *c) { rNd_plane q; q.n = rv4(c); q.d = rdf(c); return q; }

/* output buffers hold an old body that the call has to replace */
static void stale3(r3d_poly *p) {
	static const int t[4][3] = {{1, 3, 2}, {2, 3, 0}, {0, 3, 1}, {1, 2, 0}};
	p->nverts = 4;
	for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { p->verts[i].pos.xyz[k] = (i == k + 1) + 3; p->verts[i].pnbrs[k] = t[i][k]; }
}
static void stale2(r2d_poly *p) {
	p->nverts = 3;
	for (int i = 0; i < 3; ++i) { p->verts[i].pos.xy[0] = i == 1; p->verts[i].pos.xy[1] = i == 2; p->verts[i].pnbrs[0] = (i + 1) % 3; p->verts[i].pnbrs[1] = (i + 2) % 3; }
}

/* brep-like input: nv, verts, nf, (n idx...)... */
typedef struct { r3d_rvec3 *v; int nv; r3d_int **f; r3d_int *n; int nf; } binp;
static binp rb(ctx *c) {
	binp b;
	b.nv = rdi(c);
	b.v = garbage(b.nv * sizeof(r3d_rvec3));
	for (int i = 0; i < b.nv; ++i) b.v[i] = rv3(c);
	b.nf = rdi(c);
	b.f = garbage(b.nf * sizeof(r3d_int *));
	b.n = garbage(b.nf * sizeof(r3d_int));
	for (int i = 0; i < b.nf; ++i) {
		b.n[i] = rdi(c);
		b.f[i] = garbage(b.n[i] * sizeof(r3d_int));
		for (int j = 0; j < b.n[i]; ++j) b.f[i][j] = rdi(c);
	}
	return b;
}
/* sum of a description, to see that a call left it alone */
static unsigned long sum(const void *p, size_t n, unsigned long h) { const unsigned char *q = p; while (n--) h = (h ^ *q++) * 1099511628211ul; return h; }
static unsigned long bsum(binp b) {
	unsigned long h = sum(b.v, b.nv * sizeof(*b.v), 1469598103934665603ul);
	h = sum(b.n, b.nf * sizeof(*b.n), h);
	for (int i = 0; i < b.nf; ++i) h = sum(b.f[i], b.n[i] * sizeof(r3d_int), h);
	return h;
}
static void fb(binp b) {
	for (int i = 0; i < b.nf; ++i) free(b.f[i]);
	free(b.f); free(b.n); free(b.v);
}

/* ---------------------------------------------------------------- 3D */
static void do3(ctx *c) {
	char w[32];
	word(c, w);
	FILE *o = c->out;
	if (!strcmp(w, "tet")) {
		int s = rdi(c); r3d_rvec3 *v = garbage(4 * sizeof(*v));
		for (int i = 0; i < 4; ++i) v[i] = rv3(c);
		{ keep k_ = hold(v, 4 * sizeof(*v)); r3d_init_tet(s3(c, s), v); held(c, k_); } free(v);
	} else if (!strcmp(w, "box")) {
		int s = rdi(c); r3d_rvec3 *v = garbage(2 * sizeof(*v));
		for (int i = 0; i < 2; ++i) v[i] = rv3(c);
		{ keep k_ = hold(v, 2 * sizeof(*v)); r3d_init_box(s3(c, s), v); held(c, k_); } free(v);
	} else if (!strcmp(w, "poly")) {
		int s = rdi(c); binp b = rb(c); unsigned long h = bsum(b);
		int r = r3d_init_poly(s3(c, s), b.v, b.nv, b.f, b.n, b.nf);
		c->mods += bsum(b) != h;
		fprintf(o, "ret %d %d\n", r, s3(c, s)->nverts); fb(b);
	} else if (!strcmp(w, "set")) {
		int s = rdi(c), n = rdi(c); r3d_poly *p = s3(c, s);
		p->nverts = n;
		for (int i = 0; i < n; ++i) {
			p->verts[i].pos = rv3(c);
			for (int k = 0; k < 3; ++k) p->verts[i].pnbrs[k] = rdi(c);
		}
	} else if (!strcmp(w, "copy")) {
		int a = rdi(c), b = rdi(c); *s3(c, b) = *s3(c, a);
	} else if (!strcmp(w, "clip")) {
		int s = rdi(c), n = rdi(c); r3d_plane *q = garbage(n * sizeof(*q));
		for (int i = 0; i < n; ++i) q[i] = rp3(c);
		r3d_plane *q2 = garbage(n * sizeof(*q)); memcpy(q2, q, n * sizeof(*q));
		int r = r3d_clip(s3(c, s), q, n);
		fprintf(o, "ret %d %d %d\n", r, s3(c, s)->nverts, memcmp(q, q2, n * sizeof(*q)) ? 1 : 0);
		free(q); free(q2);
	} else if (!strcmp(w, "split")) {
		int n = rdi(c); int *in = garbage(n * sizeof(int)), *po = garbage(n * sizeof(int)), *ne = garbage(n * sizeof(int));
		for (int i = 0; i < n; ++i) in[i] = rdi(c);
		for (int i = 0; i < n; ++i) po[i] = rdi(c);
		for (int i = 0; i < n; ++i) ne[i] = rdi(c);
		r3d_plane q = rp3(c);
		r3d_poly *a = garbage(n * sizeof(r3d_poly)), *b = garbage(n * sizeof(r3d_poly)), *d = garbage(n * sizeof(r3d_poly));
		for (int i = 0; i < n; ++i) { a[i] = *s3(c, in[i]); stale3(&b[i]); stale3(&d[i]); }
		int r = r3d_split(a, n, q, b, d);
		fprintf(o, "ret %d", r);
		if (r) for (int i = 0; i < n; ++i) {
			*s3(c, in[i]) = a[i]; *s3(c, po[i]) = b[i]; *s3(c, ne[i]) = d[i];
			fprintf(o, " %d %d", b[i].nverts, d[i].nverts);
		}
		fprintf(o, "\n");
		free(a); free(b); free(d); free(in); free(po); free(ne);
	} else if (!strcmp(w, "reduce")) {
		int s = rdi(c), k = rdi(c); int nm = R3D_NUM_MOMENTS(k);
		r3d_real *m = garbage(nm * sizeof(*m));
		r3d_reduce(s3(c, s), m, k);
		fprintf(o, "mom"); for (int i = 0; i < nm; ++i) pd(c, m[i]); fprintf(o, "\n"); free(m);
	} else if (!strcmp(w, "dump")) {
		int s = rdi(c); r3d_poly *p = s3(c, s);
		fprintf(o, "poly %d", p->nverts);
		for (int i = 0; i < p->nverts; ++i) {
			for (int k = 0; k < 3; ++k) pd(c, p->verts[i].pos.xyz[k]);
			for (int k = 0; k < 3; ++k) fprintf(o, " %d", p->verts[i].pnbrs[k]);
		}
		fprintf(o, "\n");
	} else if (!strcmp(w, "good")) {
		int s = rdi(c); fprintf(o, "good %d\n", r3d_is_good(s3(c, s)));
	} else if (!strcmp(w, "center")) {
		int s = rdi(c); r3d_rvec3 v = r3d_poly_center(s3(c, s));
		fprintf(o, "vec"); pd(c, v.x); pd(c, v.y); pd(c, v.z); fprintf(o, "\n");
	} else if (!strcmp(w, "shiftmom")) {
		int k = rdi(c); int nm = R3D_NUM_MOMENTS(k); r3d_real *m = garbage(nm * sizeof(*m));
		for (int i = 0; i < nm; ++i) m[i] = rdf(c);
		r3d_rvec3 v = rv3(c); r3d_shift_moments(m, k, v);
		fprintf(o, "mom"); for (int i = 0; i < nm; ++i) pd(c, m[i]); fprintf(o, "\n"); free(m);
	} else if (!strcmp(w, "orient")) {
		r3d_rvec3 *v = garbage(4 * sizeof(*v)); for (int i = 0; i < 4; ++i) v[i] = rv3(c);
		fprintf(o, "num"); pd(c, r3d_orient(v)); fprintf(o, "\n"); free(v);
	} else if (!strcmp(w, "rotate")) {
		int s = rdi(c); double t = rdf(c); int a = rdi(c); r3d_rotate(s3(c, s), t, a);
	} else if (!strcmp(w, "translate")) {
		int s = rdi(c); r3d_translate(s3(c, s), rv3(c));
	} else if (!strcmp(w, "scale")) {
		int s = rdi(c); r3d_scale(s3(c, s), rdf(c));
	} else if (!strcmp(w, "shear")) {
		int s = rdi(c); double t = rdf(c); int a = rdi(c), b = rdi(c); r3d_shear(s3(c, s), t, a, b);
	} else if (!strcmp(w, "affine")) {
		int s = rdi(c); r3d_real m[4][4];
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m[i][j] = rdf(c);
		{ keep k_ = hold(m, sizeof(m)); r3d_affine(s3(c, s), m); held(c, k_); }
	} else if (!strcmp(w, "tetfaces") || !strcmp(w, "boxfaces")) {
		int nv = w[0] == 't' ? 4 : 2, nf = w[0] == 't' ? 4 : 6;
		r3d_rvec3 *v = garbage(nv * sizeof(*v)); for (int i = 0; i < nv; ++i) v[i] = rv3(c);
		r3d_plane *q = garbage(nf * sizeof(*q));
		{ keep k_ = hold(v, nv * sizeof(*v)); if (w[0] == 't') r3d_tet_faces_from_verts(q, v); else r3d_box_faces_from_verts(q, v); held(c, k_); }
		fprintf(o, "planes %d", nf);
		for (int i = 0; i < nf; ++i) { for (int k = 0; k < 3; ++k) pd(c, q[i].n.xyz[k]); pd(c, q[i].d); }
		fprintf(o, "\n"); free(v); free(q);
	} else if (!strcmp(w, "polyfaces")) {
		binp b = rb(c); r3d_plane *q = garbage(b.nf * sizeof(*q)); unsigned long h = bsum(b);
		r3d_poly_faces_from_verts(q, b.v, b.nv, b.f, b.n, b.nf);
		c->mods += bsum(b) != h;
		fprintf(o, "planes %d", b.nf);
		for (int i = 0; i < b.nf; ++i) { for (int k = 0; k < 3; ++k) pd(c, q[i].n.xyz[k]); pd(c, q[i].d); }
		fprintf(o, "\n"); free(q); fb(b);
	} else if (!strcmp(w, "cliptetf") || !strcmp(w, "clipboxf")) {
		/* clip a slot with the face planes computed for a tetrahedron or box */
		int s = rdi(c), t = w[4] == 't', nv = t ? 4 : 2, nf = t ? 4 : 6;
		r3d_rvec3 *v = garbage(nv * sizeof(*v)); for (int i = 0; i < nv; ++i) v[i] = rv3(c);
		r3d_plane *q = garbage(nf * sizeof(*q));
		if (t) r3d_tet_faces_from_verts(q, v); else r3d_box_faces_from_verts(q, v);
		int r = r3d_clip(s3(c, s), q, nf);
		fprintf(o, "ret %d %d\n", r, s3(c, s)->nverts); free(v); free(q);
	} else if (!strcmp(w, "clippolyf")) {
		int s = rdi(c); binp b = rb(c); r3d_plane *q = garbage(b.nf * sizeof(*q));
		r3d_poly_faces_from_verts(q, b.v, b.nv, b.f, b.n, b.nf);
		for (int i = 0; i < b.nf; ++i) { for (int k = 0; k < 3; ++k) q[i].n.xyz[k] = -q[i].n.xyz[k]; q[i].d = -q[i].d; }
		int r = r3d_clip(s3(c, s), q, b.nf);
		fprintf(o, "ret %d %d\n", r, s3(c, s)->nverts); free(q); fb(b);
	} else if (!strcmp(w, "brep")) {
		int s = rdi(c); r3d_brep *b = NULL; r3d_int nc = -1;
		r3d_init_brep(s3(c, s), &b, &nc);
		fprintf(o, "brep %d", nc);
		for (int k = 0; k < nc; ++k) {
			fprintf(o, " %d", b[k].numvertices);
			for (int i = 0; i < b[k].numvertices; ++i) { pd(c, b[k].vertices[i].x); pd(c, b[k].vertices[i].y); pd(c, b[k].vertices[i].z); }
			fprintf(o, " %d", b[k].numfaces);
			for (int f = 0; f < b[k].numfaces; ++f) {
				fprintf(o, " %d", b[k].numvertsperface[f]);
				for (int i = 0; i < b[k].numvertsperface[f]; ++i) fprintf(o, " %d", b[k].faceinds[f][i]);
			}
		}
		fprintf(o, "\n");
		r3d_free_brep(&b, nc);
	} else if (!strcmp(w, "brep2poly")) {
		/* convert slot a to a boundary representation and rebuild component k in slot b+k */
		int a = rdi(c), t = rdi(c); r3d_brep *b = NULL; r3d_int nc = -1;
		r3d_init_brep(s3(c, a), &b, &nc);
		fprintf(o, "ret %d", nc);
		for (int k = 0; k < nc; ++k) {
			int r = r3d_init_poly(s3(c, t + k), b[k].vertices, b[k].numvertices, b[k].faceinds, b[k].numvertsperface, b[k].numfaces);
			fprintf(o, " %d", r);
		}
		fprintf(o, "\n");
		r3d_free_brep(&b, nc);
	} else if (!strcmp(w, "vox")) {
		/* slot order ibox(6) d(3) prefill : full grid; writes outside are seen by asan */
		int s = rdi(c), k = rdi(c); r3d_dvec3 ib[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) ib[i].ijk[j] = rdi(c);
		r3d_rvec3 d = rv3(c); double pre = rdf(c);
		long n = R3D_NUM_MOMENTS(k);
		for (int j = 0; j < 3; ++j) n *= (ib[1].ijk[j] - ib[0].ijk[j]) > 0 ? (ib[1].ijk[j] - ib[0].ijk[j]) : 0;
		r3d_real *g = garbage(n * sizeof(*g));
		for (long i = 0; i < n; ++i) g[i] = pre * (i % 7 + 1);
		{ keep k_ = hold(ib, sizeof(ib)); r3d_voxelize(s3(c, s), ib, g, d, k); held(c, k_); }
		fprintf(o, "grid %ld", n); for (long i = 0; i < n; ++i) pd(c, g[i]); fprintf(o, "\n"); free(g);
	} else if (!strcmp(w, "ibox")) {
		int s = rdi(c); r3d_rvec3 d = rv3(c); r3d_dvec3 ib[2]; memset(ib, 0x55, sizeof(ib));
		r3d_get_ibox(s3(c, s), ib, d);
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) fprintf(o, " %d", ib[i].ijk[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "clamp")) {
		int s = rdi(c); r3d_dvec3 ib[2], cb[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) ib[i].ijk[j] = rdi(c);
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) cb[i].ijk[j] = rdi(c);
		r3d_rvec3 d = rv3(c); { keep k_ = hold(cb, sizeof(cb)); r3d_clamp_ibox(s3(c, s), ib, cb, d); held(c, k_); }
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) fprintf(o, " %d", ib[i].ijk[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "info")) {
		fprintf(o, "info %d %d\n", R3D_MAX_VERTS, (int)sizeof(r3d_real));
	} else { fprintf(stderr, "bad command 3 %s\n", w); exit(78); }
}

/* ---------------------------------------------------------------- 2D */
static void do2(ctx *c) {
	char w[32];
	word(c, w);
	FILE *o = c->out;
	if (!strcmp(w, "box")) {
		int s = rdi(c); r2d_rvec2 *v = garbage(2 * sizeof(*v)); v[0] = rv2(c); v[1] = rv2(c);
		{ keep k_ = hold(v, 2 * sizeof(*v)); r2d_init_box(s2(c, s), v); held(c, k_); } free(v);
	} else if (!strcmp(w, "poly")) {
		int s = rdi(c), n = rdi(c); r2d_rvec2 *v = garbage(n * sizeof(*v));
		for (int i = 0; i < n; ++i) v[i] = rv2(c);
		{ keep k_ = hold(v, n * sizeof(*v)); r2d_init_poly(s2(c, s), v, n); held(c, k_); } free(v);
	} else if (!strcmp(w, "set")) {
		int s = rdi(c), n = rdi(c); r2d_poly *p = s2(c, s); p->nverts = n;
		for (int i = 0; i < n; ++i) { p->verts[i].pos = rv2(c); for (int k = 0; k < 2; ++k) p->verts[i].pnbrs[k] = rdi(c); }
	} else if (!strcmp(w, "copy")) {
		int a = rdi(c), b = rdi(c); *s2(c, b) = *s2(c, a);
	} else if (!strcmp(w, "clip")) {
		int s = rdi(c), n = rdi(c); r2d_plane *q = garbage(n * sizeof(*q));
		for (int i = 0; i < n; ++i) q[i] = rp2(c);
		r2d_plane *q2 = garbage(n * sizeof(*q)); memcpy(q2, q, n * sizeof(*q));
		r2d_clip(s2(c, s), q, n);
		fprintf(o, "ret 1 %d %d\n", s2(c, s)->nverts, memcmp(q, q2, n * sizeof(*q)) ? 1 : 0); free(q); free(q2);
	} else if (!strcmp(w, "split")) {
		int n = rdi(c); int *in = garbage(n * sizeof(int)), *po = garbage(n * sizeof(int)), *ne = garbage(n * sizeof(int));
		for (int i = 0; i < n; ++i) in[i] = rdi(c);
		for (int i = 0; i < n; ++i) po[i] = rdi(c);
		for (int i = 0; i < n; ++i) ne[i] = rdi(c);
		r2d_plane q = rp2(c);
		r2d_poly *a = garbage(n * sizeof(r2d_poly)), *b = garbage(n * sizeof(r2d_poly)), *d = garbage(n * sizeof(r2d_poly));
		for (int i = 0; i < n; ++i) { a[i] = *s2(c, in[i]); stale2(&b[i]); stale2(&d[i]); }
		r2d_split(a, n, q, b, d);
		fprintf(o, "ret 1");
		for (int i = 0; i < n; ++i) {
			*s2(c, in[i]) = a[i]; *s2(c, po[i]) = b[i]; *s2(c, ne[i]) = d[i];
			fprintf(o, " %d %d", b[i].nverts, d[i].nverts);
		}
		fprintf(o, "\n");
		free(a); free(b); free(d); free(in); free(po); free(ne);
	} else if (!strcmp(w, "reduce")) {
		int s = rdi(c), k = rdi(c); int nm = R2D_NUM_MOMENTS(k); r2d_real *m = garbage(nm * sizeof(*m));
		r2d_reduce(s2(c, s), m, k);
		fprintf(o, "mom"); for (int i = 0; i < nm; ++i) pd(c, m[i]); fprintf(o, "\n"); free(m);
	} else if (!strcmp(w, "dump")) {
		int s = rdi(c); r2d_poly *p = s2(c, s);
		fprintf(o, "poly %d", p->nverts);
		for (int i = 0; i < p->nverts; ++i) {
			for (int k = 0; k < 2; ++k) pd(c, p->verts[i].pos.xy[k]);
			for (int k = 0; k < 2; ++k) fprintf(o, " %d", p->verts[i].pnbrs[k]);
		}
		fprintf(o, "\n");
	} else if (!strcmp(w, "good")) {
		int s = rdi(c); fprintf(o, "good %d\n", r2d_is_good(s2(c, s)));
	} else if (!strcmp(w, "center")) {
		int s = rdi(c); r2d_rvec2 v = r2d_poly_center(s2(c, s));
		fprintf(o, "vec"); pd(c, v.x); pd(c, v.y); fprintf(o, "\n");
	} else if (!strcmp(w, "shiftmom")) {
		int k = rdi(c); int nm = R2D_NUM_MOMENTS(k); r2d_real *m = garbage(nm * sizeof(*m));
		for (int i = 0; i < nm; ++i) m[i] = rdf(c);
		r2d_rvec2 v = rv2(c); r2d_shift_moments(m, k, v);
		fprintf(o, "mom"); for (int i = 0; i < nm; ++i) pd(c, m[i]); fprintf(o, "\n"); free(m);
	} else if (!strcmp(w, "orient")) {
		r2d_rvec2 a = rv2(c), b = rv2(c), d = rv2(c);
		fprintf(o, "num"); pd(c, r2d_orient(a, b, d)); fprintf(o, "\n");
	} else if (!strcmp(w, "rotate")) {
		int s = rdi(c); double t = rdf(c); r2d_rotate(s2(c, s), t);
	} else if (!strcmp(w, "translate")) {
		int s = rdi(c); r2d_translate(s2(c, s), rv2(c));
	} else if (!strcmp(w, "scale")) {
		int s = rdi(c); r2d_scale(s2(c, s), rdf(c));
	} else if (!strcmp(w, "shear")) {
		int s = rdi(c); double t = rdf(c); int a = rdi(c), b = rdi(c); r2d_shear(s2(c, s), t, a, b);
	} else if (!strcmp(w, "affine")) {
		int s = rdi(c); r2d_real m[3][3];
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = rdf(c);
		{ keep k_ = hold(m, sizeof(m)); r2d_affine(s2(c, s), m); held(c, k_); }
	} else if (!strcmp(w, "boxfaces")) {
		r2d_rvec2 *v = garbage(2 * sizeof(*v)); v[0] = rv2(c); v[1] = rv2(c);
		r2d_plane *q = garbage(4 * sizeof(*q)); r2d_box_faces_from_verts(q, v);
		fprintf(o, "planes 4"); for (int i = 0; i < 4; ++i) { pd(c, q[i].n.x); pd(c, q[i].n.y); pd(c, q[i].d); } fprintf(o, "\n");
		free(v); free(q);
	} else if (!strcmp(w, "clipboxf") || !strcmp(w, "clippolyf")) {
		int s = rdi(c), t = w[4] == 'b', n = t ? 2 : rdi(c), nf = t ? 4 : n;
		r2d_rvec2 *v = garbage(n * sizeof(*v)); for (int i = 0; i < n; ++i) v[i] = rv2(c);
		r2d_plane *q = garbage(nf * sizeof(*q));
		if (t) r2d_box_faces_from_verts(q, v); else r2d_poly_faces_from_verts(q, v, n);
		r2d_clip(s2(c, s), q, nf);
		fprintf(o, "ret 1 %d\n", s2(c, s)->nverts); free(v); free(q);
	} else if (!strcmp(w, "polyfaces")) {
		int n = rdi(c); r2d_rvec2 *v = garbage(n * sizeof(*v)); for (int i = 0; i < n; ++i) v[i] = rv2(c);
		r2d_plane *q = garbage(n * sizeof(*q)); r2d_poly_faces_from_verts(q, v, n);
		fprintf(o, "planes %d", n); for (int i = 0; i < n; ++i) { pd(c, q[i].n.x); pd(c, q[i].n.y); pd(c, q[i].d); } fprintf(o, "\n");
		free(v); free(q);
	} else if (!strcmp(w, "vox")) {
		int s = rdi(c), k = rdi(c); r2d_dvec2 ib[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ib[i].ij[j] = rdi(c);
		r2d_rvec2 d = rv2(c); double pre = rdf(c);
		long n = R2D_NUM_MOMENTS(k);
		for (int j = 0; j < 2; ++j) n *= (ib[1].ij[j] - ib[0].ij[j]) > 0 ? (ib[1].ij[j] - ib[0].ij[j]) : 0;
		r2d_real *g = garbage(n * sizeof(*g));
		for (long i = 0; i < n; ++i) g[i] = pre * (i % 7 + 1);
		{ keep k_ = hold(ib, sizeof(ib)); r2d_rasterize(s2(c, s), ib, g, d, k); held(c, k_); }
		fprintf(o, "grid %ld", n); for (long i = 0; i < n; ++i) pd(c, g[i]); fprintf(o, "\n"); free(g);
	} else if (!strcmp(w, "ibox")) {
		int s = rdi(c); r2d_rvec2 d = rv2(c); r2d_dvec2 ib[2]; memset(ib, 0x55, sizeof(ib));
		r2d_get_ibox(s2(c, s), ib, d);
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) fprintf(o, " %d", ib[i].ij[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "clamp")) {
		int s = rdi(c); r2d_dvec2 ib[2], cb[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ib[i].ij[j] = rdi(c);
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) cb[i].ij[j] = rdi(c);
		r2d_rvec2 d = rv2(c); { keep k_ = hold(cb, sizeof(cb)); r2d_clamp_ibox(s2(c, s), ib, cb, d); held(c, k_); }
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) fprintf(o, " %d", ib[i].ij[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "info")) {
		fprintf(o, "info %d %d\n", R2D_MAX_VERTS, (int)sizeof(r2d_real));
	} else { fprintf(stderr, "bad command 2 %s\n", w); exit(78); }
}

/* ---------------------------------------------------------------- ND (4) */
static void do4(ctx *c) {
	char w[32];
	word(c, w);
	FILE *o = c->out;
	enum { D = RND_DIM };
	if (!strcmp(w, "simplex")) {
		int s = rdi(c); rNd_rvec *v = garbage((D + 1) * sizeof(*v));
		for (int i = 0; i <= D; ++i) v[i] = rv4(c);
		{ keep k_ = hold(v, (D + 1) * sizeof(*v)); rNd_init_simplex(s4(c, s), v); held(c, k_); } free(v);
	} else if (!strcmp(w, "box")) {
		int s = rdi(c); rNd_rvec *v = garbage(2 * sizeof(*v)); v[0] = rv4(c); v[1] = rv4(c);
		{ keep k_ = hold(v, 2 * sizeof(*v)); rNd_init_box(s4(c, s), v); held(c, k_); } free(v);
	} else if (!strcmp(w, "set")) {
		int s = rdi(c), n = rdi(c); rNd_poly *p = s4(c, s); p->nverts = n;
		for (int i = 0; i < n; ++i) {
			p->verts[i].pos = rv4(c);
			for (int k = 0; k < D; ++k) p->verts[i].pnbrs[k] = rdi(c);
			for (int k = 0; k < D; ++k) for (int l = 0; l < D; ++l) p->verts[i].finds[k][l] = 1000 + 16 * i + D * k + l;
		}
		p->nfaces = 0;
	} else if (!strcmp(w, "copy")) {
		int a = rdi(c), b = rdi(c); *s4(c, b) = *s4(c, a);
	} else if (!strcmp(w, "clip")) {
		int s = rdi(c), n = rdi(c); rNd_plane *q = garbage(n * sizeof(*q));
		for (int i = 0; i < n; ++i) q[i] = rp4(c);
		rNd_plane *q2 = garbage(n * sizeof(*q)); memcpy(q2, q, n * sizeof(*q));
		rNd_clip(s4(c, s), q, n);
		fprintf(o, "ret 1 %d %d\n", s4(c, s)->nverts, memcmp(q, q2, n * sizeof(*q)) ? 1 : 0); free(q); free(q2);
	} else if (!strcmp(w, "reduce")) {
		int s = rdi(c), k = rdi(c); rNd_real *m = garbage(sizeof(*m));
		rNd_reduce(s4(c, s), m, k);
		fprintf(o, "mom"); pd(c, m[0]); fprintf(o, "\n"); free(m);
	} else if (!strcmp(w, "dump")) {
		int s = rdi(c); rNd_poly *p = s4(c, s);
		fprintf(o, "poly %d", p->nverts);
		for (int i = 0; i < p->nverts; ++i) {
			for (int k = 0; k < D; ++k) pd(c, p->verts[i].pos.xyz[k]);
			for (int k = 0; k < D; ++k) fprintf(o, " %d", p->verts[i].pnbrs[k]);
		}
		fprintf(o, "\n");
	} else if (!strcmp(w, "dumpf")) {
		/* vertices with their 2-face labels */
		int s = rdi(c); rNd_poly *p = s4(c, s);
		fprintf(o, "polyf %d", p->nverts);
		for (int i = 0; i < p->nverts; ++i) {
			for (int k = 0; k < D; ++k) pd(c, p->verts[i].pos.xyz[k]);
			for (int k = 0; k < D; ++k) fprintf(o, " %d", p->verts[i].pnbrs[k]);
			for (int k = 0; k < D; ++k) for (int l = 0; l < D; ++l) fprintf(o, " %d", k == l ? -9 : p->verts[i].finds[k][l]);
		}
		fprintf(o, "\n");
	} else if (!strcmp(w, "good")) {
		int s = rdi(c); fprintf(o, "good %d\n", rNd_is_good(s4(c, s)));
	} else if (!strcmp(w, "orient")) {
		rNd_rvec *v = garbage((D + 1) * sizeof(*v)); for (int i = 0; i <= D; ++i) v[i] = rv4(c);
		fprintf(o, "num"); pd(c, rNd_orient(v)); fprintf(o, "\n"); free(v);
	} else if (!strcmp(w, "rotate")) {
		int s = rdi(c); double t = rdf(c); int a = rdi(c), b = rdi(c); rNd_rotate(s4(c, s), t, a, b);
	} else if (!strcmp(w, "translate")) {
		int s = rdi(c); rNd_translate(s4(c, s), rv4(c));
	} else if (!strcmp(w, "scale")) {
		int s = rdi(c); rNd_scale(s4(c, s), rv4(c));
	} else if (!strcmp(w, "shear")) {
		int s = rdi(c); double t = rdf(c); int a = rdi(c), b = rdi(c); rNd_shear(s4(c, s), t, a, b);
	} else if (!strcmp(w, "affine")) {
		int s = rdi(c); rNd_real m[D + 1][D + 1];
		for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) m[i][j] = rdf(c);
		{ keep k_ = hold(m, sizeof(m)); rNd_affine(s4(c, s), m); held(c, k_); }
	} else if (!strcmp(w, "vox")) {
		int s = rdi(c), k = rdi(c); rNd_dvec ib[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < D; ++j) ib[i].ijk[j] = rdi(c);
		rNd_rvec d = rv4(c); double pre = rdf(c);
		long n = 1;
		for (int j = 0; j < D; ++j) n *= (ib[1].ijk[j] - ib[0].ijk[j]) > 0 ? (ib[1].ijk[j] - ib[0].ijk[j]) : 0;
		rNd_real *g = garbage(n * sizeof(*g));
		for (long i = 0; i < n; ++i) g[i] = pre * (i % 7 + 1);
		{ keep k_ = hold(ib, sizeof(ib)); rNd_voxelize(s4(c, s), ib, g, d, k); held(c, k_); }
		fprintf(o, "grid %ld", n); for (long i = 0; i < n; ++i) pd(c, g[i]); fprintf(o, "\n"); free(g);
	} else if (!strcmp(w, "ibox")) {
		int s = rdi(c); rNd_rvec d = rv4(c); rNd_dvec ib[2]; memset(ib, 0x55, sizeof(ib));
		rNd_get_ibox(s4(c, s), ib, d);
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < D; ++j) fprintf(o, " %d", ib[i].ijk[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "clamp")) {
		int s = rdi(c); rNd_dvec ib[2], cb[2];
		for (int i = 0; i < 2; ++i) for (int j = 0; j < D; ++j) ib[i].ijk[j] = rdi(c);
		for (int i = 0; i < 2; ++i) for (int j = 0; j < D; ++j) cb[i].ijk[j] = rdi(c);
		rNd_rvec d = rv4(c); { keep k_ = hold(cb, sizeof(cb)); rNd_clamp_ibox(s4(c, s), ib, cb, d); held(c, k_); }
		fprintf(o, "ibox"); for (int i = 0; i < 2; ++i) for (int j = 0; j < D; ++j) fprintf(o, " %d", ib[i].ijk[j]); fprintf(o, "\n");
	} else if (!strcmp(w, "info")) {
		fprintf(o, "info %d %d %d\n", RND_MAX_VERTS, (int)sizeof(rNd_real), RND_DIM);
	} else { fprintf(stderr, "bad command 4 %s\n", w); exit(78); }
}

static void settings(void) {
	if (getenv("VF_FILL")) fill = atoi(getenv("VF_FILL"));
	if (getenv("VF_SCRIBBLE")) scrib = atoi(getenv("VF_SCRIBBLE"));
}

static void step(ctx *c, char *line) {
	c->p = line;
	char w[32];
	word(c, w);
	if (scrib) scribble(scrib);
	if (!strcmp(w, "B")) {
#ifndef THREADS
		/* a behaviour that does not end is a finding: 6 s of processor time, or two minutes in all */
		struct itimerval tv = {{0, 0}, {6, 0}};
		setitimer(ITIMER_PROF, &tv, 0);
		alarm(120);
#endif
		drop(c);
		while (*c->p == ' ') c->p++;
		fprintf(c->out, "B %s", c->p);
		fflush(c->out);
	} else if (!strcmp(w, "mods")) { fprintf(c->out, "mods %ld\n", c->mods); c->mods = 0; }
	else if (!strcmp(w, "3")) do3(c);
	else if (!strcmp(w, "2")) do2(c);
	else if (!strcmp(w, "4")) do4(c);
	else if (w[0] == 0) return;
	else { fprintf(stderr, "bad line %s\n", line); exit(78); }
}

#ifdef THREADS
/* exec_threads SCRIPT PREFIX: the script holds sections "T <k>"; thread k runs
 * section k (private slots) R times, writing PREFIX.k; all threads start together. */
#include <pthread.h>
typedef struct { char **lines; int n; char out[4096]; pthread_barrier_t *bar; int rounds; } job;
static void *runjob(void *a) {
	job *j = a;
	ctx *c = calloc(1, sizeof(ctx));
	c->out = fopen(j->out, "w");
	char *buf = malloc(1 << 22);
	pthread_barrier_wait(j->bar);
	for (int r = 0; r < j->rounds; ++r)
		for (int i = 0; i < j->n; ++i) { strcpy(buf, j->lines[i]); step(c, buf); }
	drop(c); fclose(c->out); free(c); free(buf);
	return 0;
}
int main(int argc, char **argv) {
	settings();
	FILE *f = fopen(argv[1], "r"); char *line = 0; size_t cap = 0; ssize_t n;
	int rounds = atoi(argv[3]); int conc = atoi(argv[4]);
	static job jobs[64]; int nj = 0;
	while ((n = getline(&line, &cap, f)) >= 0) {
		if (line[0] == 'T') { nj++; jobs[nj - 1].lines = malloc(sizeof(char *) * 1000000); continue; }
		jobs[nj - 1].lines[jobs[nj - 1].n++] = strdup(line);
	}
	pthread_barrier_t bar; pthread_barrier_init(&bar, 0, conc ? nj : 1);
	pthread_t th[64]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
	for (int k = 0; k < nj; ++k) {
		sprintf(jobs[k].out, "%s.%d", argv[2], k); jobs[k].bar = &bar; jobs[k].rounds = rounds;
		if (pthread_create(&th[k], &at, runjob, &jobs[k])) exit(77);
		if (!conc) pthread_join(th[k], 0);
	}
	if (conc) for (int k = 0; k < nj; ++k) pthread_join(th[k], 0);
	return 0;
}
#else
int main(int argc, char **argv) {
	settings();
	(void)argc;
	static ctx c;
	c.out = fopen(argv[1], "w");
	if (!c.out) return 79;
	char *line = 0; size_t cap = 0;
	while (getline(&line, &cap, stdin) >= 0) step(&c, line);
	drop(&c);
	free(line);
	fprintf(c.out, "END\n");
	fclose(c.out);
	return 0;
}
#endif
