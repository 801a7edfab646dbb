/* Executor for the deprecated library (see exec.c for the conventions). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/time.h>
#include "r2d.h"
#include "r3d.h"
static FILE *out;
static char *p;
static long rdi(void) { return strtol(p, &p, 10); }
static double rdf(void) { return strtod(p, &p); }
static void word(char *w) {
	while (*p == ' ') p++;
	int n = 0;
	while (*p && *p != ' ' && *p != '\n' && n < 31) w[n++] = *p++;
	w[n] = 0;
}
static void *garbage(size_t n) { void *r = malloc(n ? n : 1); if (!r) exit(77); memset(r, 0xA5, n); return r; }
static void pd(double x) { fprintf(out, " %.17g", x); }
static r3d_rvec3 rv3(void) { r3d_rvec3 v; v.x = rdf(); v.y = rdf(); v.z = rdf(); return v; }
static r2d_rvec2 rv2(void) { r2d_rvec2 v; v.x = rdf(); v.y = rdf(); return v; }

static void vox3(r3d_plane *f) {
	r3d_dest_grid *g = garbage(sizeof(*g));
	g->polyorder = rdi(); g->n.i = rdi(); g->n.j = rdi(); g->n.k = rdi(); g->d = rv3();
	long n = (long)g->n.i * g->n.j * g->n.k; int nm = r3d_num_moments[g->polyorder];
	for (int m = 0; m < 10; ++m) g->moments[m] = m < nm ? garbage(n * sizeof(r3d_real)) : 0;
#ifdef USE_TREE
	g->orient = 0;
#else
	g->orient = garbage((g->n.i + 1l) * (g->n.j + 1l) * (g->n.k + 1l) * sizeof(r3d_orientation));
#endif
	g->bufsz = n;
	r3d_plane *f2 = garbage(4 * sizeof(*f2)); memcpy(f2, f, 4 * sizeof(*f));
	r3d_voxelize_tet(f, g);
	fprintf(out, "grid %ld %d", n * nm, memcmp(f, f2, 4 * sizeof(*f)) ? 1 : 0);
	for (long c = 0; c < n; ++c) for (int m = 0; m < nm; ++m) pd(g->moments[m][c]);
	fprintf(out, "\n");
	for (int m = 0; m < nm; ++m) free(g->moments[m]);
	free(g->orient); free(g); free(f2);
}
static void ras2(r2d_plane *f) {
	r2d_dest_grid *g = garbage(sizeof(*g));
	g->polyorder = rdi(); g->n.i = rdi(); g->n.j = rdi(); g->d = rv2();
	long n = (long)g->n.i * g->n.j; int nm = r2d_num_moments[g->polyorder];
	for (int m = 0; m < 6; ++m) g->moments[m] = m < nm ? garbage(n * sizeof(r2d_real)) : 0;
#ifdef USE_TREE
	g->orient = 0;
#else
	g->orient = garbage((g->n.i + 1l) * (g->n.j + 1l) * sizeof(r2d_orientation));
#endif
	g->bufsz = n;
	r2d_plane *f2 = garbage(4 * sizeof(*f2)); memcpy(f2, f, 4 * sizeof(*f));
	r2d_rasterize_quad(f, g);
	fprintf(out, "grid %ld %d", n * nm, memcmp(f, f2, 4 * sizeof(*f)) ? 1 : 0);
	for (long c = 0; c < n; ++c) for (int m = 0; m < nm; ++m) pd(g->moments[m][c]);
	fprintf(out, "\n");
	for (int m = 0; m < nm; ++m) free(g->moments[m]);
	free(g->orient); free(g); free(f2);
}
/* clip a box by nf planes the documented way; skip: also tell the clipper which faces hold all vertices */
static void clip3(void) {
	int order = rdi(), nf = rdi(), skip = rdi();
	r3d_plane q[4]; for (int f = 0; f < nf; ++f) { q[f].n = rv3(); q[f].d = rdf(); }
	r3d_rvec3 b[2]; b[0] = rv3(); b[1] = rv3();
	r3d_poly *po = garbage(sizeof(*po)); r3du_init_box(po, b);
	unsigned char andc = 0x0f;
	for (int v = 0; v < po->nverts; ++v) {
		r3d_orientation *o = &po->verts[v].orient; o->fflags = 0;
		for (int f = 0; f < nf; ++f) { o->fdist[f] = q[f].d + po->verts[v].pos.x * q[f].n.x + po->verts[v].pos.y * q[f].n.y + po->verts[v].pos.z * q[f].n.z; if (o->fdist[f] > 0) o->fflags |= 1 << f; }
		for (int f = nf; f < 4; ++f) o->fflags |= 1 << f;
		andc &= o->fflags;
	}
	if (!skip) { andc = 0; for (int f = nf; f < 4; ++f) andc |= 1 << f; }
	r3d_clip_tet(po, andc);
	r3d_real *m = garbage(r3d_num_moments[order] * sizeof(*m)); r3d_reduce(po, order, m);
	int nm = r3d_num_moments[order];
	fprintf(out, "mom %d", nm); for (int i = 0; i < nm; ++i) pd(m[i]); fprintf(out, "\n"); free(m); free(po);
}
static void clip2(void) {
	int order = rdi(), nf = rdi(), skip = rdi();
	r2d_plane q[4]; for (int f = 0; f < nf; ++f) { q[f].n = rv2(); q[f].d = rdf(); }
	r2d_rvec2 b[2]; b[0] = rv2(); b[1] = rv2();
	r2d_poly *po = garbage(sizeof(*po)); r2du_init_box(po, b);
	unsigned char andc = 0x0f;
	for (int v = 0; v < po->nverts; ++v) {
		r2d_orientation *o = &po->verts[v].orient; o->fflags = 0;
		for (int f = 0; f < nf; ++f) { o->fdist[f] = q[f].d + po->verts[v].pos.x * q[f].n.x + po->verts[v].pos.y * q[f].n.y; if (o->fdist[f] > 0) o->fflags |= 1 << f; }
		for (int f = nf; f < 4; ++f) o->fflags |= 1 << f;
		andc &= o->fflags;
	}
	if (!skip) { andc = 0; for (int f = nf; f < 4; ++f) andc |= 1 << f; }
	r2d_clip_quad(po, andc);
	r2d_real *m = garbage(r2d_num_moments[order] * sizeof(*m)); r2d_reduce(po, order, m);
	int nm = r2d_num_moments[order];
	fprintf(out, "mom %d", nm); for (int i = 0; i < nm; ++i) pd(m[i]); fprintf(out, "\n"); free(m); free(po);
}
static void step(char *line) {
	char w[32];
	p = line; word(w);
	if (!strcmp(w, "B")) {
		struct itimerval tv = {{0, 0}, {6, 0}};
		setitimer(ITIMER_PROF, &tv, 0);
		alarm(120);
		while (*p == ' ') p++;
		fprintf(out, "B %s", p); fflush(out);
	} else if (!strcmp(w, "vox3")) {
		r3d_plane *f = garbage(4 * sizeof(*f)); for (int i = 0; i < 4; ++i) { f[i].n = rv3(); f[i].d = rdf(); }
		vox3(f); free(f);
	} else if (!strcmp(w, "tet3")) {
		r3d_rvec3 *v = garbage(4 * sizeof(*v)); for (int i = 0; i < 4; ++i) v[i] = rv3();
		r3d_plane *f = garbage(4 * sizeof(*f)); r3du_tet_faces_from_verts(v, f);
		fprintf(out, "tet"); pd(r3du_orient(v[0], v[1], v[2], v[3]));
		for (int i = 0; i < 4; ++i) { pd(f[i].n.x); pd(f[i].n.y); pd(f[i].n.z); pd(f[i].d); }
		fprintf(out, "\n");
		vox3(f); free(f); free(v);
	} else if (!strcmp(w, "ras2")) {
		r2d_plane *f = garbage(4 * sizeof(*f)); for (int i = 0; i < 4; ++i) { f[i].n = rv2(); f[i].d = rdf(); }
		ras2(f); free(f);
	} else if (!strcmp(w, "quad2")) {
		r2d_rvec2 *v = garbage(4 * sizeof(*v)); for (int i = 0; i < 4; ++i) v[i] = rv2();
		r2d_plane *f = garbage(4 * sizeof(*f)); r2du_faces_from_verts(v, 4, f);
		fprintf(out, "quad"); pd(r2du_orient(v[0], v[1], v[2]));
		for (int i = 0; i < 4; ++i) { pd(f[i].n.x); pd(f[i].n.y); pd(f[i].d); }
		fprintf(out, "\n");
		ras2(f); free(f); free(v);
	} else if (!strcmp(w, "clip3")) clip3();
	else if (!strcmp(w, "clip2")) clip2();
	else if (w[0]) { fprintf(stderr, "bad line %s\n", line); exit(78); }
}
int main(int argc, char **argv) {
	(void)argc;
	out = fopen(argv[1], "w");
	if (!out) return 79;
	char *line = 0; size_t cap = 0;
	while (getline(&line, &cap, stdin) >= 0) step(line);
	free(line); fprintf(out, "END\n"); fclose(out);
	return 0;
}
