"""C15: face planes computed from vertices (spec/Faces.tla, spec/FacePlane.tla, spec/Simplex.tla)."""
import math, random
import numpy as np
from . import core, geom, lattice, builds
from .core import Raw
from .lattice import Beh, nums, poly3_line

KINDS = ("perm", "pow2", "rot", "general", "far", "scaleaxis", "tiny", "huge", "micro", "giga")
AXIS = ("perm", "pow2", "scaleaxis", "micro", "giga")


def planes(w, D):
    n = int(w[0])
    x = [float(v) for v in w[1:]]
    return [(np.array(x[k * (D + 1):k * (D + 1) + D]), x[k * (D + 1) + D]) for k in range(n)]


def unit_err(ps):
    for k, (n, d) in enumerate(ps):
        l = float(np.sqrt((n * n).sum()))
        if not abs(l - 1.0) <= 1e-12:
            return "normal %d has length %r" % (k, l)
    return None


def facet_judge(facets, others, size, span, cond=1.0):
    """facets: point lists spanning one facet each; others: for each, points strictly inside that half-space.
    There must be one unit-normal plane per facet with the inside points on its positive side."""
    tol = 1e-13 * 40 * (size + span) * cond

    def j(w, D=len(facets[0][0])):
        ps = planes(w, D)
        e = unit_err(ps)
        if e:
            return e
        if len(ps) != len(facets):
            return "%d planes for %d faces" % (len(ps), len(facets))
        used = set()
        for F, O in zip(facets, others):
            hit = None
            for k, (n, d) in enumerate(ps):
                if k in used:
                    continue
                if all(abs(float(n @ np.array(p)) + d) <= tol for p in F) and all(float(n @ np.array(p)) + d > tol for p in O):
                    hit = k
                    break
            if hit is None:
                return "no plane passes through the face %s with the body on its positive side: %s" % (F, [(list(n), d) for n, d in ps])
            used.add(hit)
        return None
    return j


def box_of(shape, D):
    vs = shape["verts"] if D == 3 else shape["loops"][0]
    return [min(v[k] for v in vs) for k in range(D)], [max(v[k] for v in vs) for k in range(D)]


def frame_box(fr, lo, hi):
    a, b = fr.pt(lo), fr.pt(hi)
    return [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]


def check_clip(ctx, tol):
    """clip a body with the planes computed for a convex shape: the intersection"""
    for D in (3, 2):
        r = core.tlc(ctx, "Faces%d" % D, dict(D=D, N=3, Order=2, ContentOf=("<-", "ContentT"), Bodies=("<-", "ShapeIds"), Clippers=("<-", "Convex")), ["Contained", "SelfClip", "Emit"])
        T, rows = lattice.rows_of(r)
        reps = 4 if ctx.quick else 30

        def make(k, mini, D=D, T=T, rows=rows):
            row = rows[k % len(rows)]
            rng = random.Random(ctx.seed * 7001 + k)
            A, B = T.shape(row["a"]), T.shape(row["b"])
            if B["name"] == "coinc":
                return []
            kind = rng.choice(KINDS)
            if B["kind"] == "box" and rng.random() < 0.6:
                kind = rng.choice(AXIS)
            fr = geom.identity(D) if k < len(rows) and k % 2 else geom.random_frame(rng, D, kind)
            b = Beh(0, info=dict(body=A["name"], clipper=B["name"], frame=fr.name, A=fr.A.tolist(), t=fr.t.tolist()))
            lattice.build(b, D, 0, A, fr, rng)
            mono = np.count_nonzero(fr.A) == D
            if B["kind"] == "box" and mono and rng.random() < 0.8:
                lo, hi = frame_box(fr, *box_of(B, D))
                b.obs("%d clipboxf 0 %s %s" % (D, nums(lo), nums(hi)), None)
                mini.bump("%dD box" % D)
            elif D == 3 and B["kind"] == "tet" and rng.random() < 0.7:
                vs = list(B["verts"])
                for _ in range(2):
                    i, j = rng.sample(range(4), 2)
                    vs[i], vs[j] = vs[j], vs[i]
                b.obs("3 cliptetf 0 %s" % " ".join(nums(fr.pt(v)) for v in vs), None)
                mini.bump("3D tet")
            elif D == 3:
                pts, fs = lattice.relabel3([fr.pt(v) for v in B["verts"]], [[i - 1 for i in f] for f in B["faces"]], rng)
                b.obs(poly3_line(0, pts, fs, "clippolyf"), None)
                mini.bump("3D poly")
            else:
                l = [fr.pt(p) for p in B["loops"][0]]
                r_ = rng.randrange(len(l))
                l = l[r_:] + l[:r_]
                b.obs("2 clippolyf 0 %d %s" % (len(l), " ".join(nums(p) for p in l)), None)
                mini.bump("2D poly")
            b.obs("%d reduce 0 2" % D, lattice.mom_judge(tol, T, fr, 3, row["m"], D))
            return [b]
        lattice.run_make(ctx, len(rows) * reps, make, "asan", tol)
        ctx.bump("pairs_%dD" % D, len(rows))
        # the planes themselves
        shapes = [s for s in T.shapes if s["convex"] and s["name"] != "coinc"]
        n = len(shapes) * (12 if ctx.quick else 100)

        def make2(k, mini, D=D, shapes=shapes):
            rng = random.Random(ctx.seed * 7003 + k)
            B = shapes[k % len(shapes)]
            fr = geom.random_frame(rng, D, rng.choice(KINDS))
            mono = np.count_nonzero(fr.A) == D
            b = Beh(0, info=dict(shape=B["name"], frame=fr.name, A=fr.A.tolist(), t=fr.t.tolist()))
            size, span = fr.R(3), fr.size * 3
            vs = B["verts"] if D == 3 else B["loops"][0]
            fs = [[i - 1 for i in f] for f in B["faces"]] if D == 3 else [[i, (i + 1) % len(vs)] for i in range(len(vs))]
            cen = np.mean(np.array(vs, dtype=float), axis=0)
            pts = [fr.pt(v) for v in vs]
            c = fr.pt(cen)
            F = [[pts[i] for i in f] for f in fs]
            O = [[c] for f in fs]
            if B["kind"] == "box" and mono:
                lo, hi = frame_box(fr, *box_of(B, D))
                b.obs("%d boxfaces %s %s" % (D, nums(lo), nums(hi)), facet_judge(F, O, size, span))
            elif D == 3 and B["kind"] == "tet":
                vs2 = list(range(4))
                for _ in range(2):
                    i, j = rng.sample(range(4), 2)
                    vs2[i], vs2[j] = vs2[j], vs2[i]
                b.obs("3 tetfaces %s" % " ".join(nums(pts[i]) for i in vs2), facet_judge(F, O, size, span, fr.cond))
            elif D == 2:
                r_ = rng.randrange(len(pts))
                l = pts[r_:] + pts[:r_]
                b.obs("2 polyfaces %d %s" % (len(l), " ".join(nums(p) for p in l)), facet_judge(F, O, size, span, fr.cond))
            return [b] if b.lines else []
        lattice.run_make(ctx, n, make2, "asan", tol)


def check_tets(ctx, tol):
    """general tetrahedra (integer, any shape) in frames of every size and orientation"""
    q = ctx.quick
    jobs = [dict(D=3, Lo=0, Hi=1, MaxSteps=0, Random=0), dict(D=3, Lo=-7, Hi=7, MaxSteps=2, Random=30 if q else 300)]
    for c in jobs:
        rows = [r for r in core.tlc(ctx, "Simplex", c, builds.INV_S, builds.PR_S).rows if r["vol"] != 0]
        for r in rows:
            if r["vol"] < 0:
                r["v"][0], r["v"][1] = r["v"][1], r["v"][0]

        def make(k, mini, rows=rows):
            rng = random.Random(ctx.seed * 7013 + k)
            row = rows[k]
            out = []
            for fr in [geom.identity(3)] + [geom.random_frame(rng, 3, x) for x in rng.sample(KINDS, 2)]:
                pts = [fr.pt(v) for v in row["v"]]
                P = np.array(row["v"], dtype=float)
                # thin tetrahedra lose accuracy: ratio of longest edge to smallest height
                span = max(float(np.linalg.norm(P[i] - P[j])) for i in range(4) for j in range(4))
                hmin = min(abs(r_) for r_ in [abs(int(row["vol"])) / max(1e-300, float(np.linalg.norm(np.cross(P[b] - P[a], P[c_] - P[a])))) for a, b, c_ in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))])
                cond = fr.cond * span / hmin
                F = [[pts[j] for j in range(4) if j != i] for i in range(4)]
                O = [[pts[i]] for i in range(4)]
                b = Beh(0, info=dict(tet=row["v"], frame=fr.name, A=fr.A.tolist(), t=fr.t.tolist()))
                b.obs("3 tetfaces %s" % " ".join(nums(p) for p in pts), facet_judge(F, O, float(np.abs(np.array(pts)).max()), fr.size * span, cond))
                # clipping a box around it leaves the tetrahedron
                if fr.name not in ("far",):
                    lo, hi = np.array(pts).min(axis=0), np.array(pts).max(axis=0)
                    m = (hi - lo).max() * 0.25
                    b.cmd("3 box 0 %s %s" % (nums(lo - m), nums(hi + m)))
                    b.obs("3 cliptetf 0 %s" % " ".join(nums(p) for p in pts), None)
                    want = fr.moments([abs(x) if i == 0 else x for i, x in enumerate(row["m"])] if row["m"][0] > 0 else [-x for x in row["m"]], builds.fact(5), 2)
                    L = float(np.abs(P).max()) + 1
                    b.obs("3 reduce 0 2", lambda w, a=want, s=tol.scales(fr, L, 2, 3) * 60 * (span / hmin): tol.cmp(w, a, s))
                out.append(b)
            return out
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("tetrahedra", len(rows))


def check_outlines(ctx, tol):
    """planar faces of any outline"""
    q = ctx.quick
    rows = []
    for c, n in ((dict(MaxCells=12, W=6, EmitAt=1), 25 if q else 200), (dict(MaxCells=70, W=14, EmitAt=10), 6 if q else 60)):
        rows += core.tlc(ctx, "FacePlane", c, ["AreaOK", "PlaneOK", "Emit"], simulate=n, depth=c["MaxCells"] + 1).rows
    ctx.bump("outlines", len(rows))
    ctx.bump("outline_vertices_max", max(len(r["pts"]) for r in rows))

    def make(k, mini):
        rng = random.Random(ctx.seed * 7019 + k)
        # a description with several faces: each judged
        out = []
        grp = [rows[k]] + [rng.choice(rows) for _ in range(rng.choice((0, 0, 1, 3)))]
        fr = geom.identity(3) if rng.random() < 0.4 else geom.random_frame(rng, 3, rng.choice(KINDS))
        pts, fs, want = [], [], []
        size = 0.0
        for g in grp:
            P = [fr.pt(p) for p in g["pts"]]
            ids = list(range(len(pts), len(pts) + len(P)))
            pts += P
            r_ = rng.randrange(len(ids))
            fs.append(ids[r_:] + ids[:r_])
            n2 = fr.Ainv.T @ np.array(g["n"], dtype=float)
            n2 /= math.sqrt(float(n2 @ n2))
            want.append((n2, P))
        size = float(np.abs(np.array(pts)).max())
        span = fr.size * 60
        p = list(range(len(pts)))
        rng.shuffle(p)
        v2 = [None] * len(pts)
        for i, x in enumerate(p):
            v2[x] = pts[i]
        b = Beh(0, info=dict(outlines=[g["loop"] for g in grp], frame=fr.name, A=fr.A.tolist(), t=fr.t.tolist()))

        def judge(w):
            ps = planes(w, 3)
            e = unit_err(ps)
            if e:
                return e
            for (n, d), (n2, P) in zip(ps, want):
                tl = 1e-11 * fr.cond * (1 + size / fr.size)
                if not float(np.abs(n - n2).max()) <= tl:
                    return "normal %s, specified %s" % (list(n), list(n2))
                for x in P:
                    if not abs(float(n @ np.array(x)) + d) <= 1e-11 * (size + span) * fr.cond:
                        return "vertex %s is off the plane of its face by %r" % (x, float(n @ np.array(x)) + d)
            return None
        b.obs(poly3_line(None, v2, [[p[i] for i in f] for f in fs], "polyfaces"), judge)
        return [b]
    lattice.run_make(ctx, len(rows), make, "asan", tol)


def check(ctx):
    ctx.build("asan")
    tol = lattice.Tol(ctx)
    check_clip(ctx, tol)
    check_tets(ctx, tol)
    check_outlines(ctx, tol)
    ctx.extra["max_deviation_over_allowance"] = tol.max
