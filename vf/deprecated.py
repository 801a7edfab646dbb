"""C20: the deprecated library against spec/Window.tla and spec/Integrals (moments of cut boxes)."""
import random
import concurrent.futures as cf
import numpy as np
from . import core, geom, lattice
from .core import Raw
from .grids import GridFrame, EXACT_D, ANY_D
from .lattice import Beh, nums

# documented order of the moments
OLD = {3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (0, 1, 1), (1, 0, 1)],
       2: [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)]}
NUM = {3: (1, 4, 10), 2: (1, 3, 6)}
INV = ["Exact", "Tiling", "VertsOK", "Emit"]


def order_of(D):
    E = geom.exps(D, 2)
    return [E.index(e) for e in OLD[D]]


def windows(rng, D, N, n, gmax):
    out = set()
    # a column of odd length along every axis
    for a in range(D):
        c = [1] * D
        c[a] = N - 1 if N % 2 == 0 else N
        out.add("[G |-> <<%s>>, P |-> <<%s>>, n |-> <<%s>>]" % tuple(", ".join(map(str, x)) for x in ([1] * D, [rng.randint(0, N - x) if x > 1 else N // 2 for x in c], c)))
    while len(out) < n:
        G = [rng.randint(1, gmax)] * D if rng.random() < 0.4 else [rng.randint(1, gmax) for _ in range(D)]
        cnt = [rng.choice((N // g, rng.randint(1, N // g))) for g in G]
        P = [rng.randint(0, N - c * g) for c, g in zip(cnt, G)]
        out.add("[G |-> <<%s>>, P |-> <<%s>>, n |-> <<%s>>]" % tuple(", ".join(map(str, x)) for x in (G, P, cnt)))
    return Raw("{" + ", ".join(sorted(out)) + "}")


def frame(rng, D, w, exact):
    """lattice point P is the origin of the grid"""
    d = [rng.choice(EXACT_D if exact else ANY_D) for _ in range(D)]
    if rng.random() < 0.3:
        d = [d[0]] * D
    f = GridFrame(d, [0] * D, w["G"], [-x for x in w["P"]], "exact" if exact else "any")
    f.unit = not exact or rng.random() < 0.5
    return f


def grid_judge(T, tol, f, N, row, D, order):
    n = row["w"]["n"]
    nm = NUM[D][order]
    pick = order_of(D)[:nm]
    total = int(np.prod(n)) * nm
    want = np.zeros(total)
    for c in row["cells"]:
        k = 0
        for i in range(D):
            k = k * n[i] + c["c"][i]
        want[k * nm:(k + 1) * nm] = f.moments(c["m"], T.unit, T.order)[pick]
    sc = np.tile(tol.scales(f, 2 * N, T.order, D)[pick], total // nm)

    def judge(w):
        if int(w[0]) != total or w[1] != "0":
            return "the planes were changed" if w[1] != "0" else "grid of %s values, expected %d" % (w[0], total)
        g = np.array([float(x) for x in w[2:]])
        if not np.all(np.isfinite(g)):
            return "non-finite grid value"
        r = np.abs(g - want) / (tol.K * tol.eps * sc)
        m = float(r.max())
        tol.max = max(tol.max, m)
        if m > 1:
            k = int(r.argmax())
            q = k // nm
            c = []
            for i in reversed(range(D)):
                c.append(q % n[i]); q //= n[i]
            return "cell %s moment %s: deposited %.17g, specified %.17g" % (c[::-1], OLD[D][k % nm], g[k], want[k])
        return None
    return judge


def faces_judge(f, row, D, eps):
    """unit normals that point inwards, through the right vertices"""
    v = np.array([f.pt(x) for x in row["verts"]])
    size = float(np.max(np.abs(v)) + 1e-300)
    if D == 3:
        det = float(np.linalg.det(v[1:] - v[0])) / 6
    else:
        e1, e2 = v[1] - v[0], v[2] - v[0]
        det = float(e1[0] * e2[1] - e1[1] * e2[0]) / 2

    def judge(w):
        x = [float(y) for y in w]
        a = x[0] if D == 3 else abs(x[0])
        if not abs(a - det) <= 100 * eps * size ** D:
            return "signed volume %.17g, specified %.17g" % (x[0], det)
        for k in range(4):
            n, d = np.array(x[1 + (D + 1) * k:1 + (D + 1) * k + D]), x[1 + (D + 1) * k + D]
            if abs(float(n @ n) - 1) > 1e3 * eps:
                return "normal %d is not a unit vector" % k
            on = [i for i in range(4) if (i != k if D == 3 else i in (k, (k + 1) % 4))]
            for i in range(4):
                s = float(n @ v[i]) + d
                if i in on and abs(s) > 1e4 * eps * size:
                    return "plane %d misses vertex %d by %g" % (k, i, s)
                if i not in on and s <= 0:
                    return "plane %d does not point inwards" % k
        return None
    return judge


def behaviour(T, row, N, D, f, tol, rng, order):
    b = Beh(0, info=dict(D=D, faces=row["faces"], verts=row["verts"], w=row["w"], d=f.d, order=order))
    tail = "%d %s %s" % (order, " ".join(map(str, row["w"]["n"])), nums(f.d))
    j = grid_judge(T, tol, f, N, row, D, order)
    if row["verts"]:
        vs = [f.pt(v) for v in row["verts"]]
        if D == 3:
            for _ in range(2):                       # an even permutation
                a, c = rng.sample(range(4), 2)
                vs[a], vs[c] = vs[c], vs[a]
                rv = list(row["verts"]); rv[a], rv[c] = rv[c], rv[a]
                row = dict(row, verts=rv)
        else:
            r = rng.randrange(4)
            vs = vs[r:] + vs[:r]
            row = dict(row, verts=row["verts"][r:] + row["verts"][:r])
        b.obs("%s %s %s" % ("tet3" if D == 3 else "quad2", " ".join(nums(v) for v in vs), tail), faces_judge(f, row, D, tol.eps))
        b.judges.append(j)
    else:
        hs = list(row["faces"])
        rng.shuffle(hs)
        b.obs("%s %s %s" % ("vox3" if D == 3 else "ras2", " ".join(nums(f.plane(h)) for h in hs), tail), j)
    return b


def clip_behaviour(T, row, N, D, f, tol, rng, order):
    """the same body as a box cut by planes; only windows of one cell"""
    b = Beh(0, info=dict(D=D, clip=row["faces"], w=row["w"], d=f.d, order=order))
    hs = list(row["faces"])
    rng.shuffle(hs)
    k = 4
    while k > 1 and hs[k - 1] == hs[k - 2]:
        k -= 1
    lo = f.pt(row["w"]["P"])
    hi = f.pt([row["w"]["P"][i] + row["w"]["G"][i] for i in range(D)])
    nm = NUM[D][order]
    pick = order_of(D)[:nm]
    want = f.moments(row["cells"][0]["m"], T.unit, T.order)[pick] if row["cells"] else np.zeros(nm)
    sc = tol.scales(f, 2 * N, T.order, D)[pick]
    for skip in (0, 1):
        b.obs("clip%d %d %d %d %s %s %s" % (D, order, k, skip, " ".join(nums(f.plane(h)) for h in hs[:k]), nums(lo), nums(hi)), lambda w: tol.cmp(w[1:], want, sc))
    return b


def check(ctx):
    q = ctx.quick
    n = lambda a, b: a if q else b
    variants = ("dep", "deptree") if q else ("dep", "deptree", "depo3", "deptreeo3", "depfloat")
    for v in variants:
        ctx.build(v)
    rng = random.Random(ctx.seed * 37)
    jobs = []
    for D, N, gm in ((2, 6, 3), (3, 4, 3)):
        for F in ("planes", "body"):
            for S in ("scan", "tree"):
                jobs.append((D, dict(D=D, N=N, Order=2, Faces=Raw('"%s"' % F), Samples=n(24 if D == 2 else 14, 300), Windows=windows(rng, D, N, n(20 if D == 2 else 12, 30), gm), Strategy=Raw('"%s"' % S), Quiet=False)))
        # one cell: the clipper itself
        one = Raw("{" + ", ".join("[G |-> <<%s>>, P |-> <<%s>>, n |-> <<%s>>]" % (", ".join([str(g)] * D), ", ".join([str(o)] * D), ", ".join(["1"] * D)) for g, o in ((3, 0), (N, 0), (2, 1))) + "}")
        jobs.append((D, dict(D=D, N=N, Order=2, Faces=Raw('"planes"'), Samples=n(500, 4000), Windows=one, Strategy=Raw('"scan"'), Quiet=False)))
        # every order of looking at the boxes (specification only)
        jobs.append((D, dict(D=D, N=3, Order=0, Faces=Raw('"body"'), Samples=n(6, 20), Windows=Raw("{[G |-> <<%s>>, P |-> <<%s>>, n |-> <<%s>>]}" % (("1, 1", "0, 0", "3, 2") if D == 2 else ("1, 1, 1", "0, 0, 0", "2, 1, 2"))),
                             Strategy=Raw('"any"'), Quiet=True)))
    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda j: core.tlc(ctx, "Window%d" % j[0], j[1], INV, workers=2, heap="2g"), jobs))
    tol = lattice.Tol(ctx)
    for (D, c), r in zip(jobs, rs):
        if c["Quiet"]:
            continue
        T, rows = lattice.rows_of(r)
        one = all(set(row["w"]["n"]) == {1} for row in rows)
        for v in variants:
            fl = v == "depfloat"
            tl = lattice.Tol(ctx, eps=2.0 ** -23) if fl else tol

            def make(k, mini, rows=rows, T=T, D=D, c=c, one=one, fl=fl, tl=tl):
                out = []
                for rep in range(2):
                    rg = random.Random(ctx.seed * 7919 + k * 2 + rep)
                    f = frame(rg, D, rows[k]["w"], rep == 0 or fl)
                    order = rg.choice((2, 2, 1, 0))
                    out.append(behaviour(T, rows[k], c["N"], D, f, tl, rg, order))
                    if one:
                        out.append(clip_behaviour(T, rows[k], c["N"], D, f, tl, rg, order))
                return out
            lattice.run_make(ctx, len(rows), make, v, tl)
            ctx.bump("windows_%s_%dd" % (v, D), len(rows))
        ctx.bump("cut_cells", sum(len(r["cut"]) for r in rows))
        for row in rows[:1]:
            ctx.sample(dict(faces=row["faces"], w=row["w"], cells=len(row["cells"])))
    from . import biggrid
    for D in (2, 3):
        T, rows = biggrid.emit(ctx, D, 2 if D == 2 else 1, biggrid.window_cases(rng, D, not q))
        rows = biggrid.window_rows(T, rows)
        for v in variants:
            if v == "depfloat":
                continue

            def big(k, mini, rows=rows, T=T, D=D):
                rg = random.Random(ctx.seed * 7919 + k)
                return [behaviour(T, rows[k], rows[k]["N"], D, frame(rg, D, rows[k]["w"], rep == 0), tol, rg, T.order if rep == 0 else rg.randint(0, T.order)) for rep in range(2)]
            lattice.run_make(ctx, len(rows), big, v, tol)
            ctx.bump("big_windows_%s_%dd" % (v, D), len(rows))
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("half-spaces of the lattice arrangement under anisotropic grid spacings; windows up to 6x6 and 4x4x4 cells; simplices and rectangles on windows up to 130 (300) cells along an axis")
