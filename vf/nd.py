"""C18, C19: four-dimensional bodies."""
import itertools, random
import numpy as np
from . import core, geom, lattice, polyops, grids
from .core import Raw
from .lattice import Beh, nums

INV = ["Simple", "Degree", "Halves", "Nonempty", "Emit"]
NS = 10


def nhs(N):
    return polyops.nhs(4, N)


def build4(b, slot, shape, frame, rng=None):
    if shape["kind"] == "box":
        lo = [min(v[k] for v in shape["verts"]) for k in range(4)]
        hi = [max(v[k] for v in shape["verts"]) for k in range(4)]
        if frame.axis:
            b.cmd("4 box %d %s %s" % (slot, nums(frame.pt(lo)), nums(frame.pt(hi))))
        else:      # unit box, then the map
            b.cmd("4 box %d %s %s" % (slot, nums(lo), nums(hi)))
            M = [list(frame.A[i]) + [frame.t[i]] for i in range(4)] + [[0, 0, 0, 0, 1]]
            b.cmd("4 affine %d %s" % (slot, " ".join(nums(r) for r in M)))
    else:
        vs = [list(v) for v in shape["verts"]]
        if rng:
            rng.shuffle(vs)
        b.cmd("4 simplex %d %s" % (slot, " ".join(nums(frame.pt(v)) for v in vs)))


def emit(ctx, N=3, simulate=None, workers=None, **kw):
    c = dict(D=4, N=N, Order=0, ContentOf=("<-", "ContentT"), UseShapes=("<-", "ShapeIds"), UseHS=("<-", "HS"), Steps=1, MinArity=1, MaxArity=1,
             Sample=0, Keep=Raw('"any"'))
    c.update(kw)
    r = core.tlc(ctx, "Poly4", c, INV, simulate=simulate, depth=120, workers=workers)
    T, rows = lattice.rows_of(r)
    return T, rows, N


def vol_scale(frame, N):
    """the 4D volume is a sum of products of four distances from the origin"""
    return max(frame.R(N) ** 4, abs(frame.det) * N ** 4) * frame.cond


def vol_judge(tol, frame, N, n, known=None):
    want = n / 24.0 * abs(frame.det)
    sc = vol_scale(frame, N) * 8

    def judge(w):
        return tol.cmp(w, np.array([want]), np.array([sc]))
    return judge


def struct4(nb):
    e = polyops.struct_err(nb, 4)
    return e


def dump_judge(frame, N, ob, tol, prev, planes):
    eps = 40 * polyops.lat_eps(frame, 4, N, tol)

    def judge(w):
        pos, nb = polyops.parse_poly(w, 4)
        old = prev.get("pos")
        prev["pos"] = pos
        if len(pos) != len(ob["ex"]):
            return "%d vertices, specified %d" % (len(pos), len(ob["ex"]))
        if not pos:
            return None
        e = polyops.struct_err(nb, 4)
        if e:
            return e
        X = (np.array(pos) - frame.t) @ frame.Ainv.T
        if not np.all(np.isfinite(X)):
            return "non-finite vertex"
        E = np.array(ob["ex"], dtype=float)
        d = np.abs(X[:, None, :] - E[None, :, :]).max(axis=2)
        m = d.argmin(axis=1)
        if float(d.min(axis=1).max()) > eps or len(set(m.tolist())) != len(pos):
            return "vertex set differs from the exact one (deviation %g)" % float(d.min(axis=1).max())
        got = {(min(int(m[i]), int(m[x])) + 1, max(int(m[i]), int(m[x])) + 1) for i, l in enumerate(nb) for x in l}
        want = {tuple(e) for e in ob["ed"]}
        if got != want:
            return "edges differ: missing %s, extra %s" % (sorted(want - got)[:4], sorted(got - want)[:4])
        if old is not None:
            old = {tuple(p) for p in old}
            kept = sum(1 for p in pos if tuple(p) in old)
            prev["kept"] = kept
        return None
    return judge


def behaviour(T, row, N, frame, tol, rng, known=None):
    sh = T.shape(row["shape"])
    b = Beh(0, info=dict(shape=sh["name"], frame=frame.name, hist=[[T.hsr(x) for x in h["hs"]] for h in row["hist"]]), known=known)
    build4(b, 0, sh, frame, rng)
    prev = {}
    for k, h in enumerate(row["hist"]):
        if k:
            hs = [T.hsr(x) for x in h["hs"]]
            b.obs("4 clip 0 %d %s" % (len(hs), " ".join(lattice.plane_str(frame, x) for x in hs)), lambda w: "plane list modified" if w[2] != "0" else None)
        o = h["obs"]
        b.obs("4 dump 0", dump_judge(frame, N, o, tol, prev, None))
        b.obs("4 good 0", lambda w: None if w[0] == "1" else "validity test rejects the result")
        b.obs("4 reduce 0 0", vol_judge(tol, frame, N, o["n"]))
    return b


KINDS = ("perm", "pow2", "rot", "general", "scaleaxis", "tiny", "huge", "near", "micro")


def frame4(rng, kind):
    if kind == "near":
        return geom.Frame(geom.rot_random(rng, 4), [rng.uniform(5, 10) * rng.choice((-1, 1)) for _ in range(4)], "near", unit=True)
    if kind == "pow2":      # moderate anisotropy: volumes are sums of fourth powers of distances
        A = np.diag([2.0 ** rng.randint(-2, 2) for _ in range(4)])
        return geom.Frame(A, [0.0] * 4, "pow2", exact=True, scale_n=2.0 ** rng.randint(-5, 5))
    return geom.random_frame(rng, 4, kind)


def check_clip(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    rng = random.Random(ctx.seed * 23)
    sub = lambda N, k: set(rng.sample(range(1, nhs(N) + 1), k))
    jobs = [dict(N=3), dict(N=3, Steps=2, Keep=Raw('"some"'), UseHS=sub(3, 40 if q else 80)),
            dict(N=3, MinArity=2, MaxArity=2, UseHS=sub(3, 40 if q else 80), Keep=Raw('"some"')),
            dict(N=3, Steps=3, MaxArity=3, Sample=40, simulate=60 if q else 600)]
    if not q:
        jobs += [dict(N=4), dict(N=4, Steps=3, UseHS=sub(4, 26), Keep=Raw('"cut"')), dict(N=4, Steps=4, MaxArity=2, Sample=60, Keep=Raw('"some"'), simulate=300)]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: emit(ctx, workers=max(2, core.NCPU // 3), **j), jobs))
    fr = [frame4(rng, KINDS[k % len(KINDS)]) for k in range(36)]
    for T, rows, N in res:
        def make(k, mini):
            r = random.Random(ctx.seed * 101 + k)
            # a plane touching a vertex is only in general position where it is represented exactly
            pool = fr if rows[k]["strict"] else [f for f in fr if f.exact]
            fs = [geom.identity(4)] + [pool[r.randrange(len(pool))] for _ in range(1 if q else 3)]
            for f in fs:
                mini.bump("frame_" + f.name)
            return [behaviour(T, rows[k], N, f, tol, r) for f in fs]
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("histories", len(rows))
        ctx.bump("cutting_calls", sum(1 for r in rows for h in r["hist"][1:] if 0 < h["obs"]["n"]))
        ctx.sample(dict(shape=T.shape(rows[0]["shape"])["name"], hist=[[T.hsr(x) for x in h["hs"]] for h in rows[0]["hist"]]))
    # recorded finding: a plane through vertices of the body
    kb = Beh(0, info=dict(case="simplex 0,e1..e4 clipped by x0 - x1 >= 0"), known="vertex-on-plane")
    kb.cmd("4 simplex 0 " + " ".join(nums(v) for v in [[0] * 4] + np.eye(4).tolist()))
    kb.obs("4 clip 0 1 1 -1 0 0 0", None)
    kb.obs("4 reduce 0 0", lambda w: tol.cmp(w, np.array([1 / 48.0]), np.array([1.0])))
    lattice.run(ctx, [kb])
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("cuts in general position: through no vertex of the body unless all vertices are on one closed side (see known-findings.txt)")


def check_grid(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    tol.scales = lambda frame, N, order, D: np.array([vol_scale(frame, N) * 8])
    rng = random.Random(ctx.seed * 29)
    n = lambda a, b: a if q else b
    D = 4

    def gr(k, clamp, gs=(1, 2, 3, 4)):
        out = set()
        while len(out) < k:
            G = [rng.choice(gs) for _ in range(D)]
            P = [rng.randrange(x) for x in G]
            mg = (0,) if rng.random() < 0.6 else (0, 0, 1, 2)
            a = [rng.choice((-1, 0, 0, 1)) if clamp else 0 for _ in range(D)]
            b = [rng.choice((1, 0, 0, -1)) if clamp else 0 for _ in range(D)]
            out.add(grids.grec(G, P, [rng.choice(mg) for _ in range(D)], [rng.choice(mg) for _ in range(D)], a, b))
        return sorted(out)
    boxes = {7, 8, 9, 10}
    simp = {1, 2, 3, 4, 5, 6}
    jobs = [
        dict(D=4, Order=0, Grids=gr(n(40, 160), False), UseShapes=boxes),
        dict(D=4, Order=0, Grids=gr(n(500, 2000), False, (2, 3, 4, 5, 6)), UseShapes=simp),
        dict(D=4, Order=0, DoClamp=True, Grids=gr(n(60, 200), True) + rng.sample(grids.single_clamps(4, [1] * 4, [0] * 4), n(50, 180)), UseShapes=boxes - {7}),
        dict(D=4, Order=0, DoClamp=True, Grids=[x for x in gr(n(60, 200), True) if x.count("1") < 12], UseShapes={7}),
        dict(D=4, Order=0, DoClamp=True, Grids=gr(n(500, 2000), True, (2, 3, 4, 5)), UseShapes=simp),
    ]

    def one(j):
        c = grids.consts(4, True, **{k: v for k, v in j.items() if k not in ("D",)})
        c["D"] = 4
        c["Grids"] = Raw("{" + ", ".join(c["Grids"]) + "}")
        r = core.tlc(ctx, "Voxel4", c, ["Exact", "Minimal", "ClampOK", "Emit"], workers=max(2, core.NCPU // 3), constraint="Simple4")
        T, rows = lattice.rows_of(r)
        return T, rows, c["N"]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    for j, (T, rows, N) in zip(jobs, res):
        beh = grids.clamp_beh if j.get("DoClamp") else grids.vox_beh

        def make(k, mini):
            r = random.Random(ctx.seed * 211 + k)
            out = []
            for e in range(n(2, 3)):
                f = frame_grid(r, rows[k], e % 2 == 0 or flush(rows[k]))
                mini.bump(f.name)
                out.append(beh(T, rows[k], N, 4, f, tol, r, 0))
            return out
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("grid_cases_" + ("clamp" if j.get("DoClamp") else "vox"), len(rows))
        for row in rows[:1]:
            ctx.sample(dict(shape=T.shape(row["shape"])["name"], g=row["g"], box=row["box"], cells=len(row["cells"])))
    from . import biggrid
    T, rows = biggrid.emit(ctx, 4, 0, biggrid.cases4(rng, not q))

    def big(k, mini):
        r = random.Random(ctx.seed * 223 + k)
        return [grids.vox_beh(T, rows[k], rows[k]["N"], 4, frame_grid(r, rows[k], e == 0), tol, r, 0) for e in range(2)]
    lattice.run_make(ctx, len(rows), big, "asan", tol)
    ctx.bump("big_grid_cases", len(rows))
    # recorded finding: a cell boundary through a vertex of a piece
    kb = Beh(0, info=dict(case="simplex 0,2e1..2e4 on a 2x2x2x2 grid"), known="vertex-on-boundary")
    kb.cmd("4 simplex 0 " + " ".join(nums(v) for v in [[0] * 4] + (2 * np.eye(4)).tolist()))
    kb.obs("4 vox 0 0 0 0 0 0 2 2 2 2 1 1 1 1 0", lambda w: tol.cmp([str(sum(float(x) for x in w[1:]))], np.array([16 / 24.0]), np.array([10.0])))
    lattice.run(ctx, [kb])
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("facets and cell boundaries in general position (see known-findings.txt)")


def flush(row):
    """the body touches a cell boundary from one side"""
    g, e = row["g"], row["ext"]
    return any((e[s][i] + g["P"][i]) % g["G"][i] == 0 for s in ("lo", "hi") for i in range(4))


def frame_grid(rng, row, exact):
    d = [rng.choice((1.0, 2.0, 0.5, 3.0)) if exact else rng.choice((0.7, 1.1, 0.3, 1.9)) for _ in range(4)]
    off = [0] * 4 if rng.random() < 0.3 else [rng.randint(-3, 3) for _ in range(4)]
    return grids.GridFrame(d, off, row["g"]["G"], row["g"]["P"], "grid4" + ("_exact" if exact and not row["h"] else "_any"))
