"""C07, C08, C09, C19: voxelization, index boxes and clamping from spec/Voxel.tla."""
import random
import numpy as np
from . import core, geom, lattice, polyops
from .core import Raw
from .lattice import Beh, nums

INV = ["Ledger", "Placed", "Exact", "Minimal", "ClampOK", "Bound", "Emit"]


def tup(xs):
    return "<<" + ", ".join(str(x) for x in xs) + ">>"


def grec(G, P, ml, mh, a, b):
    return "[G |-> %s, P |-> %s, ml |-> %s, mh |-> %s, a |-> %s, b |-> %s]" % tuple(tup(x) for x in (G, P, ml, mh, a, b))


def grids(rng, D, n, gmax=3, margins=(0, 0, 0, 1, 2), clamp=False, arange=(-3, 3)):
    out = set()
    while len(out) < n:
        uni = rng.random() < 0.4
        G = [rng.randint(1, gmax)] * D if uni else [rng.randint(1, gmax) for _ in range(D)]
        P = [rng.choice((0, 0, rng.randrange(x))) for x in G]
        ml = [rng.choice(margins) for _ in range(D)]
        mh = [rng.choice(margins) for _ in range(D)]
        if clamp:
            a = [rng.choice((-1, 0, 0, 1, 1, rng.randint(*arange))) for _ in range(D)]
            b = [rng.choice((1, 0, 0, -1, -1, rng.randint(*arange))) for _ in range(D)]
        else:
            a = b = [0] * D
        out.add(grec(G, P, ml, mh, a, b))
    return sorted(out)


def single_axis_grids(D, sizes, clamp=False):
    """one thin axis stretched: thin boxes, single cells, odd sizes"""
    out = []
    for ax in range(D):
        for lo, hi in sizes:
            ml, mh = [0] * D, [0] * D
            ml[ax], mh[ax] = lo, hi
            out.append(grec([9] * D, [0] * D, ml, mh, [0] * D, [0] * D))      # one cell covers everything
    return out


def single_clamps(D, G, P):
    """every one- and two-sided clamp on a single axis, and clamps on all axes at once"""
    out = set()
    for ax in range(D):
        for lo in range(-2, 5):
            for hi in range(-4, 3):
                a, b = [-1] * D, [1] * D
                a[ax], b[ax] = lo, hi
                out.add(grec(G, P, [0] * D, [0] * D, a, b))
    for a0 in (0, 1):
        for b0 in (0, -1):
            out.add(grec(G, P, [0] * D, [0] * D, [a0] * D, [b0] * D))
            out.add(grec(G, P, [1] * D, [2] * D, [a0] * D, [b0] * D))
    return sorted(out)


def consts(D, big=False, **kw):
    N = {(3, False): 3, (2, False): 3, (3, True): 4, (2, True): 8, (4, False): 2, (4, True): 3, (3, 2): 7, (2, 2): 15}[(D, big)]
    c = dict(D=D, N=N, Order=2, ContentOf=("<-", "ContentT"), UseShapes=("<-", "ShapeIds"), UseCuts={0}, DoClamp=False,
             Strategy=Raw('"mid"'), Quiet=False)
    c.update(kw)
    return c


def emit(ctx, D, big=False, workers=None, inv=None, **kw):
    c = consts(D, big, **kw)
    c["Grids"] = Raw("{" + ", ".join(c["Grids"]) + "}")
    r = core.tlc(ctx, "Voxel%d%s" % (D, ("", "B", "C")[big]), c, inv or INV, workers=workers)
    T, rows = lattice.rows_of(r)
    return T, rows, c["N"]


def emit_many(ctx, jobs, par=3):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(emit, ctx, workers=max(2, core.NCPU // par), **j) for j in jobs]
        return [f.result() for f in fs]


class GridFrame(geom.Frame):
    """index k of axis i sits at d*(k + off); lattice x at d*((x+P)/G + off)"""
    def __init__(self, d, off, G, P, name):
        D = len(d)
        A = np.diag([d[i] / G[i] for i in range(D)])
        t = [d[i] * (P[i] / G[i] + off[i]) for i in range(D)]
        geom.Frame.__init__(self, A, t, name)
        self.d, self.off, self.G, self.P = d, off, G, P

    def pt(self, p):
        return [float(self.d[i] * ((p[i] + self.P[i]) / self.G[i] + self.off[i])) for i in range(self.D)]


EXACT_D = (1.0, 2.0, 0.5, 0.125, 4.0, 3.0, 0.75, 5.0, 2.0 ** -20, 2.0 ** 20)
ANY_D = (0.1, 0.3, 0.7, 1.1, 0.05, 3.3, 1e-3, 123.4, 0.2, 1.0 / 3)


def make_frame(rng, D, row, exact, name="grid"):
    d = [rng.choice(EXACT_D if exact else ANY_D) for _ in range(D)]
    if rng.random() < 0.3:
        d = [d[0]] * D
    kind = rng.random()
    if kind < 0.25:
        off = [0] * D
    elif kind < 0.8:
        off = [rng.randint(-6, 6) for _ in range(D)]
    else:
        off = [rng.choice((-1, 1)) * rng.randint(50, 400) for _ in range(D)]
    # cut vertices carry a rounding whatever the spacing: their index boxes are judged as in inexact frames
    return GridFrame(d, off, row["g"]["G"], row["g"]["P"], name + ("_exact" if exact and not row["h"] else "_any"))


def grid_judge(T, tol, frame, N, row, pre, order, D, scale_full):
    lo, hi = row["box"]["lo"], row["box"]["hi"]
    n = [hi[i] - lo[i] for i in range(D)]
    nm = len(geom.exps(D, order))
    total = int(np.prod(n)) * nm
    want = np.zeros(total)
    for c in row["cells"]:
        k = 0
        for i in range(D):
            k = k * n[i] + (c["c"][i] - lo[i])
        want[k * nm:(k + 1) * nm] += frame.moments(c["m"], T.unit, T.order)[:nm]
    sc = np.tile(tol.scales(frame, N, T.order, D)[:nm], total // nm)
    base = pre * (np.arange(total) % 7 + 1)

    def judge(w):
        if int(w[0]) != total:
            return "grid of %s values, expected %d" % (w[0], total)
        g = np.array([float(x) for x in w[1:]])
        if not np.all(np.isfinite(g)):
            return "non-finite grid value"
        r = np.abs(g - base - want) / (tol.K * tol.eps * (sc + abs(pre) * 8))
        m = float(r.max())
        tol.max = max(tol.max, m)
        if m > 1:
            k = int(r.argmax())
            q = k // nm
            c = []
            for i in reversed(range(D)):
                c.append(q % n[i] + lo[i]); q //= n[i]
            return "cell %s (unshifted indices) moment %d: deposited %.17g, specified %.17g" % (c[::-1], k % nm, g[k] - base[k], want[k])
        if pre == 0.0:
            # conservation of the total, more tightly
            tot = np.zeros(nm)
            for m2 in range(nm):
                tot[m2] = g[m2::nm].sum() - want[m2::nm].sum()
            if np.any(np.abs(tot) > tol.K * tol.eps * sc[:nm]):
                return "total differs: %s" % tot
        return None
    return judge


def same_as(store, key, what):
    def judge(w):
        s = " ".join(w)
        if key not in store:
            store[key] = s
            return None
        return None if store[key] == s else what + " changed"
    return judge


def body_lines(b, D, T, row, frame, rng):
    sh = T.shape(row["shape"])
    if D == 4:
        from . import nd
        nd.build4(b, 0, sh, frame, rng)
    else:
        lattice.build(b, D, 0, sh, frame, rng)
    if row["h"]:
        hs = T.hsr(row["h"])
        b.obs("%d clip 0 1 %s" % (D, lattice.plane_str(frame, hs)), None)
    return sh


def ints(xs):
    return " ".join(str(int(x)) for x in xs)


def vox_beh(T, row, N, D, frame, tol, rng, order):
    b = Beh(0, info=dict(shape=T.shape(row["shape"])["name"], cut=T.hsr(row["h"]) if row["h"] else None, d=frame.d, off=frame.off, g=row["g"], box=row["box"], order=order))
    P = "%d " % D
    body_lines(b, D, T, row, frame, rng)
    store = {}
    b.obs(P + "dump 0", same_as(store, "d", "input body"))
    lo = [x + o for x, o in zip(row["box"]["lo"], frame.off)]
    hi = [x + o for x, o in zip(row["box"]["hi"], frame.off)]
    pre = rng.choice((0.0, 0.0, 1.0)) * abs(frame.det) * rng.choice((1.0, -0.5))
    b.obs(P + "vox 0 %d %s %s %s %r" % (order, ints(lo), ints(hi), nums(frame.d), pre), grid_judge(T, tol, frame, N, row, pre, order, D, None))
    b.obs(P + "dump 0", same_as(store, "d", "input body"))
    return b


def box_judge(row, frame, key="mbox", D=3):
    lo = [x + o for x, o in zip(row[key]["lo"], frame.off)]
    hi = [x + o for x, o in zip(row[key]["hi"], frame.off)]

    loose = [0] * (2 * D)
    if key == "mbox" and not frame.name.endswith("_exact"):
        # an extreme coordinate on a cell boundary of an inexact spacing may round to either side
        g, e = row["g"], row["ext"]
        for i in range(D):
            loose[i] = -1 if (e["lo"][i] + g["P"][i]) % g["G"][i] == 0 else 0
            loose[D + i] = 1 if (e["hi"][i] + g["P"][i]) % g["G"][i] == 0 else 0

    def judge(w):
        v = [int(x) for x in w]
        if len(v) == 2 * D and all(a == b or a == b + l for a, b, l in zip(v, lo + hi, loose)):
            return None
        return "index box %s, specified %s..%s" % (v, lo, hi)
    return judge


def clamp_beh(T, row, N, D, frame, tol, rng, order):
    b = Beh(0, info=dict(shape=T.shape(row["shape"])["name"], cut=T.hsr(row["h"]) if row["h"] else None, d=frame.d, off=frame.off, g=row["g"], box=row["box"],
                         clamp=[row["rlo"], row["rhi"]]))
    P = "%d " % D
    body_lines(b, D, T, row, frame, rng)
    store = {}
    b.obs(P + "dump 0", same_as(store, "d", "input body"))
    b.obs(P + "ibox 0 %s" % nums(frame.d), box_judge(row, frame, "mbox", D))
    b.obs(P + "dump 0", same_as(store, "d", "input body of the index box query"))
    wide_lo = [row["mbox"]["lo"][i] - row["g"]["ml"][i] + frame.off[i] for i in range(D)]
    wide_hi = [row["mbox"]["hi"][i] + row["g"]["mh"][i] + frame.off[i] for i in range(D)]
    rlo = [x + o for x, o in zip(row["rlo"], frame.off)]
    rhi = [x + o for x, o in zip(row["rhi"], frame.off)]
    line = P + "clamp 0 %s %s %s %s %s" % (ints(wide_lo), ints(wide_hi), ints(rlo), ints(rhi), nums(frame.d))
    if row["empty"]:
        b.obs(line, lambda w: None if any(int(w[D + i]) <= int(w[i]) for i in range(D)) else "box %s after clamping to a disjoint range is not empty" % w)
        b.obs(P + "dump 0", lambda w: None if w[0] == "0" else "body clamped to a disjoint range is not empty")
        return b
    b.obs(line, box_judge(row, frame, "box", D))
    b.obs(P + "reduce 0 %d" % order, lattice.mom_judge(tol, T, frame, N, row["m"], D, order))
    lo = [x + o for x, o in zip(row["box"]["lo"], frame.off)]
    hi = [x + o for x, o in zip(row["box"]["hi"], frame.off)]
    if row["m"][0]:
        eps = 1e-9

        def inside(w, lo=lo, hi=hi):
            pos, nb = polyops.parse_poly(w, D)
            for p in pos:
                for i in range(D):
                    s = abs(frame.d[i]) * (1 + max(abs(lo[i]), abs(hi[i])))
                    if p[i] < lo[i] * frame.d[i] - eps * s or p[i] > hi[i] * frame.d[i] + eps * s:
                        return "vertex %s outside the clamp range" % p
            return None
        if D < 4:
            b.obs(P + "dump 0", inside)
    b.obs(P + "vox 0 %d %s %s %s 0.0" % (order, ints(lo), ints(hi), nums(frame.d)), grid_judge(T, tol, frame, N, row, 0.0, order, D, None))
    return b


def replay(ctx, T, rows, N, D, tol, nframes, beh, orders=(0, 1, 2), variant="asan"):
    def make(k, mini):
        rng = random.Random(ctx.seed * 7919 + k)
        out = []
        for q in range(nframes):
            exact = q % 2 == 0
            f = make_frame(rng, D, rows[k], exact)
            mini.bump(f.name)
            out.append(beh(T, rows[k], N, D, f, tol, rng, rng.choice(orders)))
        return out
    lattice.run_make(ctx, len(rows), make, variant, tol)
    for row in rows[:2]:
        ctx.sample(dict(shape=T.shape(row["shape"])["name"], g=row["g"], box=row["box"], cells=len(row["cells"])))


def check_vox(ctx, D):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    rng = random.Random(ctx.seed * 17 + D)
    n = lambda a, b: a if q else b
    nh = polyops.nhs(D, 3)
    jobs = [
        dict(D=D, Order=2, Grids=grids(rng, D, n(30, 200))),
        dict(D=D, Order=2, Grids=grids(rng, D, n(8, 40)), UseCuts=set(rng.sample(range(1, nh + 1), n(10, 24)))),
        dict(D=D, Order=1, Grids=grids(rng, D, n(8, 40), margins=(0, 1, 3, 5, 8, 13))),
        dict(D=D, Order=0, Grids=single_axis_grids(D, [(0, 0), (0, 1), (1, 1), (0, 3), (2, 4), (0, 30), (17, 15)]), UseShapes={1, 3, 6, 9, 12}),
        dict(D=D, big=True, Order=2, Grids=grids(rng, D, n(20, 120), gmax=5 if D == 2 else 4)),
        dict(D=D, big=True, Order=1, Grids=grids(rng, D, n(6, 30), gmax=4), UseCuts=set(rng.sample(range(1, polyops.nhs(D, 4 if D == 3 else 8) + 1), n(8, 20)))),
        dict(D=D, big=2, Order=1, Grids=grids(rng, D, n(3, 20), gmax=6)),
        # every order of division gives the same deposit (specification only)
        dict(D=D, Order=0, Quiet=True, Strategy=Raw('"any"'), Grids=[grec([1] * D, [0] * D, [0] * D, [0] * D, [0] * D, [0] * D)] if D == 2 else
             [grec([2, 2, 1], [0, 1, 0], [0] * D, [0] * D, [0] * D, [0] * D)], UseShapes={2, 5} if D == 2 else {2, 3}),
    ]
    for j, (T, rows, N) in zip(jobs, emit_many(ctx, jobs)):
        if j.get("Quiet"):
            continue
        replay(ctx, T, rows, N, D, tol, n(2, 4), vox_beh, orders=tuple(range(j["Order"] + 1)))
        ctx.bump("grid_cases", len(rows))
    from . import biggrid
    for order, cs in ((1, biggrid.inside_cases(rng, D, not q)), (6, biggrid.order_cases(D))):
        T, rows = biggrid.emit(ctx, D, order, cs)
        biggrid.replay(ctx, T, rows, D, tol, n(2, 4), vox_beh, tuple(range(order + 1)))
    # a grid without cells and an empty body change nothing (observable: no output, no access)
    behs = []
    z = " ".join(["0"] * D)
    b = Beh(0, info=dict(case="empty body"))
    b.obs("%d vox 0 1 %s %s %s 1.0" % (D, z, " ".join(["2"] * D), nums([1.0] * D)),
          lambda w: None if all(float(x) == (k % 7 + 1) for k, x in enumerate(w[1:])) else "an empty body changed the grid")
    behs.append(b)
    for ax in range(D):
        hi = ["2"] * D
        hi[ax] = "0"
        b = Beh(ax + 1, info=dict(case="grid without cells"))
        b.cmd("%d box 0 %s %s" % (D, nums([0.25] * D), nums([1.75] * D)))
        b.obs("%d vox 0 1 %s %s %s 1.0" % (D, z, " ".join(hi), nums([1.0] * D)), lambda w: None)
        behs.append(b)
    lattice.run(ctx, behs)
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("the index box covers the body, as get_ibox and clamp_ibox produce it; general bodies on grids up to 7x7x7 (15x15) occupied cells; boxes, wedges and simplices on grids up to 257 (513) cells along an axis")


def check_ibox(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    n = lambda a, b: a if q else b
    for D in (3, 2):
        rng = random.Random(ctx.seed * 19 + D)
        nh = polyops.nhs(D, 3)
        base = dict(D=D, DoClamp=True)
        jobs = [
            dict(base, Order=1, Grids=grids(rng, D, n(60, 400), clamp=True)),
            dict(base, Order=1, Grids=single_clamps(D, [1] * D, [0] * D), UseShapes={2, 3, 6, 13} if D == 3 else ("<-", "ShapeIds")),
            dict(base, Order=0, Grids=single_clamps(D, [2] * D, [1] * D), UseShapes={1, 4, 7, 15} if D == 3 else ("<-", "ShapeIds")),
            dict(base, Order=1, Grids=grids(rng, D, n(10, 60), clamp=True), UseCuts=set(rng.sample(range(1, nh + 1), n(8, 20)))),
            dict(base, big=True, Order=1, Grids=grids(rng, D, n(30, 200), gmax=4, clamp=True, arange=(-6, 6))),
            dict(base, big=2, Order=1, Grids=grids(rng, D, n(6, 40), gmax=4, clamp=True, arange=(-6, 6))),
        ]
        for j, (T, rows, N) in zip(jobs, emit_many(ctx, jobs)):
            # a cut nonconvex body may keep flat remainders on the cut plane away from its solid part
            rows = [r for r in rows if not r["h"] or T.shape(r["shape"])["convex"]]
            replay(ctx, T, rows, N, D, tol, n(2, 3), clamp_beh, orders=tuple(range(j["Order"] + 1)))
            ctx.bump("clamp_cases", len(rows))
        from . import biggrid
        T, rows = biggrid.emit(ctx, D, 1, biggrid.clamp_cases(rng, D, n(12, 60)))
        biggrid.replay(ctx, T, rows, D, tol, n(2, 4), clamp_beh, (0, 1))
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("with a spacing that is not exactly representable, an extreme coordinate on a cell boundary may be counted to either cell")
