"""Large grids and high orders: spec/BigGrid.tla."""
import random
from . import core, lattice, grids
from .core import Raw
from .grids import tup

INV = ["Conserved", "Fits", "Emit"]


def case(kind, L, o=None, G=None, P=None, lo=None, hi=None, slack=None):
    """a body and a window; without one the window is the covering box widened by slack"""
    D = len(L)
    o, G, P = o or [0] * D, G or [1] * D, P or [0] * D
    sl, sh = slack or ([0] * D, [0] * D)
    lo = lo or [(o[i] + P[i]) // G[i] - sl[i] for i in range(D)]
    hi = hi or [-((-o[i] - L[i] - P[i]) // G[i]) + sh[i] for i in range(D)]
    return '[kind |-> "%s", L |-> %s, o |-> %s, G |-> %s, P |-> %s, lo |-> %s, hi |-> %s]' % (kind, tup(L), tup(o), tup(G), tup(P), tup(lo), tup(hi))


def perms(xs):
    D = len(xs)
    return [tuple(xs[(i + k) % D] for i in range(D)) for k in range(D)]


def shape_of(c):
    """construction of a case for the executor"""
    L, o, D = c["L"], c["o"], len(c["L"])
    at = lambda *f: tuple(o[i] + L[i] * f[i] for i in range(D))
    name = "%s%s" % (c["kind"], "x".join(map(str, L)))
    if c["kind"] == "box":
        if D == 2:
            return dict(name=name, kind="box", convex=True, loops=[[at(0, 0), at(1, 0), at(1, 1), at(0, 1)]])
        if D == 3:
            vs = [at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)]
            return dict(name=name, kind="box", convex=True, verts=vs, faces=[[1, 4, 3, 2], [5, 6, 7, 8], [1, 2, 6, 5], [2, 3, 7, 6], [3, 4, 8, 7], [4, 1, 5, 8]])
        return dict(name=name, kind="box", convex=True, verts=[at(0, 0, 0, 0), at(1, 1, 1, 1)])
    if c["kind"] == "simplex":
        vs = [at(*[1 if i < k else 0 for i in range(D)]) for k in range(D + 1)]
        if D == 2:
            return dict(name=name, kind="poly", convex=True, loops=[vs])
        return dict(name=name, kind="tet" if D == 3 else "simplex", convex=True, verts=vs, faces=[])
    vs = [at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1)]
    return dict(name=name, kind="poly", convex=True, verts=vs, faces=[[1, 3, 2], [4, 5, 6], [1, 2, 5, 4], [2, 3, 6, 5], [3, 1, 4, 6]])


def emit(ctx, D, Order, Cases, workers=None):
    r = core.tlc(ctx, "BigGrid", dict(D=D, N=1, Order=Order, Quiet=False, Cases=Raw("{" + ", ".join(sorted(set(Cases))) + "}")), INV, workers=workers)
    T, parts = lattice.rows_of(r)
    by = {}
    for p in parts:
        by.setdefault(str(p["case"]), []).append(p)
    T.shapes, rows = [], []
    for k in sorted(by):
        ps = by[k]
        c = ps[0]["case"]
        T.shapes.append(shape_of(c))
        cells = [e for p in ps for e in p["cells"]]
        z = [0] * D
        m = [sum(e["m"][q] for e in cells) for q in range(len(T.exps))]
        rows.append(dict(shape=len(T.shapes), h=0, g=dict(G=c["G"], P=c["P"], ml=z, mh=z, a=z, b=z), fs=ps[0]["fs"],
                         box=dict(lo=c["lo"], hi=c["hi"]), mbox=ps[0]["cover"], rlo=c["lo"], rhi=c["hi"], empty=not cells,
                         ext=dict(lo=c["o"], hi=[a + b for a, b in zip(c["o"], c["L"])]), m=m, cells=cells, N=max(a + abs(b) for a, b in zip(c["L"], c["o"]))))
        assert len(ps) == c["hi"][0] - c["lo"][0]
    return T, rows


def inside_cases(rng, D, thorough=False):
    out = []
    if D == 3:
        for a in (200, 65, 257) + ((512, 129, 300) if thorough else ()):
            out += [case("box", L) for L in rng.sample(perms((a, rng.choice((1, 2, 3)), rng.choice((1, 2)))), 1 if not thorough else 3)]
        out += [case("box", rng.choice(perms((40, 17, 2)))), case("box", (9, 9, 9), (1, 0, 2), slack=([3, 0, 1], [0, 4, 2])),
                case("simplex", (14,) * 3), case("simplex", (11,) * 3, (1, 0, 2), slack=([0, 20, 1], [4, 1, 17])), case("wedge", (33, 33, 1)),
                case("wedge", (20, 20, 9), (0, 0, 0), (1, 1, 9)), case("simplex", (20,) * 3, (0, 0, 0), (2, 1, 5), (1, 0, 2)),
                case("box", (60, 2, 2), (0, 0, 0), (1, 3, 2), (0, 1, 1), slack=([70, 0, 0], [150, 1, 0]))]
    else:
        for a in (300, 65, 129, 513) + ((1025, 800) if thorough else ()):
            out += [case("box", L) for L in rng.sample(perms((a, rng.choice((1, 2, 3)))), 1 if not thorough else 2)]
        out += [case("box", (40, 37)), case("simplex", (60, 60)), case("simplex", (33, 33), (2, 1), slack=([0, 40], [70, 3])),
                case("simplex", (90, 90), (0, 0), (1, 30), (0, 7)), case("simplex", (90, 90), (0, 0), (45, 1)), case("box", (60, 3), (0, 0), (1, 2), (0, 1), slack=([300, 0], [2, 5]))]
    return out


def order_cases(D):
    G = [1, 2, 1][:D]
    return [case("simplex", [3] * D), case("box", [3, 2, 2][:D]), case("simplex", [3] * D, [0] * D, G, [0, 1, 0][:D]), case("box", [2, 3, 1][:D], [0, 0, 1][:D], G)] + ([case("wedge", [2, 2, 3])] if D == 3 else [])


def clamp_cases(rng, D, n):
    """windows smaller than the body on some sides"""
    out = []
    while len(out) < n:
        kind = rng.choice(("box", "simplex") + (("wedge",) if D == 3 else ()))
        if kind == "box":
            L = list(rng.choice(perms((rng.choice((50, 90, 130)), 3, 2)[:D])))
        else:
            L = [rng.choice((9, 12))] * D if D == 3 else [rng.choice((20, 45))] * D
        o = [rng.randint(0, 3) for _ in range(D)]
        lo = [o[i] + rng.randint(0, max(0, L[i] // 3)) for i in range(D)]
        hi = [max(lo[i] + 1, o[i] + L[i] - rng.randint(0, max(0, L[i] // 3))) for i in range(D)]
        out.append(case(kind, L, o, None, None, lo, hi))
    return out


def replay(ctx, T, rows, D, tol, nframes, beh, orders, variant="asan"):
    def make(k, mini):
        rng = random.Random(ctx.seed * 6577 + k)
        out = []
        for q in range(nframes):
            f = grids.make_frame(rng, D, rows[k], q % 2 == 0)
            mini.bump("big_" + f.name)
            out.append(beh(T, rows[k], rows[k]["N"], D, f, tol, rng, orders[-1] if q == 0 else rng.choice(orders)))
        return out
    lattice.run_make(ctx, len(rows), make, variant, tol)
    ctx.bump("big_grid_cases", len(rows))
    ctx.extra["largest_grid_axis"] = max(max(b - a for a, b in zip(r["box"]["lo"], r["box"]["hi"])) for r in rows)


def cases4(rng, thorough=False):
    """boxes whose facets lie inside cells (see nd)"""
    out = []
    for n, rest in ((40, (2, 2, 4)), (66, (2, 2, 2)), (16, (6, 2, 4)), (6, (4, 6, 8))) + (((130, (2, 2, 2)), (8, (8, 8, 8))) if thorough else ()):
        for L in rng.sample(perms((n,) + rest), 1 if not thorough else 4):
            out.append(case("box", L, [2 * rng.randint(0, 1) for _ in range(4)], [2] * 4, [1] * 4, slack=rng.choice((([0] * 4, [0] * 4), ([1, 0, 0, 2], [0, 5, 1, 0])))))
    return out


# ------------------------------------------------------------ deprecated library
def window_cases(rng, D, thorough=False):
    """windows from the lattice point -P, inside and across the body; cells count from 0"""
    out = []

    def w(kind, L, n, G=None, at=None, o=None):
        out.append(case(kind, L, o, G or [1] * D, [-x for x in (at or [0] * D)], [0] * D, n))
    if D == 3:
        for n in (65, 130) + ((257,) if thorough else ()):
            for L in rng.sample(perms((n, 2, 2)), 2):
                w("simplex", [n + 3] * 3, list(L), at=[n // 5 if x == 2 else 0 for x in L])
        w("simplex", [15] * 3, [15] * 3)
        w("simplex", [9] * 3, [13, 10, 11], o=[2, 1, 0])
        w("simplex", [24] * 3, [12, 24, 5], [2, 1, 5])
        w("simplex", [30] * 3, [17, 9, 4], at=[11, 9, 6])
    else:
        for n in (129, 300) + ((700,) if thorough else ()):
            for L in perms((n, 3)):
                w("box", [n - 2, 3] if L[0] == n else [3, n - 2], list(L))
        w("box", [40, 37], [44, 37])
        w("box", [90, 20], [45, 21], [2, 1], o=[1, 1])
        w("box", [200, 200], [150, 3], at=[30, 198])
    return out


def quad_verts(c):
    L, o = c["L"], c["o"]
    return [[o[0], o[1]], [o[0] + L[0], o[1]], [o[0] + L[0], o[1] + L[1]], [o[0], o[1] + L[1]]]


def window_rows(T, rows):
    """as Window prints them"""
    out = []
    for r in rows:
        D = len(r["g"]["G"])
        s = T.shapes[r["shape"] - 1]
        vs = [list(v) for v in s["verts"]] if D == 3 else [list(v) for v in s["loops"][0]]
        w = dict(G=r["g"]["G"], P=[-x for x in r["g"]["P"]], n=r["box"]["hi"])
        for verts in ([], vs):
            out.append(dict(faces=r["fs"], verts=verts, w=w, cells=r["cells"], cut=[], N=r["N"]))
    return out
