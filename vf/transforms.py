"""C14: histories of transformations of spec/Transforms.tla replayed into the real code."""
import math, random
import numpy as np
from . import core, lattice
from .core import Raw
from .lattice import Beh, nums

ALL = Raw('{"rotate", "translate", "scale", "shear", "affine", "project"}')


def prism_links(D, n):
    """some link table on n vertices (the maps must not look at it or change it)"""
    if D == 2:
        return [[(k + 1) % n, (k - 1) % n] for k in range(n)]
    if D == 3:
        h = n // 2
        return [[(k + 1) % h, (k - 1) % h, k + h] if k < h else [h + (k - h + 1) % h, h + (k - h - 1) % h, k - h] if k < 2 * h else [0, 1, 2] for k in range(n)]
    return [[(k + 1) % n, (k - 1) % n, (k + 2) % n, (k - 2) % n] for k in range(n)]


def build(b, D, row, rng, e, cap):
    """slot 0 holds the start body scaled by 2^e"""
    f = 2.0 ** e
    pts = [[x * f for x in p] for p in row["start"]]
    mode = rng.random()
    if row["body"] == "box" and mode < 0.6:
        lo = [min(p[k] for p in pts) for k in range(D)]
        hi = [max(p[k] for p in pts) for k in range(D)]
        b.cmd("%d box 0 %s %s" % (D, nums(lo), nums(hi)))
        return True
    if row["body"] != "box" and mode < 0.6:
        if D == 2:
            b.cmd("2 poly 0 3 %s" % " ".join(nums(p) for p in pts))
        elif D == 3:
            b.cmd("3 tet 0 %s" % " ".join(nums(p) for p in pts))
        else:
            b.cmd("4 simplex 0 %s" % " ".join(nums(p) for p in pts))
        return True
    n = rng.choice((1, 2, 5, 8, 64, 65, 200, cap, rng.randint(6, cap)))
    n = max(n, 6) if D == 4 else n
    L = prism_links(D, max(n, 6))
    b.cmd("%d set 0 %d %s" % (D, n, " ".join("%s %s" % (nums(rng.choice(pts)), " ".join(map(str, L[k]))) for k in range(n))))
    return False


def dump_parse(w, D, f=False):
    n = int(w[0])
    st = 2 * D + (D * D if f else 0)
    P, L = [], []
    for k in range(n):
        x = w[1 + k * st:1 + (k + 1) * st]
        P.append([float(v) for v in x[:D]])
        L.append(x[D:])
    return n, P, L


def op_line(D, h, e, rng, inverse=False):
    """command for one step in the frame scaled by 2^e; None when it has no inverse"""
    f = 2.0 ** e
    a = h["a"]
    sg = -1.0 if inverse else 1.0
    if h["op"] == "rotate":
        th = sg * math.atan2(a[3], a[2]) + 2 * math.pi * rng.choice((0, 0, 0, 1, -1))
        if D == 2:
            return "2 rotate 0 %r" % th
        if D == 3:
            return "3 rotate 0 %r %d" % (th, {(2, 3): 0, (3, 1): 1, (1, 2): 2}[(a[0], a[1])])
        return "4 rotate 0 %r %d %d" % (th, a[0] - 1, a[1] - 1)
    if h["op"] == "translate":
        return "%d translate 0 %s" % (D, nums(sg * x * f for x in a))
    if h["op"] == "scale":
        return "%d scale 0 %r" % (D, a[1] / a[0] if inverse else a[0] / a[1])
    if h["op"] == "scalevec":
        return "4 scale 0 %s" % nums(1.0 / x if inverse else float(x) for x in a)
    if h["op"] == "shear":
        return "%d shear 0 %r %d %d" % (D, sg * a[2] / a[3], a[0] - 1, a[1] - 1)
    M = np.array(a, dtype=float).reshape(D + 1, D + 1)
    if inverse:
        if abs(np.linalg.det(M)) < 0.5 or np.linalg.cond(M) > 1e4:
            return None
        M = np.linalg.inv(M)
    # homogeneous matrices describe the same map at any scale; also with the last entry made exactly 1
    ks = [1.0, 1.0, -1.0, 0.125, 3.0] + ([1.0 / M[D, D]] * 3 if abs(M[D, D]) > 1e-9 else [])
    M = M * rng.choice(ks)
    M[:D, D] *= f
    M[D, :D] /= f
    return "%d affine 0 %s" % (D, nums(M.flatten()))


def beh(row, D, rng, e, cap):
    b = Beh(None, dict(D=D, body=row["body"], start=row["start"], ops=[(h["op"], h["a"]) for h in row["hist"]], scale="2^%d" % e))
    f = 2.0 ** e
    real = build(b, D, row, rng, e, cap)
    dump = "%d dump%s 0" % (D, "f" if D == 4 else "")
    st = {}
    start = [tuple(x * f for x in p) for p in row["start"]]
    big = max([abs(x) for p in row["start"] for x in p] + [1.0])
    for h in row["hist"]:
        big = max([big] + [abs(x) / h["q"] for p in h["p"] for x in p])
        if h["op"] == "affine":
            big *= max(1.0, max(abs(x) for x in h["a"]))
    tol = 2e-12 * big * f

    def first(w):
        n, P, L = dump_parse(w, D, D == 4)
        st["n"], st["L"], st["P"] = n, L, P
        try:
            st["k"] = [start.index(tuple(p)) for p in P]
        except ValueError:
            return "vertex of the built body is not one of the described points"

    def at(pts, q, what, tl):
        def j(w):
            n, P, L = dump_parse(w, D, D == 4)
            if n != st["n"]:
                return "%s changed the number of vertices from %d to %d" % (what, st["n"], n)
            if L != st["L"]:
                return "%s changed the links" % what
            for v in range(n):
                want = [x * f / q for x in pts[st["k"][v]]]
                for i in range(D):
                    if not abs(P[v][i] - want[i]) <= tl:
                        return "after %s vertex %d is %s, specified %s" % (what, v, P[v], want)
        return j

    b.obs(dump, first)
    vols = {}
    if real:
        b.obs("%d reduce 0 0" % D, lambda w: vols.__setitem__("v", float(w[0])))
    for h in row["hist"]:
        b.cmd(op_line(D, h, e, rng))
        b.obs(dump, at(h["p"], h["q"], h["op"], tol))
    if real and not row["persp"]:
        h = row["hist"][-1]
        fac = h["dn"] / h["dd"]
        if D == 4:
            fac = abs(fac)
        at_ = 1e-11 * (big * f) ** D * 24
        b.obs("%d reduce 0 0" % D, lambda w: None if abs(float(w[0]) - fac * vols["v"]) <= at_ else
              "volume is %s, specified %r x %r" % (w[0], fac, vols["v"]))
    inv = [op_line(D, h, e, rng, True) for h in reversed(row["hist"])]
    if None not in inv:
        b.lines += inv
        amp = 1.0
        for h in row["hist"]:
            if h["op"] == "affine":
                amp *= np.linalg.cond(np.array(h["a"], dtype=float).reshape(D + 1, D + 1))
            elif h["op"] != "rotate" and h["op"] != "translate":
                amp *= 16
        if amp < 1e5:
            b.obs(dump, at(row["start"], 1, "the inverse transformations", tol * 10 * amp))
    return b


def check(ctx):
    ctx.build("asan")
    q = ctx.quick
    jobs = []
    bodies = Raw('{"box", "simplex", "rand"}')
    for D in (2, 3, 4):
        jobs += [(D, dict(MaxSteps=1, Ops=ALL), None), (D, dict(MaxSteps=2, Ops=Raw('{"rotate", "shear", "scale"}')), None) if D < 4 else
                 (D, dict(MaxSteps=2, Ops=Raw('{"rotate", "shear"}')), 200 if q else 2000),
                 (D, dict(MaxSteps=5, Ops=ALL), 60 if q else 800), (D, dict(MaxSteps=3, Ops=Raw('{"rotate", "affine", "project"}')), 60 if q else 800),
                 (D, dict(MaxSteps=1, Ops=Raw('{"project"}')), 30 if q else 400), (D, dict(MaxSteps=2, Ops=Raw('{"project", "shear", "translate"}')), 60 if q else 600)]

    import concurrent.futures as cf
    def one(j):
        D, c, sim = j
        return core.tlc(ctx, "Transforms", dict(D=D, Bodies=bodies, Lim=30000, **c), ["VolOK", "Emit"], ["RotOK"],
                        simulate=sim, depth=8 if sim else None, workers=2)
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    allrows = [(j[0], r) for j, t in zip(jobs, res) for r in t.rows]
    for D, r in allrows:
        for h in r["hist"]:
            ctx.bump("%dD %s" % (D, h["op"]))
    ctx.sample(str(allrows[len(allrows) // 2])[:600])
    reps = 2 if q else 4
    info = core.replay(ctx, [(0, ["2 info", "3 info", "4 info"])], "asan")[0]
    caps = {D: int(l.split()[1]) for D, l in zip((2, 3, 4), info)}

    def make(k, mini):
        rng = random.Random(ctx.seed * 1000003 + k)
        D, row = allrows[k % len(allrows)]
        e = rng.choice((0, 0, -60, 40, 3))
        return [beh(row, D, rng, e, caps[D])]
    lattice.run_make(ctx, len(allrows) * reps, make, "asan")
    ctx.extra["histories"] = len(allrows)
