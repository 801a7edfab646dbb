"""C01-C06: histories of clip and split calls generated from spec/PolyOps.tla."""
import random
import numpy as np
from . import core, geom, lattice
from .lattice import Beh, nums

INV = ["Disjoint", "Within", "Sides", "Emit"]
PROPS = ["Conserve", "OrderFree"]


SIZES = {(3, 0): 3, (2, 0): 3, (3, 1): 4, (2, 1): 8, (3, 2): 7, (2, 2): 15}      # lattice units


def consts(D, big=False, **kw):
    c = dict(D=D, N=SIZES[(D, int(big))], Order=2, ContentOf=("<-", "ContentT"), UseShapes=("<-", "AllShapes"), UseHS=("<-", "HS"),
             Steps=1, MinArity=1, MaxArity=1, MaxFrags=2, Kinds=core.Raw('{"clip"}'), Points=False, Sample=0, Keep=core.Raw('"any"'))
    c.update(kw)
    return c


def nhs(D, N):
    return D * (N + 1) * 2 + (D * (D - 1) // 2) * (2 * N + 1) * 2


NSHAPES = {(3, False): 20, (2, False): 15, (3, True): 7, (2, True): 7, (3, 2): 4, (2, 2): 4}


def module(D, big):
    return "PolyOps%d%s" % (D, ("", "B", "C")[big])


def emit(ctx, D, big=False, simulate=None, depth=150, workers=None, **kw):
    if simulate:
        kw.setdefault("Sample", 6)
    c = consts(D, big, **kw)
    r = core.tlc(ctx, module(D, big), c, INV, PROPS, simulate=simulate, depth=depth, workers=workers)
    T, rows = lattice.rows_of(r)
    return T, rows, c["N"]


def emit_many(ctx, jobs, par=3):
    """jobs: list of dicts of emit() arguments; TLC runs side by side."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(emit, ctx, workers=max(2, core.NCPU // par), **j) for j in jobs]
        return [f.result() for f in fs]


# ---------------------------------------------------------------- structure judges
def parse_poly(w, D):
    n = int(w[0])
    per = 2 * D
    pos, nb = [], []
    for i in range(n):
        q = w[1 + i * per:1 + (i + 1) * per]
        pos.append([float(x) for x in q[:D]])
        nb.append([int(x) for x in q[D:]])
    return pos, nb


def struct_err(nb, D):
    """links in range, distinct, mutual"""
    n = len(nb)
    for i, l in enumerate(nb):
        for x in l:
            if x < 0 or x >= n:
                return "vertex %d links to %d, out of range 0..%d" % (i, x, n - 1)
            if x == i:
                return "vertex %d links to itself" % i
        if D >= 3 and len(set(l)) != len(l):
            return "vertex %d lists a neighbour twice: %s" % (i, l)
    for i, l in enumerate(nb):
        for x in l:
            if nb[x].count(i) != l.count(x):
                return "link %d->%d is not mutual" % (i, x)
    if D == 2:
        for i, l in enumerate(nb):
            if nb[l[0]][1] != i or nb[l[1]][0] != i:
                return "orientation of links at vertex %d inconsistent" % i
    return None


# ---------------------------------------------------------------- behaviours
class Opts:
    moments = True
    dump = False         # structure
    good = False
    points = False
    orders = None        # extra reduce orders on the final fragments
    relabel = True
    goodshapes = None


GENUS = {"torus"}


def clip_judge(empty, bare, D):
    """empty: the exact result has no interior; bare: then no vertex may remain either (convex body, exact coordinates)"""
    def j(w):
        if w[0] != "1" and not empty and D == 3:
            return "clip returned failure"
        if w[2] != "0":
            return "plane list modified"
        if bare and w[1] != "0":
            return "everything is removed but %s vertices remain" % w[1]
        return None
    return j


def behaviour(bid, T, row, N, frame, tol, o, rng, D):
    shapes = [T.shape(x) if x else None for x in row["shape"]]
    names = [x["name"] if x else "empty" for x in shapes]
    b = Beh(bid, info=dict(shape=names, frame=frame.name, hist=[(h["op"], h["f"], [T.hsr(x) for x in h["hs"]]) for h in row["hist"]]))
    P = "%d " % D
    slots = []
    for k, sh in enumerate(shapes):
        if sh:
            lattice.build(b, D, k, sh, frame, rng if o.relabel else None)
        slots.append(k)
    free = [len(slots)]

    def new():
        free[0] += 1
        return free[0] - 1
    planes = {k: [] for k in slots}
    root = {k: k for k in slots}
    last = {}                      # slot -> positions before the call
    prev = {}                      # slot -> slots it came from (unchanged expected)

    def observe(obs, stay=None):
        for k, s in enumerate(slots):
            if o.moments:
                b.obs(P + "reduce %d %d" % (s, T.order), lattice.mom_judge(tol, T, frame, N, obs[k]["m"], D))
            if o.dump or o.points or o.keep:
                b.obs(P + "dump %d" % s, dump_judge(T, frame, N, obs[k], planes[s], o, D, tol, s, last, (stay or {}).get(s)))
            if o.good and D == 3 and names[root[s]] not in GENUS:
                b.obs(P + "good %d" % s, lambda w: None if w[0] == "1" else "validity test rejects the result")
            if o.good and D == 2:
                b.obs(P + "good %d" % s, lambda w: None if w[0] == "1" else "validity test rejects the result")

    observe(row["hist"][0]["obs"])
    pobs = row["hist"][0]["obs"]
    for h in row["hist"][1:]:
        hs = [T.hsr(x) for x in h["hs"]]
        stay = {}
        if h["op"] == "clip":
            s = slots[h["f"] - 1]
            empty = h["obs"][h["f"] - 1]["n"] == 0
            b.obs(P + "clip %d %d %s" % (s, len(hs), " ".join(lattice.plane_str(frame, x) for x in hs)),
                  clip_judge(empty, empty and frame.exact and bool(shapes[root[s]]) and bool(shapes[root[s]].get("convex")), D))
            planes[s] = planes[s] + hs
            for q in slots:
                if q != s:
                    stay[q] = ("same", q, None)
                else:
                    stay[q] = ("clip", q, hs)
        else:
            pos = [new() for _ in slots]
            neg = [new() for _ in slots]
            b.obs(P + "split %d %s %s %s %s" % (len(slots), " ".join(map(str, slots)), " ".join(map(str, pos)), " ".join(map(str, neg)), lattice.plane_str(frame, hs[0])),
                  lambda w: None if w[0] == "1" else "split returned failure")
            opp = dict(hs[0]); opp["s"] = -opp["s"]
            for s, p, q in zip(slots, pos, neg):
                planes[p] = planes[s] + [hs[0]]
                planes[q] = planes[s] + [opp]
                root[p] = root[q] = root[s]
                stay[p] = ("clip", s, [hs[0]])
                stay[q] = ("clip", s, [opp])
            slots = pos + neg
        observe(h["obs"], stay)
    if o.orders:
        for s, ob in zip(slots, row["hist"][-1]["obs"]):
            for k in o.orders:
                b.obs(P + "reduce %d %d" % (s, k), lattice.mom_judge(tol, T, frame, N, ob["m"], D, k))
    return b


def in_atoms(x, at, atoms, D, tol):
    """lattice point x within tol of some atom of the region"""
    for a in at:
        A = atoms[a - 1]
        c, p = A["c"], A["p"]
        f = [x[p[k] - 1] - c[p[k] - 1] for k in range(D)]
        if f[0] <= 1 + tol and f[-1] >= -tol and all(f[k] >= f[k + 1] - 2 * tol for k in range(D - 1)):
            return True
    return False


def hval(X, h):
    return h["s"] * (X[:, h["i"] - 1] - (X[:, h["j"] - 1] if h["j"] else 0) - h["c"])


def lat_eps(frame, D, N, tol):
    """allowance for lattice coordinates recovered from the frame"""
    amp = max(1.0, frame.R(N) / frame.size) * frame.cond
    if np.count_nonzero(frame.A) == D:
        amp = max(1.0, float(np.max(np.abs(frame.t) / (np.abs(frame.A) @ np.ones(D)))) + 1)
    return 3000 * tol.eps * amp


def dump_judge(T, frame, N, ob, planes, o, D, tol, slot, last, stay):
    eps = lat_eps(frame, D, N, tol)

    def judge(w):
        pos, nb = parse_poly(w, D)
        X = (np.array(pos) - frame.t) @ frame.Ainv.T if pos else np.zeros((0, D))
        old = last.get(stay[1]) if stay else None
        last[slot] = (pos, X)
        if pos and not np.all(np.isfinite(X)):
            return "non-finite vertex"
        if o.dump:
            e = struct_err(nb, D)
            if e:
                return e
        if old is not None and o.keep:
            op, oX = old
            if stay[0] == "same":
                if pos != op:
                    return "a body that was not an argument of the call changed"
            elif len(oX):
                vals = np.array([hval(oX, h) for h in stay[2]]).min(axis=0)
                have = {}
                for p in pos:
                    have[tuple(p)] = have.get(tuple(p), 0) + 1
                need = {}
                for k, v in enumerate(vals):
                    if v > 4 * eps:
                        need[tuple(op[k])] = need.get(tuple(op[k]), 0) + 1
                for p, c in need.items():
                    if have.get(p, 0) < c:
                        return "vertex %s strictly inside all half-spaces is not kept" % (p,)
                if len(vals) and float(vals.min()) > 4 * eps and len(pos) != len(op):
                    return "body strictly inside all half-spaces changed (%d vertices, now %d)" % (len(op), len(pos))
                if len(vals) and len(stay[2]) == 1 and float(vals.max()) < -4 * eps and pos:
                    return "body strictly outside is not empty"
        if o.points and (ob["n"] or pos):
            for h in planes:
                v = hval(X, h) if len(X) else np.zeros(0)
                if len(v) and float(v.min()) < -eps:
                    return "vertex %s outside half-space %s by %g" % (pos[int(v.argmin())], h, -float(v.min()))
            if ob["n"] == 0:
                return None        # nothing, or a flat remainder of zero measure (moments judged)
            cl = set(tuple(c) for c in ob["pts"]["cl"])
            for k in range(len(X)):
                r = np.rint(X[k])
                if float(np.abs(X[k] - r).max()) <= eps and tuple(int(v) for v in r) in cl:
                    continue
                if o.inside and not in_atoms(X[k], ob["pts"]["at"], T.atoms, D, eps):
                    return "vertex %s (lattice %s) lies outside the exact result" % (pos[k], X[k])
            if o.extreme:
                for e in ob["pts"]["ex"]:
                    if not len(X) or float(np.abs(X - np.array(e, dtype=float)).max(axis=1).min()) > eps:
                        return "extreme point %s of the exact result is missing" % (e,)
        return None
    return judge


Opts.extreme = Opts.inside = True
Opts.keep = False


def replay_rows(ctx, T, rows, N, D, tol, o, nframes, variant="asan", ident=True, kinds=None):
    fr = lattice.frames_for(random.Random(ctx.seed * 1000003 + len(rows) + D), D, 40)
    if kinds:
        fr = [f for f in fr if f.name in kinds]

    def make(k, mini):
        rng = random.Random(ctx.seed * 7919 + k)
        fs = [geom.identity(D)] if ident else []
        fs += [fr[rng.randrange(len(fr))] for _ in range(nframes)]
        for f in fs:
            mini.bump("frame_" + f.name)
        return [behaviour(0, T, rows[k], N, f, tol, o, rng, D) for f in fs]
    lattice.run_make(ctx, len(rows), make, variant, tol)
    for row in rows[:2]:
        ctx.sample(dict(shape=[T.shape(x)["name"] if x else "empty" for x in row["shape"]], calls=[(h["op"], h["f"], [T.hsr(x) for x in h["hs"]]) for h in row["hist"]],
                        volume_units=[x["m"][0] for x in row["hist"][-1]["obs"]]))
