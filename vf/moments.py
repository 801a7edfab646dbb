"""C04: moments of every order."""
import itertools, math, random
import numpy as np
from fractions import Fraction
from . import core, geom, lattice, polyops
from .core import Raw
from .lattice import Beh, nums


class Kuhn:
    """moment table per atom from the integrals emitted by spec/Integrals.tla"""
    def __init__(self, ctx, D, K):
        r = core.tlc(ctx, "Integrals", dict(D=D, N=1, Order=1, MaxOrd=K), workers=2)
        row = [x for x in r.rows if x.get("kuhn")][0]
        self.den = {(tuple(x["p"]), tuple(x["b"])): x["d"] for x in row["den"]}
        self.D, self.K, self.L = D, K, math.factorial(D + K)
        self.exps = geom.exps(D, K)

    def table(self, atoms):
        tab = np.zeros((len(atoms), len(self.exps)), dtype=object)
        for ai, a in enumerate(atoms):
            tab[ai] = self.row(a)
        return tab

    def row(self, a):
        """exact moments of one atom, as multiples of 1/L"""
        D = self.D
        p, c = tuple(a["p"]), a["c"]
        out = np.zeros(len(self.exps), dtype=object)
        f = [[[math.comb(e, b) * c[i] ** (e - b) for b in range(e + 1)] for e in range(self.K + 1)] for i in range(D)]
        rng = [[[b for b in range(e + 1) if f[i][e][b]] for e in range(self.K + 1)] for i in range(D)]
        for m, e in enumerate(self.exps):
            s = 0
            for b in itertools.product(*[rng[i][e[i]] for i in range(D)]):
                w = self.L // self.den[(p, b)]
                for i in range(D):
                    w *= f[i][e[i]][b[i]]
                s += w
            out[m] = s
        return out

    def moments(self, tab, at):
        if not at:
            return np.zeros(len(self.exps))
        v = tab[[a - 1 for a in at]].sum(axis=0)
        return np.array([float(x) / self.L if abs(x) < 2 ** 1000 else 0.0 for x in v])


def links_variant(pos, nb, rng, D):
    """renumber the vertices and rotate the starting edges (3D) of a dumped body"""
    n = len(pos)
    order = list(range(n)); rng.shuffle(order)
    new = {o: k for k, o in enumerate(order)}
    out = []
    for o in order:
        l = [new[x] for x in nb[o]]
        if D == 3:
            r = rng.randrange(3)
            l = l[r:] + l[:r]
        out.append((pos[o], l))
    return out


def set_line(D, slot, verts):
    return "%d set %d %d %s" % (D, slot, len(verts), " ".join("%s %s" % (nums(p), " ".join(map(str, l))) for p, l in verts))


def check(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    both = Raw('{"clip", "split"}')
    for D in (3, 2):
        K = 8
        kuhn = Kuhn(ctx, D, K)
        jobs = [
            dict(D=D, Order=0, Points=True, Kinds=both, Steps=1, UseHS=polyops_subset(ctx, D, 14 if q else 40)),
            dict(D=D, Order=0, Points=True, Kinds=both, Steps=4, MaxFrags=4, MaxArity=3, Keep=Raw('"some"'), simulate=50 if q else 600),
            dict(D=D, Order=0, big=True, Points=True, Steps=3, MaxArity=2, Keep=Raw('"cut"'), simulate=30 if q else 300),
            dict(D=D, Order=0, big=2, Points=True, Steps=2, MaxArity=2, Keep=Raw('"cut"'), simulate=3 if q else 30),
        ]
        frng = random.Random(ctx.seed * 13 + D)
        frames = [geom.identity(D)] + lattice.frames_for(frng, D, 20)
        frames.append(geom.Frame(np.eye(D), [0.0] * D, "shifted", exact=True))
        frames += [geom.Frame(geom.rot_random(frng, D) * s, [frng.uniform(-1, 1) * t for _ in range(D)], "distant", unit=True) for s, t in ((1.0, 1e4), (0.01, 10.0), (30.0, 1.0))]
        for T, rows, N in polyops.emit_many(ctx, jobs):
            tab = kuhn.table(T.atoms)
            for f in frames:
                f.mt(K); f.mt(3); tol.scales(f, N, K, D); tol.scales(f, N, 3, D)
            nmk = [len(geom.exps(D, k)) for k in range(K + 1)]

            def make(k, mini):
                rng = random.Random(ctx.seed * 104729 + k)
                row = rows[k]
                out = []
                for f in ([frames[0]] if rng.random() < 0.5 else []) + rng.sample(frames[1:], 1 if q else 3):
                    b = Beh(0, info=dict(shape=row["shape"], frame=f.name, hist=[(h["op"], h["f"], [T.hsr(x) for x in h["hs"]]) for h in row["hist"]]))
                    sh = T.shape(row["shape"][0])
                    lattice.build(b, D, 0, sh, f, rng)
                    slots = [0]
                    nxt = 1
                    for h in row["hist"][1:]:
                        hs = [T.hsr(x) for x in h["hs"]]
                        if h["op"] == "clip":
                            b.obs("%d clip %d %d %s" % (D, slots[h["f"] - 1], len(hs), " ".join(lattice.plane_str(f, x) for x in hs)))
                        else:
                            n = len(slots)
                            pos = list(range(nxt, nxt + n)); neg = list(range(nxt + n, nxt + 2 * n)); nxt += 2 * n
                            b.obs("%d split %d %s %s %s %s" % (D, n, " ".join(map(str, slots)), " ".join(map(str, pos)), " ".join(map(str, neg)), lattice.plane_str(f, hs[0])))
                            slots = pos + neg
                    obs = row["hist"][-1]["obs"]
                    sc = tol.scales(f, N, K, D)
                    for s, ob in zip(slots, obs):
                        m = f.mt(K) @ kuhn.moments(tab, ob["pts"]["at"])
                        for o in ([K] + rng.sample(range(K), 2)):
                            b.obs("%d reduce %d %d" % (D, s, o), lambda w, m=m, o=o, sc=sc: tol.cmp(w, m[:nmk[o]], sc[:nmk[o]]))
                        if not ob["n"]:
                            continue
                        # moment lists shifted by a vector are those of the translated body
                        v = [rng.choice((0.0, 1.0, -2.0, rng.uniform(-3, 3))) for _ in range(D)]
                        ln = kuhn.moments(tab, ob["pts"]["at"])
                        o = rng.randrange(K + 1)
                        sf = geom.Frame(np.eye(D), v, "shift")
                        want = sf.mt(o) @ ln[:nmk[o]]
                        scs = np.array([N ** D * float(np.prod([(N + abs(v[i])) ** e[i] for i in range(D)])) for e in geom.exps(D, o)])
                        b.obs("%d shiftmom %d %s %s" % (D, o, nums(ln[:nmk[o]]), nums(v)), lambda w, want=want, scs=scs: tol.cmp(w, want, scs))
                    # an empty body
                    b.obs("%d reduce 60 %d" % (D, rng.randrange(K + 1)), lambda w: None if all(float(x) == 0 for x in w) else "moments of an empty body are not zero")
                    out.append(b)
                return out
            lattice.run_make(ctx, len(rows), make, "asan", tol)
            ctx.bump("bodies", len(rows))
            # the same bodies with other vertex numbers and starting edges
            pick = random.Random(ctx.seed + 5).sample(range(len(rows)), min(len(rows), 250 if q else 1500))
            items = []
            for k in pick:
                row = rows[k]
                b = Beh(k)
                lattice.build(b, D, 0, T.shape(row["shape"][0]), frames[0], None)
                for h in row["hist"][1:]:
                    if h["op"] == "clip":
                        b.obs("%d clip 0 %d %s" % (D, len(h["hs"]), " ".join(lattice.plane_str(frames[0], T.hsr(x)) for x in h["hs"])))
                    else:
                        break
                b.obs("%d dump 0" % D)
                items.append((k, b))
            res = core.replay(ctx, [(k, b.lines) for k, b in items], "asan")
            cases = []
            for k, b in items:
                row = rows[k]
                cl = [h for h in row["hist"][1:]]
                last = row["hist"][0]
                for h in cl:
                    if h["op"] != "clip":
                        break
                    last = h
                o = res.get(k)
                if isinstance(o, list) and o and o[-1].startswith("poly"):
                    cases.append((k, polyops.parse_poly(o[-1].split()[1:], D), last["obs"][0]))

            def make2(i, mini):
                k, (pos, nb), ob = cases[i]
                rng = random.Random(ctx.seed * 31337 + i)
                b = Beh(0, info=dict(row=k, what="renumbered body"))
                if polyops.struct_err(nb, D) and pos:
                    return []
                m = kuhn.moments(tab, ob["pts"]["at"])
                sc = tol.scales(frames[0], N, K, D)
                o = rng.randrange(5)
                for r in range(2):
                    b.cmd(set_line(D, 0, links_variant(pos, nb, rng, D)))
                    b.obs("%d reduce 0 %d" % (D, o), lambda w, o=o, m=m, sc=sc: tol.cmp(w, m[:nmk[o]], sc[:nmk[o]]))
                return [b]
            lattice.run_make(ctx, len(cases), make2, "asan", tol)
    high = high_orders(ctx, tol)
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.extra["orders"] = "0..8; small bodies 0..%d" % high


def high_orders(ctx, tol):
    """small bodies, orders far beyond those anybody tabulates"""
    q = ctx.quick
    K = 14 if q else 20
    for D in (3, 2):
        kuhn = Kuhn(ctx, D, K)
        jobs = [dict(D=D, Order=0, Points=True, Steps=1, UseHS=polyops_subset(ctx, D, 10 if q else 24))]
        (T, rows, N), = polyops.emit_many(ctx, jobs)
        rows = [r for r in rows if 0 < len(r["hist"][-1]["obs"][0]["pts"]["at"]) <= 8]
        rng = random.Random(ctx.seed + 977 + D)
        rows = rng.sample(rows, min(len(rows), 64 if q else 400))
        frames = [geom.identity(D)] + [geom.Frame(geom.signed_perm(rng, D) * s, [0.0] * D, "perm0", exact=True) for s in (1.0, 0.5, 2.0, 2.0 ** -8)]
        nmk = [len(geom.exps(D, k)) for k in range(K + 1)]
        for f in frames:
            f.mt(K); tol.scales(f, N, K, D)

        def make(k, mini):
            rng = random.Random(ctx.seed * 50021 + k)
            row = rows[k]
            ob = row["hist"][-1]["obs"][0]
            ln = np.array([float(Fraction(x, kuhn.L)) for x in sum(kuhn.row(T.atoms[a - 1]) for a in ob["pts"]["at"])])
            out = []
            for f in (frames[0], rng.choice(frames[1:])):
                b = Beh(0, info=dict(shape=row["shape"], frame=f.name, hist=[(h["op"], [T.hsr(x) for x in h["hs"]]) for h in row["hist"]]))
                lattice.build(b, D, 0, T.shape(row["shape"][0]), f, rng)
                for h in row["hist"][1:]:
                    b.obs("%d clip 0 %d %s" % (D, len(h["hs"]), " ".join(lattice.plane_str(f, T.hsr(x)) for x in h["hs"])))
                m, sc = f.mt(K) @ ln, tol.scales(f, N, K, D)
                for o in [K] + rng.sample(range(9, K), 2):
                    b.obs("%d reduce 0 %d" % (D, o), lambda w, o=o, m=m, sc=sc: tol.cmp(w, m[:nmk[o]], sc[:nmk[o]]))
                out.append(b)
            return out
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("high_order_bodies", len(rows))
    return K


def polyops_subset(ctx, D, n, N=3):
    rng = random.Random(ctx.seed * 31 + 41)
    return set(rng.sample(range(1, polyops.nhs(D, N) + 1), n))
