"""C17: the validity tests (spec/IsGood.tla)."""
import random
import concurrent.futures as cf
from . import core, lattice
from .core import Raw
from .lattice import Beh, nums

A = lambda *x: Raw("{" + ", ".join('"%s"' % s for s in x) + "}")
VALUES = Raw("{-2147483647, -1000000, -7, 1000, 1000000, 2147483647}")
INV = ["StartsGood", "Rare", "SizeOK", "Emit"]
PROPS = ["Keeps", "Conj", "ConjMany", "Notices", "Misses"]


def case(row, D, rng, special):
    t = row["t"]
    n = len(t)
    b = Beh(0, info=dict(dim=D, links=t, specified=row["good"], last=row["act"]))
    pos = [[rng.uniform(-3, 3) for _ in range(D)] for _ in range(n)]
    if special and n:            # positions do not matter
        pos[rng.randrange(n)] = list(pos[0])
    b.cmd("%d set 0 %d %s" % (D, n, " ".join("%s %s" % (nums(p), " ".join(str(x - 1) for x in l)) for p, l in zip(pos, t))))
    st = {}

    def keep(w):
        if "d" not in st:
            st["d"] = w
            return None
        return None if st["d"] == w else "the body was modified"

    def judge(w):
        if row["good"] == "open":
            return None
        g = w[0] != "0"
        if g != (row["good"] == "good"):
            return "answer %s, the table is %s" % (w[0], row["good"])
        if "g" in st and st["g"] != w[0]:
            return "the answer changes when repeated"
        st["g"] = w[0]
        return None
    b.obs("%d dump 0" % D, keep)
    b.obs("%d good 0" % D, judge)
    b.obs("%d dump 0" % D, keep)
    b.obs("%d good 0" % D, judge)
    return b


def check(ctx):
    q = ctx.quick
    ctx.build("asan")
    n = lambda a, b: a if q else b
    J = lambda D, starts, steps, maxv, acts, sample=0, emitlen=0, sim=None, variant="asan": dict(
        c=dict(D=D, Starts=A(*starts), MaxSteps=steps, MaxVerts=maxv, Acts=A(*acts), Sample=sample, EmitLen=emitlen, Values=VALUES), sim=sim, variant=variant)
    every = ("add", "renumber", "reorder", "switch", "corrupt", "redirect", "truncate")
    keep = ("add", "renumber", "reorder", "switch")
    mix3 = ("tet", "prism3", "cube", "k33", "prism5", "petersen", "tettet")
    mix4 = ("k5", "k44", "tetxi", "prismxi")
    jobs = [
        # every single corruption, exchange and switch of small tables; every pair for the smallest
        J(3, ("tet", "prism3", "k33"), 1, 12, every), J(3, ("cube",), 1, 12, ("switch", "truncate", "redirect")),
        J(2, ("c3", "c4", "c7"), 1, 12, every), J(2, ("c3",), 2, 6, every), J(4, ("k5", "tetxi"), 1, 16, ("switch", "corrupt", "truncate", "add")),
        J(3, ("tet",), 2, 4, ("corrupt", "redirect"), sample=0 if not q else 6),
        # longer mixtures, in the valid range and beyond
        J(3, mix3, 8, 26, keep, 1, 0, n(200, 1500)), J(3, mix3, 7, 26, every, 1, 0, n(200, 1500)),
        J(2, ("c3", "c4", "c7", "c12"), 7, 40, every, 1, 0, n(200, 1200)), J(2, ("c3", "c4", "c7"), 7, 40, keep, 1, 0, n(30, 300)),
        J(4, mix4, 5, 14, keep, 1, 0, n(80, 600)), J(4, mix4, 5, 14, every, 1, 0, n(80, 600)),
        # few ways to take them apart
        J(4, ("loose9", "loose11", "k5"), 2, 16, ("renumber", "reorder", "add"), 1, 0, n(250, 900)),
        # tables that fill the capacity
        J(3, ("tet", "prism3", "cube"), 7, 24, keep, 1, 24, n(200, 1200), "acap24"),
        J(3, ("prism8", "prism5", "trtet"), 4, 16, every, 1, 16, n(40, 300), "acap16"),
    ]
    # hundreds of vertices in many components
    many = ("addmany", "renumber", "corrupt", "switch", "redirect")
    jobs += [J(3, ("tet", "prism5", "k33", "petersen", "trtet", "prism12"), 4, m, many, 1, 0, n(14, 120)) for m in (512, 300)]
    jobs += [J(4, ("k5", "tetxi", "k44"), 4, 200, many, 1, 0, n(10, 60)), J(2, ("c3", "c7", "c12", "c4"), 4, 256, many, 1, 0, n(14, 120))]
    if not q:
        jobs += [J(4, ("tesseract",), 2, 22, keep, 1, 0, 30), J(3, ("trprism3", "trcube", "prism12"), 3, 44, keep, 2, 0, 40)]

    def one(j):
        return core.tlc(ctx, "IsGood", j["c"], INV, PROPS, simulate=j["sim"], depth=j["c"]["MaxSteps"] + 2, workers=3).rows
    with cf.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(one, jobs))
    for j, rows in zip(jobs, res):
        D = j["c"]["D"]
        seen, uniq = set(), []
        for r in rows:
            k = str(r["t"])
            if k not in seen:
                seen.add(k)
                uniq.append(r)

        def make(k, mini, uniq=uniq, D=D):
            mini.bump("tables_%dD_%s" % (D, uniq[k]["good"]))
            return [case(uniq[k], D, random.Random(ctx.seed * 37 + k), k % 5 == 0)]
        lattice.run_make(ctx, len(uniq), make, j["variant"])
    # the empty body and rings up to the fixed capacity of polygons
    behs = []
    for k, (D, cap) in enumerate(((2, 256),)):
        for m in (cap - 1, cap):
            t = [[(v + 1) % m + 1, (v + m - 1) % m + 1] for v in range(m)]
            behs.append(case(dict(t=t, good="good", act="ring"), D, random.Random(1), False))
            t2 = [list(x) for x in t]
            t2[m - 1][0] = m + 1
            behs.append(case(dict(t=t2, good="bad", act="ring"), D, random.Random(1), False))
    for k, b in enumerate(behs):
        b.id = k
    lattice.run(ctx, behs)
    for rows in res[6:8]:
        ctx.sample(rows[len(rows) // 2], cap=4)
    ctx.assumptions.append("polygon tables with the right counts but one-way links are left open; components of up to 24 vertices (44 in 3D); tables of many components up to 512 vertices (4D: 200)")
