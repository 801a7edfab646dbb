"""C13: vertex capacity (spec/Solid.tla for clip and split, spec/MapsCap.tla for construction)."""
import random
import concurrent.futures as cf
from . import core, lattice, polyops, builds, graphs
from .core import Raw
from .lattice import Beh, nums

A = builds.A
INV = ["LinksOK", "PlanarOK", "RoomOK", "SideOK", "SplitOK", "VerdictOK", "Emit"]


def pt(p):
    return [p[0] / p[3], p[1] / p[3], p[2] / p[3]]


def set_line(slot, body, rng=None):
    n = len(body["nb"])
    old = list(range(n))
    if rng:
        rng.shuffle(old)
    new = {o: k for k, o in enumerate(old)}
    w = []
    for o in old:
        l = [new[x - 1] for x in body["nb"][o]]
        if rng:
            r = rng.randrange(3)
            l = l[r:] + l[:r]
        w.append("%s %s" % (nums(pt(body["pos"][o])), " ".join(map(str, l))))
    return "3 set %d %d %s" % (slot, n, " ".join(w))


def body_judge(body):
    nb = [[x - 1 for x in l] for l in body["nb"]]
    pos = [pt(p) for p in body["pos"]]

    def j(w):
        p, g = polyops.parse_poly(w, 3)
        return polyops.struct_err(g, 3) or graphs.iso(nb, pos, g, p, 3)
    return j


def plane(pl, s=1.0):
    return nums([x * s for x in pl])


def when_ok(state, j):
    return lambda w: j(w) if state["ok"] else None


def op_case(row, cap, verdict, rng):
    b = Beh(0, info=dict(op=row["op"], cap=cap, need=row["need"], specified=verdict, sizes=[len(x["nb"]) for x in row["in"]], result=[len(x["nb"]) for x in row["out"]], planes=row["planes"]))
    st = dict(ok=False)
    n = len(row["in"])

    def ret(w):
        r = int(w[0])
        if r not in (0, 1):
            return "status %d" % r
        if verdict == "ok" and not r:
            return "failed although everything fits the capacity"
        if verdict == "fail" and r:
            return "reported success although the result cannot fit"
        if row["op"] == "clip" and not 0 <= int(w[1]) <= cap:
            return "number of vertices is now %s" % w[1]
        if row["op"] == "clip" and int(w[2]):
            return "the list of planes was modified"
        st["ok"] = r == 1
        return None
    s = 2.0 ** rng.randint(-2, 2)
    if row["op"] == "clip":
        b.cmd(set_line(0, row["in"][0], rng))
        b.obs("3 clip 0 %d %s" % (len(row["planes"]), " ".join(plane(p, s) for p in row["planes"])), ret)
        b.obs("3 dump 0", when_ok(st, body_judge(row["out"][0])))
    else:
        for i, x in enumerate(row["in"]):
            b.cmd(set_line(i, x, rng))
        ins = " ".join(str(i) for i in range(n))
        b.obs("3 split %d %s %s %s %s" % (n, ins, " ".join(str(10 + i) for i in range(n)), " ".join(str(20 + i) for i in range(n)), plane(row["planes"][0], s)), ret)
        for i in range(n):
            for t, k in ((10, i), (20, n + i)):
                b.obs("3 dump %d" % (t + i), when_ok(st, body_judge(row["out"][k])))
    return b


def build_case(row, cap, verdict, rng):
    n, faces = row["n"], row["f"]
    b = Beh(0, info=dict(op="build", cap=cap, need=row["need"], size=row["size"], specified=verdict, n=n, faces=faces))
    pos = [(rng.uniform(-4, 4), rng.uniform(-4, 4), v * 0.5) for v in range(n)]
    p, fs = builds.relabel(n, faces, rng)
    st = dict(ok=False)

    def ret(w):
        r = int(w[0])
        if verdict == "ok" and not r:
            return "construction failed although everything fits the capacity"
        if verdict == "fail" and r:
            return "construction reported success although it cannot hold the body"
        st["ok"] = r == 1
        return None
    want = {i: list(pos[i]) for i in range(n)}
    b.cmd("3 set 0 4 0 0 0 1 3 2 1 0 0 2 3 0 0 1 0 0 3 1 0 0 1 1 2 0")       # the slot holds something else before
    b.obs(lattice.poly3_line(0, builds.place(p, pos), fs), ret)
    fj = builds.face_judge([[x - 1 for x in f] for f in faces], want)

    def after(w):
        if st["ok"]:
            return fj(w)
        return None if int(w[0]) == 0 else "a failed construction left %s vertices" % w[0]
    b.obs("3 dump 0", after)
    return b


def check(ctx):
    q = ctx.quick
    n = lambda a, b: a if q else b
    both = A("clip", "split")
    C = lambda starts, calls, arity, bodies, maxv, R, PR, kinds=both, caps="{}": dict(Starts=A(*starts), MaxCalls=calls, MaxArity=arity, MaxBodies=bodies,
                                                                                 MaxVerts=maxv, R=R, PR=PR, Kinds=kinds, Caps=Raw(caps))
    jobs = [(C(("tet", "prism3", "cube", "prism5"), 2, 2, 1, 24, 4, 2), n(60, 600), 6),
            (C(("tet", "cube", "prism5", "trtet", "tettet"), 3, 3, 2, 40, 4, 2), n(40, 400), 8),
            (C(("tet", "prism3", "cube"), 1, 1, 3, 24, 5, 2, A("split")), n(40, 400), 6),
            (C(("trprism3", "trcube", "prism12"), 2, 2, 1, 80, 5, 2), n(15, 150), 6)]
    # large bodies, near the capacity of the default configuration
    big = [(C(("prism128", "prism170", "prism171", "prism172", "prism200"), 1, 1, 1, 600, 12, 1), n(4, 12), 3)]
    MJ = lambda *a, **k: (a, k)
    allact = ("contract", "chord", "cone", "spoil")
    mjobs = [MJ(("octa", "pyr4", "tet", "prism3", "cube"), 1, 14, allact),
             MJ(("tet", "cube", "octa", "pyr5", "pyr7", "trtet", "torus33", "octatet"), 6, 24, allact, sample=2, simulate=n(20, 300))]

    def emit_maps(starts, steps, maxv, acts, sample=0, simulate=None):
        return core.tlc(ctx, "MapsCap", dict(Starts=A(*starts), MaxSteps=steps, MaxVerts=maxv, Acts=A(*acts), Sample=sample, WithResolve=False),
                        ["FormOK", "RefuseOK", "SizeOK", "EmitCap"], simulate=simulate, depth=steps + 2, workers=3).rows
    with cf.ThreadPoolExecutor(3) as ex:
        f0 = [ex.submit(core.tlc, ctx, "Solid", c, INV if c["MaxVerts"] < 200 else ["RoomOK", "VerdictOK", "Emit"], simulate=s, depth=d, workers=3) for c, s, d in big + jobs]
        f1 = [ex.submit(emit_maps, *a, **k) for a, k in mjobs]
        rows = [r for f in f0 for r in f.result().rows]
        maps = [r for f in f1 for r in f.result()]
    rng = random.Random(ctx.seed * 77)
    by = {}
    for r in rows:
        for c, v in r["caps"]:
            by.setdefault(c, []).append((op_case, r, v))
    for r in maps:
        for c, v in r["caps"]:
            by.setdefault(c, []).append((build_case, r, v))
    caps = sorted(by, key=lambda c: (-sum(1 for f, r, v in by[c] if f is op_case and abs(r["need"] - c) <= 1), c))
    large = [c for c in caps if c > 200]
    caps = [c for c in caps if c <= 200]
    chosen = set(caps if not q else caps[:7] + rng.sample(caps[7:], min(6, len(caps[7:]))))
    # exact fits and near misses of large bodies: three capacities around one need
    fit = [c for c in large if any(r["need"] == c for _, r, _ in by[c])]
    for c in rng.sample(fit, min(n(1, 6), len(fit))):
        chosen |= {x for x in (c - 1, c) if x in by}
    if q:       # both parities of small capacities
        chosen |= {c for c in (4, 5) if c in by}
    per = n(350, 4000)
    todo = []
    for c in sorted(chosen):
        items = by.get(c, [])
        # failing and exactly fitting cases first
        key = lambda t: 0 if (t[2] == "fail" or t[1]["need"] == c) else 1 if t[1]["need"] == c + 1 else 2
        items = sorted(items, key=key)
        items = items[:per // 2] + rng.sample(items[per // 2:], min(per // 2, max(0, len(items) - per // 2)))
        todo.append((c, items))
    variants = [("ncap%d" % c, c, it) for c, it in todo] + [("acap%d" % c, c, it) for c, it in todo if not q or c % 4 == 0]
    for v, _, _ in variants:
        ctx.build(v)
    for v, c, items in variants:
        def make(k, mini, c=c, items=items):
            f, r, verdict = items[k]
            rg = random.Random(ctx.seed * 991 + k)
            mini.bump("%s_%s" % ("build" if f is build_case else r["op"], verdict))
            if r["need"] == c:
                mini.bump("exact_fill")
            if r["need"] == c + 1:
                mini.bump("one_short")
            return [f(r, c, verdict, rg)]
        lattice.run_make(ctx, len(items), make, v)
    ctx.extra["capacities"] = sorted(chosen)
    ctx.extra["variants"] = [v for v, _, _ in variants]
    for r in rows[:1]:
        ctx.sample(str(r)[:800])
    ctx.assumptions.append("what a failed clip or split leaves in its operands is unspecified, apart from staying inside them; 2D, 4D and voxelization have no capacity protocol")
