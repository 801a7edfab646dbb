"""C05: link structure after clip and split (spec/Graph.tla, spec/Ring.tla) and after the lattice histories."""
import random
import numpy as np
from . import core, geom, lattice, polyops
from .core import Raw
from .lattice import Beh, nums
from .polyops import Opts


def iso(exp_nb, exp_pos, nb, pos, D, tol=1e-9):
    """oriented-map isomorphism respecting positions; returns an error or None.  Indices 0-based."""
    n = len(exp_nb)
    if len(nb) != n:
        return "%d vertices, specified %d" % (len(nb), n)
    if n == 0:
        return None
    P, Q = np.array(exp_pos), np.array(pos)
    cand = []
    for i in range(n):
        c = np.nonzero(np.abs(Q - P[i]).max(axis=1) < tol)[0]
        if len(c) == 0:
            return "no vertex at %s" % (exp_pos[i],)
        cand.append(set(int(x) for x in c))
    mp, used = {}, set()
    for r in range(n):
        if r in mp:
            continue
        ok = False
        for c in cand[r]:
            if c in used:
                continue
            for rot in range(D if D == 3 else 1):
                m = try_map(exp_nb, nb, cand, r, c, rot, D, used)
                if m is not None:
                    mp.update(m); used.update(m.values()); ok = True
                    break
            if ok:
                break
        if not ok:
            return "links differ from the specified ones (component of vertex at %s)" % (exp_pos[r],)
    return None


def try_map(e, g, cand, r, c, rot, D, used):
    m = {r: (c, rot)}
    st = [r]
    inv = {c}
    while st:
        x = st.pop()
        y, k = m[x]
        for i in range(D):
            a = e[x][i]
            b = g[y][(i + k) % D]
            if a in m:
                if m[a][0] != b:
                    return None
                continue
            if b in inv or b in used or b not in cand[a]:
                return None
            # rotation at a: position of x in e[a] corresponds to position of y in g[b]
            if D == 3:
                if x not in e[a] or y not in g[b]:
                    return None
                ra = (g[b].index(y) - e[a].index(x)) % 3
            else:
                ra = 0
            m[a] = (b, ra)
            inv.add(b)
            st.append(a)
    for x, (y, k) in m.items():
        for i in range(D):
            if m[e[x][i]][0] != g[y][(i + k) % D]:
                return None
    return {x: y for x, (y, k) in m.items()}


def expected(row, part, X, val, D):
    p = row[part]
    nb = [[x - 1 for x in l] for l in p["nb"]]
    pos = []
    for v in p["old"]:
        pos.append(X[v - 1])
    for u, k in p["darts"]:
        v = row["g"][u - 1][k - 1]
        a, b = val[u - 1], val[v - 1]
        t = a / (a - b)
        pos.append([X[u - 1][i] + t * (X[v - 1][i] - X[u - 1][i]) for i in range(len(X[0]))])
    return nb, pos


def case(row, D, rng):
    n = len(row["g"])
    S = set(row["s"])
    zeros = rng.random() < 0.35
    ax = rng.randrange(D)
    X = [[rng.uniform(-4, 4) for _ in range(D)] for _ in range(n)]
    val = []
    for v in range(1, n + 1):
        if v in S:
            x = 0.0 if zeros and rng.random() < 0.4 else rng.choice((0.25, 1.0, rng.uniform(0.1, 2)))
        else:
            x = -rng.choice((0.25, 1.0, rng.uniform(0.1, 2)))
        val.append(x)
    if S and max(val) <= 0:
        val[min(S) - 1] = 1.0
    for v in range(n):
        X[v][ax] = val[v]
    pl = [0.0] * (D + 1)
    pl[ax] = 1.0
    P = "%d " % D
    b = Beh(0, info=dict(links=row["g"], kept=row["s"], dim=D, zeros=zeros))
    b.cmd(P + "set 0 %d %s" % (n, " ".join("%s %s" % (nums(X[v]), " ".join(str(x - 1) for x in row["g"][v])) for v in range(n))))
    b.cmd(P + "copy 0 1")
    good = lambda w: None if w[0] == "1" else "validity test rejects the result"
    b.obs(P + "good 0", lambda w: None if w[0] == "1" else "validity test rejects a valid body")

    def judge(part):
        nb, pos = expected(row, part, X, val, D)

        def j(w):
            p, g = polyops.parse_poly(w, D)
            e = polyops.struct_err(g, D)
            if e:
                return e
            return iso(nb, pos, g, p, D)
        return j
    scale = 2.0 ** rng.randint(-3, 3)
    ps = nums([x * scale for x in pl])
    b.obs(P + "clip 0 1 " + ps, lambda w: None if w[0] == "1" or not S else "clip failed")
    b.obs(P + "dump 0", judge("pos"))
    b.obs(P + "good 0", good)
    b.obs(P + "split 1 1 2 3 " + ps, lambda w: None if w[0] == "1" else "split failed")
    b.obs(P + "dump 2", judge("pos"))
    b.obs(P + "dump 3", judge("neg"))
    b.obs(P + "good 2", good)
    b.obs(P + "good 3", good)
    return b


def replay_graphs(ctx, rows, D, reps):
    def make(k, mini):
        rng = random.Random(ctx.seed * 523 + k)
        return [case(rows[k], D, rng) for _ in range(reps)]
    lattice.run_make(ctx, len(rows), make, "asan")
    ctx.bump("link_transitions_%dD" % D, len(rows))
    for r in rows[5:7]:
        ctx.sample(dict(links=r["g"], kept=r["s"], result=r["pos"]["nb"]), cap=6)


INV3 = ["LinksOK", "ConnOK", "PlanarOK", "KeptOK", "CountOK", "Emit"]
INV2 = ["LinksOK", "ThreeOK", "CountOK", "Emit"]


def check(ctx):
    ctx.build("asan")
    q = ctx.quick
    import concurrent.futures as cf
    A = lambda *x: Raw("{" + ", ".join('"%s"' % s for s in x) + "}")
    jobs3 = [
        dict(c=dict(Starts=A("tet", "prism3", "cube"), MaxSteps=1, MaxVerts=8, Sample=0)),
        dict(c=dict(Starts=A("tet"), MaxSteps=2, MaxVerts=8, Sample=0)),
        dict(c=dict(Starts=A("prism3", "cube", "prism5", "prism6", "trtet", "tettet", "tetcube"), MaxSteps=3, MaxVerts=24, Sample=4), simulate=40 if q else 400),
        dict(c=dict(Starts=A("prism8", "trprism3", "trcube", "prism12"), MaxSteps=2, MaxVerts=40, Sample=4), simulate=12 if q else 120),
        dict(c=dict(Starts=A("prism64", "prism72", "prism80"), MaxSteps=1, MaxVerts=256, Sample=2), simulate=3 if q else 30, inv=INV3[:1] + INV3[3:]),
        dict(c=dict(Starts=A("prism128", "prism170", "prism200"), MaxSteps=1, MaxVerts=400, Sample=2), simulate=3 if q else 20, inv=INV3[:1] + INV3[3:]),
    ]
    if not q:
        jobs3 += [dict(c=dict(Starts=A("prism5"), MaxSteps=1, MaxVerts=10, Sample=0)), dict(c=dict(Starts=A("trtet", "prism6", "tettet", "tetcube"), MaxSteps=1, MaxVerts=12, Sample=0)),
                  dict(c=dict(Starts=A("prism3"), MaxSteps=2, MaxVerts=8, Sample=0))]
    jobs2 = [
        dict(c=dict(Starts=Raw("{<<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<3, 3>>, <<3, 5>>, <<4, 4>>}"), MaxSteps=1, MaxVerts=10, Sample=0)),
        dict(c=dict(Starts=Raw("{<<3>>, <<4>>, <<5>>}"), MaxSteps=2, MaxVerts=6, Sample=0)),
        dict(c=dict(Starts=Raw("{<<9>>, <<12>>, <<20>>, <<8, 7>>, <<15, 16>>, <<40>>}"), MaxSteps=3, MaxVerts=60, Sample=4), simulate=60 if q else 600),
        dict(c=dict(Starts=Raw("{<<90>>, <<101>>, <<48, 52>>, <<30, 33, 35>>}"), MaxSteps=2, MaxVerts=104, Sample=4), simulate=6 if q else 60),
        dict(c=dict(Starts=Raw("{<<200>>, <<240>>, <<120, 120>>}"), MaxSteps=2, MaxVerts=244, Sample=3), simulate=4 if q else 30),
    ]

    def go(mod, inv, j):
        return core.tlc(ctx, mod, j["c"], inv, simulate=j.get("simulate"), depth=8, workers=3, view=None).rows
    with cf.ThreadPoolExecutor(3) as ex:
        f3 = [ex.submit(go, "Graph", j.get("inv", INV3), j) for j in jobs3]
        f2 = [ex.submit(go, "Ring", INV2, j) for j in jobs2]
        r3 = [f.result() for f in f3]
        r2 = [f.result() for f in f2]
    for rows in r3:
        replay_graphs(ctx, rows, 3, 2 if q else 3)
    for rows in r2:
        replay_graphs(ctx, rows, 2, 2 if q else 3)
    # structure along the lattice histories (degenerate contacts with vertices, edges and faces)
    tol = lattice.Tol(ctx)
    both = Raw('{"clip", "split"}')
    rng = random.Random(ctx.seed * 31 + 2)
    jobs = []
    for D in (3, 2):
        hs = set(rng.sample(range(1, polyops.nhs(D, 3) + 1), 14 if q else 30))
        jobs += [
            dict(D=D, Order=0, Kinds=both),
            dict(D=D, Order=0, MinArity=2, MaxArity=2, UseHS=hs),
            dict(D=D, Order=0, Kinds=both, Steps=6, MaxArity=3, MaxFrags=4, Keep=Raw('"some"'), simulate=150 if q else 2000),
            dict(D=D, Order=0, big=True, Kinds=both, Steps=5, MaxArity=3, MaxFrags=4, Keep=Raw('"cut"'), simulate=30 if q else 300),
            dict(D=D, Order=0, big=2, Kinds=both, Steps=3, MaxArity=2, MaxFrags=4, Keep=Raw('"cut"'), simulate=12 if q else 150),
        ]
    for k, (j, (T, rows, n)) in enumerate(zip(jobs, polyops.emit_many(ctx, jobs))):
        o = Opts()
        o.moments = False
        o.dump = True
        o.good = not j.get("big") or j["D"] == 2
        polyops.replay_rows(ctx, T, rows, n, j["D"], tol, o, 1 if q else 2)
        ctx.bump("histories", len(rows))
