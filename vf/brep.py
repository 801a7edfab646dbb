"""C12: conversion to boundary representations (spec/Brep.tla, spec/Maps.tla, spec/PolyOps.tla)."""
import random
import concurrent.futures as cf
import numpy as np
from . import core, geom, lattice, polyops, builds
from .core import Raw
from .lattice import Beh, nums

A = builds.A
INV = ["CountOK", "LoopsOK", "CoverOK", "EulerOK", "Emit"]


def parse(w):
    it = iter(w)
    nc = int(next(it))
    out = []
    for _ in range(nc):
        nv = int(next(it))
        vs = [tuple(float(next(it)) for _ in range(3)) for _ in range(nv)]
        nf = int(next(it))
        fs = []
        for _ in range(nf):
            k = int(next(it))
            fs.append([int(next(it)) for _ in range(k)])
        out.append((vs, fs))
    return out


def rotmin(f):
    r = f.index(min(f))
    return tuple(f[r:] + f[:r])


def entry_key(vs, fs):
    return (tuple(sorted(vs)), tuple(sorted(rotmin(list(f)) for f in fs)))


def brep_judge(want):
    """want: list of (set of positions, list of faces as position lists)"""
    wk = sorted(entry_key(list(v), f) for v, f in want)

    def j(w):
        got = parse(w)
        keys = []
        for vs, fs in got:
            if len(set(vs)) != len(vs):
                return "an entry lists a vertex position twice"
            for f in fs:
                if any(i < 0 or i >= len(vs) for i in f):
                    return "face refers to vertex %s of %d" % (f, len(vs))
            keys.append(entry_key(vs, [[vs[i] for i in f] for f in fs]))
        if len(keys) != len(wk):
            return "%d entries, specified %d components" % (len(keys), len(wk))
        keys.sort()
        for a, b in zip(keys, wk):
            if a[0] != b[0]:
                return "vertices of an entry differ: %d listed, %d specified" % (len(a[0]), len(b[0]))
            if a[1] != b[1]:
                x = [f for f in a[1] if f not in b[1]][:2]
                y = [f for f in b[1] if f not in a[1]][:2]
                return "faces of an entry differ: unspecified %s, missing %s (%d listed, %d specified)" % (x, y, len(a[1]), len(b[1]))
        return None
    return j


def same(st, key):
    def j(w):
        if key not in st:
            st[key] = w
            return None
        return None if st[key] == w else "the source body was modified"
    return j


def rebuilt_judges(want, first):
    """after brep2poly 0 first: each component, in whatever order, is one of the specified ones"""
    left = [dict(f=f, v=v) for v, f in want]

    def j(w):
        pos, nb = polyops.parse_poly(w, 3)
        e = polyops.struct_err(nb, 3)
        if e:
            return "rebuilt body: " + e
        ps = set(tuple(p) for p in pos)
        for c in left:
            if set(c["v"]) == ps:
                lab = [tuple(p) for p in pos]
                got = builds.face_set(builds.faces_of(nb), lab)
                exp = builds.face_set([list(range(len(f))) for f in []], {}) if False else sorted((builds.canon(list(f)) for f in c["f"]), key=repr)
                if got != exp:
                    return "faces of the rebuilt body differ from the component's"
                left.remove(c)
                return None
        return "rebuilt body has the vertices of no component"
    return j


def table_case(row, rng, cap=512):
    """a link table with labels as positions"""
    g, lbl = row["g"], row["lbl"]
    n = len(g)
    P = {}
    for l in set(lbl):
        P[l] = tuple(rng.choice((rng.uniform(-4, 4), float(rng.randint(-3, 3)))) if k else float(l) * 0.5 - 3 for k in range(3))
    pos = [P[l] for l in lbl]
    want = []
    for c in row["b"]:
        want.append(([pos[v - 1] for v in c["verts"]], [[pos[v - 1] for v in f] for f in c["faces"]]))
    b = Beh(0, info=dict(links=g, labels=lbl))
    b.cmd("3 set 0 %d %s" % (n, " ".join("%s %s" % (nums(pos[v]), " ".join(str(x - 1) for x in rot(g[v], rng))) for v in range(n))))
    st = {}
    b.obs("3 dump 0", same(st, "src"))
    b.obs("3 brep 0", brep_judge(want))
    # the constructor may need a slot for every corner of every face
    if n and max(sum(len(f) for f in fs) for _, fs in want) <= cap:
        b.obs("3 brep2poly 0 1", lambda w: None if int(w[0]) == len(want) and all(x == "1" for x in w[1:]) else "an entry was refused on rebuilding: %s" % w)
        rj = rebuilt_judges(want, 1)
        for k in range(len(want)):
            b.obs("3 dump %d" % (k + 1), rj)
    b.obs("3 dump 0", same(st, "src"))
    return b


def rot(l, rng):
    r = rng.randrange(3)
    return l[r:] + l[:r]


def comps_of(faces):
    par = {}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for f in faces:
        for x in f:
            par.setdefault(x, x)
        for x in f[1:]:
            a, c = find(f[0]), find(x)
            if a != c:
                par[a] = c
    out = {}
    for f in faces:
        out.setdefault(find(f[0]), []).append(f)
    return list(out.values())


def map_case(row, rng, tol):
    """a description, built, converted and rebuilt; and what a plane leaves of it"""
    n, faces = row["n"], row["f"]
    b = Beh(0, info=dict(n=n, faces=faces, pos=row["pos"], kept=row["s"]))
    if len(set(map(tuple, row["pos"]))) != n:
        pos = [tuple(float(rng.randint(-9, 9)) + k * 0.001 for k in range(3)) for _ in range(n)]
        pos = [(x + 0.25 * v, y, z) for v, (x, y, z) in enumerate(pos)]
        exact = False
    else:
        pos = [tuple(float(x) for x in p) for p in row["pos"]]
        exact = True

    def want_of(fs, at):
        res = []
        for c in comps_of(fs):
            res.append(([at[x] for x in {y for f in c for y in f}], [[at[x] for x in f] for f in c]))
        return res
    p, fs = builds.relabel(n, faces, rng)
    st = {}
    want = want_of([tuple(f) for f in faces], {v: pos[v - 1] for v in range(1, n + 1)})
    b.obs(lattice.poly3_line(0, builds.place(p, pos), fs), None)
    b.obs("3 dump 0", same(st, "src"))
    b.obs("3 brep 0", brep_judge(want))
    b.obs("3 brep2poly 0 1", lambda w: None if int(w[0]) == len(want) and all(x == "1" for x in w[1:]) else "an entry was refused on rebuilding: %s" % w)
    rj = rebuilt_judges(want, 1)
    for k in range(len(want)):
        b.obs("3 dump %d" % (k + 1), rj)
    if row["m"] and exact:
        w_ = np.array(row["m"]) / 120.0
        P = np.maximum(1.0, np.abs(np.array(pos)).max(axis=0))
        sc = np.array([float(np.prod(P)) * len(faces) * float(np.prod(P ** np.array(e))) for e in geom.exps(3, 2)])
        acc = []
        for k in range(len(want)):
            def j(w, last=k == len(want) - 1):
                acc.append(np.array([float(x) for x in w]))
                return tol.cmp(sum(acc), w_, sc) if last else None
            b.obs("3 reduce %d 2" % (k + 1), j)
    b.obs("3 dump 0", same(st, "src"))
    S = set(row["s"])
    if S and len(S) < n:
        ax = rng.randrange(3)
        val = [rng.choice((0.25, 0.5, 1.0, 2.0)) * (1 if v in S else -1) for v in range(1, n + 1)]
        X = [[rng.uniform(-4, 4) for _ in range(3)] for _ in range(n)]
        for v in range(n):
            X[v][ax] = val[v]
        p, fs = builds.relabel(n, faces, rng)
        pl = [0.0] * 4
        pl[ax] = 1.0
        b.obs(lattice.poly3_line(30, builds.place(p, X), fs), None)
        b.obs("3 clip 30 1 " + nums(pl), None)
        keep = {}
        b.obs("3 dump 30", lambda w: keep.__setitem__("p", polyops.parse_poly(w, 3)[0]))

        def jb(w):
            # positions of the vertices that the plane made, as the code rounded them
            got = sorted(set(tuple(x) for x in keep["p"]))
            at = {}
            for f in row["cut"]:
                for u, v in f:
                    if v == 0:
                        at[(u, v)] = tuple(X[u - 1])
                    else:
                        a, c = val[u - 1], val[v - 1]
                        t = a / (a - c)
                        q = np.array([X[u - 1][i] + t * (X[v - 1][i] - X[u - 1][i]) for i in range(3)])
                        k = min(range(len(got)), key=lambda i: float(np.abs(np.array(got[i]) - q).max()))
                        if float(np.abs(np.array(got[k]) - q).max()) > 1e-9:
                            return "no vertex at %s" % q
                        at[(u, v)] = got[k]
            return brep_judge(want_of([tuple(map(tuple, f)) for f in row["cut"]], at))(w)
        b.obs("3 brep 30", jb)
        # (rebuilding needs one vertex per corner while it works)
        if max(sum(len(f) for f in c) for c in comps_of([tuple(map(tuple, f)) for f in row["cut"]])) <= 512:
            b.obs("3 brep2poly 30 31", lambda w: None if all(x == "1" for x in w[1:]) else "an entry was refused on rebuilding: %s" % w)
    return b


def emit(ctx, j, workers=3):
    return core.tlc(ctx, "Brep", j[0], INV, simulate=j[1], depth=j[0]["MaxSteps"] + 2, workers=workers).rows


def shapes_case(T, row, N, k, rng, tol):
    sh = T.shape(row["shape"][0])
    fr = geom.identity(3) if k % 2 else geom.random_frame(rng, 3, rng.choice(("perm", "rot", "general", "tiny", "huge", "far")))
    b = Beh(0, info=dict(shape=sh["name"], frame=fr.name))
    lattice.build(b, 3, 0, sh, fr, rng, force_poly=k % 3 == 0)
    at = {i + 1: tuple(float(x) for x in fr.pt(v)) for i, v in enumerate(sh["verts"])}
    groups = comps_of([tuple(f) for f in sh["faces"]])
    b.obs("3 brep 0", brep_judge([([at[x] for x in {y for f in c for y in f}], [[at[x] for x in f] for f in c]) for c in groups]))
    b.obs("3 brep2poly 0 1", lambda w: None if all(x == "1" for x in w[1:]) else "an entry was refused on rebuilding")
    want = fr.moments(row["hist"][0]["obs"][0]["m"], T.unit, T.order)
    sc = tol.scales(fr, N, T.order, 3)
    acc = []
    for c in range(len(groups)):
        def j(w, last=c == len(groups) - 1):
            acc.append(np.array([float(x) for x in w]))
            return tol.cmp(sum(acc), want, sc) if last else None
        b.obs("3 reduce %d %d" % (c + 1, T.order), j)
    return b


def check(ctx):
    q = ctx.quick
    ctx.build("asan")
    tol = lattice.Tol(ctx)
    J = lambda starts, steps, maxv, sample, emitlen, sim: (dict(Starts=A(*starts), MaxSteps=steps, MaxVerts=maxv, Sample=sample, EmitLen=emitlen), sim)
    base = ("tet", "prism3", "cube", "prism5", "trtet")
    caps = (24, 32)
    jobs = [J(base, 6, 20, 2, 0, 40 if q else 500), J(base, 12, 44, 2, 0, 15 if q else 200), J(("tet",), 9, 44, 1, 0, 10 if q else 100)] + \
           [J(base[:4], 9, c, 2, c, 40 if q else 600) for c in caps]
    MJ = lambda *a, **k: (a, k)
    allact = ("contract", "chord", "cone")
    mjobs = [MJ(("octa", "pyr4", "pyr5", "torus33", "octatet", "tettet", "tetcube"), 1, 14, allact),
             MJ(("tet", "cube", "octa", "pyr5", "trtet", "torus33", "octapyr", "octatet", "tettet"), 8, 24, allact, sample=2, simulate=20 if q else 300, resolve=False),
             MJ(("torus55", "pyr12", "pyr30", "trprism3", "prism12"), 6, 60, allact, sample=2, simulate=6 if q else 60, resolve=False),
             MJ(("prism170", "mix300", "pyr100"), 1 if q else 3, 400, ("chord", "cone"), sample=1, simulate=1 if q else 3, resolve=False)]
    with cf.ThreadPoolExecutor(3) as ex:
        f1 = [ex.submit(emit, ctx, j) for j in jobs]
        f2 = [ex.submit(builds.emit, ctx, *a, **k) for a, k in mjobs]
        tabs = [f.result() for f in f1]
        maps = [f.result() for f in f2]
    reps = 1 if q else 3
    for (c, sim), rows in zip(jobs, tabs):
        variant = "asan" if c["EmitLen"] == 0 else "acap%d" % c["EmitLen"]
        if c["EmitLen"]:
            ctx.bump("bodies_filling_capacity", len(rows))

        def make(k, mini, rows=rows, cap=c["EmitLen"] or 512):
            rng = random.Random(ctx.seed * 5003 + k)
            return [table_case(rows[k], rng, cap) for _ in range(reps)]
        lattice.run_make(ctx, len(rows), make, variant)
        ctx.bump("link_tables", len(rows))
        ctx.bump("tables_with_several_components", sum(1 for r in rows if len(r["b"]) > 1))
        ctx.bump("tables_with_copies", sum(1 for r in rows if len(set(r["lbl"])) < len(r["g"])))
    for rows in maps:
        rows = [r for r in rows if not r["refuse"]]

        def make(k, mini, rows=rows):
            rng = random.Random(ctx.seed * 5009 + k)
            return [map_case(rows[k], rng, tol) for _ in range(reps)]
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("descriptions", len(rows))
    for big in (0, 1, 2):
        T, rows, N = polyops.emit(ctx, 3, big=big, Order=2, Steps=0)

        def make(k, mini, T=T, rows=rows, N=N):
            rng = random.Random(ctx.seed * 5011 + k)
            return [shapes_case(T, rows[k], N, i, rng, tol) for i in range(12 if q else 60)]
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("shapes", len(rows))
    ctx.sample(str(tabs[0][len(tabs[0]) // 2])[:700])
