"""C10, C11: constructors (spec/Maps.tla, spec/Simplex.tla, spec/Polygon.tla) replayed into init_poly, init_tet, init_box."""
import random
import concurrent.futures as cf
import numpy as np
from . import core, geom, lattice, polyops
from .core import Raw
from .lattice import Beh, nums
from .polyops import Opts

INV = ["FormOK", "RefuseOK", "ResolveOK", "CutOK", "Emit"]
A = lambda *x: Raw("{" + ", ".join('"%s"' % s for s in x) + "}")


def faces_of(nb, turn=2):
    """the face cycles of a link table (lists of vertex indices)"""
    seen, res = set(), []
    for v in range(len(nb)):
        for k in range(3):
            if (v, k) in seen:
                continue
            u, j, f = v, k, []
            while (u, j) not in seen:
                seen.add((u, j))
                f.append(u)
                w = nb[u][j]
                j = (nb[w].index(u) + turn) % 3
                u = w
            res.append(f)
    return res


def canon(seq):
    """collapse equal neighbours in a cycle, rotate to a canonical start; None if fewer than three remain"""
    s = [x for k, x in enumerate(seq) if x != seq[(k + 1) % len(seq)]]
    changed = True
    while changed and len(s) >= 3:        # spikes a-b-a have no area either
        changed = False
        for k in range(len(s)):
            if s[k] == s[(k + 2) % len(s)]:
                i, j = sorted(((k + 1) % len(s), (k + 2) % len(s)), reverse=True)
                del s[i]; del s[j]
                changed = True
                break
    if len(set(s)) < 3:
        return None
    r = min(range(len(s)), key=lambda i: [repr(x) for x in s[i:] + s[:i]])
    return tuple(s[r:] + s[:r])


def face_set(faces, label):
    out = []
    for f in faces:
        c = canon([label[x] for x in f])
        if c:
            out.append(c)
    return sorted(out, key=repr)


def labels(pos, known, tol=1e-9):
    """label every position by the first known point it coincides with"""
    K = np.array(known)
    res = []
    for p in pos:
        d = np.abs(K - np.array(p)).max(axis=1)
        k = int(d.argmin())
        if d[k] > tol:
            return None, "vertex %s is not a specified one" % (p,)
        res.append(tuple(round(x, 7) + 0.0 for x in known[k]))
    return res, None


def face_judge(expfaces, exppos, allfound=True):
    """expfaces: faces as lists of keys, exppos: key -> position"""
    keys = list(exppos)
    known = [exppos[k] for k in keys]
    elabel = {k: tuple(round(x, 7) + 0.0 for x in exppos[k]) for k in keys}
    want = face_set(expfaces, elabel)

    def j(w):
        pos, nb = polyops.parse_poly(w, 3)
        e = polyops.struct_err(nb, 3)
        if e:
            return e
        if not keys:
            return "expected an empty body, got %d vertices" % len(nb) if nb else None
        if not nb:
            return "empty body, specified %d faces" % len(want) if want else None
        lab, e = labels(pos, known)
        if e:
            return e
        miss = set(elabel.values()) - set(lab)
        if miss and allfound:
            return "specified vertex %s is missing" % (sorted(miss)[0],)
        got = face_set(faces_of(nb), lab)
        if got != want:
            a = [f for f in got if f not in want][:2]
            b = [f for f in want if f not in got][:2]
            return "faces differ: unspecified %s, missing %s" % (a, b)
        return None
    return j


def relabel(n, faces, rng):
    p = list(range(n))
    rng.shuffle(p)
    fs = []
    for f in faces:
        g = [p[x - 1] for x in f]
        r = rng.randrange(len(g))
        fs.append(g[r:] + g[:r])
    rng.shuffle(fs)
    return p, fs            # p[old-1] = new (0-based)


def place(p, pos):
    out = [None] * len(p)
    for k, q in enumerate(p):
        out[q] = pos[k]
    return out


def case(row, rng, tol, clips=True):
    n, faces = row["n"], row["f"]
    b = Beh(0, info=dict(n=n, faces=faces, pos=row["pos"], refuse=row["refuse"], kept=row["s"]))
    p, fs = relabel(n, faces, rng)
    pts = place(p, row["pos"])
    if row["refuse"]:
        # something in the way: an earlier body in the same object
        b.cmd("3 box 0 0 0 0 1 1 1")
        b.obs(lattice.poly3_line(0, pts, fs), lambda w: None if w == ["0", "0"] else "invalid description was not refused: status %s, %s vertices" % (w[0], w[1]))
        return b
    deg = {}
    for f in faces:
        for v in f:
            deg[v] = deg.get(v, 0) + 1
    b.obs(lattice.poly3_line(0, pts, fs), lambda w: None if w[0] == "1" else "valid description was refused")
    b.obs("3 dump 0", face_judge(faces, {v: [float(x) for x in row["pos"][v - 1]] for v in range(1, n + 1)}))
    if row["simple"]:
        # vertices keep their numbers
        def ids(w):
            pos, nb = polyops.parse_poly(w, 3)
            if len(nb) != n:
                return "%d vertices for a description with %d vertices of three faces each" % (len(nb), n)
            return None
        b.obs("3 dump 0", ids)
    if row["good"]:
        b.obs("3 good 0", lambda w: None if w[0] == "1" else "validity test rejects a polyhedral graph")
    if row["m"]:
        want = np.array(row["m"]) / 120.0
        P = np.maximum(1.0, np.abs(np.array(row["pos"], dtype=float)).max(axis=0))
        vol = float(np.prod(P)) * len(faces)
        sc = np.array([vol * float(np.prod(P ** np.array(e))) for e in geom.exps(3, 2)])
        b.obs("3 reduce 0 2", lambda w: tol.cmp(w, want, sc))
    if clips and row["s"] is not None:
        S = set(row["s"])
        ax = rng.randrange(3)
        zeros = rng.random() < 0.3
        val = []
        for v in range(1, n + 1):
            x = rng.choice((0.25, 0.5, 1.0, 2.0)) if v in S else -rng.choice((0.25, 0.5, 1.0, 2.0))
            if zeros and v in S and rng.random() < 0.4:
                x = 0.0
            val.append(x)
        X = [[rng.uniform(-4, 4) for _ in range(3)] for _ in range(n)]
        for v in range(n):
            X[v][ax] = val[v]
        if S and max(val) <= 0:
            X[min(S) - 1][ax] = val[min(S) - 1] = 1.0
        p, fs = relabel(n, faces, rng)
        pl = [0.0] * 4
        pl[ax] = 2.0 ** rng.randint(-3, 3)
        b.obs(lattice.poly3_line(1, place(p, X), fs), lambda w: None if w[0] == "1" else "valid description was refused")
        b.cmd("3 copy 1 2")

        def part(key, sgn):
            ex, pos = [], {}
            for f in row[key]:
                ex.append([tuple(x) for x in f])
                for x in f:
                    u, w = x
                    if w == 0:
                        pos[(u, w)] = X[u - 1]
                    else:
                        a, c = val[u - 1], val[w - 1]
                        t = a / (a - c)
                        pos[(u, w)] = [X[u - 1][i] + t * (X[w - 1][i] - X[u - 1][i]) for i in range(3)]
            return face_judge(ex, pos)
        b.obs("3 clip 1 1 " + nums(pl), lambda w: None if w[0] == "1" else "clip failed")
        b.obs("3 dump 1", part("cut", 1))
        b.obs("3 split 1 2 3 4 " + nums(pl), lambda w: None if w[0] == "1" else "split failed")
        b.obs("3 dump 3", part("cut", 1))
        b.obs("3 dump 4", part("neg", -1))
        if row["good"]:
            b.obs("3 good 1", lambda w: None if w[0] == "1" else "validity test rejects the clipped body")
    return b


def replay_maps(ctx, rows, reps, tol, clips=True):
    def make(k, mini):
        rng = random.Random(ctx.seed * 911 + k)
        r = rows[k]
        m = reps * (3 if r["n"] <= 6 else 1)
        return [case(r, rng, tol, clips and i == 0) for i in range(m)]
    lattice.run_make(ctx, len(rows), make, "asan", tol)
    ctx.bump("descriptions", len(rows))
    for r in rows[:2]:
        ctx.sample(dict(vertices=r["n"], faces=r["f"], refuse=r["refuse"], moments_120=r["m"]), cap=6)


def emit(ctx, starts, steps, maxv, acts, sample=0, simulate=None, resolve=True, workers=3):
    inv = INV
    rows = core.tlc(ctx, "Maps", dict(Starts=A(*starts), MaxSteps=steps, MaxVerts=maxv, Acts=A(*acts), Sample=sample, WithResolve=resolve), inv,
                    ["EulerStep"], simulate=simulate, depth=steps + 2, workers=workers)
    return [r for r in rows.rows if fits(r)]


def fits(r, cap=512):
    """the constructor must succeed: it needs one vertex per corner while it works, or per vertex if all have three faces (C13 looks at the rest)"""
    return r["refuse"] or (r["n"] <= cap if r["simple"] else sum(len(f) for f in r["f"]) <= cap)


def many(ctx, jobs, par=3):
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(emit, ctx, *j[0], **j[1]) for j in jobs]
        return [f.result() for f in fs]


def check_c11(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    allact = ("contract", "chord", "cone")
    J = lambda *a, **k: (a, k)
    jobs = [
        J(("octa", "pyr4", "pyr5", "torus33", "octatet"), 1, 14, allact),
        J(("tet", "prism3", "octa", "pyr4", "pyr5"), 2, 10, allact),
        J(("tet", "cube", "octa", "pyr5", "trtet", "torus33", "octapyr", "prism5"), 8, 24, allact, sample=2, simulate=25 if q else 300),
        J(("cube", "prism6", "trcube", "torus34", "pyr7"), 14, 40, allact, sample=2, simulate=8 if q else 100, resolve=False),
        J(("torus55", "pyr12", "pyr30", "trprism3"), 6, 60, allact, sample=2, simulate=8 if q else 60, resolve=False),
        J(("octa", "cube", "tettet"), 10, 26, ("cone",), sample=2, simulate=20 if q else 200, resolve=False),
        J(("pyr100", "torus1010", "mix100"), 3 if q else 8, 112, allact, sample=1 if q else 2, simulate=2 if q else 8, resolve=False),
    ]
    for rows in many(ctx, jobs):
        replay_maps(ctx, [r for r in rows if not r["simple"]], 2 if q else 6, tol)
    # lattice bodies with high-degree vertices under clip and split, renumbered
    deg = {7, 8, 9, 14, 16, 18}
    conv = Raw("{" + ", ".join("<<%d>>" % k for k in sorted(deg)) + "}")
    both = Raw('{"clip", "split"}')
    o = Opts()
    o.dump = True
    js = [dict(D=3, Order=2, UseShapes=conv, Kinds=both),
          dict(D=3, Order=2, UseShapes=conv, Kinds=both, Steps=5, MaxArity=3, MaxFrags=4, Keep=Raw('"some"'), simulate=150 if q else 2000)]
    for j, (T, rows, N) in zip(js, polyops.emit_many(ctx, js)):
        polyops.replay_rows(ctx, T, rows, N, 3, tol, o, 1 if q else 4)
        ctx.bump("histories", len(rows))
    ctx.extra["max_deviation_over_allowance"] = tol.max


def check_c10(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    J = lambda *a, **k: (a, k)
    acts = ("contract", "chord", "cone", "spoil")
    jobs = [
        J(("tet", "prism3", "cube", "prism5", "prism6", "trtet", "tettet", "tetcube", "prism8", "trprism3", "octa", "pyr4", "torus33"), 1, 24, ("spoil",)),
        J(("tet", "prism3", "pyr4"), 2, 10, acts),
        J(("cube", "prism5", "octa", "trtet", "torus33", "tettet"), 6, 20, acts, sample=2, simulate=25 if q else 300),
        J(("trcube", "prism12", "trprism3"), 3, 60, acts, sample=2, simulate=10 if q else 100, resolve=False),
        J(("mix300", "prism170") + (() if q else ("prism200", "prism250")), 1, 500, ("spoil",), sample=1, simulate=1 if q else 3, resolve=False),
    ]
    for rows in many(ctx, jobs):
        replay_maps(ctx, rows, 2 if q else 6, tol, clips=False)
    simplices(ctx, tol)
    polygons(ctx, tol)
    # every lattice shape through every constructor that applies
    js = [dict(D=D, Order=3, Steps=0) for D in (3, 2)] + [dict(D=D, big=b, Order=2, Steps=0) for b in (1, 2) for D in (3, 2)]
    for j, (T, rows, N) in zip(js, polyops.emit_many(ctx, js)):
        shapes(ctx, T, rows, N, j["D"], tol)
    ctx.extra["max_deviation_over_allowance"] = tol.max


# ---------------------------------------------------------------- simplices, boxes, polygons
INV_S = ["Degenerate", "Emit"]
PR_S = ["SignRule", "SwapNegates", "TranslateKeeps"]


def emit_simplices(ctx, q, dims=(2, 3, 4)):
    jobs = []
    for D in dims:
        if D == 2:
            jobs += [dict(D=2, Lo=0, Hi=2, MaxSteps=1, Random=0), dict(D=2, Lo=-9, Hi=9, MaxSteps=2, Random=60 if q else 600)]
        elif D == 3:
            jobs += [dict(D=3, Lo=0, Hi=1, MaxSteps=0, Random=0), dict(D=3, Lo=-7, Hi=7, MaxSteps=2, Random=30 if q else 300)]
        else:
            jobs += [dict(D=4, Lo=-5, Hi=5, MaxSteps=2, Random=10 if q else 100), dict(D=4, Lo=0, Hi=1, MaxSteps=1, Random=100 if q else 1000)]
    with cf.ThreadPoolExecutor(3) as ex:
        return [(j["D"], f.result().rows) for j, f in [(j, ex.submit(core.tlc, ctx, "Simplex", j, INV_S, PR_S, workers=3)) for j in jobs]]


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def simplex_frames(rng, D):
    fs = [geom.identity(D)]
    if D < 4:
        fs.append(geom.random_frame(rng, D, rng.choice(("pow2", "rot", "general", "far", "tiny", "huge"))))
    return fs


def mom_from(frame, m, units, order):
    return frame.moments(m, units, order)


def tet_links(w, pts, frame):
    pos, nb = polyops.parse_poly(w, 3)
    if len(pos) != 4:
        return "%d vertices" % len(pos)
    e = polyops.struct_err(nb, 3)
    if e:
        return e
    want = [frame.pt(p) for p in pts]
    if sorted(map(tuple, pos)) != sorted(tuple(float(x) for x in p) for p in want):
        return "vertices %s are not the given ones" % (pos,)
    return None


def simplices(ctx, tol, faces=False, construct=True, orient=False):
    """tetrahedra through the constructor (C10) and orientation functions (C16)"""
    dims = (2, 3, 4) if orient else (3,)
    for D, rows in emit_simplices(ctx, ctx.quick, dims):
        def make(k, mini, D=D, rows=rows):
            row = rows[k]
            rng = random.Random(ctx.seed * 13 + k)
            out = []
            for fr in simplex_frames(rng, D):
                b = Beh(0, info=dict(simplex=row["v"], frame=fr.name))
                pts = [fr.pt(v) for v in row["v"]]
                L = float(np.abs(np.array(row["v"])).max()) + 1
                sc = tol.scales(fr, L, 2, D) if D < 4 else None
                if orient:
                    want = row["vol"] * fr.det / fact(D)
                    # exact in the integer frame; otherwise rounding of the determinant of coordinates of this size
                    size = float(np.abs(np.array(pts)).max()) * 2
                    allow = 8 * geom.EPS * abs(want) if fr.name == "identity" else 60 * geom.EPS * size ** D

                    def judge(w, want=want, allow=allow):
                        g = float(w[0])
                        return None if abs(g - want) <= allow else "signed volume %r, specified %r" % (g, want)
                    b.obs("%d orient %s" % (D, " ".join(nums(p) for p in pts)), judge)
                if construct and D == 3:
                    b.cmd("3 tet 0 %s" % " ".join(nums(p) for p in pts))
                    b.obs("3 dump 0", lambda w, fr=fr, row=row: tet_links(w, row["v"], fr))
                    want3 = fr.moments(row["m"], fact(5), 2)
                    b.obs("3 reduce 0 2", lambda w, a=want3, s=sc * 20: tol.cmp(w, a, s))
                    b.obs("3 good 0", lambda w: None if w[0] == "1" else "validity test rejects a tetrahedron")
                if orient and D == 2:
                    b.cmd("2 poly 0 3 " + " ".join(nums(p) for p in pts))
                    want2 = fr.moments(row["m"], fact(4), 2)
                    b.obs("2 reduce 0 2", lambda w, a=want2, s=sc * 20: tol.cmp(w, a, s))
                out.append(b)
            return out
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("simplices_%dD" % D, len(rows))


def cyc_equal(a, b):
    n = len(a)
    return n == len(b) and any(a[r:] + a[:r] == b for r in range(n))


def loop_of(nb):
    out, v = [], 0
    for _ in range(len(nb)):
        out.append(v)
        v = nb[v][0]
    return out if v == 0 and len(set(out)) == len(nb) else None


def polygons(ctx, tol):
    q = ctx.quick
    jobs = [("Polygon", dict(Lengths=Raw("{3}"), Lo=0, Hi=2, Random=0, MaxSteps=1)),
            ("Polygon", dict(Lengths=Raw("{4}"), Lo=0, Hi=1, Random=0, MaxSteps=1)),
            ("Polygon", dict(Lengths=Raw("{3, 4, 5, 6, 7, 9, 12, 17}"), Lo=-6, Hi=6, Random=12 if q else 100, MaxSteps=1)),
            ("Polygon", dict(Lengths=Raw("{40, 100}"), Lo=-6, Hi=6, Random=3, MaxSteps=0)),
            ("Boxes", dict(D=2, Lo=-2, Hi=2, Random=0)), ("Boxes", dict(D=2, Lo=-9, Hi=9, Random=80)),
            ("Boxes", dict(D=3, Lo=-1, Hi=1, Random=0)), ("Boxes", dict(D=3, Lo=-9, Hi=9, Random=150))]
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(core.tlc, ctx, m, c, ["Emit"] + (["Positive"] if m == "Boxes" else []), ["RotKeeps", "RevNegates", "DupKeeps"] if m == "Polygon" else [], workers=3) for m, c in jobs]
        res = [f.result().rows for f in fs]
    for (m, c), rows in zip(jobs, res):
        D = c.get("D", 2)

        def make(k, mini, m=m, rows=rows, D=D):
            row = rows[k]
            rng = random.Random(ctx.seed * 17 + k)
            kinds = ("pow2", "rot", "general", "far", "tiny", "huge") if m == "Polygon" else ("pow2", "scaleaxis", "perm", "micro", "giga")
            out = []
            for fr in [geom.identity(D), geom.random_frame(rng, D, rng.choice(kinds))]:
                if m == "Polygon":
                    b = Beh(0, info=dict(polygon=row["p"], frame=fr.name))
                    pts = [[float(x) for x in fr.pt(p)] for p in row["p"]]
                    b.cmd("2 poly 0 %d %s" % (len(pts), " ".join(nums(p) for p in pts)))

                    def links(w, pts=pts):
                        pos, nb = polyops.parse_poly(w, 2)
                        e = polyops.struct_err(nb, 2)
                        if e:
                            return e
                        l = loop_of(nb)
                        if l is None:
                            return "links do not form one loop"
                        return None if cyc_equal([pos[i] for i in l], pts) else "vertices are not the given ones in the given order"
                    b.obs("2 dump 0", links)
                    sc = tol.scales(fr, 7, 2, 2) * len(pts)
                    b.obs("2 reduce 0 2", lambda w, a=fr.moments(row["m"], 24, 2), s=sc: tol.cmp(w, a, s))
                    if len(pts) >= 3:
                        b.obs("2 good 0", lambda w: None if w[0] == "1" else "validity test rejects a polygon")
                else:
                    b = Beh(0, info=dict(box=[row["lo"], row["hi"]], frame=fr.name))
                    a, c_ = fr.pt(row["lo"]), fr.pt(row["hi"])
                    lo = [min(x, y) for x, y in zip(a, c_)]
                    hi = [max(x, y) for x, y in zip(a, c_)]
                    b.cmd("%d box 0 %s %s" % (D, nums(lo), nums(hi)))

                    def corners(w, lo=lo, hi=hi, D=D):
                        pos, nb = polyops.parse_poly(w, D)
                        e = polyops.struct_err(nb, D)
                        if e:
                            return e
                        if len(set(map(tuple, pos))) != 2 ** D or any(x not in (l, h) for p in pos for x, l, h in zip(p, lo, hi)):
                            return "vertices are not the corners of the box"
                        for p, l in zip(pos, nb):
                            for x in l:
                                if sum(1 for i in range(D) if p[i] != pos[x][i]) != 1:
                                    return "link along a diagonal"
                        return None
                    b.obs("%d dump 0" % D, corners)
                    sgn = 1 if fr.det > 0 else -1
                    b.obs("%d reduce 0 2" % D, lambda w, a=fr.moments(row["m"], 6 ** D, 2) * sgn, s=tol.scales(fr, 10, 2, D): tol.cmp(w, a, s))
                    b.obs("%d good 0" % D, lambda w: None if w[0] == "1" else "validity test rejects a box")
                out.append(b)
            return out
        lattice.run_make(ctx, len(rows), make, "asan", tol)
        ctx.bump("%s_%dD" % (m.lower(), D), len(rows))


def shapes(ctx, T, rows, N, D, tol):
    def make(k, mini):
        row = rows[k]
        sh = T.shape(row["shape"][0])
        rng = random.Random(ctx.seed * 19 + k)
        out = []
        for i in range(20 if ctx.quick else 80):
            fr = geom.identity(D) if i % 2 else geom.random_frame(rng, D, rng.choice(("perm", "rot", "general", "far", "tiny", "huge")))
            b = Beh(0, info=dict(shape=sh["name"], frame=fr.name))
            lattice.build(b, D, 0, sh, fr, rng, **(dict(force_poly=i % 3 == 0) if D == 3 else {}))
            b.obs("%d reduce 0 %d" % (D, T.order), lattice.mom_judge(tol, T, fr, N, row["hist"][0]["obs"][0]["m"], D))
            if D == 3 and sh["name"] not in polyops.GENUS:
                b.obs("3 good 0", lambda w: None if w[0] == "1" else "validity test rejects the body")
            if D == 3:
                b.obs("3 dump 0", face_judge([[i - 1 for i in f] for f in sh["faces"]], {i: [float(x) for x in fr.pt(v)] for i, v in enumerate(sh["verts"])}) if max(abs(x) for v in sh["verts"] for x in fr.pt(v)) < 100 and fr.name not in ("tiny", "micro") else None)
            out.append(b)
        return out
    lattice.run_make(ctx, len(rows), make, "asan", tol)
    ctx.bump("shapes_%dD" % D, len(rows))


def check_c16(ctx):
    ctx.build("asan")
    tol = lattice.Tol(ctx)
    simplices(ctx, tol, orient=True)
