"""C22: the behaviours of the specifications, replayed into every build configuration."""
import random
import concurrent.futures as cf
import numpy as np
from . import core, geom, lattice, polyops, builds, graphs, grids, capacity, nd
from .core import Raw
from .lattice import Beh, nums
from .polyops import Opts

A = builds.A
FEPS = 2.0 ** -23


class AboutOrigin(lattice.Tol):
    """without recentring the integrals are formed about the origin"""
    def _scales(self, frame, N, order, D):
        ext = np.abs(frame.A) @ np.full(D, float(N)) + np.abs(frame.t)
        if np.count_nonzero(frame.A) != D:
            ext[:] = ext.max()
        base = lattice.Tol._scales(self, frame, N, order, D)
        return np.maximum(base, np.array([float(np.prod(ext)) * float(np.prod(ext ** np.array(e))) for e in geom.exps(D, order)]))


EXACTF = ("identity", "perm", "pow2")
# variant -> (tolerance maker, admissible frames, structure judged too)
DOUBLE = dict(o3=(lattice.Tol, None), clang=(lattice.Tol, None), noshift=(AboutOrigin, None), shift2d=(lattice.Tol, None), cap64=(lattice.Tol, None), big=(lattice.Tol, None), ndebug=(lattice.Tol, None))


def float_tol(ctx):
    return lattice.Tol(ctx, eps=FEPS)


def same_everywhere(ctx, behs, variants):
    """the same calls give the same vertex lists, bit for bit"""
    outs = {}
    for v in variants:
        outs[v] = core.replay(ctx, [(b.id, b.lines) for b in behs], v)
    ref = variants[0]
    for b in behs:
        a = outs[ref].get(b.id)
        for v in variants[1:]:
            c = outs[v].get(b.id)
            if isinstance(a, core.Crash) or isinstance(c, core.Crash) or a is None or c is None:
                if isinstance(c, core.Crash) or isinstance(a, core.Crash):
                    x = c if isinstance(c, core.Crash) else a
                    ctx.violation(x.why, "%s: %s" % (v, x.stderr[-800:]), script=b.lines, variant=v, extra=b.info)
                continue
            for i, (x, y) in enumerate(zip(a, c)):
                if x != y:
                    ctx.violation("conformance", "configurations %s and %s give different results (observation %d): %s / %s; behaviour %s" % (ref, v, i, x[:300], y[:300], str(b.info)[:300]),
                                  script=b.lines, variant=v, extra=b.info)
                    break
        if len(ctx.violations) > 20:
            break
    ctx.bump("compared_across_configurations", len(behs))


def solid_beh(row, rng, k, judge=True, tol=1e-9):
    """one call of spec/Solid.tla, all results dumped"""
    b = Beh(k, info=dict(op=row["op"], planes=row["planes"], sizes=[len(x["nb"]) for x in row["in"]]))
    n = len(row["in"])

    def dj(body):
        nb = [[x - 1 for x in l] for l in body["nb"]]
        pos = [capacity.pt(p) for p in body["pos"]]

        def j(w):
            p, g = polyops.parse_poly(w, 3)
            return polyops.struct_err(g, 3) or graphs.iso(nb, pos, g, p, 3, tol)
        return j
    if row["op"] == "clip":
        b.cmd(capacity.set_line(0, row["in"][0], rng))
        b.obs("3 clip 0 %d %s" % (len(row["planes"]), " ".join(capacity.plane(p) for p in row["planes"])), lambda w: None if w[0] == "1" else "clip failed")
        b.obs("3 dump 0", dj(row["out"][0]))
    else:
        for i, x in enumerate(row["in"]):
            b.cmd(capacity.set_line(i, x, rng))
        b.obs("3 split %d %s %s %s %s" % (n, " ".join(str(i) for i in range(n)), " ".join(str(10 + i) for i in range(n)), " ".join(str(20 + i) for i in range(n)), capacity.plane(row["planes"][0])),
              lambda w: None if w[0] == "1" else "split failed")
        for i in range(n):
            b.obs("3 dump %d" % (10 + i), dj(row["out"][i]))
            b.obs("3 dump %d" % (20 + i), dj(row["out"][n + i]))
    return b


def check(ctx):
    q = ctx.quick
    n = lambda a, b: a if q else b
    for v in list(DOUBLE) + ["float", "fast"]:
        ctx.build(v)
    rng = random.Random(ctx.seed * 101)
    both = Raw('{"clip", "split"}')
    jobs = []
    for D in (3, 2):
        hs = set(rng.sample(range(1, polyops.nhs(D, 3) + 1), n(10, 24)))
        jobs += [dict(D=D, Order=2, Kinds=both, UseHS=hs), dict(D=D, Order=2, Kinds=both, Steps=5, MaxArity=3, MaxFrags=4, Keep=Raw('"some"'), simulate=n(40, 500)),
                 dict(D=D, Order=2, big=True, Kinds=both, Steps=4, MaxArity=3, MaxFrags=4, Keep=Raw('"cut"'), simulate=n(20, 200))]
    vjobs = []
    for D in (3, 2):
        vjobs += [dict(D=D, Order=2, Grids=grids.grids(rng, D, n(8, 60))), dict(D=D, DoClamp=True, Order=1, Grids=grids.grids(rng, D, n(8, 60), clamp=True))]
    C = dict(Starts=A("tet", "prism3", "cube", "prism5", "trtet", "tettet"), MaxCalls=3, MaxArity=3, MaxBodies=2, MaxVerts=40, R=4, PR=2, Kinds=A("clip", "split"), Caps=Raw("{}"))
    with cf.ThreadPoolExecutor(3) as ex:
        fp = ex.submit(polyops.emit_many, ctx, jobs)
        fv = ex.submit(grids.emit_many, ctx, vjobs, 2)
        fs = ex.submit(core.tlc, ctx, "Solid", C, capacity.INV, simulate=n(40, 400), depth=8, workers=3)
        pol, vox, sol = fp.result(), fv.result(), fs.result().rows
    o = Opts()
    o.dump = True
    for j, (T, rows, N) in zip(jobs, pol):
        D = j["D"]
        for v, (mk, kinds) in DOUBLE.items():
            if v == "shift2d" and D == 3 or v == "noshift" and D == 2:
                continue
            if v == "cap64" and D == 3 and j.get("big"):
                continue        # larger than this capacity
            tol = mk(ctx)
            # each configuration takes another part of the behaviours
            part = rows[hash_of(v) % 3::3] if q else rows
            polyops.replay_rows(ctx, T, part, N, D, tol, o, 1, v, ident=True, kinds=kinds)
            ctx.bump("histories_" + v, len(part))
            ctx.extra["max_dev_" + v] = max(ctx.extra.get("max_dev_" + v, 0.0), tol.max)
        tol = float_tol(ctx)
        of = Opts()
        of.dump = True
        part = rows[::2] if q else rows
        polyops.replay_rows(ctx, T, part, N, D, tol, of, 1, "float", ident=True, kinds=("perm", "pow2"))
        of = Opts()
        polyops.replay_rows(ctx, T, rows[1::4], N, D, tol, of, 1, "float", ident=False, kinds=("rot", "general", "scaleaxis"))
        ctx.bump("histories_float", len(part))
        ctx.extra["max_dev_float"] = max(ctx.extra.get("max_dev_float", 0.0), tol.max)
    for j, (T, rows, N) in zip(vjobs, vox):
        D = j["D"]
        beh = grids.clamp_beh if j.get("DoClamp") else grids.vox_beh
        rows = [r for r in rows if not r["h"]]
        for v, (mk, kinds) in DOUBLE.items():
            if v == "shift2d" and D == 3 or v == "noshift" and D == 2:
                continue
            part = rows[hash_of(v) % 4::4] if q else rows
            grids.replay(ctx, T, part, N, D, mk(ctx), 2, beh, orders=tuple(range(j["Order"] + 1)), variant=v)
            ctx.bump("grids_" + v, len(part))
        tol = float_tol(ctx)

        def make(k, mini, T=T, rows=rows[::2] if q else rows, N=N, D=D, j=j, tol=tol, beh=beh):
            rg = random.Random(ctx.seed * 7 + k)
            row = rows[k]
            d = [rg.choice((1.0, 2.0, 0.5))] * D if rg.random() < 0.5 else [rg.choice((1.0, 2.0, 0.5, 4.0)) for _ in range(D)]
            f = grids.GridFrame(d, [rg.randint(-2, 2) for _ in range(D)], row["g"]["G"], row["g"]["P"], "grid_any")
            return [beh(T, row, N, D, f, tol, rg, rg.choice(range(j["Order"] + 1)))]
        if not j.get("DoClamp"):
            lattice.run_make(ctx, len(rows[::2] if q else rows), make, "float", tol)
            ctx.bump("grids_float", len(rows[::2] if q else rows))
    # links, in every configuration, and bit-identical vertex lists
    for v in list(DOUBLE) + ["float"]:
        part = [r for r in sol if r["need"] <= 64]
        part = part[hash_of(v) % 4::4] if q else part

        def make(k, mini, part=part, v=v):
            return [solid_beh(part[k], random.Random(ctx.seed * 13 + k), 0, tol=2e-4 if v == "float" else 1e-9)]
        lattice.run_make(ctx, len(part), make, v)
        ctx.bump("calls_" + v, len(part))
    pick = [r for r in sol if r["need"] <= 64]
    rng.shuffle(pick)
    behs = [solid_beh(r, random.Random(ctx.seed * 17 + k), k) for k, r in enumerate(pick[:n(400, 4000)])]
    same_everywhere(ctx, behs, ["fast", "cap64", "big", "ndebug", "noshift"])
    # the descriptions of spec/Maps.tla, constructed under two capacities and converted back
    maps = [r for r in builds.emit(ctx, ("tet", "cube", "octa", "pyr5", "torus33", "octatet"), 5, 16, ("contract", "chord", "cone"), sample=2, simulate=n(10, 100), resolve=False) if not r["refuse"]]
    behs = []
    for k, r in enumerate(maps):
        if sum(len(f) for f in r["f"]) > 64:
            continue
        b = Beh(len(behs), info=dict(n=r["n"], faces=r["f"]))
        rg = random.Random(ctx.seed * 19 + k)
        p, fs = builds.relabel(r["n"], r["f"], rg)
        pos = [(rg.uniform(-4, 4), rg.uniform(-4, 4), v * 0.5) for v in range(r["n"])]
        b.obs(lattice.poly3_line(0, builds.place(p, pos), fs), None)
        b.obs("3 dump 0", None)
        b.obs("3 good 0", None)
        b.obs("3 brep 0", None)
        behs.append(b)
    same_everywhere(ctx, behs, ["fast", "cap64", "big", "ndebug"])
    # near the capacity, with and without assertions
    rows = [(r, c, v) for r in sol for c, v in r["caps"]]
    by = {}
    for r, c, v in rows:
        if abs(r["need"] - c) <= 2:
            by.setdefault(c, []).append((r, v))
    caps = sorted(by, key=lambda c: (-len(by[c]), c))[:n(6, 20)]
    for c in caps:
        ctx.build("ncap%d" % c)
        if not q or c in caps[:2]:
            ctx.build("acap%d" % c)
    for c in caps:
        for v in ("ncap%d" % c, "acap%d" % c):
            if v not in ctx.builds:
                continue

            def make(k, mini, c=c):
                r, verdict = by[c][k]
                return [capacity.op_case(r, c, verdict, random.Random(ctx.seed * 23 + k))]
            m = min(len(by[c]), n(150, 3000))
            lattice.run_make(ctx, m, make, v)
            ctx.bump("calls_at_capacity", m)
    high_orders(ctx, n)
    # 4D
    nd_part(ctx, n)
    ctx.extra["configurations"] = list(DOUBLE) + ["float"] + ["ncap%d" % c for c in caps] + ["acap%d" % c for c in caps[:2]]
    ctx.assumptions.append("x86-64, gcc and clang; -O1/-O2/-O3; capacities %s, 64, 512, 1500; single precision judged with its own rounding" % caps)


def hash_of(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def nd_part(ctx, n):
    T, rows, N = nd.emit(ctx, N=3, Steps=2, MaxArity=2, Sample=40, simulate=n(15, 200))
    for v in ("o3", "clang", "ndebug", "float"):
        tol = float_tol(ctx) if v == "float" else lattice.Tol(ctx)

        def make(k, mini, v=v, tol=tol):
            r = random.Random(ctx.seed * 211 + k)
            f = geom.identity(4)
            return [nd.behaviour(T, rows[k], N, f, tol, r)]
        lattice.run_make(ctx, len(rows), make, v, tol)
        ctx.bump("histories4_" + v, len(rows))


def high_orders(ctx, n):
    """integrals of every order up to 6 with and without recentring"""
    from . import moments
    for D in (3, 2):
        K = 6
        kuhn = moments.Kuhn(ctx, D, K)
        (T, rows, N), = polyops.emit_many(ctx, [dict(D=D, Order=0, Points=True, Steps=2, MaxArity=2, Keep=Raw('"some"'), simulate=n(30, 300))])
        tab = kuhn.table(T.atoms)
        for v in ("noshift", "fast", "o3", "float", "shift2d"):
            if v == "noshift" and D == 2 or v == "shift2d" and D == 3:
                continue
            tol = (AboutOrigin if v == "noshift" else lattice.Tol)(ctx, eps=FEPS if v == "float" else geom.EPS)
            frng = random.Random(ctx.seed * 7 + D)
            frames = [geom.identity(D)] + [geom.random_frame(frng, D, k) for k in (("perm", "perm") if v == "float" else ("perm", "rot", "general", "far", "scaleaxis", "pow2"))]

            def make(k, mini, T=T, rows=rows, N=N, tab=tab, kuhn=kuhn, tol=tol, frames=frames, D=D):
                rng = random.Random(ctx.seed * 104729 + k)
                row = rows[k]
                f = frames[rng.randrange(len(frames))]
                b = Beh(0, info=dict(shape=row["shape"], frame=f.name, hist=[(h["op"], h["f"], [T.hsr(x) for x in h["hs"]]) for h in row["hist"]]))
                lattice.build(b, D, 0, T.shape(row["shape"][0]), f, rng)
                for h in row["hist"][1:]:
                    hs = [T.hsr(x) for x in h["hs"]]
                    b.obs("%d clip 0 %d %s" % (D, len(hs), " ".join(lattice.plane_str(f, x) for x in hs)))
                m = f.mt(K) @ kuhn.moments(tab, row["hist"][-1]["obs"][0]["pts"]["at"])
                sc = tol.scales(f, N, K, D)
                for o in (K, rng.randrange(K)):
                    nm = len(geom.exps(D, o))
                    b.obs("%d reduce 0 %d" % (D, o), lambda w, nm=nm: tol.cmp(w, m[:nm], sc[:nm]))
                return [b]
            lattice.run_make(ctx, len(rows), make, v, tol)
            ctx.bump("high_order_bodies_" + v, len(rows))
            ctx.extra["max_dev_high_" + v] = tol.max
