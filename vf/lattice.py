"""Replaying lattice behaviours (spec/Lattice.tla and the modules built on it) into the real code."""
import math, random
import numpy as np
from . import core, geom


def num(x):
    return repr(float(x))


def nums(xs):
    return " ".join(repr(float(x)) for x in xs)


class Beh:
    """One behaviour: executor lines plus, for every observing line, a judge taking the output fields."""
    __slots__ = ("id", "lines", "judges", "info", "known")

    def __init__(self, id, info=None, known=None):
        self.id, self.lines, self.judges, self.info, self.known = id, [], [], info or {}, known

    def cmd(self, line):
        self.lines.append(line)

    def obs(self, line, judge=None):
        self.lines.append(line)
        self.judges.append(judge)


def run(ctx, behs, variant="asan", workers=None, exe=None):
    """Replay all behaviours and judge every observation; returns the raw results."""
    exe = exe or ctx.binary(variant)
    res = core.replay(ctx, [(b.id, b.lines) for b in behs], variant, workers=workers, exe=exe)
    judge_all(ctx, behs, res, variant, exe)
    return res


class _Mini:
    """what a child process needs of the context"""
    def __init__(self, ctx, c):
        self.dir, self.seed, self.quick, self.tier, self.prop = ctx.dir, ctx.seed, ctx.quick, ctx.tier, ctx.prop
        self.violations, self.cov, self.replays, self.c = [], {}, 0, c

    def bump(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, kind, detail, script=None, expected=None, got=None, variant=None, extra=None):
        self.violations.append(dict(property=self.prop, kind=kind, detail=detail, script=script,
                                    expected=expected, got=got, variant=variant, extra=extra))


_seq = [0]


def run_make(ctx, n, make, variant="asan", tol=None, batch=400, exe=None):
    """Behaviours of item k are produced by make(k, mini) (a list of Beh), replayed and judged; the items
    are spread over forked processes.  make must draw its randomness from a generator seeded by k."""
    import multiprocessing as mp
    share = {}
    if variant == "asan" and exe is None:
        share = {1: "clangasan", 5: "msan"}
        share = {c: (v, ctx.binary(v)) for c, v in share.items()}
    exe = exe or ctx.binary(variant)
    _seq[0] += 1
    base = "m%d" % _seq[0]
    if sum(1 for v in ctx.violations if not (v.get("extra") or {}).get("known_key")) >= 40:
        return          # enough to report
    np_ = min(core.NCPU, max(1, n))

    def child(c, conn, exe=exe, variant=variant):
        try:
            if c in share:
                variant, exe = share[c]
            mini = _Mini(ctx, c)
            behs, k = [], c
            while k < n or behs:
                while k < n and len(behs) < batch:
                    for b in make(k, mini):
                        b.id = len(behs)
                        behs.append(b)
                    k += np_
                if behs:
                    items = [(b.id, b.lines) for b in behs]
                    mini.replays += len(items)
                    res = core._run_chunk(exe, items, "%s/%s-%d.txt" % (ctx.dir, base, c))
                    judge_all(mini, behs, res, variant, exe)
                behs = []
                if len(mini.violations) >= 12 or any("hang" in v["kind"] for v in mini.violations):
                    break
            conn.send((mini.violations, mini.cov, mini.replays, tol.max if tol else 0.0, None))
        except BaseException as e:
            import traceback
            conn.send(([], {}, 0, 0.0, traceback.format_exc()))
        conn.close()
        import os
        os._exit(0)
    mpx = mp.get_context("fork")
    ps = []
    for c in range(np_):
        a, b = mpx.Pipe(False)
        p = mpx.Process(target=child, args=(c, b))
        p.start()
        b.close()
        ps.append((p, a))
    err = None
    for p, a in ps:
        try:
            v, cov, rep, tm, e = a.recv()
        except EOFError:
            v, cov, rep, tm, e = [], {}, 0, 0.0, "worker process died"
        p.join()
        ctx.violations.extend(v)
        ctx.replays += rep
        for k, x in cov.items():
            ctx.bump(k, x)
        if tol:
            tol.max = max(tol.max, tm)
        err = err or e
    if err:
        raise core.CheckError(err)


def judge_all(ctx, behs, res, variant, exe=None, cap=40):
    e = res.pop("__exit__", None)
    for e in (e if isinstance(e, list) else [e] if e else []):
        ctx.violation("memory report at exit", e.why + "\n" + e.stderr, variant=variant)
    for b in behs:
        out = res.get(b.id)
        if len(ctx.violations) >= cap:
            break
        if out is None:
            ctx.bump("not_run")
            continue
        extra = dict(b.info)
        if b.known:
            extra["known_key"] = b.known
        if isinstance(out, core.Crash):
            if "hang" in out.why:       # repeat alone before believing it
                out = core._run_chunk(exe, [(b.id, b.lines)], "%s/again-%d.txt" % (ctx.dir, id(b))).get(b.id)
            if isinstance(out, core.Crash):
                ctx.violation(out.why, "%s %s" % (b.info, out.stderr[-1500:]), script=b.lines, variant=variant, extra=extra)
                continue
        if len(out) != len(b.judges):
            ctx.violation("observation count", "expected %d observations, got %d: %s" % (len(b.judges), len(out), b.info), script=b.lines, got=out, variant=variant, extra=extra)
            continue
        for k, (j, l) in enumerate(zip(b.judges, out)):
            if j is None:
                continue
            w = l.split()
            err = j(w[1:])
            if err:
                ctx.violation("conformance", "observation %d (%s): %s; behaviour %s" % (k, w[0], err, str(b.info)[:400]), script=b.lines, got=[x[:2000] for x in out], variant=variant, extra=extra)
                break


class Tables:
    def __init__(self, row):
        self.hs, self.shapes, self.exps, self.unit = row["hs"], row["shapes"], row["exps"], row["unit"]
        self.atoms = row.get("atoms")
        self.order = max(sum(e) for e in self.exps)
        self.D = len(self.exps[0])

    def shape(self, i):
        return self.shapes[i - 1]

    def hsr(self, h):
        return self.hs[h - 1] if isinstance(h, int) else h


def rows_of(r):
    t = [x for x in r.rows if isinstance(x, dict) and x.get("tables")]
    rest = [x for x in r.rows if not (isinstance(x, dict) and x.get("tables"))]
    return Tables(t[0]), rest


# ---------------------------------------------------------------- building bodies
def relabel3(verts, faces, rng):
    """same body, other numbering (faces 0-based)"""
    n = len(verts)
    p = list(range(n)); rng.shuffle(p)              # old -> new
    v2 = [None] * n
    for k in range(n):
        v2[p[k]] = verts[k]
    f2 = []
    for f in faces:
        g = [p[x] for x in f]
        r = rng.randrange(len(g))
        f2.append(g[r:] + g[:r])
    rng.shuffle(f2)
    return v2, f2


def poly3_line(slot, pts, faces, cmd="poly"):
    return "3 %s %s%d %s %d %s" % (cmd, "" if slot is None else "%d " % slot, len(pts), " ".join(nums(p) for p in pts), len(faces),
                                   " ".join("%d %s" % (len(f), " ".join(map(str, f))) for f in faces))


def build3(b, slot, shape, frame, rng=None, force_poly=False):
    kind = shape["kind"]
    if kind == "box" and frame.axis and not force_poly:
        lo = [min(v[k] for v in shape["verts"]) for k in range(3)]
        hi = [max(v[k] for v in shape["verts"]) for k in range(3)]
        b.cmd("3 box %d %s %s" % (slot, nums(frame.pt(lo)), nums(frame.pt(hi))))
    elif kind == "tet" and not force_poly:
        vs = list(shape["verts"])
        if rng:                                       # an even permutation
            for _ in range(2):
                i, j = rng.sample(range(4), 2)
                vs[i], vs[j] = vs[j], vs[i]
        b.cmd("3 tet %d %s" % (slot, " ".join(nums(frame.pt(v)) for v in vs)))
    else:
        pts = [frame.pt(v) for v in shape["verts"]]
        faces = [[i - 1 for i in f] for f in shape["faces"]]
        if rng:
            pts, faces = relabel3(pts, faces, rng)
        b.obs(poly3_line(slot, pts, faces), lambda w: None if w[0] == "1" else "constructor refused a valid description")


def set2_line(slot, loops, rng=None):
    pts, nb = [], []
    off = 0
    for l in loops:
        n = len(l)
        for k, p in enumerate(l):
            pts.append(p)
            nb.append((off + (k + 1) % n, off + (k + n - 1) % n))
        off += n
    order = list(range(off))
    if rng:
        rng.shuffle(order)
    new = {o: k for k, o in enumerate(order)}
    return "2 set %d %d %s" % (slot, off, " ".join("%s %d %d" % (nums(pts[o]), new[nb[o][0]], new[nb[o][1]]) for o in order))


def build2(b, slot, shape, frame, rng=None):
    loops = [[frame.pt(p) for p in l] for l in shape["loops"]]
    if shape["kind"] == "box" and frame.axis:
        l = shape["loops"][0]
        lo = [min(v[k] for v in l) for k in range(2)]
        hi = [max(v[k] for v in l) for k in range(2)]
        b.cmd("2 box %d %s %s" % (slot, nums(frame.pt(lo)), nums(frame.pt(hi))))
    elif len(loops) == 1 and not (rng and rng.random() < 0.3):
        l = loops[0]
        if rng:
            r = rng.randrange(len(l))
            l = l[r:] + l[:r]
        b.cmd("2 poly %d %d %s" % (slot, len(l), " ".join(nums(p) for p in l)))
    else:
        b.cmd(set2_line(slot, loops, rng))


def build(b, D, slot, shape, frame, rng=None, **kw):
    (build3 if D == 3 else build2)(b, slot, shape, frame, rng, **kw)


# ---------------------------------------------------------------- judging moments
class Tol:
    """Rounding allowance.  maxratio records the largest deviation seen, in units of the allowance."""
    K = 400.0

    def __init__(self, ctx, eps=geom.EPS):
        self.ctx, self.eps, self.max = ctx, eps, 0.0

    def scales(self, frame, N, order, D):
        key = ("sc", type(self).__name__, N, order)
        if key not in frame._mt:
            frame._mt[key] = self._scales(frame, N, order, D)
        return frame._mt[key]

    def _scales(self, frame, N, order, D):
        mono = np.count_nonzero(frame.A) == D
        ext = np.abs(frame.A) @ np.full(D, float(N)) + np.abs(frame.t)      # per-axis reach
        span = np.abs(frame.A) @ np.full(D, float(N))
        if not mono:
            ext[:] = ext.max()
        amp = max(1.0, float(np.max(ext / span)))
        if not mono:
            amp *= frame.cond
        V = abs(frame.det) * N ** D
        if D == 2:
            V = max(V, float(np.prod(ext)))       # polygons are integrated about the origin
        return np.array([V * amp * float(np.prod(ext ** np.array(e))) for e in geom.exps(D, order)])

    def cmp(self, got, want, scale):
        if len(got) != len(want):
            return "expected %d moments, got %d" % (len(want), len(got))
        g = np.array([float(x) for x in got])
        if not np.all(np.isfinite(g)):
            return "non-finite moments %s" % got[:4]
        d = np.abs(g - want)
        al = self.K * self.eps * np.asarray(scale, dtype=float)
        r = np.where(al > 0, d / np.where(al > 0, al, 1.0), np.where(d == 0, 0.0, np.inf))
        m = float(r.max()) if len(r) else 0.0
        if m > self.max:
            self.max = m
        if not m <= 1:
            k = int(r.argmax())
            return "moment %d is %.17g, specified %.17g (allowed deviation %.3g)" % (k, g[k], want[k], self.K * self.eps * scale[k])
        return None


def mom_judge(tol, T, frame, N, m, D, order=None):
    order = T.order if order is None else order
    want = frame.moments(m, T.unit, T.order)
    sc = tol.scales(frame, N, T.order, D)
    n = len(geom.exps(D, order))
    return lambda w: tol.cmp(w, want[:n], sc[:n])


def plane_str(frame, hs):
    return nums(frame.plane(hs))


FRAMES = {3: ("perm", "pow2", "rot", "general", "far", "scaleaxis", "tiny", "huge", "micro", "giga"),
          2: ("perm", "pow2", "rot", "general", "far", "scaleaxis", "tiny", "huge", "micro", "giga")}


def frames_for(rng, D, n):
    ks = FRAMES[D]
    return [geom.random_frame(rng, D, ks[k % len(ks)]) for k in range(n)]
