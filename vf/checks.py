"""One function per property."""
import random
from . import core, geom, lattice, polyops
from .core import Raw
from .polyops import Opts

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def some_hs(ctx, D, N, n, salt=0):
    rng = random.Random(ctx.seed * 31 + salt)
    return set(rng.sample(range(1, polyops.nhs(D, N) + 1), n))


def clip_check(ctx, D):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    N = 3
    jobs = [
        # every shape, every plane
        dict(D=D, Order=3),
        # every shape, every ordered pair out of a subset of the planes in one call
        dict(D=D, MinArity=2, MaxArity=2, UseHS=some_hs(ctx, D, N, (16 if D == 3 else 20) if q else 40)),
        # random longer histories, single planes and lists, that keep cutting
        dict(D=D, Steps=6, MaxArity=3, Keep=Raw('"cut"'), simulate=900 if q else 8000),
        dict(D=D, Steps=4, MaxArity=6, Keep=Raw('"some"'), simulate=900 if q else 8000),
        dict(D=D, Steps=3, MaxArity=4, simulate=500 if q else 4000),
        dict(D=D, Steps=2, MinArity=8, MaxArity=24, Keep=Raw('"some"'), simulate=250 if q else 1500, depth=200),
        dict(D=D, big=True, Steps=1, UseHS=some_hs(ctx, D, 4 if D == 3 else 8, 14, 1)),
        dict(D=D, big=True, Steps=8, MaxArity=3, Keep=Raw('"cut"'), simulate=120 if q else 1500),
        # hundreds of vertices, hundreds of planes
        dict(D=D, big=2, Steps=4, MaxArity=3, Keep=Raw('"cut"'), simulate=50 if q else 600),
        dict(D=D, Steps=1, MinArity=60, MaxArity=200, Keep=Raw('"some"'), simulate=15 if q else 150, depth=500),
    ]
    if not q:
        jobs.append(dict(D=D, Steps=2, UseHS=some_hs(ctx, D, N, 20, 7)))
    o = Opts()
    for j, (T, rows, n) in zip(jobs, polyops.emit_many(ctx, jobs)):
        polyops.replay_rows(ctx, T, rows, n, D, tol, o, 1 if q else 3)
        ctx.bump("histories", len(rows))
    ctx.extra["max_deviation_over_allowance"] = tol.max
    ctx.assumptions.append("lattice bodies and their affine images; rounding allowance %g eps" % tol.K)


@check("C01")
def c01(ctx):
    clip_check(ctx, 3)


@check("C02")
def c02(ctx):
    clip_check(ctx, 2)


def lists(ctx, D, n, length, big=False, salt=0, least=2):
    """random lists of shapes, 0 standing for an empty body"""
    rng = random.Random(ctx.seed * 77 + salt)
    ns = polyops.NSHAPES[(D, big)]
    out = set()
    while len(out) < n:
        k = rng.randint(least, length)
        out.add("<<" + ", ".join(str(0 if rng.random() < 0.2 else rng.randint(1, ns)) for _ in range(k)) + ">>")
    return Raw("{" + ", ".join(sorted(out)) + "}")


@check("C03")
def c03(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    sp, both = Raw('{"split"}'), Raw('{"clip", "split"}')
    jobs = []
    for D in (3, 2):
        jobs += [
            dict(D=D, Order=3, Kinds=sp),
            dict(D=D, Kinds=sp, Steps=2, MaxFrags=4, UseHS=some_hs(ctx, D, 3, 14 if q else 33)),
            dict(D=D, Kinds=sp, Steps=4, MaxFrags=16, simulate=250 if q else 3000),
            dict(D=D, Kinds=both, Steps=6, MaxFrags=8, MaxArity=2, Keep=Raw('"some"'), simulate=300 if q else 3000),
            dict(D=D, Kinds=sp, Steps=1, MaxFrags=16, UseShapes=lists(ctx, D, 40 if q else 200, 6, salt=D), UseHS=some_hs(ctx, D, 3, 16, 3)),
            dict(D=D, Kinds=sp, Steps=2, MaxFrags=32, UseShapes=lists(ctx, D, 40, 7, salt=D + 9), simulate=100 if q else 1000),
            dict(D=D, big=True, Kinds=sp, Steps=3, MaxFrags=8, simulate=50 if q else 500),
            dict(D=D, big=2, Kinds=both, Steps=3, MaxArity=2, MaxFrags=4, Keep=Raw('"cut"'), simulate=25 if q else 300),
            dict(D=D, Order=1, Kinds=sp, Steps=1, MaxFrags=400, UseShapes=lists(ctx, D, 6 if q else 30, 125, salt=D + 19, least=60), UseHS=some_hs(ctx, D, 3, 3, 5)),
        ]
    o = Opts()
    o.keep = True
    for j, (T, rows, n) in zip(jobs, polyops.emit_many(ctx, jobs)):
        polyops.replay_rows(ctx, T, rows, n, j["D"], tol, o, 1 if q else 2)
        ctx.bump("histories", len(rows))
    ctx.extra["max_deviation_over_allowance"] = tol.max


@check("C06")
def c06(ctx):
    ctx.build("asan")
    q = ctx.quick
    tol = lattice.Tol(ctx)
    both = Raw('{"clip", "split"}')
    for D in (3, 2):
        convex = {3: range(1, 13), 2: range(1, 10)}[D]
        conv = Raw("{" + ", ".join("<<%d>>" % k for k in convex) + "}")
        other = Raw("{" + ", ".join("<<%d>>" % k for k in range(1, polyops.NSHAPES[(D, False)] + 1) if k not in convex) + "}")
        jobs = [
            dict(D=D, Order=0, Points=True, UseShapes=conv, Kinds=both),
            dict(D=D, Order=0, Points=True, UseShapes=conv, MinArity=2, MaxArity=2, UseHS=some_hs(ctx, D, 3, 14 if q else 30)),
            dict(D=D, Order=0, Points=True, UseShapes=conv, Kinds=both, Steps=5, MaxArity=4, MaxFrags=4, Keep=Raw('"some"'), simulate=300 if q else 3000),
            dict(D=D, Order=0, Points=True, UseShapes=other, Kinds=both),
            dict(D=D, Order=0, Points=True, UseShapes=other, Kinds=both, Steps=5, MaxArity=3, MaxFrags=4, Keep=Raw('"some"'), simulate=200 if q else 3000),
            dict(D=D, Order=0, big=True, Points=True, Kinds=both, Steps=4, MaxArity=3, MaxFrags=4, Keep=Raw('"cut"'), simulate=40 if q else 400),
            dict(D=D, Order=0, big=2, Points=True, Kinds=both, Steps=2, MaxArity=2, MaxFrags=2, Keep=Raw('"cut"'), simulate=4 if q else 40),
        ]
        for k, (j, (T, rows, n)) in enumerate(zip(jobs, polyops.emit_many(ctx, jobs))):
            o = Opts()
            o.keep = o.points = True
            o.extreme = k < 3
            o.inside = k < 3
            polyops.replay_rows(ctx, T, rows, n, D, tol, o, 1 if q else 2)
            ctx.bump("histories", len(rows))


@check("C04")
def c04(ctx):
    from . import moments
    moments.check(ctx)


@check("C05")
def c05(ctx):
    from . import graphs
    graphs.check(ctx)


@check("C07")
def c07(ctx):
    from . import grids
    grids.check_vox(ctx, 3)


@check("C08")
def c08(ctx):
    from . import grids
    grids.check_vox(ctx, 2)


@check("C09")
def c09(ctx):
    from . import grids
    grids.check_ibox(ctx)


@check("C18")
def c18(ctx):
    from . import nd
    nd.check_clip(ctx)


@check("C19")
def c19(ctx):
    from . import nd
    nd.check_grid(ctx)


@check("C10")
def c10(ctx):
    from . import builds
    builds.check_c10(ctx)


@check("C11")
def c11(ctx):
    from . import builds
    builds.check_c11(ctx)


@check("C16")
def c16(ctx):
    from . import builds
    builds.check_c16(ctx)


@check("C14")
def c14(ctx):
    from . import transforms
    transforms.check(ctx)


@check("C15")
def c15(ctx):
    from . import faces
    faces.check(ctx)


@check("C12")
def c12(ctx):
    from . import brep
    brep.check(ctx)


@check("C13")
def c13(ctx):
    from . import capacity
    capacity.check(ctx)


@check("C17")
def c17(ctx):
    from . import isgood
    isgood.check(ctx)


@check("C22")
def c22(ctx):
    from . import configs
    configs.check(ctx)


@check("C21")
def c21(ctx):
    from . import interleave
    interleave.check(ctx)


@check("C20")
def c20(ctx):
    from . import deprecated
    deprecated.check(ctx)
