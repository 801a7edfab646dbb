"""C21: interleaved and concurrent use (spec/Interleave.tla)."""
import os, random, subprocess, json
import concurrent.futures as cf
from . import core, lattice
from .core import Raw
from .lattice import nums

# operations: name -> class; every one of the public functions
OPS = {
    3: dict(make=("tet", "box", "octa", "prism", "refused", "torus"), mut=("clip1", "clip2", "clip6", "rotate", "translate", "scale", "shear", "affine", "clamp"),
            two=("split",), copy=("copy",), back=("back",), query=("reduce", "good", "center", "vox", "ibox", "brep", "brep2poly"),
            fn=("tetfaces", "boxfaces", "polyfaces", "orient", "shiftmom")),
    2: dict(make=("box", "poly", "star"), mut=("clip1", "clip2", "clip6", "rotate", "translate", "scale", "shear", "affine", "clamp"),
            two=("split",), copy=("copy",), back=("back",), query=("reduce", "good", "center", "vox", "ibox"),
            fn=("boxfaces", "polyfaces", "orient", "shiftmom")),
    4: dict(make=("simplex", "box"), mut=("clip1", "clip2", "rotate", "translate", "scale", "shear", "affine", "clamp"),
            copy=("copy",), back=("back",), query=("reduce", "good", "vox", "ibox"), fn=("orient",)),
}
VARS = 3
CUBE = ([(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
        [[0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7], [0, 3, 2, 1], [4, 5, 6, 7]])
OCTA = ([(-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)],
        [[1, 3, 5], [3, 0, 5], [0, 2, 5], [2, 1, 5], [3, 1, 4], [0, 3, 4], [2, 0, 4], [1, 2, 4]])


def prism(n):
    import math
    v = [(2 * math.cos(2 * math.pi * k / n), 2 * math.sin(2 * math.pi * k / n), z) for z in (-1, 1) for k in range(n)]
    f = [[k, (k + 1) % n, n + (k + 1) % n, n + k] for k in range(n)] + [list(range(n))[::-1], list(range(n, 2 * n))]
    return v, f


def torus():
    import math
    n, m = 5, 4
    v = [((1.6 + .5 * math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n), (1.6 + .5 * math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n), .5 * math.sin(2 * math.pi * j / m))
         for i in range(n) for j in range(m)]
    f = [[i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m] for i in range(n) for j in range(m)]
    return v, f


def lines(D, name, v, base, seed):
    """executor lines of one call (answers are printed), for bodies base, base+1 of dimension D"""
    r = random.Random("%d %d %s %d" % (seed, D, name, v))
    u = lambda a, b: r.uniform(a, b)
    vec = lambda a, n=D: [u(-a, a) for _ in range(n)]
    a, b2 = base, base + 1

    def planes(n):
        return " ".join("%s %r" % (nums(vec(1.0)), u(0.2, 1.0)) for _ in range(n))
    o = []
    p = "%d " % D
    if name == "tet":
        o.append(p + "tet %d %s" % (a, nums([-1.5 + u(0, .2), -1.2, -1, 2, -1, -.8, -.3, 2 - u(0, .2), -1, .1, .2, 1.9])))
    elif name == "simplex":
        vs = [[-.7 + u(0, .1)] * 4] + [[2.5 * (i == k) + u(-.1, .1) for k in range(4)] for i in range(4)]
        o.append(p + "simplex %d %s" % (a, " ".join(nums(x) for x in vs)))
    elif name == "box":
        o.append(p + "box %d %s %s" % (a, nums([-1 - u(0, 1) for _ in range(D)]), nums([1 + u(0, 1) for _ in range(D)])))
    elif name == "octa":
        o.append(lattice.poly3_line(a, [[(1.5 + .2 * v) * x for x in q] for q in OCTA[0]], OCTA[1]))
    elif name == "prism":
        o.append(lattice.poly3_line(a, *prism(5 + 6 * v)))
    elif name == "torus":
        o.append(lattice.poly3_line(a, *torus()))
    elif name == "refused":
        vs, fs = list(CUBE[0]), [list(f) for f in CUBE[1]]
        if v == 1:
            vs.append((0.5, 0.5, 0.5))                                  # a vertex on no face
        elif v == 2:
            k = fs[0].index(1); fs[0].insert(k + 1, 8); k = fs[1].index(5); fs[1].insert(k + 1, 8); vs.append((1, -1, 0.3))     # on two faces
        else:
            fs = fs[:-1]; fs = fs[:-1]                                  # an open surface
        o.append(lattice.poly3_line(a, vs, fs))
    elif name == "poly":
        n = 3 + 4 * v
        import math
        ph = u(0, 1)
        o.append(p + "poly %d %d %s" % (a, n, " ".join(nums([2 * math.cos(2 * math.pi * (k + ph) / n), 1.5 * math.sin(2 * math.pi * (k + ph) / n)]) for k in range(n))))
    elif name == "star":
        import math
        n = 6 + 4 * v
        o.append(p + "poly %d %d %s" % (a, n, " ".join(nums([(2, .7)[k % 2] * math.cos(2 * math.pi * k / n), (2, .7)[k % 2] * math.sin(2 * math.pi * k / n)]) for k in range(n))))
    elif name.startswith("clip"):
        n = int(name[4:])
        o.append(p + "clip %d %d %s" % (a, n, planes(n)))
    elif name == "split":
        o.append(p + "split 1 %d %d %d %s %r" % (a, a + 2, b2, nums(vec(1.0)), u(-.4, .4)))
        o.append(p + "copy %d %d" % (a + 2, a))
    elif name == "copy":
        o.append(p + "copy %d %d" % (a, b2))
    elif name == "back":
        o.append(p + "copy %d %d" % (b2, a))
    elif name == "rotate":
        t = u(-3, 3)
        o.append(p + ("rotate %d %r" % (a, t) if D == 2 else "rotate %d %r %d" % (a, t, v - 1) if D == 3 else "rotate %d %r %d %d" % (a, t, v - 1, v)))
    elif name == "translate":
        o.append(p + "translate %d %s" % (a, nums(vec(.2))))
    elif name == "scale":
        o.append(p + "scale %d %s" % (a, nums([u(.9, 1.1) for _ in range(4)]) if D == 4 else repr(u(.9, 1.1))))
    elif name == "shear":
        i, j = r.sample(range(D), 2)
        o.append(p + "shear %d %r %d %d" % (a, u(-.2, .2), i, j))
    elif name == "affine":
        m = [[float(i == j) + (u(-.05, .05) if i < D else 0.0) for j in range(D + 1)] for i in range(D + 1)]
        o.append(p + "affine %d %s" % (a, " ".join(nums(x) for x in m)))
    elif name == "clamp":
        lo, hi = [-r.randint(0, 2) for _ in range(D)], [r.randint(1, 2) for _ in range(D)]
        o.append(p + "clamp %d %s %s %s %s %s" % (a, " ".join(["-20"] * D), " ".join(["20"] * D), " ".join(map(str, lo)), " ".join(map(str, hi)), nums([u(.7, 1.3) for _ in range(D)])))
    elif name == "reduce":
        o.append(p + "reduce %d %d" % (a, 0 if D == 4 else (0, 2, 5)[v - 1]))
    elif name in ("good", "center", "brep"):
        o.append(p + "%s %d" % (name, a))
    elif name == "brep2poly":
        o.append(p + "brep2poly %d %d" % (a, base + 3))
    elif name == "vox":
        h = {2: 4, 3: 2, 4: 1}[D]
        o.append(p + "vox %d %d %s %s %s %r" % (a, 0 if D == 4 else v - 1, " ".join([str(-h)] * D), " ".join([str(h)] * D), nums([{2: 5., 3: 10., 4: 20.}[D]] * D), (0.0, 1.5, -2.0)[v - 1]))
    elif name == "ibox":
        o.append(p + "ibox %d %s" % (a, nums([u(.3, 1) for _ in range(D)])))
    elif name == "tetfaces":
        o.append(p + "tetfaces " + nums([0, 0, 0, 1 + u(0, 1), 0, 0, 0, 1, .1, 0, 0, 1 + u(0, 1)]))
    elif name == "boxfaces":
        o.append(p + "boxfaces %s %s" % (nums([u(-2, 0) for _ in range(D)]), nums([u(1, 2) for _ in range(D)])))
    elif name == "polyfaces":
        if D == 3:
            vs, fs = (CUBE, OCTA, prism(7))[v - 1]
            o.append(lattice.poly3_line(None, [[x * 1.1 for x in q] for q in vs], fs, "polyfaces"))
        else:
            import math
            o.append(p + "polyfaces %d %s" % (4 + v, " ".join(nums([math.cos(2 * math.pi * k / (4 + v)), math.sin(2 * math.pi * k / (4 + v))]) for k in range(4 + v))))
    elif name == "orient":
        o.append(p + "orient " + nums([u(-1, 1) for _ in range(D * (D + 1))]))
    elif name == "shiftmom":
        k = v
        nm = (k + 1) * (k + 2) // 2 if D == 2 else (k + 1) * (k + 2) * (k + 3) // 6
        o.append(p + "shiftmom %d %s %s" % (k, nums([u(.1, 1) for _ in range(nm)]), nums(vec(1))))
    else:
        raise core.CheckError("unknown operation " + name)
    return o


SILENT = ("tet", "box", "simplex", "poly2", "star", "rotate", "translate", "scale", "shear", "affine", "copy", "back")


def silent(D, name):
    return name in SILENT or (D == 2 and name in ("poly",))


def opset(D):
    return "{" + ", ".join('[c |-> "%s", n |-> "%s", v |-> %d]' % (c, n, v) for c, ns in OPS[D].items() for n in ns for v in range(1, VARS + 1)) + "}"


def call_lines(D, op, base, seed):
    """(lines, number of observations): the call, then both bodies, then whether an argument changed"""
    c, n, v = op
    ls = lines(D, n, v, base, seed)
    k = 0 if silent(D, n) else 1
    if c not in ("fn",):
        ls = ls + ["%d dump %d" % (D, base), "%d dump %d" % (D, base + 1)]
        k += 2
    return ls + ["mods"], k + 1


class Memo:
    """equal calls on equal bodies answer equally (invariant Functional)"""
    def __init__(self, ctx):
        self.ctx, self.ans, self.hits = ctx, {}, 0

    def judge(self, key, got, where, script):
        old = self.ans.get(key)
        if old is None:
            self.ans[key] = (got, where)
            return
        self.hits += 1
        if old[0] != got:
            i = next((i for i, (x, y) in enumerate(zip(old[0], got)) if x != y), min(len(old[0]), len(got)))
            self.ctx.violation("conformance", "the same call on the same body answers differently: %s; %s in %s, %s in %s" % (str(key)[:300], str(old[0][i:i + 1])[:300], old[1], str(got[i:i + 1])[:300], where),
                               script=script, extra=dict(key=str(key)[:1000]))


def split_obs(prog, D, out):
    """cut the observations of one user's program into calls"""
    res, i = [], 0
    for op in prog:
        k = call_lines(D, op, 0, 0)[1]
        res.append(out[i:i + k])
        i += k
    return res


def judge_program(ctx, memo, D, prog, answers, terms, obs, where, script):
    """obs: per call the observed lines; answers, terms: the specification's"""
    for k, op in enumerate(prog):
        o = obs[k]
        if not o:
            ctx.violation("observation count", "call %s printed nothing" % (op,), script=script); return
        if o[-1] != "mods 0":
            ctx.violation("conformance", "call %s changed an argument that it only reads; %s" % (op, where), script=script)
        head, dumps = (o[:-1], []) if op[0] == "fn" else (o[:-3], o[-3:-1])
        if op[1].startswith("clip") and head and head[0].split()[3] != "0":
            ctx.violation("conformance", "clip changed its plane list; %s" % where, script=script)
        if head:
            memo.judge((D, "answer", json.dumps(answers[k])), head, where, script)
        for i, d in enumerate(dumps):
            memo.judge((D, "body", json.dumps(terms[k][i])), [d], where, script)


def check(ctx):
    q = ctx.quick
    for v in ("asan", "fast", "msan", "threads", "threadsfast"):
        ctx.build(v)
    # the specification: every interleaving of overlapping calls
    abstract = '{[c |-> "make", n |-> "m", v |-> 1], [c |-> "mut", n |-> "u", v |-> 1], [c |-> "two", n |-> "t", v |-> 1], [c |-> "query", n |-> "q", v |-> 1], [c |-> "copy", n |-> "c", v |-> 1]}'
    for users, L, ops in ((2, 3, abstract), (3, 2, abstract)):
        us = "{" + ",".join(map(str, range(1, users + 1))) + "}"
        core.tlc(ctx, "Interleave", dict(Users=Raw(us), Length=L, Ops=Raw("[u \\in %s |-> %s]" % (us, ops)), Shared=False, Overlap=True, Sample=0),
                 ["OwnCallsOnly", "Functional"], ["QueriesPure", "OthersUntouched"], spec="Spec")
        r = core.tlc(ctx, "Interleave", dict(Users=Raw(us), Length=L, Ops=Raw("[u \\in %s |-> %s]" % (us, ops)), Shared=True, Overlap=True, Sample=0),
                     ["OwnCallsOnly"], expect_ok=False)
        if "OwnCallsOnly is violated" not in r.text:
            raise core.CheckError("the control (shared scratch space) did not break the specification:\n" + r.text[-1500:])
    # schedules for the real code
    rows = []
    mixes = [(3, 3, 3, 3), (2, 2, 2, 2), (4, 4, 4), (3, 2, 4, 3, 2), (3, 3)]
    sims = list(zip(mixes, (30, 30, 16, 30, 30) if q else (400, 400, 150, 400, 400), (7, 7, 6, 7, 14)))

    def sim(mix, num, L):
        us = "{" + ",".join(map(str, range(1, len(mix) + 1))) + "}"
        ops = "<<" + ", ".join(opset(D) for D in mix) + ">>"
        return core.tlc(ctx, "Interleave", dict(Users=Raw(us), Length=L, Ops=Raw(ops), Shared=False, Overlap=False, Sample=3),
                        ["OwnCallsAtEnd", "Emit"], simulate=num * 8 // 2, depth=2 * L * len(mix) + 2, workers=2)
    with cf.ThreadPoolExecutor(4) as ex:
        for (mix, _, _), r in zip(sims, ex.map(lambda x: sim(*x), sims)):
            rows += [(mix, x) for x in r.rows]
    ctx.bump("schedules", len(rows))
    memo = Memo(ctx)
    seed = ctx.seed
    # 1. every program alone, in its own order; 2. interleaved as scheduled; 3. alone again after unrelated use
    solo, inter = [], []
    for ri, (mix, row) in enumerate(rows):
        prog = row["prog"]
        for u, D in enumerate(mix):
            ls = []
            for op in prog[u]:
                ls += call_lines(D, op, 0, seed)[0]
            solo.append(((ri, u), ls))
        ls, at = [], [0] * len(mix)
        for u in row["sched"]:
            u -= 1
            ls += call_lines(mix[u], prog[u][at[u]], 10 * u, seed)[0]
            at[u] += 1
        inter.append((ri, ls))
    progs = {(ri, u): (D, row["prog"][u], row["out"][u], row["terms"][u]) for ri, (mix, row) in enumerate(rows) for u, D in enumerate(mix)}

    def crashes(res, items, variant):
        for e in res.pop("__exit__", []):
            ctx.violation("memory report at exit", e.why + "\n" + e.stderr, variant=variant)
        d = dict(items)
        for k, o in list(res.items()):
            if isinstance(o, core.Crash):
                ctx.violation(o.why, "%s: %s" % (variant, o.stderr[-1500:]), script=d[k], variant=variant)
            if o is None or isinstance(o, core.Crash):
                res.pop(k)
        return res

    def take_solo(res, where):
        for key, o in res.items():
            D, pr, an, te = progs[key]
            if len(ctx.violations) < 40:
                judge_program(ctx, memo, D, pr, an, te, split_obs(pr, D, o), where, dict(solo)[key] if False else None)

    def take_inter(res, where):
        for ri, o in res.items():
            if len(ctx.violations) >= 40:
                break
            mix, row = rows[ri]
            i, at = 0, [0] * len(mix)
            obs = [[] for _ in mix]
            for u in row["sched"]:
                u -= 1
                k = call_lines(mix[u], row["prog"][u][at[u]], 0, 0)[1]
                obs[u].append(o[i:i + k])
                i += k
                at[u] += 1
            for u, D in enumerate(mix):
                judge_program(ctx, memo, D, row["prog"][u], row["out"][u], row["terms"][u], obs[u], where, inter[ri][1])
    E = lambda f, p, s: dict(VF_FILL=str(f), MALLOC_PERTURB_=str(p), VF_SCRIBBLE=str(s))
    take_solo(crashes(core.replay(ctx, solo, "fast", env=E(0xA5, 17, 0)), solo, "fast"), "alone")
    take_inter(crashes(core.replay(ctx, inter, "fast", env=E(0, 0, 0)), inter, "fast"), "interleaved")
    # other contents of fresh memory and of the stack
    take_inter(crashes(core.replay(ctx, inter, "fast", env=E(0xFF, 255, 30)), inter, "fast"), "interleaved, memory holding other values")
    take_inter(crashes(core.replay(ctx, inter, "fast", env=E(0x3F, 63, 30)), inter, "fast"), "interleaved, memory holding numbers")
    back = solo[::-1]
    take_solo(crashes(core.replay(ctx, back, "fast", workers=3, env=E(1, 1, 4)), back, "fast"), "alone, after other programs")
    # writes and reads outside the objects, reads of what was never written
    for v in ("asan", "msan"):
        res = core.replay(ctx, inter if not q else inter[::2], v, env=dict(VF_FILL="165"))
        crashes(res, inter, v)
        ctx.bump("schedules_" + v, len(inter if not q else inter[::2]))
    # threads
    for v, nth, rounds, reps in (("threads", 8, 1, 2 if q else 12), ("threadsfast", 8, 3, 6 if q else 60)):
        exe = ctx.binary(v)
        rng = random.Random(seed * 5 + nth)
        for rep in range(reps):
            keys = list(progs)
            rng.shuffle(keys)
            sec = [keys[k::nth][:6 if v == "threads" else 12] for k in range(nth)]
            if rep % 2:                         # the same programs in every thread, each in another order
                sec = [rng.sample(sec[0], len(sec[0])) for _ in range(nth)]
            sp, pre = os.path.join(ctx.dir, "t-%s-%d.txt" % (v, rep)), os.path.join(ctx.dir, "t-%s-%d.out" % (v, rep))
            sd = dict(solo)
            with open(sp, "w") as f:
                for k, s in enumerate(sec):
                    f.write("T %d\n" % k)
                    for key in s:
                        f.write("B %d %d\n" % key)
                        f.write("\n".join(sd[key]) + "\n")
            try:
                p = subprocess.run([exe, sp, pre, str(rounds), "1"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(core.ENV, VF_FILL=str(rep + 1)), timeout=100)
            except subprocess.TimeoutExpired:
                ctx.violation("hang", "threads did not finish", variant=v); break
            err = p.stderr.decode(errors="replace")
            if "FATAL: ThreadSanitizer" in err:
                ctx.assumptions.append("thread sanitizer could not start here")
                break
            if "data race" in err or p.returncode:
                ctx.violation("data race" if "data race" in err else "threads rc=%d" % p.returncode, err[:2500], script=open(sp).read().split("\n")[:400], variant=v)
                break
            for k, s in enumerate(sec):
                cur, got = None, {}
                seen = 0
                for l in open("%s.%d" % (pre, k)):
                    l = l.rstrip("\n")
                    if l.startswith("B "):
                        cur = tuple(int(x) for x in l[2:].split())
                        got = []
                        seen += 1
                    elif cur:
                        got.append(l)
                    if cur and len(got) == sum(call_lines(progs[cur][0], op, 0, 0)[1] for op in progs[cur][1]):
                        D, pr, an, te = progs[cur]
                        judge_program(ctx, memo, D, pr, an, te, split_obs(pr, D, got), "thread %d of %d" % (k, nth), sd[cur])
                        ctx.bump("thread_programs")
                        cur = None
                if seen != rounds * len(s):
                    ctx.violation("threads", "thread %d ran %d programs out of %d" % (k, seen, rounds * len(s)), variant=v)
            for k in range(nth):
                os.remove("%s.%d" % (pre, k))
            os.remove(sp)
            if len(ctx.violations) >= 20:
                break
    ctx.bump("answers_compared", memo.hits)
    ctx.bump("distinct_answers", len(memo.ans))
    ctx.sample(dict(mix=rows[0][0], sched=rows[0][1]["sched"], prog=rows[0][1]["prog"][0]))
    ctx.assumptions.append("each user works on bodies of its own; bit-identical results are required of one build only")
