"""Shared machinery: scratch space, builds from /repo's working tree, TLC runs, replay of command
scripts into the real code, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The machinery itself failed (no verdict)."""


class BuildBroken(CheckError):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.replays = 0
        self.tlc_runs = []
        self.samples = []
        self.extra = {}
        self.violations = []     # dicts
        self.known = []          # lines
        self.assumptions = []
        self.builds = {}
        self.cov = {}
        self.pool = cf.ThreadPoolExecutor(3)

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, file=sys.stderr, flush=True)

    # ------------------------------------------------------------ verdicts
    def violation(self, kind, detail, script=None, expected=None, got=None, variant=None, extra=None):
        self.violations.append(dict(property=self.prop, kind=kind, detail=detail, script=script,
                                    expected=expected, got=got, variant=variant, extra=extra))

    def bump(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    # ------------------------------------------------------------ builds
    def build(self, variant="asan"):
        """Compile the executor together with /repo/src for one variant; returns the binary path."""
        if variant == "asan":       # shared out in lattice.run_make
            self.build("clangasan")
            self.build("msan")
        if variant not in self.builds:
            self.builds[variant] = self.pool.submit(self._build, variant)
        return self.builds[variant]

    def _build(self, variant):
        return build_variant(self.dir, variant)

    def binary(self, variant="asan"):
        return self.build(variant).result()


VARIANTS = {
    # name: (compiler, cflags, cap, shift)
    "asan": dict(cc="gcc", cflags="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern"),
    # the other compiler fills uninitialised locals with not-a-number, and one build reports their use
    "clangasan": dict(cc="clang", cflags="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern"),
    "fast": dict(cc="gcc", cflags="-O2"),
    "o3": dict(cc="gcc", cflags="-O3 -DNDEBUG"),
    "clang": dict(cc="clang", cflags="-O2 -ftrivial-auto-var-init=pattern"),
    "noshift": dict(cc="gcc", cflags="-O2", shift=False),
    "shift2d": dict(cc="clang", cflags="-O2 -DSHIFT_POLY= -ftrivial-auto-var-init=pattern"),
    "float": dict(cc="gcc", cflags="-O2 -DSINGLE_PRECISION"),
    "ndebug": dict(cc="gcc", cflags="-O2 -DNDEBUG"),
    "big": dict(cc="gcc", cflags="-O2", cap=1500),
    "cap64": dict(cc="gcc", cflags="-O2 -DNDEBUG", cap=64),
    "threads": dict(cc="gcc", cflags="-g -O1 -fsanitize=thread -DTHREADS -pthread"),
    "msan": dict(cc="clang", cflags="-g -O1 -fsanitize=memory"),
    "threadsfast": dict(cc="gcc", cflags="-O2 -DTHREADS -pthread"),
}


DEPRECATED = {"dep": ("gcc", "-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern"), "deptree": ("gcc", "-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -DUSE_TREE"),
              "depo3": ("gcc", "-O3"), "deptreeo3": ("clang", "-O2 -DUSE_TREE"), "depfloat": ("gcc", "-O2 -DSINGLE_PRECISION")}


def build_deprecated(root, variant):
    cc, fl = DEPRECATED[variant]
    exe = os.path.join(root, "exec-" + variant)
    src = os.path.join(REPO, "deprecated")
    p = subprocess.run([cc] + fl.split() + ["-w", "-I" + src, os.path.join(HARNESS, "exec_dep.c")] + sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c")) + ["-o", exe, "-lm"], capture_output=True)
    if p.returncode:
        raise BuildBroken("compiling deprecated (%s) failed:\n%s" % (variant, p.stderr.decode()[-3000:]))
    return exe


def build_variant(root, variant, src_main="exec.c"):
    if variant in DEPRECATED:
        return build_deprecated(root, variant)
    if variant.startswith("acap"):          # asan build with a small capacity
        spec = dict(cc="gcc", cflags="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern", cap=int(variant[4:]))
    elif variant.startswith("ncap"):        # the same as a release build
        spec = dict(cc="gcc", cflags="-g -O1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern", cap=int(variant[4:]))
    elif variant.startswith("fcap"):
        spec = dict(cc="gcc", cflags="-O2", cap=int(variant[4:]))
    else:
        spec = VARIANTS[variant]
    d = os.path.join(root, "build-" + variant)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "src")
    # configuration header made from the repository's template, the way its build does it
    t = open(os.path.join(REPO, "config", "r3d-config.h.in")).read()
    t = t.replace("@R3D_MAX_VERTS@", str(spec.get("cap", 512)))
    if spec.get("shift", True):
        t = t.replace("@SHIFT_POLY@", "")
    else:
        t = re.sub(r".*@SHIFT_POLY@.*\n", "", t)
    t = re.sub(r"@[A-Za-z0-9_]+@", "", t)
    open(os.path.join(d, "r3d-config.h"), "w").write(t)
    shutil.copy(os.path.join(HARNESS, src_main), d)
    files = [os.path.join(d, src_main)] + sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))
    objs, procs = [], []
    for f in files:
        o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
        objs.append(o)
        procs.append((f, subprocess.Popen([spec["cc"]] + spec["cflags"].split() + ["-w", "-I" + d, "-I" + src, "-c", f, "-o", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildBroken("compiling %s (%s) failed:\n%s" % (f, variant, out.decode()[-3000:]))
    exe = os.path.join(d, "exec")
    p = subprocess.run([spec["cc"]] + spec["cflags"].split() + objs + ["-o", exe, "-lm"], capture_output=True)
    if p.returncode:
        raise BuildBroken("linking failed: " + p.stderr.decode()[-3000:])
    return exe


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


class Raw(str):
    """TLA+ text used verbatim"""


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return str(v)


_tlc_n = [0]


def tlc(ctx, module, constants, invariants=(), properties=(), simulate=None, depth=None, workers=None, init="Init",
        next_="Next", heap="3g", expect_ok=True, post=None, spec=None, extra_files=None, view=None, timeout=700, constraint=None):
    """Run TLC on spec/<module>.tla with a generated configuration.  Lines printed by the
    specification as JSON strings are returned in .rows."""
    _tlc_n[0] += 1
    d = os.path.join(ctx.dir, "tlc%d" % _tlc_n[0])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in (extra_files or {}).items():
        open(os.path.join(d, name), "w").write(text)
    lines = ["CONSTANTS"]
    defs = []
    for k, v in constants.items():
        if (isinstance(v, Raw) and ("<<" in v or "|->" in v or "==" in v or "{-" in v)) or (isinstance(v, int) and v < 0):     # not expressible in a configuration file
            defs.append("MC_%s == %s" % (k, v))
            lines.append("  %s <- MC_%s" % (k, k))
        elif isinstance(v, tuple) and v[0] == "<-":
            lines.append("  %s <- %s" % (k, v[1]))
        else:
            lines.append("  %s = %s" % (k, tla(v)))
    if len(lines) == 1:
        lines = []
    root = module
    if defs:
        root = "MC"
        open(os.path.join(d, "MC.tla"), "w").write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(defs)))
    if spec:
        lines.append("SPECIFICATION " + spec)
    else:
        lines += ["INIT " + init, "NEXT " + next_]
    for i in invariants:
        lines.append("INVARIANT " + i)
    for i in properties:
        lines.append("PROPERTY " + i)
    if view:
        lines.append("VIEW " + view)
    if constraint:
        lines.append("CONSTRAINT " + constraint)
    if post:
        lines.append("POSTCONDITION " + post)
    lines.append("CHECK_DEADLOCK FALSE")
    open(os.path.join(d, "M.cfg"), "w").write("\n".join(lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "M.cfg"]
    cmd += ["-seed", str(ctx.seed)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
    cmd.append(root + ".tla")
    t = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
    r = TLCResult()
    r.rows, r.rc, r.dir = [], rc, d
    tail, raw = [], []
    for l in open(outp):
        if l.startswith('"{') or l.startswith('"['):
            try:
                raw.append((l, json.loads(json.loads(l))))
                continue
            except ValueError:
                pass
        tail.append(l)
    raw.sort(key=lambda x: x[0])        # the order in which the workers print is not deterministic
    r.rows = [x[1] for x in raw]
    r.text = "".join(tail)
    m = re.search(r"(\d+) states generated, (\d+) distinct", r.text)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r"number of states generated: (\d+)", r.text)
        r.generated = int(m.group(1)) if m else 0
        r.distinct = r.generated
    ok = rc == 0
    r.ok = ok
    r.wall = time.time() - t
    if expect_ok and not ok:
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, r.text[-4000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.tlc_runs.append(dict(module=module, mode="simulate %d" % simulate if simulate else "exhaustive", generated=r.generated,
                             distinct=r.distinct, rows=len(r.rows), wall_s=round(r.wall, 1),
                             constants={k: (v[1] if isinstance(v, tuple) else str(v))[:200] if not isinstance(v, (set, frozenset)) else sorted(v)[:40] for k, v in constants.items()}))
    ctx.log("TLC %s: %d generated, %d distinct, %d rows, %.1fs" % (module, r.generated, r.distinct, len(r.rows), r.wall))
    return r


# ---------------------------------------------------------------- replay
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="exitcode=98:halt_on_error=1")


class Crash:
    def __init__(self, why, stderr):
        self.why, self.stderr = why, stderr


def _run_chunk(exe, items, outpath, max_crash=2, env=None, args=()):
    """items: list of (id, [lines]).  Returns {id: [output lines] | Crash}."""
    res = {}
    i = 0
    crashes = 0
    while i < len(items):
        body = []
        for k in range(i, len(items)):
            body.append("B %d" % k)
            body.extend(items[k][1])
        inp = "\n".join(body) + "\n"
        p = subprocess.run([exe, outpath] + list(args), input=inp.encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(ENV, **(env or {})))
        outs = open(outpath).read().split("\n") if os.path.exists(outpath) else []
        cur = None
        ended = False
        for l in outs:
            if l.startswith("B "):
                cur = int(l[2:])
                res[items[cur][0]] = []
            elif l == "END":
                ended = True
            elif l and cur is not None:
                res[items[cur][0]].append(l)
        if ended and p.returncode == 0:
            return res
        if p.returncode in (77, 78, 79):
            raise CheckError("executor failure: " + p.stderr.decode(errors="replace")[-500:])
        if cur is None:
            raise CheckError("executor did not start: rc %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-800:]))
        if ended:   # everything ran, but the process failed at exit (a leak report)
            why = "process failed after the last behaviour (rc %d)" % p.returncode
            # find the culprit by bisection is not needed: report the chunk
            res["__exit__"] = Crash(why, p.stderr.decode(errors="replace")[-3000:])
            return res
        why = "hang (killed by its timer)" if p.returncode in (-14, -27) else "crash rc=%d" % p.returncode
        res[items[cur][0]] = Crash(why, p.stderr.decode(errors="replace")[-3000:])
        crashes += 1
        i = cur + 1
        if crashes >= max_crash:
            for k in range(i, len(items)):
                res[items[k][0]] = None      # not run
            return res
    return res


def replay(ctx, items, variant="asan", workers=None, exe=None, env=None):
    """Run all (id, lines) items against the real code; results by id."""
    exe = exe or ctx.binary(variant)
    workers = workers or NCPU
    n = len(items)
    ctx.replays += n
    if n == 0:
        return {}
    nch = min(workers * 3, max(1, n // 4))
    # interleave so heavy cases spread out
    chunks = [items[k::nch] for k in range(nch)]
    out = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(_run_chunk, exe, c, os.path.join(ctx.dir, "res-%s-%d-%d.txt" % (variant, k, id(items) % 100000)), env=env) for k, c in enumerate(chunks) if c]
        for f in fs:
            r = f.result()
            e = r.pop("__exit__", None)
            if e is not None:
                out.setdefault("__exit__", []).append(e)
            out.update(r)
    return out


def parse(line):
    w = line.split()
    return w[0], [float(x) for x in w[1:]]


# ---------------------------------------------------------------- finish
def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m:
                    res.append(m.groups())
    return res


def finish(ctx, level="model_checking"):
    known = {(p, k): d for p, k, d in known_findings()}
    real, shown = [], []
    for v in ctx.violations:
        key = (v["property"], (v.get("extra") or {}).get("known_key"))
        if key in known:
            if key not in shown:
                shown.append(key)
        else:
            real.append(v)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level,
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.replays,
                            samples=ctx.samples, tlc_runs=ctx.tlc_runs, **ctx.cov, **ctx.extra),
              assumptions=ctx.assumptions, wall_s=round(ctx.elapsed(), 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key in shown:
        print("KNOWN-FINDING: property=%s %s" % (key[0], known[key]))
    if real:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (ctx.prop, ctx.tier))
        with open(path, "w") as f:
            json.dump(real[:20], f, indent=1, default=str)
        for v in real[:5]:
            print("  %s: %s" % (v["kind"], str(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("OK property=%s states=%d transitions=%d replays=%d wall=%.1fs" % (ctx.prop, ctx.states, ctx.transitions, ctx.replays, ctx.elapsed()))
    return 0
