"""Generates spec/Shapes2.tla and spec/Shapes3.tla (committed): lattice bodies with the boundary
description handed to the constructors and, independently, their content as unions of convex sets
of half-spaces.  TLC checks (ASSUME) that the two agree."""
import itertools, os
def ax(i, lo, hi): return [(i, 0, lo, 1), (i, 0, hi, -1)]
def val(h, p):
    i, j, c, s = h
    return s * (p[i-1] - (p[j-1] if j else 0) - c)
def closure(hs, D, M=3):
    return [p for p in itertools.product(range(M+1), repeat=D) if all(val(h, p) >= 0 for h in hs)]
def extreme(hs, D, M=3):
    C = set(closure(hs, D, M)); out = []
    for p in sorted(C):
        ok = True
        for v in itertools.product((-1, 0, 1), repeat=D):
            if any(v) and tuple(a+b for a, b in zip(p, v)) in C and tuple(a-b for a, b in zip(p, v)) in C: ok = False; break
        if ok: out.append(p)
    return out
def sub(a, b): return tuple(x-y for x, y in zip(a, b))
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def dot(a, b): return sum(x*y for x, y in zip(a, b))
def order_ccw(pts, n):
    import math
    m = len(pts); c = tuple(sum(p[k] for p in pts)/m for k in range(3))
    u = sub(pts[0], c); w = cross(n, u)
    return sorted(pts, key=lambda p: math.atan2(dot(sub(p, c), w)/math.sqrt(dot(w, w)), dot(sub(p, c), u)/math.sqrt(dot(u, u))))
def hull3(hs, M=3):
    ext = extreme(hs, 3, M); faces = []; seen = set()
    for h in hs:
        f = [p for p in ext if val(h, p) == 0]
        if len(f) < 3: continue
        a = f[0]
        if all(cross(sub(f[1], a), sub(q, a)) == (0, 0, 0) for q in f[2:]): continue
        i, j, c, s = h
        n = [0, 0, 0]; n[i-1] = -s
        if j: n[j-1] = s
        key = frozenset(f)
        if key in seen: continue
        seen.add(key)
        o = order_ccw(f, tuple(n))
        faces.append([ext.index(p)+1 for p in o])
    return ext, faces
def box(*b):
    r = []
    for k, (lo, hi) in enumerate(b): r += ax(k+1, lo, hi)
    return r
def diff(i, j, c, s):  # s*(x_i-x_j) >= s*c, normalised to i<j
    return (i, j, c, s) if i < j else (j, i, -c, -s)
S3 = []
def conv3(name, hs, kind="poly"):
    v, f = hull3(hs)
    S3.append(dict(name=name, kind=kind, verts=v, faces=f, parts=[hs], convex=True))
def prism3(name, loops, z0, z1, parts2d):
    """extrude one simple CCW loop (list of 2D points)"""
    verts = []; faces = []
    n = len(loops)
    verts = [(x, y, z0) for x, y in loops] + [(x, y, z1) for x, y in loops]
    faces = [list(range(n, 0, -1)), list(range(n+1, 2*n+1))]
    for k in range(n):
        a, b = k+1, (k+1) % n + 1
        faces.append([a, b, b+n, a+n])
    S3.append(dict(name=name, kind="poly", verts=verts, faces=faces, parts=[p + ax(3, z0, z1) for p in parts2d], convex=False))
conv3("box222", box((0, 2), (0, 2), (0, 2)), "box")
conv3("box213", box((1, 3), (0, 1), (0, 3)), "box")
def kuhn(order, size, off=(0, 0, 0)):
    o = order
    verts = [tuple(off)]
    for k in o:
        v = list(verts[-1]); v[k-1] += size; verts.append(tuple(v))
    hs = [(o[0], 0, off[o[0]-1]+size, -1), (o[2], 0, off[o[2]-1], 1), diff(o[0], o[1], off[o[0]-1]-off[o[1]-1], 1), diff(o[1], o[2], off[o[1]-1]-off[o[2]-1], 1)]
    d = dot(sub(verts[1], verts[0]), cross(sub(verts[2], verts[0]), sub(verts[3], verts[0])))
    if d < 0: verts[1], verts[2] = verts[2], verts[1]
    fs = [[2, 3, 4], [1, 4, 3], [1, 2, 4], [1, 3, 2]]
    return dict(kind="tet", verts=verts, faces=fs, parts=[hs], convex=True)
for nm, o, sz, off in (("tet123", (1, 2, 3), 3, (0, 0, 0)), ("tet312", (3, 1, 2), 2, (1, 0, 1)), ("tet132", (1, 3, 2), 2, (0, 1, 0))):
    t = kuhn(o, sz, off); t["name"] = nm; S3.append(t)
conv3("wedge", box((0, 2), (0, 2), (0, 3)) + [(1, 2, 0, 1)])
conv3("pyramid", box((0, 3), (0, 3), (0, 3)) + [(1, 3, 0, 1), (2, 3, 0, 1)])
conv3("octa", [(1, 0, 0, 1), (1, 0, 1, -1), diff(2, 1, 0, 1), diff(2, 1, 1, -1), diff(3, 2, 0, 1), diff(3, 2, 1, -1), (3, 0, 1, 1), (3, 0, 2, -1)])
conv3("rhombic", box((0, 2), (0, 2), (0, 2)) + [h for i, j in ((1, 2), (1, 3), (2, 3)) for h in ((i, j, -1, 1), (i, j, 1, -1))])
conv3("hexprism", box((0, 2), (0, 2), (0, 2)) + [(1, 2, -1, 1), (1, 2, 1, -1)])
conv3("cutbox", box((0, 3), (0, 3), (0, 2)) + [(1, 2, 1, -1), (1, 3, -1, 1), (2, 3, 2, -1)])
conv3("slab", box((0, 3), (0, 3), (0, 3)) + [(1, 2, -1, 1), (1, 2, 0, -1)])
prism3("Lprism", [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], 0, 2, [box((0, 2), (0, 1)), box((0, 1), (0, 2))])
prism3("Uprism", [(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)], 0, 2, [box((0, 3), (0, 1)), box((0, 1), (0, 2)), box((2, 3), (0, 2))])
prism3("arrow", [(0, 0), (3, 0), (3, 3), (2, 2), (1, 2), (1, 1)], 1, 3, [box((0, 3), (0, 3)) + [(1, 2, 0, 1), (2, 0, 1, -1)], box((1, 2), (1, 2)), box((2, 3), (1, 3)) + [(1, 2, 0, 1)]])
# torus with mitred top/bottom (all vertices have four faces)
def torus():
    out = [(0, 0), (3, 0), (3, 3), (0, 3)]; inn = [(1, 1), (2, 1), (2, 2), (1, 2)]
    V = [(x, y, 0) for x, y in out] + [(x, y, 0) for x, y in inn] + [(x, y, 2) for x, y in out] + [(x, y, 2) for x, y in inn]
    F = []
    for k in range(4):
        l = (k+1) % 4
        o0, o1, i0, i1 = k+1, l+1, k+5, l+5
        F += [[o1, o0, i0, i1], [o0+8, o1+8, i1+8, i0+8], [o0, o1, o1+8, o0+8], [i1, i0, i0+8, i1+8]]
    P = [box((0, 3), (0, 1), (0, 2)), box((0, 3), (2, 3), (0, 2)), box((0, 1), (0, 3), (0, 2)), box((2, 3), (0, 3), (0, 2))]
    S3.append(dict(name="torus", kind="poly", verts=V, faces=F, parts=P, convex=False))
torus()
def merge(name, A, B, hole=False):
    n = len(A["verts"])
    fb = [[x+n for x in (reversed(f) if hole else f)] for f in B["faces"]]
    S3.append(dict(name=name, kind="poly", verts=A["verts"] + B["verts"], faces=A["faces"] + fb, parts=A["parts"] + ([] if hole else B["parts"]),
                   minus=B["parts"] if hole else [], convex=False))
def C(hs):
    v, f = hull3(hs); return dict(verts=v, faces=f, parts=[hs])
merge("twoboxes", C(box((0, 1), (0, 3), (0, 2))), C(box((2, 3), (1, 3), (1, 3))))
merge("boxtet", C(box((0, 1), (0, 2), (0, 1))), kuhn((2, 1, 3), 2, (1, 1, 1)))
merge("cavity", C(box((0, 3), (0, 3), (0, 3))), C(box((1, 2), (1, 2), (1, 2))), hole=True)
merge("pyrcav", C(box((0, 3), (0, 3), (0, 3))), kuhn((1, 2, 3), 1, (1, 1, 1)), hole=True)

S2 = []
def conv2(name, hs, kind="poly"):
    import math
    e = extreme(hs, 2); c = (sum(p[0] for p in e)/len(e), sum(p[1] for p in e)/len(e))
    e.sort(key=lambda p: math.atan2(p[1]-c[1], p[0]-c[0]))
    S2.append(dict(name=name, kind=kind, loops=[e], parts=[hs], minus=[], convex=True))
def poly2(name, loops, parts, minus=[], convex=False, kind=None):
    S2.append(dict(name=name, kind=kind or ("poly" if len(loops) == 1 else "set"), loops=loops, parts=parts, minus=minus, convex=convex))
conv2("box22", box((0, 2), (0, 2)), "box")
conv2("box13", box((1, 2), (0, 3)), "box")
conv2("tri", box((0, 3), (0, 3)) + [(1, 2, 0, 1)])
conv2("tri2", box((1, 3), (0, 2)) + [(1, 2, 1, -1)])
conv2("hex", box((0, 2), (0, 2)) + [(1, 2, -1, 1), (1, 2, 1, -1)])
conv2("para", box((0, 3), (0, 3)) + [(1, 2, -1, 1), (1, 2, 1, -1)])
conv2("trap", box((0, 3), (1, 2)) + [(1, 2, 0, 1)])
poly2("redund", [[(0, 0), (1, 0), (2, 0), (2, 2), (1, 2), (0, 2), (0, 1)]], [box((0, 2), (0, 2))], convex=True)
poly2("coinc", [[(0, 0), (2, 0), (2, 0), (2, 2), (0, 2), (0, 2), (0, 2)]], [box((0, 2), (0, 2))], convex=True)
poly2("L", [[(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)]], [box((0, 2), (0, 1)), box((0, 1), (0, 2))])
poly2("U", [[(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)]], [box((0, 3), (0, 1)), box((0, 1), (0, 2)), box((2, 3), (0, 2))])
poly2("zig", [[(0, 0), (3, 0), (3, 3), (2, 2), (2, 1), (1, 1)]], [box((0, 3), (0, 1)) + [(1, 2, 0, 1)], box((2, 3), (0, 3)) + [(1, 2, 0, 1)]])
poly2("comb", [[(0, 0), (1, 1), (1, 0), (2, 1), (2, 0), (3, 1), (3, 3), (0, 3)]], [box((0, 3), (1, 3)), box((0, 1), (0, 1)) + [(1, 2, 0, -1)], box((1, 2), (0, 1)) + [(1, 2, 1, -1)], box((2, 3), (0, 1)) + [(1, 2, 2, -1)]])
poly2("annulus", [[(0, 0), (3, 0), (3, 3), (0, 3)], [(1, 1), (1, 2), (2, 2), (2, 1)]], [box((0, 3), (0, 3))], [box((1, 2), (1, 2))])
poly2("two", [[(0, 0), (1, 0), (1, 2), (0, 2)], [(2, 1), (3, 2), (3, 3), (2, 3)]], [box((0, 1), (0, 2)), box((2, 3), (1, 3)) + [(1, 2, 1, -1)]])

def t(x):
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, str): return '"%s"' % x
    if isinstance(x, (list, tuple)): return "<<" + ", ".join(t(y) for y in x) + ">>"
    return str(x)
def th(h): return "[i |-> %d, j |-> %d, c |-> %d, s |-> %d]" % h
def tp(parts): return "<<" + ", ".join("<<" + ", ".join(th(h) for h in p) + ">>" for p in parts) + ">>"
HDR = "------------------------------ MODULE %s ------------------------------\n(* generated by tools/mkshapes.py *)\nEXTENDS Lattice\n\n"

# ---------------------------------------------------------------- larger bodies (N = 4 resp. 8)
import random
def voxsurf(cells):
    """unit-quad surface of a union of unit cubes, every lattice vertex kept; None if not a manifold"""
    cells = set(cells); V = {}; F = []
    def vid(p): return V.setdefault(p, len(V) + 1)
    for c in sorted(cells):
        for a in range(3):
            b, d = (a+1) % 3, (a+2) % 3
            for s in (0, 1):
                nb = list(c); nb[a] += 1 if s else -1
                if tuple(nb) in cells: continue
                def P(u, v):
                    q = list(c); q[a] += s; q[b] += u; q[d] += v; return tuple(q)
                q = [P(0, 0), P(1, 0), P(1, 1), P(0, 1)]
                if not s: q.reverse()
                F.append([vid(x) for x in q])
    E = {}
    for f in F:
        for k in range(4):
            e = (f[k], f[(k+1) % 4])
            if e in E: return None
            E[e] = 1
    if any((b, a) not in E for a, b in E): return None
    # each vertex: one cycle of faces
    for v in V.values():
        nx = {}
        for f in F:
            if v in f:
                k = f.index(v); nx[f[k-1]] = f[(k+1) % 4]
        st = next(iter(nx)); c = nx[st]; n = 1
        while c != st: c = nx[c]; n += 1
        if n != len(nx): return None
    verts = [None]*len(V)
    for p, k in V.items(): verts[k-1] = p
    return verts, F
S3B = []
def vox3(name, cells):
    r = voxsurf(cells)
    assert r, name
    S3B.append(dict(name=name, kind="poly", verts=r[0], faces=r[1], parts=[box(*[(x, x+1) for x in c]) for c in sorted(cells)], convex=False))
def grid(a, b, c): return [(x, y, z) for x in range(a) for y in range(b) for z in range(c)]
vox3("quad333", grid(3, 3, 3))
vox3("quad414", grid(4, 1, 4))
vox3("tower", [(x, y, z) for x in range(4) for y in range(4) for z in range(4) if z <= min(x, y)])
rr = random.Random(5)
def blob(name, n):
    while True:
        cells = {(1, 1, 1)}
        while len(cells) < n:
            c = list(rr.choice(sorted(cells))); a = rr.randrange(3); c[a] += rr.choice((-1, 1))
            if 0 <= c[a] < 4: cells.add(tuple(c))
        if voxsurf(cells): return vox3(name, cells)
blob("blob12", 12); blob("blob20", 20)
def prismB(name, loop, z0, z1, parts2d):
    n = len(S3); prism3(name, loop, z0, z1, parts2d); S3B.append(S3.pop())
def comb_loop(w, h, t):
    """comb with 2w-1 columns: base [0,2w-1]x[0,1], teeth of width 1 at even columns up to h"""
    lp = [(0, 0), (2*w-1, 0)]
    for k in range(w-1, -1, -1):
        lp += [(2*k+1, h), (2*k, h)]
        if k: lp += [(2*k, 1), (2*k-1, 1)]
    return lp, [box((0, 2*w-1), (0, 1))] + [box((2*k, 2*k+1), (0, h)) for k in range(w)]
l, ps = comb_loop(2, 3, 1)
prismB("combprism", l, 0, 4, ps)
def stair(n):
    lp = [(0, 0), (n, 0)]
    for k in range(n):
        lp += [(n-k, k+1)] + ([(n-k-1, k+1)])
    return lp, [box((0, n-k), (k, k+1)) for k in range(n)]
l, ps = stair(4)
prismB("stair4", l, 1, 4, ps)

S2B = []
def poly2B(name, loops, parts, minus=[], convex=False):
    poly2(name, loops, parts, minus, convex); S2B.append(S2.pop())
def dense(loop):
    out = []
    for k in range(len(loop)):
        a, b = loop[k], loop[(k+1) % len(loop)]
        n = max(abs(b[0]-a[0]), abs(b[1]-a[1]))
        for m in range(n): out.append((a[0] + (b[0]-a[0])*m//n, a[1] + (b[1]-a[1])*m//n))
    return out
poly2B("dense8", [dense([(0, 0), (8, 0), (8, 8), (0, 8)])], [box((0, 8), (0, 8))], convex=True)
l, ps = comb_loop(4, 8, 1)
poly2B("comb8", [l], ps)
poly2B("dcomb8", [dense(l)], ps)
l, ps = stair(8)
poly2B("stair8", [l], ps)
saw = [(0, 0)]
sp = [box((0, 8), (1, 8))]
for k in range(8):
    saw += [(k+1, 1)] + ([(k+1, 0)] if k < 7 else [])
    sp.append(box((k, k+1), (0, 1)) + [(1, 2, k, -1)])
poly2B("saw8", [saw + [(8, 8), (0, 8)]], sp)
# checkerboard of separate squares: 16 loops
sq = [(x, y) for x in range(0, 8, 2) for y in range(0, 8, 2)]
poly2B("squares", [[(x, y), (x+1, y), (x+1, y+1), (x, y+1)] for x, y in sq], [box((x, x+1), (y, y+1)) for x, y in sq])
poly2B("sieve", [[(0, 0), (8, 0), (8, 8), (0, 8)]] + [[(x+1, y+1), (x+1, y+2), (x+2, y+2), (x+2, y+1)] for x in (0, 2, 4) for y in (0, 2, 4)],
       [box((0, 8), (0, 8))], [box((x+1, x+2), (y+1, y+2)) for x in (0, 2, 4) for y in (0, 2, 4)])

# ---------------------------------------------------------------- bodies with hundreds of vertices (N = 7 resp. 15)
S3C = []
def cubes(name, cs):
    V, F, P = [], [], []
    for c in cs:
        n = len(V)
        V += [tuple(c[k] + d[k] for k in range(3)) for d in ((0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1))]
        F += [[n+x for x in f] for f in ([1,4,3,2],[5,6,7,8],[1,2,6,5],[2,3,7,6],[3,4,8,7],[4,1,5,8])]
        P.append(box(*[(x, x+1) for x in c]))
    S3C.append(dict(name=name, kind="poly", verts=V, faces=F, parts=P, convex=False))
r3 = random.Random(11)
ev = [(x, y, z) for x in range(0, 8, 2) for y in range(0, 8, 2) for z in range(0, 8, 2)]
cubes("field36", sorted(r3.sample(ev, 36)))
def prismC(name, loop, z0, z1, parts2d):
    prism3(name, loop, z0, z1, parts2d); S3C.append(S3.pop())
l, ps = comb_loop(4, 7, 1)
prismC("dcombprism", dense(l), 0, 7, ps)
l, ps = stair(7)
prismC("dstairprism", dense(l), 2, 7, ps)
def blobC(name, n):
    global S3B
    keep, S3B = S3B, []
    while True:
        cells = {(3, 3, 3)}
        while len(cells) < n:
            c = list(rr.choice(sorted(cells))); a = rr.randrange(3); c[a] += rr.choice((-1, 1))
            if 0 <= c[a] < 7: cells.add(tuple(c))
        r = voxsurf(cells)
        if r and sum(len(f) for f in r[1]) - 2 * len(r[0]) <= 340: vox3(name, cells); break
    S3C.extend(S3B); S3B = keep
blobC("blob40", 40)
S2C = []
def poly2C(name, loops, parts, minus=[], convex=False):
    poly2(name, loops, parts, minus, convex); S2C.append(S2.pop())
sq = [(x, y) for x in range(0, 16, 2) for y in range(0, 16, 2)]
poly2C("squares48", [[(x, y), (x+1, y), (x+1, y+1), (x, y+1)] for x, y in sorted(r3.sample(sq, 48))], [])
S2C[-1]["parts"] = [box((l[0][0], l[0][0]+1), (l[0][1], l[0][1]+1)) for l in S2C[-1]["loops"]]
d16 = dense([(0, 0), (15, 0), (15, 15), (0, 15)])
poly2C("tripled15", [[p for p in d16 for _ in range(3)]], [box((0, 15), (0, 15))], convex=True)
l, ps = comb_loop(8, 15, 1)
poly2C("dcomb15", [[p for i, p in enumerate(dense(l)) if p in l or i % 2]], ps)
l, ps = stair(15)
poly2C("dstair15", [dense(l)], ps)

def main():
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
    for name, S3_ in (("Shapes3", S3), ("Shapes3B", S3B), ("Shapes3C", S3C)):
      with open(base + "/%s.tla" % name, "w") as f:
        f.write(HDR % name)
        f.write("ShapeSeq == <<\n" + ",\n".join("  [name |-> %s, kind |-> %s, convex |-> %s,\n   verts |-> %s,\n   faces |-> %s,\n   parts |-> %s,\n   minus |-> %s]" %
            (t(s["name"]), t(s["kind"]), t(s["convex"]), t(s["verts"]), t(s["faces"]), tp(s["parts"]), tp(s.get("minus", []))) for s in S3_) + "\n>>\n")
        f.write(r"""
ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

(* the boundary description encloses exactly the content: six times the signed volume (sum over
   face fans) equals the number of atoms, every directed edge has its reverse exactly once *)
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
FaceVol(s, f) == Sum(2..(Len(f) - 1), LAMBDA k : Det3(s.verts[f[1]], s.verts[f[k]], s.verts[f[k + 1]]))
SixVol(s) == Sum(DOMAIN s.faces, LAMBDA k : FaceVol(s, s.faces[k]))
DirEdges(s) == UNION {{<<k, m>> : m \in DOMAIN s.faces[k]} : k \in DOMAIN s.faces}
EdgeEnds(s, e) == LET f == s.faces[e[1]] IN <<f[e[2]], f[(e[2] % Len(f)) + 1]>>
ClosedBoundary(s) ==
    LET E == {EdgeEnds(s, e) : e \in DirEdges(s)}
    IN /\ Cardinality(E) = Cardinality(DirEdges(s))
       /\ \A e \in E : <<e[2], e[1]>> \in E
ShapesOK == \A s \in ShapeIds : SixVol(ShapeT[s]) = Cardinality(ContentT[s]) /\ ClosedBoundary(ShapeT[s]) /\ ContentT[s] # {}
=============================================================================
""")
    for name, S2_ in (("Shapes2", S2), ("Shapes2B", S2B), ("Shapes2C", S2C)):
      with open(base + "/%s.tla" % name, "w") as f:
        f.write(HDR % name)
        f.write("ShapeSeq == <<\n" + ",\n".join("  [name |-> %s, kind |-> %s, convex |-> %s,\n   loops |-> %s,\n   parts |-> %s,\n   minus |-> %s]" %
            (t(s["name"]), t(s["kind"]), t(s["convex"]), t(s["loops"]), tp(s["parts"]), tp(s["minus"])) for s in S2_) + "\n>>\n")
        f.write(r"""
ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
LoopArea(l) == Sum(DOMAIN l, LAMBDA k : Cross2(l[k], l[(k % Len(l)) + 1]))
TwoArea(s) == Sum(DOMAIN s.loops, LAMBDA k : LoopArea(s.loops[k]))
ShapesOK == \A s \in ShapeIds : TwoArea(ShapeT[s]) = Cardinality(ContentT[s]) /\ ContentT[s] # {}
=============================================================================
""")
main()
