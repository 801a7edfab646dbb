"""Affine frames: images of lattice behaviours under x -> A x + t, with exact transport of expected moments."""
import itertools, math, random
import numpy as np

EPS = 2.0 ** -52


def exps(D, order):
    out = []
    for k in range(order + 1):
        def rec(d, k):
            if d == 1:
                return [(k,)]
            return [(k - m,) + r for m in range(k + 1) for r in rec(d - 1, m)]
        out += rec(D, k)
    return out


class Frame:
    def __init__(self, A, t, name, unit=False, scale_n=1.0, exact=False, faroff=0.0):
        self.A = np.array(A, dtype=float)
        self.t = np.array(t, dtype=float)
        self.D = len(self.t)
        self.name, self.unit, self.scale_n, self.exact = name, unit, scale_n, exact
        self.det = float(np.linalg.det(self.A))
        self.Ainv = np.linalg.inv(self.A)
        self.axis = bool(np.count_nonzero(self.A) == self.D and all(self.A[i, i] > 0 for i in range(self.D)))
        self._mt = {}
        self.size = float(np.max(np.abs(self.A)))
        # condition: how much planes/edges may amplify rounding
        self.cond = float(np.linalg.cond(self.A))

    def pt(self, p):
        return [float(x) for x in (self.A @ np.array(p, dtype=float) + self.t)] if not self.exact else \
               [float(sum(self.A[i, j] * p[j] for j in range(self.D)) + self.t[i]) for i in range(self.D)]

    def plane(self, h):
        """half-space record -> (n..., d) in the frame"""
        n = np.zeros(self.D)
        n[h["i"] - 1] += h["s"]
        if h["j"]:
            n[h["j"] - 1] -= h["s"]
        d = -h["s"] * h["c"]
        n2 = self.Ainv.T @ n
        d2 = d - float(n2 @ self.t)
        k = self.scale_n
        if self.unit:
            k = 1.0 / math.sqrt(float(n2 @ n2))
        return [float(x) * k for x in n2] + [d2 * k]

    def R(self, N):
        """largest coordinate magnitude of the image of [0,N]^D"""
        m = 0.0
        for c in itertools.product((0, N), repeat=self.D):
            m = max(m, float(np.max(np.abs(self.A @ np.array(c, dtype=float) + self.t))))
        return max(m, 1e-300)

    def mt(self, order):
        """matrix taking moments in lattice coordinates to moments in the frame"""
        if order not in self._mt:
            E = exps(self.D, order)
            idx = {e: k for k, e in enumerate(E)}
            M = np.zeros((len(E), len(E)))
            for r, e in enumerate(E):
                poly = {tuple([0] * self.D): 1.0}
                for i in range(self.D):
                    for _ in range(e[i]):
                        new = {}
                        for q, c in poly.items():
                            new[q] = new.get(q, 0.0) + c * self.t[i]
                            for j in range(self.D):
                                if self.A[i, j] != 0:
                                    q2 = list(q); q2[j] += 1; q2 = tuple(q2)
                                    new[q2] = new.get(q2, 0.0) + c * self.A[i, j]
                        poly = new
                for q, c in poly.items():
                    M[r, idx[q]] += c
            self._mt[order] = M * self.det
        return self._mt[order]

    def moments(self, m, unit, order):
        return self.mt(order) @ (np.array(m, dtype=float) / unit)

    def scales(self, N, order, vol=None):
        """per-moment magnitude scale used for tolerances"""
        R = self.R(N)
        V = abs(self.det) * N ** self.D
        return np.array([V * R ** sum(e) for e in exps(self.D, order)])


def identity(D):
    return Frame(np.eye(D), np.zeros(D), "identity", exact=True)


def rot_random(rng, D):
    M = np.array([[rng.gauss(0, 1) for _ in range(D)] for _ in range(D)])
    q, r = np.linalg.qr(M)
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def signed_perm(rng, D):
    while True:
        p = list(range(D)); rng.shuffle(p)
        A = np.zeros((D, D))
        for i, j in enumerate(p):
            A[i, j] = rng.choice((-1.0, 1.0))
        if np.linalg.det(A) > 0:
            return A


def random_frame(rng, D, kind):
    t = [rng.uniform(-2, 2) for _ in range(D)]
    if kind == "perm":
        return Frame(signed_perm(rng, D), [rng.randint(-3, 3) for _ in range(D)], "perm", exact=True)
    if kind == "pow2":
        A = np.diag([2.0 ** rng.randint(-6, 6) for _ in range(D)])
        return Frame(A, [0.0] * D, "pow2", exact=True, scale_n=2.0 ** rng.randint(-5, 5))
    if kind == "rot":
        return Frame(rot_random(rng, D) * rng.choice((1.0, 0.37, 2.9)), t, "rot", unit=True)
    if kind == "general":
        while True:
            A = np.array([[rng.uniform(-1, 1) for _ in range(D)] for _ in range(D)])
            if np.linalg.det(A) > 0.15 ** D and np.linalg.cond(A) < 15:
                return Frame(A, t, "general", unit=rng.random() < 0.5, scale_n=rng.choice((1.0, 0.01, 37.0)))
            if np.linalg.det(A) < 0:
                A[0] = -A[0]
                if np.linalg.det(A) > 0.15 ** D and np.linalg.cond(A) < 15:
                    return Frame(A, t, "general", unit=rng.random() < 0.5, scale_n=rng.choice((1.0, 0.01, 37.0)))
    if kind == "far":
        return Frame(rot_random(rng, D), [rng.uniform(500, 1000) * rng.choice((-1, 1)) for _ in range(D)], "far", unit=True)
    if kind == "scaleaxis":
        return Frame(np.diag([rng.choice((0.1, 0.7, 1.3, 5.0)) for _ in range(D)]), [rng.uniform(-3, 3) for _ in range(D)], "scaleaxis")
    if kind == "tiny":
        return Frame(rot_random(rng, D) * 1e-5, [x * 1e-5 for x in t], "tiny", unit=True)
    if kind == "huge":
        return Frame(rot_random(rng, D) * 1e5, [x * 1e5 for x in t], "huge", unit=True)
    if kind == "micro":      # exact power-of-two image far below any absolute tolerance
        return Frame(signed_perm(rng, D) * 2.0 ** -45, [0.0] * D, "micro", exact=True, scale_n=2.0 ** -45)
    if kind == "giga":
        return Frame(signed_perm(rng, D) * 2.0 ** 40, [0.0] * D, "giga", exact=True, scale_n=2.0 ** 40)
    raise ValueError(kind)
