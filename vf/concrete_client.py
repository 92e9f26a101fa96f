"""Concrete replay of the client programs: the real kernels on concrete data."""
import inspect

import numpy as np

from . import concrete as K
from . import identities as ID
from .contracts import NumAcc, NumEnv
from .concrete_special import DT, Bad, eul


class Handle:
    def __init__(self, arr, kind):
        self.arr, self.kind = arr, kind
        self._init = NumAcc(arr.copy(), kind)

    def __call__(self, *i):
        return self._init(*i)

    @property
    def now(self):
        return NumAcc(self.arr, self.kind)


class World:
    def __init__(self, sz, real, threads, seed, bad, desc):
        self.n, self.dim, self.real, self.threads, self.bad, self.desc = sz, len(sz), real, K.nthreads(threads, seed), bad, desc
        self.rng = np.random.default_rng(seed)
        E = NumEnv(self.dim, sz, {}, {})
        self.pi, self.sin, self.all, self.any, self.ite, self.no = E.pi, E.sin, E.all, E.any, E.ite, E.no
        self.big = 1.0
        self.grid, self.zeros = seed % 3 == 1, seed % 3 == 2
        self.gens = {}

    def field(self, name, vec=False, data=None, sample=None):
        t = DT[self.real][0]
        shape = ((self.dim,) if vec else ()) + tuple(self.n)
        if data is not None:
            ix = np.indices(self.n)
            a = np.zeros(shape, t)
            for c in range(self.dim if vec else 1):
                (a[c] if vec else a)[...] = data(c, tuple(ix))
        elif sample == "unit":
            a = self.rng.uniform(0, 1, shape)
            k = self.rng.integers(0, 4, shape)
            a = np.where(k == 0, 0.0, np.where(k == 1, 1.0, a))
        elif sample is not None:
            a = sample(self.rng, shape)
        elif self.grid:
            a = self.rng.integers(-4, 5, shape) / 4
        else:
            a = self.rng.standard_normal(shape)
            if self.zeros:
                ax = int(self.rng.integers(len(shape)))
                q = [0, shape[ax] // 2, shape[ax] - 1][int(self.rng.integers(3))]
                a[(slice(None),) * ax + (q,)] = 0
        a = np.array(a, dtype=t, order="C")
        self.big = max(self.big, float(np.max(np.abs(a))))
        return Handle(a, "vector" if vec else "scalar")

    def scalar(self, name, positive=False, nonneg=False):
        if nonneg:
            positive = True
            if self.rng.integers(4) == 0:
                return 0.0
        t = DT[self.real][0]
        v = self.rng.uniform(0.2, 3) * (1 if positive or self.rng.integers(2) else -1)
        return float(t(v))

    def gen(self, name, **opts):
        fn = getattr(eul(), name)
        if "num_threads" in inspect.signature(fn).parameters:
            opts["num_threads"] = self.threads
        k = fn(real_t=DT[self.real][0], **opts)

        def call(**kw):
            # an earlier use of the same kernel on the same arrays with other contents
            arrs = {id(v): v for v in kw.values() if isinstance(v, np.ndarray)}.values()
            keep = [v.copy() for v in arrs]
            for v in arrs:
                if self.grid:       # same values elsewhere: equal sums, norms, extremes
                    v[...] = v[(slice(None, None, -1),) * v.ndim].copy()
                else:
                    v[...] = self.rng.uniform(-1, 1, v.shape)
            try:
                k(**kw)
            finally:
                for v, old in zip(arrs, keep):
                    v[...] = old
            return k(**kw)
        return call

    def le(self, a, b):
        return np.asarray(a) <= np.asarray(b) + self.tol()

    def eq(self, a, b):
        return np.asarray(a) == np.asarray(b)

    def tol(self):
        return (5e-3 if self.real == "f32" else 1e-8) * max(1.0, self.big) ** 2

    def _where(self, ix, margin, ring, given):
        w = margin if ring is None else ring
        m = np.ones(self.n, bool)
        for x, n in zip(ix, self.n):
            m &= (x >= w) & (x < n - w)
        if ring is not None:
            m = ~m
        if given is not None:
            m = m & given(*ix)
        return m

    def equal(self, name, margin, lhs, rhs, ring=None, given=None):
        ix = tuple(np.indices(self.n))
        m = self._where(ix, margin, ring, given)
        if not m.any():
            return
        a, b = (np.broadcast_to(np.asarray(f(*ix), float), self.n) for f in (lhs, rhs))
        d = m & ~(np.abs(a - b) <= self.tol() + (2e-4 if self.real == "f32" else 1e-9) * np.abs(b))
        if d.any():
            w = tuple(int(x) for x in np.argwhere(d)[0])
            self.bad.append(dict(self.desc, claim=name, at=list(w), got=float(a[w]), expected=float(b[w])))

    def kept(self, name, h):
        if not np.array_equal(h.arr, h._init.a):
            self.bad.append(dict(self.desc, claim=name + " unchanged"))

    def holds(self, name, margin, pred, ring=None, given=None):
        ix = tuple(np.indices(self.n))
        m = self._where(ix, margin, ring, given)
        d = m & ~np.broadcast_to(pred(*ix), self.n)
        if d.any():
            self.bad.append(dict(self.desc, claim=name, at=[int(x) for x in np.argwhere(d)[0]]))


def identity(task):
    bad, runs = Bad(), 0
    k = task["least"]
    off = [(0, 0, 0), (3, 2, 4), (5, 7, 2), (1, 4, 6)]
    for seed, o in enumerate(off * 3):
        sz = tuple(k + x for x in o[:task["dim"]])
        W = World(sz, task["real"], task["threads"], seed, bad, dict(client=task["name"], size=list(sz), seed=seed))
        try:
            getattr(ID, task["name"])(W, **task["kw"])
        except Exception as e:
            bad.append(dict(client=task["name"], size=list(sz), seed=seed, error="%s: %s" % (type(e).__name__, str(e)[:200])))
        runs += 1
    return dict(runs=runs, bad=bad[:3])
