"""The random number generator as part of the enumerated environment.

``install()`` replaces numpy's global generator (module level functions *and* the object scipy
falls back on) before PyDynamic is imported.  Afterwards every standard normal / uniform number
the code under test asks for is answered by the harness:

* ``seeded(n)``         an ordinary generator with known state (for history/purity checks)
* ``answers(fn)``       stateless exploration of *all* answers over a two point alphabet:
                        normals in {-1, +1}, uniforms in {lo, hi}.  Both alphabets have exact
                        mean and variance of the distributions they stand for (uniform:
                        1/2 -+ sqrt(1/12)), so means and covariances averaged over all paths are
                        exact expectations, whatever the order or batching of the draws.
* ``tape(list)``        a scripted stream
* ``balanced()``        every request for R rows of d normals takes the next d columns of a two-level
                        orthogonal array (15 columns, 16 rows, repeated): over any multiple of 16 rows
                        the sample mean is exactly 0 and the sample covariance - also between requests,
                        up to 15 columns in all - exactly the identity, so Monte Carlo code with a
                        hard-coded number of runs has exact first order moments; requests of single
                        rows (in a loop over the runs) get the rows one after the other
"""
import itertools
import math
import sys

import numpy as np

_U = math.sqrt(1.0 / 12.0)
UNI = (0.5 - _U, 0.5 + _U)


class Exhausted(Exception):
    pass


class _State:
    mode = "seeded"
    rs = None
    prefix = []
    log = []
    maxdraws = 64
    tape = []
    pos = 0
    seed_calls = 0
    uncontrolled = 0
    counter = 0
    light = [0, 0]
    column = 0
    sites = {}


S = _State()
_RealRandomState = np.random.RandomState
_real_default_rng = getattr(np.random, "default_rng", None)


_M = (1 << 64) - 1
_fresh = [1 << 40]


def _mix(z):
    z &= _M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
    return z ^ (z >> 31)


def _one(kind):
    """one standard normal ('n') or one uniform ('u') answer"""
    if S.mode == "answers":
        i = len(S.log)
        if i >= S.maxdraws:
            raise Exhausted("more than %d random numbers requested" % S.maxdraws)
        b = S.prefix[i] if i < len(S.prefix) else 0
        S.log.append(b)
        if kind == "n":
            return 1.0 if b == 0 else -1.0
        return UNI[b]
    if S.mode == "tape":
        if S.pos >= len(S.tape):
            raise Exhausted("tape exhausted")
        v = S.tape[S.pos]
        S.pos += 1
        if kind == "u":
            return 0.5 + math.atan(v) / math.pi
        return v
    if S.mode == "light":
        # cheap stand-in for an ordinary generator: state = [key, position]
        S.light[1] += 1
        v = _mix(S.light[0] * 0x9E3779B97F4A7C15 + S.light[1] * 0xD1B54A32D192ED03)
        u = (v >> 11) / float(1 << 53)
        return u if kind == "u" else 4.0 * u - 2.0
    if S.mode == "balanced":
        v = _small(1)[0]
        return v if kind == "n" else 0.5 + v * _U
    if S.mode == "counter":
        # distinct, reproducible numbers
        S.counter += 1
        v = math.sin(12.9898 * S.counter) * 1.7
        if kind == "u":
            return 0.5 + 0.5 * math.sin(7.133 * S.counter)
        return v
    raise RuntimeError(S.mode)


def _cell(r, c):
    return -1.0 if bin((r % 16) & (c % 15 + 1)).count("1") % 2 else 1.0


def _design(rows, cols):
    """the next `cols` columns of the orthogonal array, as 16 rows, and how often to repeat them"""
    base = S.column
    S.column += cols
    return [[_cell(r, base + c) for c in range(cols)] for r in range(16)], -(-rows // 16)


def _site():
    """where in the code under test the numbers are asked for"""
    f = sys._getframe(1)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    key = []
    while f is not None and len(key) < 5:
        key.append((f.f_code.co_filename, f.f_code.co_firstlineno, f.f_lasti))
        f = f.f_back
    return tuple(key)


def _cells(n):
    """requests of a few numbers only: each place in the code owns columns of the orthogonal array,
    and gets the next row every time -> first column, row"""
    key = _site() + (n,)
    if key not in S.sites:
        S.sites[key] = [S.column, 0]
        S.column += n
    at = S.sites[key]
    at[1] += 1
    return at[0], at[1] - 1


def _small(n):
    first, row = _cells(n)
    return [_cell(row, first + c) for c in range(n)]


def _many(kind, size):
    if size is None:
        return _one(kind)
    shape = (size,) if np.ndim(size) == 0 else tuple(int(s) for s in size)
    n = 1
    for s in shape:
        n *= int(s)
    if S.mode == "balanced":
        if len(shape) in (1, 2) and max(shape) >= 16:
            rows = max(shape)
            d, k = _design(rows, n // rows)
            v = np.tile(np.array(d), (k, 1))[:rows]
            v = v.reshape(shape) if shape[0] == rows else v.T.copy()
        else:
            v = np.array(_small(n)).reshape(shape)
        return v if kind == "n" else 0.5 + v * _U
    return np.array([_one(kind) for _ in range(n)], dtype=float).reshape([int(s) for s in shape])


def factor(cov):
    """A with A A^T = cov (semi-definite allowed), diagonal input -> diagonal A"""
    C = np.asarray(cov, dtype=float)
    n = C.shape[0]
    A = [[0.0] * n for _ in range(n)]
    c = C.tolist()
    for j in range(n):
        d = c[j][j] - sum(A[j][k] ** 2 for k in range(j))
        if d > 1e-12 * c[j][j]:
            A[j][j] = math.sqrt(d)
            for i in range(j + 1, n):
                A[i][j] = (c[i][j] - sum(A[i][k] * A[j][k] for k in range(j))) / A[j][j]
    return A


class Controlled(_RealRandomState):
    def _live(self):
        return S.mode != "seeded"

    def standard_normal(self, size=None):
        if not self._live():
            return S.rs.standard_normal(size)
        return _many("n", size)

    def randn(self, *dims):
        if not self._live():
            return S.rs.randn(*dims)
        return _many("n", None if not dims else dims)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if not self._live():
            return S.rs.normal(loc, scale, size)
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * _many("n", size)

    def random_sample(self, size=None):
        if not self._live():
            return S.rs.random_sample(size)
        return _many("u", size)

    def random(self, size=None):
        return self.random_sample(size)

    ranf = sample = random

    def rand(self, *dims):
        return self.random_sample(None if not dims else dims)

    def uniform(self, low=0.0, high=1.0, size=None):
        if not self._live():
            return S.rs.uniform(low, high, size)
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        return low + (np.asarray(high) - low) * _many("u", size)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, **kw):
        if not self._live():
            return S.rs.multivariate_normal(mean, cov, size, check_valid, tol)
        mean = np.asarray(mean, dtype=float)
        if mean.ndim != 1:
            raise ValueError("mean must be 1 dimensional")
        if np.ndim(cov) != 2 or np.shape(cov)[0] != np.shape(cov)[1]:
            raise ValueError("cov must be 2 dimensional and square")
        if mean.shape[0] != np.shape(cov)[0]:
            raise ValueError("mean and cov must have same length")
        n = mean.shape[0]
        shape = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(size))
        k = 1
        for s in shape:
            k *= int(s)
        if S.mode == "balanced" and k == 1:
            key = (mean.tobytes(), np.asarray(cov, dtype=float).tobytes())
            base, row = _cells(n)
            if (base, key) not in S.sites:
                A, m = factor(cov), mean.tolist()
                S.sites[base, key] = np.array(
                    [[m[i] + sum(A[i][j] * _cell(r, base + j) for j in range(n)) for i in range(n)] for r in range(16)]
                )
            return S.sites[base, key][row % 16].reshape(tuple(int(s) for s in shape) + (n,)).copy()
        A = factor(cov)
        m = mean.tolist()
        if S.mode == "balanced" and len(shape) == 1 and k >= 16:
            d, q = _design(k, n)
            rows = [[m[i] + sum(A[i][j] * z[j] for j in range(n)) for i in range(n)] for z in d]
            return np.tile(np.array(rows, dtype=float), (q, 1))[:k]
        # like numpy, one standard normal number per component is consumed
        rows = []
        for _ in range(k):
            z = _small(n) if S.mode == "balanced" else [_one("n") for _ in range(n)]
            rows.append([m[i] + sum(A[i][j] * z[j] for j in range(n)) for i in range(n)])
        return np.array(rows, dtype=float).reshape(tuple(int(s) for s in shape) + (n,))

    def seed(self, *a, **k):
        S.seed_calls += 1
        if not self._live():
            return S.rs.seed(*a, **k)
        if S.mode == "light":
            s = a[0] if a else k.get("seed")
            if s is None:  # entropy of the operating system
                _fresh[0] += 1
                S.light = [_fresh[0], 0]
            else:
                S.light = [_mix(int(np.asarray(s, dtype=object).ravel()[0])), 0]

    def get_state(self, *a, **k):
        if S.mode == "light":
            return ("light", list(S.light))
        return S.rs.get_state(*a, **k)

    def set_state(self, st, *a, **k):
        if S.mode == "light":
            S.light = list(st[1])
            return
        return S.rs.set_state(st, *a, **k)

    def randint(self, low, high=None, size=None, dtype=int):
        if S.mode != "light":
            if self._live():
                S.uncontrolled += 1
            return S.rs.randint(low, high, size, dtype)
        if high is None:
            low, high = 0, low
        u = np.asarray(_many("u", size))
        r = (low + np.floor(u * (high - low))).astype(dtype)
        return int(r) if size is None else r


def _fallback(name):
    def f(self, *a, **k):
        if self._live():
            S.uncontrolled += 1
        return getattr(S.rs, name)(*a, **k)

    f.__name__ = name
    return f


for _n in dir(_RealRandomState):
    if not _n.startswith("_") and _n not in Controlled.__dict__ and callable(getattr(_RealRandomState, _n)):
        setattr(Controlled, _n, _fallback(_n))

CTRL = Controlled(0)


def install():
    S.rs = _RealRandomState(20240229)
    for n in dir(np.random):
        if not n.startswith("_") and n[0].islower() and hasattr(Controlled, n):
            if callable(getattr(np.random, n)) and not isinstance(getattr(np.random, n), type):
                setattr(np.random, n, getattr(CTRL, n))
    np.random.mtrand._rand = CTRL

    def default_rng(seed=None):
        if seed is None:
            return CTRL
        return _real_default_rng(seed)

    np.random.default_rng = default_rng


def seeded(seed):
    S.mode = "seeded"
    S.rs = _RealRandomState(seed)
    S.seed_calls = 0


def light(seed):
    S.mode = "light"
    S.light = [seed, 0]
    _fresh[0] = 1 << 40  # every execution is a function of its choices alone
    S.seed_calls = 0


def counter(start=0):
    S.mode = "counter"
    S.counter = start
    S.seed_calls = 0
    S.uncontrolled = 0


def balanced():
    S.mode = "balanced"
    S.counter = S.column = 0
    S.sites = {}
    S.seed_calls = S.uncontrolled = 0


def tape(values):
    S.mode = "tape"
    S.tape = list(values)
    S.pos = 0
    S.seed_calls = 0
    S.uncontrolled = 0


def answers(run, maxdraws=24):
    """Yield run() for every sequence of binary answers of the generator (stateless DFS)."""
    prefix = []
    while True:
        S.mode, S.prefix, S.log, S.maxdraws = "answers", prefix, [], maxdraws
        S.seed_calls = S.uncontrolled = 0
        try:
            r = run()
        finally:
            log = S.log
            S.mode = "seeded"
        yield log, r
        nxt = list(log)
        while nxt and nxt[-1] == 1:
            nxt.pop()
        if not nxt:
            return
        nxt[-1] = 1
        prefix = nxt


def linear_map(run, limit=3000, size=20000):
    """run() -> flat list of results, affine in the random numbers.  Answers all numbers with zero, then one
    at a time with one: returns (offset, list of columns), so offset + columns z is the map and
    columns columns^T the exact covariance of the results."""
    try:
        tape([0.0] * size)
        base = run()
        used = S.pos
        if used > limit:
            raise Exhausted("%d random numbers requested" % used)
        cols = []
        for k in range(used):
            t = [0.0] * size
            t[k] = 1.0
            tape(t)
            r = run()
            if S.pos != used:
                raise Exhausted("number of random numbers depends on their values")
            cols.append([a - b for a, b in zip(r, base)])
        return base, cols
    finally:
        S.mode = "seeded"
