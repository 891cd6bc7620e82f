"""Test signals: shapes, additive noise, correlated noise processes."""
import cmath
import itertools
import math

import numpy as np

from mc import gen, mcmodel, ref, rng
from PyDynamic.misc import testsignals as TS

TITLE = "test signals and correlated noise"
ASSUMPTIONS = ["the generator answers with two values per number, or with unit vectors (linear map from white noise to signal)"]

TIMES = {
    "0..9": [float(k) for k in range(10)],
    "fine": [0.05 * k - 1.0 for k in range(41)],
    "late": [100.0 + 0.5 * k for k in range(23)],
    "single": [0.3],
    "pair": [0.0, 2.0],
    "uneven": [-3.0, -1.0, -0.4, 0.0, 0.1, 2.0, 2.5, 7.0],
    "int": list(range(-2, 9)),
    "int2": list(range(0, 60, 3)),
}
SIGNALS = ["shocklikeGaussian", "GaussianPulse", "rect", "squarepulse", "sine", "multi_sine"]


def times(ctx):
    k = ctx.choose("time", list(TIMES))
    t = TIMES[k]
    return k, [float(v) for v in t], np.array(t)


def clean(name, t, q):
    """model, and keyword arguments, of parameter set q of a signal"""
    T0, T1 = t[0], t[-1]
    span = (T1 - T0) or 1.0
    if name in ("shocklikeGaussian", "GaussianPulse"):
        t0, m0, s = [(T0 + 0.5 * span, 1.0, 0.1 * span), (T0, -2.5, span), (T1 + 1, 7.0, 0.3 * span), (0, 1, 2)][q]
        if name == "GaussianPulse":
            x = [m0 * math.exp(-0.5 * ((v - t0) / s) ** 2) for v in t]
        else:  # extrema of height m0 one sigma before and after t0, zero at t0
            x = [m0 * (t0 - v) / s * math.exp(0.5 - 0.5 * ((v - t0) / s) ** 2) for v in t]
        return x, dict(t0=t0, m0=m0, sigma=s)
    if name == "rect":
        a, b, h = [(T0 + 0.21 * span, T0 + 0.68 * span, 2.0), (T0 - 1, T1 + 1, -0.5), (T0, T1, 3), (T1 + 1.0, T1 + 2.0, 1.0)][q]
        kw = dict(t0=a, t1=b)
        if h != 1.0:
            kw["height"] = h
        return [float(h) if a < v <= b else 0.0 for v in t], kw
    if name == "squarepulse":
        n, h = [(1, 1.0), (2, -3.0), (3, 2), (None, 0.5)][q]
        kw = dict(height=h)
        if n is not None:
            kw["numpulse"] = n
        n = n or 4
        w = (T1 - T0) / (2 * n + 1)
        return [h if any(T0 + (2 * k + 1) * w < v <= T0 + (2 * k + 2) * w for k in range(n)) else 0.0 for v in t], kw
    if name == "sine":
        amp, f = [(None, None), (2.5, 3.0), (-1.0, 0.37), (2, 4)][q]
        kw = {} if amp is None else dict(amp=amp, freq=f)
        # the tests pin down that `freq` is the period
        return [(amp or 1.0) * math.sin(2 * math.pi / (f or 2 * math.pi) * v) for v in t], kw
    amps, fr = [([1.0], [2.0]), ([1.0, -0.5, 2.0], [0.3, 1.7, 6.0]), ([2, 1], [1, 3]), ([], [])][q]
    return [sum(a * math.sin(w * v) for a, w in zip(amps, fr)) for v in t], dict(amps=amps if q % 2 else np.array(amps), freqs=fr if q % 2 else np.array(fr))


def on_edge(name, t, kw):
    """square pulses with instants on an edge depend on rounding"""
    if name != "squarepulse":
        return False
    w = (t[-1] - t[0]) / (2 * kw.get("numpulse", 4) + 1)
    if w == 0:
        return False
    return any(abs((v - t[0]) / w - round((v - t[0]) / w)) < 1e-9 and v != t[0] for v in t)


def scn_shape(ctx):
    """noise free signals at every instant"""
    k, t, ta = times(ctx)
    name = ctx.choose("signal", SIGNALS)
    q = ctx.choose("parameters", [0, 1, 2, 3])
    noise = ctx.choose("noise", [None, 0.0])
    want, kw = clean(name, t, q)
    ctx.go()
    if noise is not None:
        kw["noise"] = noise
    keep = ta.copy()
    got = ctx.call(getattr(TS, name), ta, **kw)
    ctx.same("time-untouched", ta, keep)
    if on_edge(name, t, kw):  # compare away from the edges
        w = (t[-1] - t[0]) / (2 * kw.get("numpulse", 4) + 1)
        ok = [i for i, v in enumerate(t) if abs((v - t[0]) / w - round((v - t[0]) / w)) > 1e-9]
        ctx.check("length", np.shape(got) == (len(t),), "%s" % (np.shape(got),))
        if not ok:
            return
        got, want = [got[i] for i in ok], [want[i] for i in ok]
    ctx.close("signal", got, want, rtol=1e-12, scale=1e-3)


def scn_noise(ctx):
    """additive white Gaussian noise of the stated standard deviation: every answer of the generator"""
    n = ctx.choose("N", [1, 2, 3])
    name = ctx.choose("signal", SIGNALS)
    q = ctx.choose("parameters", [0, 1])
    sd = ctx.choose("noise", [0.1, 2.0, 1.0])
    as_int = ctx.choose("time", ["float", "int"])
    t = [0.1, 1.4, 3.3][:n] if as_int == "float" else [1, 2, 5][:n]
    want, kw = clean(name, [float(v) for v in t], q)
    ctx.go()
    if on_edge(name, t, kw):
        want = None
    ta = np.array(t)
    f = getattr(TS, name)
    base = np.asarray(ctx.call(f, ta, **kw)).tolist()
    got = [np.asarray(r).tolist() for _, r in rng.answers(lambda: ctx.call(f, ta, noise=sd, **kw))]
    ctx.check("draws", len(got) == 2 ** n, "%d answer sequences for %d instants" % (len(got), n))
    mcmodel.multiset_equal(ctx, "noise", got, [[b + sd * v for b, v in zip(base, s)] for s in itertools.product((1.0, -1.0), repeat=n)], 1.0)
    if want is not None:
        ctx.close("mean", [sum(c) / len(got) for c in zip(*got)], want, rtol=1e-12, scale=sd)


def scn_rect_noise(ctx):
    """user-defined noise"""
    k, t, ta = times(ctx)
    q = ctx.choose("parameters", [0, 1, 2, 3])
    form = ctx.choose("form", ["array", "mismatch", "list", "string"])
    ctx.go()
    want, kw = clean("rect", t, q)
    v = gen.vec("generic", len(t), 3)
    if form == "array":
        nv = gen.arr(v)
        ctx.close("rect", ctx.call(TS.rect, ta, noise=nv, **kw), [a + b for a, b in zip(want, v)], rtol=1e-12)
        ctx.same("noise-untouched", nv, v)
    elif form == "mismatch":
        ctx.raises(ValueError, TS.rect, ta, noise=gen.arr(v + [1.0]), **kw)
    else:
        ctx.raises(NotImplementedError, TS.rect, ta, noise=v if form == "list" else "white", **kw)


class factory:
    """corr_noise creates its own generator: hand out the controlled one"""

    def __enter__(self):
        self.old = np.random.RandomState
        np.random.RandomState = lambda seed=None: rng.CTRL
        return self

    def __exit__(self, *a):
        np.random.RandomState = self.old
        rng.seeded(1)


W = [0.5, 0.0, -0.4, 1.0, 2.0]


def linear_map(ctx, w, sigma, N, method, nmax):
    """matrix from white noise to the generated noise"""
    cols, obj, used = [], None, None
    with factory():
        k = 0
        while used is None or k < used:
            obj = TS.corr_noise(w, sigma)
            rng.tape([1.0 if i == k else 0.0 for i in range(nmax)])
            cols.append(np.asarray(ctx.call(getattr(obj, method), N)).tolist())
            used = rng.S.pos
            ctx.check("length", len(cols[-1]) == N, "%d instead of %d" % (len(cols[-1]), N))
            k += 1
        obj = TS.corr_noise(w, sigma)
        z = [gen.gval(i, 9) for i in range(nmax)]
        rng.tape(z)
        y = np.asarray(ctx.call(getattr(obj, method), N)).tolist()
        A = ref.T(cols)
        ctx.close("linear", y, ref.mv(A, z[: len(cols)]), rtol=1e-12)
        ctx.same("stored", obj.noise, y)
    return A, obj


def scn_corr(ctx):
    """law of the correlated noise: linear map of white noise with covariance calc_cov()"""
    w = ctx.choose("w", W)
    sigma = ctx.choose("sigma", [1.0, 0.2, 3])
    N = ctx.choose("N", [1, 2, 5, 8, 12])
    ctx.go()
    A, obj = linear_map(ctx, w, sigma, N, "calc_noise", N + 60)
    C = ref.mm(A, ref.T(A))
    c = [math.comb(4, l) * w ** l if w or not l else 0.0 for l in range(5)]
    n2 = sum(v * v for v in c)
    want = [[sigma ** 2 / n2 * sum(c[l] * c[l + abs(i - j)] for l in range(5 - abs(i - j))) if abs(i - j) < 5 else 0.0 for j in range(N)] for i in range(N)]
    ctx.close("variance", ref.diagonal(C), [float(sigma) ** 2] * N, rtol=1e-12)
    ctx.close("process-covariance", C, want, rtol=1e-12)
    ctx.close("calc_cov", ctx.call(obj.calc_cov), want, rtol=1e-12)


def scn_corr2(ctx):
    w = ctx.choose("w", W)
    sigma = ctx.choose("sigma", [1.0, 0.2, 3])
    N = ctx.choose("N", [8, 12, 15])
    ctx.go()
    A, obj = linear_map(ctx, w, sigma, N, "calc_noise2", 60)
    c = [1.0]
    for _ in range(5):
        d = [0.0] * (len(c) + 2)
        for i, v in enumerate(c):
            d[i] += w * v
            d[i + 1] += v
            d[i + 2] += w * v
        c = d
    n2 = sum(v * v for v in c)
    C = ref.mm(A, ref.T(A))
    ctx.close("variance", ref.diagonal(C), [float(sigma) ** 2] * N, rtol=1e-12)
    lag = [sum(c[i] * c[i + k] for i in range(11 - k)) / n2 * sigma ** 2 for k in range(4)]
    for i in range(N):
        for k in range(min(4, N - i)):
            if len(A[0]) - 11 > k:  # beyond that the ends of the record meet
                ctx.close("autocovariance", C[i][i + k], lag[k], rtol=1e-11, scale=sigma ** 2)


def scn_seed(ctx):
    """equal seeds give equal histories of calls, unequal ones do not; the global generator is not involved"""
    w = ctx.choose("w", W[:3])
    seeds = ctx.choose("seeds", [(1, 1), (1, 2), (7, 7), (0, 5)])
    ops = [ctx.choose("op%d" % i, ["noise5", "noise9", "noise2"]) for i in range(ctx.pick("calls", [1, 2], [3]))]
    ctx.go()
    out = []
    st = rng.S.rs.get_state()[1].tolist(), rng.S.rs.get_state()[2]
    for s in seeds:
        o = TS.corr_noise(w, 1.5, seed=s)
        r = []
        for op in ops:
            r.append(np.asarray(ctx.call(o.calc_noise2, 8) if op == "noise2" else ctx.call(o.calc_noise, int(op[-1]))).tolist())
        out.append(r)
    ctx.check("seed", (out[0] == out[1]) == (seeds[0] == seeds[1]), "%s for seeds %s" % (out, seeds))
    for i in range(len(ops)):
        for j in range(i):
            ctx.check("fresh", out[0][i][:5] != out[0][j][:5], "same noise twice")
    ctx.check("global-generator", st == (rng.S.rs.get_state()[1].tolist(), rng.S.rs.get_state()[2]), "global random state changed")


def scn_derived(ctx):
    """autocorrelation estimate and periodogram"""
    N = ctx.choose("N", [13, 16])
    lag = ctx.choose("lag", [None, 2, 5])
    Fs = ctx.choose("Fs", [None, 1.0, 50.0])
    own = ctx.choose("argument", ["stored", "given"])
    salt = ctx.choose("values", [1, 2, 3])
    ctx.go()
    o = TS.corr_noise(0.5, 1.0, seed=3)
    ctx.call(o.calc_noise, N)
    x = [gen.gval(i, salt) for i in range(N)]
    y = [gen.gval(i, salt + 5) for i in range(N)] if own == "given" else x
    o.noise = gen.arr(x)
    want = [1.0]
    for i in range(1, lag or 10):
        a, b = x[:-i], x[i:]
        ma, mb = sum(a) / len(a), sum(b) / len(b)
        want.append(sum((p - ma) * (q - mb) for p, q in zip(a, b)) / math.sqrt(sum((p - ma) ** 2 for p in a) * sum((q - mb) ** 2 for q in b)))
    ctx.close("autocorrelation", ctx.call(o.calc_autocorr, *([] if lag is None else [lag])), want, rtol=1e-11)
    kw = {} if Fs is None else {"Fs": Fs}
    if own == "given":
        kw["noise"] = gen.arr(y)
    f, P = ctx.call(o.calc_psd, **kw)
    fs = Fs or 1.0
    m = sum(y) / N
    p = []
    for k in range(N // 2 + 1):
        v = abs(sum((y[t] - m) * cmath.exp(-2j * math.pi * k * t / N) for t in range(N))) ** 2 / N / fs
        p.append(v * (1 if k == 0 or 2 * k == N else 2))
    ctx.close("frequencies", f, [k * fs / N for k in range(N // 2 + 1)], rtol=1e-12)
    ctx.close("psd", P, p, rtol=1e-9)


def scn_forms(ctx):
    """longer time axes, other magnitudes and memory layouts, with and without noise"""
    name = ctx.choose("signal", SIGNALS)
    n = ctx.pick("N", [11, 64], [257])
    tscale = ctx.choose("time scale", [1.0, 1e-6, 1e4])
    t0 = ctx.choose("start", [0.0, -17.0, 300.0])
    s = ctx.choose("height", [1.0, 1e-9, -4e6])
    noise = ctx.choose("noise", [0.0, 0.1, 1e-5])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if lay != "C" and (s != 1.0 or tscale != 1.0):
        ctx.prune()
    ctx.go()
    t = [tscale * (t0 + 0.137 * k) for k in range(n)]
    T0, T1 = t[0], t[-1]
    span = T1 - T0
    if name in ("shocklikeGaussian", "GaussianPulse"):
        m, sg = T0 + 0.43 * span, 0.07 * span
        if name == "GaussianPulse":
            want = [s * math.exp(-0.5 * ((v - m) / sg) ** 2) for v in t]
        else:
            want = [s * (m - v) / sg * math.exp(0.5 - 0.5 * ((v - m) / sg) ** 2) for v in t]
        kw = dict(t0=m, m0=s, sigma=sg)
    elif name == "rect":
        a, b = T0 + 0.213 * span, T0 + 0.687 * span
        want, kw = [s if a < v <= b else 0.0 for v in t], dict(t0=a, t1=b, height=s)
    elif name == "squarepulse":
        w = span / 15
        want = [s if any(T0 + (2 * k + 1) * w < v <= T0 + (2 * k + 2) * w for k in range(7)) else 0.0 for v in t]
        kw = dict(height=s, numpulse=7)
        if on_edge(name, t, kw):
            ctx.prune()
    elif name == "sine":
        f = 0.31 * tscale
        want, kw = [s * math.sin(2 * math.pi / f * v) for v in t], dict(amp=s, freq=f)
    else:
        amps, fr = [s * gen.gval(k, 2) for k in range(6)], [(0.2 + 0.7 * k) / tscale for k in range(6)]
        want, kw = [sum(a * math.sin(w * v) for a, w in zip(amps, fr)) for v in t], dict(amps=amps, freqs=fr)
    f, T = getattr(TS, name), gen.lay(t, lay)
    ctx.close("signal", ctx.call(f, T, **kw), want, rtol=1e-11, scale=abs(s))
    ctx.same("time-untouched", T, t)
    if not noise or name == "rect" and lay != "C":
        return
    sd = noise * abs(s)
    z = [gen.gval(k, 6) for k in range(n)]
    rng.tape(z)
    try:
        y = np.asarray(ctx.call(f, T, noise=sd, **kw)).tolist()
        ctx.check("draws", rng.S.pos == n, "%d random numbers for %d instants" % (rng.S.pos, n))
    finally:
        rng.seeded(1)
    ctx.close("noisy", y, [a + sd * b for a, b in zip(want, z)], rtol=1e-11, scale=abs(s))


SCENARIOS = [("shape", scn_shape), ("noise", scn_noise), ("rect-noise", scn_rect_noise), ("corr", scn_corr), ("corr2", scn_corr2),
             ("seed", scn_seed), ("derived", scn_derived), ("forms", scn_forms)]
