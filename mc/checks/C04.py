"""Filters as time-stepped systems: causality, linearity, time invariance over sample histories."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_filter import FIRuncFilter, IIRuncFilter

TITLE = "filters are causal, linear and time-invariant systems"
ASSUMPTIONS = ["sample alphabet {0, 1, -2.5}, histories up to 5 (thorough: 7) appended samples"]

ALPHABET = [1.0, -2.5, 0.0]
NOISE = [0.3, 1.1]
TH = {1: [0.7], 2: [1.0, -0.4], 3: [0.5, -1.2, 0.8], 6: gen.vec("generic", 6, 2)}
IIR = {
    "p1": ([0.8, 0.3], [1.0, -0.6]),
    "p2": ([1.0, 0.5, -0.2], [1.0, -0.9, 0.5]),
    "p3": ([0.4, 0.1], [1.0, -0.4, 0.3, -0.1]),
}


def fir(ctx, variant, L, y, s, want_full=False):
    th = gen.arr(TH[L])
    kw = {}
    if variant == "point":
        return ctx.call(FIRuncFilter, gen.arr(y), gen.arr(s), th, kind="diag")
    if variant == "point-theta":
        return ctx.call(FIRuncFilter, gen.arr(y), gen.arr(s), th, Utheta=gen.arr(gen.vec("positive", L, 1)), kind="diag")
    if variant == "full":
        return ctx.call(
            FIRuncFilter, gen.arr(y), gen.arr(s), th, Utheta=gen.arr(gen.cov("full", L, 1)), kind="diag",
            return_full_covariance=True,
        )
    if variant == "blow":
        return ctx.call(
            FIRuncFilter, gen.arr(y), gen.arr(s), th, blow=gen.arr([0.5, 0.3, 0.2]), kind="diag",
            return_full_covariance=True,
        )
    raise ValueError(variant)


def iir(ctx, name, x, s):
    b, a = IIR[name]
    n = len(a) - 1 + len(b)
    return ctx.call(IIRuncFilter, gen.arr(x), gen.arr(s), gen.arr(b), gen.arr(a), gen.arr(gen.cov("full", n, 1)))


def obs(U):
    """uncertainty as variances (1D) or covariance (2D)"""
    U = U.tolist()
    return U if isinstance(U[0], list) else [u * u for u in U]


def head(U, n):
    return [r[:n] for r in U[:n]] if isinstance(U[0], list) else U[:n]


def scn_append(ctx):
    """appending a sample never changes what was already put out"""
    system = ctx.choose(
        "system",
        [("fir", v, L) for v in ("point", "point-theta", "full", "blow") for L in (1, 2, 3, 6)]
        + [("iir", n, 0) for n in IIR],
    )
    depth = 7 if ctx.thorough else 5
    y, s = [], []
    prev = None
    for step in range(depth):
        y.append(ctx.choose("x[%d]" % step, ALPHABET))
        s.append(NOISE[step % 2] if step else 0.3)
        if len(y) == 2:
            ctx.go()
        if len(y) < 2:
            continue
        out = fir(ctx, system[1], system[2], y, s) if system[0] == "fir" else iir(ctx, system[1], y, s)
        cur = out[0].tolist(), obs(out[1])
        ctx.check("length", len(cur[0]) == len(y) and len(cur[1]) == len(y), "output length")
        if prev is not None:
            n = len(y) - 1
            ctx.close("past-output", cur[0][:n], prev[0])
            # with a low-pass in front the noise of the second filter is correlated, and the
            # stationary continuation into the past uses all lags known so far: not claimed
            if system[1] != "blow":
                ctx.close("past-uncertainty", head(cur[1], n), prev[1])
        prev = cur


def scn_shift(ctx):
    """a longer constant (FIR) / silent (IIR) past changes nothing; leading samples are pure past"""
    system = ctx.choose(
        "system",
        [("fir", v, L) for v in ("point", "point-theta", "full") for L in (1, 2, 3, 6)] + [("iir", n, 0) for n in IIR],
    )
    k = ctx.choose("prepended", [1, 2, 4])
    y = [ctx.choose("x[%d]" % i, ALPHABET) for i in range(4 if ctx.thorough else 3)]
    ctx.go()
    s = [0.3] * len(y)
    if system[0] == "fir":
        a = fir(ctx, system[1], system[2], y, s)
        b = fir(ctx, system[1], system[2], [y[0]] * k + y, [0.3] * k + s)
    else:
        a = iir(ctx, system[1], y, s)
        b = iir(ctx, system[1], [0.0] * k + y, [0.0] * k + s)
        ctx.close("silent-past", b[0].tolist()[:k], [0.0] * k, atol=1e-12)
        ctx.close("silent-past-uncertainty", b[1].tolist()[:k], [0.0] * k, atol=1e-12)
    ctx.close("time-invariance", b[0].tolist()[k:], a[0].tolist(), scale=1e-3)
    U, V = obs(a[1]), obs(b[1])
    V = [r[k:] for r in V[k:]] if isinstance(V[0], list) else V[k:]
    ctx.close("time-invariance-uncertainty", V, U)


def scn_linear(ctx):
    """superposition of two histories; certain coefficients: uncertainty independent of the signal"""
    system = ctx.choose("system", [("fir", v, L) for v in ("point", "full", "blow") for L in (2, 6)] + [("iir", n, 0) for n in ("p1", "p3")])
    n = 3
    y1 = [ctx.choose("u[%d]" % i, ALPHABET) for i in range(n)]
    y2 = [ctx.choose("v[%d]" % i, ALPHABET) for i in range(n)]
    c = ctx.choose("factor", [1.0, -3.0])
    ctx.go()
    s = [0.3, 1.1, 0.3]
    f = (lambda y: fir(ctx, system[1], system[2], y, s)) if system[0] == "fir" else (lambda y: iir(ctx, system[1], y, s))
    a, b = f(y1), f(y2)
    m = f([u + c * v for u, v in zip(y1, y2)])
    ctx.close("superposition", m[0], [u + c * v for u, v in zip(a[0].tolist(), b[0].tolist())], scale=1.0)
    if system[1] == "point" or system[1] == "blow":
        ctx.close("uncertainty-signal-independent", obs(m[1]), obs(a[1]))
        ctx.close("uncertainty-signal-independent", obs(b[1]), obs(a[1]))


def long_history(n, salt):
    return [ALPHABET[int(abs(gen.gval(i, salt)) * 7) % 3] + (0.3 if i % 11 == 0 else 0.0) for i in range(n)]


def scn_prefix(ctx):
    """long histories: every prefix of the input gives the prefix of the output"""
    system = ctx.choose(
        "system",
        [("fir", v, L) for v in ("point", "point-theta", "full", "blow") for L in (1, 2, 3, 6)] + [("iir", n, 0) for n in IIR],
    )
    n = ctx.pick("length", [20, 45], [150])
    cut = ctx.choose("cut", [2, 3, 7, 16, 19, 20, 33, 44] if n == 45 else [2, 5, 11, 19])
    salt = ctx.choose("history", [1, 2])
    noise = ctx.choose("noise", ["alternating", "growing", "small"])
    if system[1] in ("full", "blow") and n > 100:
        ctx.prune()
    ctx.go()
    y = long_history(n, salt)
    s = [NOISE[i % 2] if noise == "alternating" else (0.01 * (i + 1) if noise == "growing" else 1e-9 * (1 + i % 3)) for i in range(n)]
    f = (lambda k: fir(ctx, system[1], system[2], y[:k], s[:k])) if system[0] == "fir" else (lambda k: iir(ctx, system[1], y[:k], s[:k]))
    a, b = f(n), f(cut)
    ctx.check("length", len(a[0]) == n and len(b[0]) == cut, "output length")
    ctx.close("past-output", a[0].tolist()[:cut], b[0].tolist(), scale=1e-3)
    if system[1] != "blow":
        ctx.close("past-uncertainty", head(obs(a[1]), cut), obs(b[1]), rtol=1e-8)


def scn_delayed(ctx):
    """long histories: delayed input gives delayed output"""
    system = ctx.choose(
        "system",
        [("fir", v, L) for v in ("point", "point-theta", "full") for L in (1, 2, 3, 6)] + [("iir", n, 0) for n in IIR],
    )
    n = ctx.choose("length", [9, 30])
    k = ctx.pick("prepended", [1, 5, 17, 40], [100])
    scale = ctx.choose("scale", [1.0, 1e-7, 1e7])
    ctx.go()
    y = [scale * v for v in long_history(n, 3)]
    s = [0.3 * scale] * n
    if system[0] == "fir":
        a, b = fir(ctx, system[1], system[2], y, s), fir(ctx, system[1], system[2], [y[0]] * k + y, [s[0]] * k + s)
    else:
        a, b = iir(ctx, system[1], y, s), iir(ctx, system[1], [0.0] * k + y, [0.0] * k + s)
    ctx.close("time-invariance", b[0].tolist()[k:], a[0].tolist(), scale=1e-3 * scale)
    U, V = obs(a[1]), obs(b[1])
    V = [r[k:] for r in V[k:]] if isinstance(V[0], list) else V[k:]
    ctx.close("time-invariance-uncertainty", V, U, rtol=1e-8)


def scn_homogeneous(ctx):
    """signal and noise in other units: output and uncertainty in the same units"""
    system = ctx.choose(
        "system",
        [("fir", v, L) for v in ("point", "point-theta", "full", "blow") for L in (1, 2, 3, 6)] + [("iir", n, 0) for n in IIR],
    )
    n = ctx.choose("length", [2, 6, 25])
    c = ctx.choose("unit", [1e-9, 1e-5, -1.0, 1e6])
    ctx.go()
    y, s = long_history(n, 4), [NOISE[i % 2] for i in range(n)]
    f = (lambda v, w: fir(ctx, system[1], system[2], v, w)) if system[0] == "fir" else (lambda v, w: iir(ctx, system[1], v, w))
    a, b = f(y, s), f([c * v for v in y], [abs(c) * v for v in s])
    ctx.close("output", b[0], [c * v for v in a[0].tolist()])
    U = obs(a[1])
    ctx.close("uncertainty", obs(b[1]), ref.scal(c * c, U) if isinstance(U[0], list) else [c * c * v for v in U])


SCENARIOS = [("append", scn_append), ("shift", scn_shift), ("linear", scn_linear), ("prefix", scn_prefix), ("delayed", scn_delayed), ("homogeneous", scn_homogeneous)]
