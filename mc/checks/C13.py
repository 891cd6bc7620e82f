"""Sequential Monte Carlo propagation through digital filters."""
import itertools
import math

import numpy as np

from mc import gen, mcmodel, ref, rng
from mc.mcmodel import affine
from PyDynamic.uncertainty.propagate_MonteCarlo import SMC

TITLE = "SMC: sequential Monte Carlo for digital filters"
ASSUMPTIONS = [
    "every random number is one of two values with the mean and variance of the law it stands for; "
    "all answer sequences of the generator are enumerated, so averages are exact expectations",
    "quantiles are required to lie between neighbouring order statistics, whatever the interpolation rule",
]
LOW = {"none": (None, None), "fir": ([0.5, 0.25], None), "iir": ([0.7], [1.0, -0.4]), "iir2": ([0.6, -0.3], [1.0, -0.2, 0.5]),
       "fir-a1": ([0.6, -0.3, 0.2], [1.0])}
FILT = {
    "gain": ([0.8], None),
    "fir2": ([0.5, -0.25], None),
    "fir3": ([0.5, -0.25, 0.7], [1.0]),
    "iir1": ([1.0], [1.0, -0.5]),
    "iir11": ([1.0, 0.3], [1.0, -0.5]),
    "iir2": ([0.5, 0.2], [1.0, -0.9, 0.4]),
    "long-b": ([0.5, 0.2, -0.3], [1.0, 0.6]),
    "long-a": ([0.5], [1.0, -0.9, 0.4]),
}
NOISE = {
    "white": (None, None),
    "ar1": (0.5, None),
    "ar2": ([0.5, -0.3], None),
    "ma1": (None, 0.7),
    "ma2": (None, [0.7, 0.2]),
    "arma": (0.5, 0.3),
    "arma21": ([0.5, -0.3], [0.4]),
    "arma12": ([0.6], [0.4, -0.8]),
}


def as_arg(v):
    return v if v is None or isinstance(v, float) else np.array(v)


def run(ctx, x, std, f, low="none", noise="white", Uab=None, **kw):
    b, a = FILT[f]
    blow, alow = LOW[low]
    phi, theta = NOISE[noise]
    return ctx.call(SMC, np.array(x), std, np.array(b), as_arg(a), None if Uab is None else np.array(Uab), blow=as_arg(blow),
                    alow=as_arg(alow), phi=as_arg(phi), theta=as_arg(theta), **kw)


def noise_matrix(noise, n):
    phi, theta = [[] if v is None else ([v] if isinstance(v, float) else v) for v in NOISE[noise]]
    return mcmodel.conv_matrix(mcmodel.impulse([1.0] + theta, [1.0] + [-p for p in phi], n), n)


def scn_linear(ctx):
    """certain filter: exact mean and covariance for every noise model and low pass"""
    f = ctx.choose("filter", list(FILT))
    low = ctx.choose("low", list(LOW))
    noise = ctx.choose("noise", list(NOISE))
    n = ctx.pick("samples", [1, 2, 3], [4])
    delta = ctx.choose("Delta", [0.0, 0.3])
    if not ctx.thorough and n == 3 and (delta or (low != "none" and noise not in ("white", "arma12"))):
        ctx.prune()
    ctx.go()
    x, std = gen.vec("generic", n, 1), 0.7
    got = []
    for _, r in rng.answers(lambda: run(ctx, x, std, f, low, noise, runs=1, Delta=delta, return_samples=True)):
        ctx.check("shape", np.shape(r) == (1, n), "shape %s" % (np.shape(r),))
        got.append(r[0].tolist())
    b, a = FILT[f]
    blow, alow = LOW[low]
    N = noise_matrix(noise, n)
    y, U = mcmodel.iir_moments(x, ref.scal(std * std, ref.mm(N, ref.T(N))), b, a or [1.0], blow, alow or [1.0])
    ctx.close("mean", ref.mean(got), y, scale=1.0)
    ctx.close("covariance", ref.cov(got, 0), ref.madd(U, ref.eye(n, delta * delta / 3.0)), scale=1.0, rtol=1e-8)


def scn_coefficients(ctx):
    """uncertain FIR coefficients: exact moments"""
    nb = ctx.choose("taps", [1, 2, 3])
    ck = ctx.choose("Uab", ["zero", "diag", "full", "rank1", "pair0"])
    low = ctx.choose("low", list(LOW))
    n = ctx.pick("samples", [1, 2, 3], [4])
    a1 = ctx.choose("a", [None, [1.0]])
    if 2 * n + nb > (11 if ctx.thorough else 8):
        ctx.prune()
    ctx.go()
    x, b, Ub, std = gen.vec("generic", n, 1), gen.vec("generic", nb, 2), gen.cov(ck, nb, 3), 0.6
    FILT["tmp"] = (b, a1)
    got = [r[0].tolist() for _, r in rng.answers(lambda: run(ctx, x, std, "tmp", low, runs=1, Uab=Ub, return_samples=True))]
    blow, alow = LOW[low]
    y, U = mcmodel.fir_moments(x, ref.eye(n, std * std), b, Ub, blow, alow or [1.0])
    ctx.close("mean", ref.mean(got), y, scale=1.0)
    ctx.close("covariance", ref.cov(got, 0), U, scale=1.0, rtol=1e-8)


def scn_outcomes(ctx):
    """uncertain recursive filters: the set of outcomes"""
    f = ctx.choose("filter", ["iir1", "iir11", "iir2", "long-b", "long-a", "fir2", "fir3"])
    low = ctx.choose("low", ["none", "fir", "iir"])
    n = ctx.pick("samples", [2, 3], [])
    which = ctx.choose("u_theta", ["all", "a-only", "b-only", "none"])
    b, a = FILT[f]
    a = a or [1.0]
    p = len(a) + len(b) - 1
    u = [0.1 + 0.07 * i for i in range(p)]
    if 2 * n + p > (11 if ctx.thorough else 8):
        ctx.prune()
    if which == "a-only":
        u[len(a) - 1:] = [0.0] * len(b)
    elif which == "b-only":
        u[: len(a) - 1] = [0.0] * (len(a) - 1)
    elif which == "none":
        u = [0.0] * p
    ctx.go()
    x, std = gen.vec("generic", n, 1), 0.6
    blow, alow = LOW[low]
    got = [r[0].tolist() for _, r in rng.answers(
        lambda: run(ctx, x, std, f, low, runs=1, Uab=ref.diag([v * v for v in u]), return_samples=True))]
    want = mcmodel.outcomes(x, [std] * n, b, a, u, blow, alow or [1.0])
    if len(got) < len(want):  # no draw for certain coefficients
        ctx.check("draws", which != "all", "only %d outcomes" % len(got))
        want = mcmodel.outcomes(x, [std] * n, b, a, u, blow, alow or [1.0])
    mcmodel.multiset_equal(ctx, "outcomes", got, want, 1.0)


def scn_statistics(ctx):
    """mean, standard uncertainty and quantiles are those of the samples; the shift rotates all of them"""
    f = ctx.choose("filter", list(FILT))
    runs = ctx.choose("runs", [2, 3, 10, 41])
    n = ctx.choose("samples", [1, 3, 7])
    perc = ctx.choose("Perc", [None, [0.5], [0.025, 0.975], [0.9, 0.1, 0.5]])
    shift = ctx.choose("shift", [0, 1, -2, 3])
    noise = ctx.choose("noise", ["white", "arma21"])
    low = ctx.choose("low", ["none", "iir"])
    unc = ctx.choose("Uab", [False, True])
    integer = ctx.choose("dtype", ["float", "int"])
    if integer == "int" and (noise != "white" or low != "none"):
        ctx.prune()
    if not ctx.thorough and (unc and low != "none" or perc == [0.5] and shift or shift == 3 and runs > 3):
        ctx.prune()
    ctx.go()
    b, a = FILT[f]
    p = len(b) + len(a or [1.0]) - 1
    x = [(3 * i) % 5 - 1 for i in range(n)] if integer == "int" else gen.vec("generic", n, 2)
    Uab = ref.diag([0.001 * (i + 1) for i in range(p)]) if unc else None

    def once(**kw):
        rng.counter(17)
        return run(ctx, x, 0.4, f, low, noise, Uab, runs=runs, Delta=0.1, **kw)

    Y0 = once(return_samples=True).tolist()
    Y = once(return_samples=True, shift=shift).tolist()
    ctx.same("shift", Y, [[r[(i - shift) % n] for i in range(n)] for r in Y0])
    r = once(shift=shift, Perc=perc)
    ctx.check("arity", len(r) == (2 if perc is None else 3), "%d values" % len(r))
    m = ref.mean(Y)
    ctx.close("mean", r[0], m, scale=1.0)
    ctx.close("std", r[1], [math.sqrt(sum((row[i] - m[i]) ** 2 for row in Y) / runs) for i in range(n)], scale=1.0)
    if perc is not None:
        q = r[2].tolist()
        ctx.check("quantile-shape", len(q) == len(perc) and all(len(v) == n for v in q), "shape of quantiles")
        for i in range(n):
            col = sorted(row[i] for row in Y)
            for k, pr in enumerate(perc):
                lo, hi = max(int(math.floor(runs * pr)), 1), min(int(math.ceil(runs * pr)) + 1, runs)
                ctx.check("quantile", col[lo - 1] - 1e-12 <= q[k][i] <= col[hi - 1] + 1e-12,
                          "quantile %s of sample %d is %r, order statistics %r..%r" % (pr, i, q[k][i], col[lo - 1], col[hi - 1]))


def scn_runs(ctx):
    """runs are independent: the joint law of two runs has uncorrelated noise and coefficients"""
    f = ctx.choose("filter", ["gain", "fir2", "iir1"])
    noise = ctx.choose("noise", ["white", "ar1", "ma1", "arma"])
    n = ctx.choose("samples", [1, 2])
    unc = ctx.choose("Uab", [False, True])
    low = ctx.choose("low", ["none", "fir", "iir"])
    b, a = FILT[f]
    p = len(b) + len(a or [1.0]) - 1
    if 2 * (2 * n + (p if unc else 0)) > (12 if ctx.thorough else 8):
        ctx.prune()
    ctx.go()
    x = gen.vec("generic", n, 1)
    Uab = ref.diag([0.02 * (i + 1) for i in range(p)]) if unc else None
    rows = []
    for _, r in rng.answers(lambda: run(ctx, x, 0.5, f, low, noise, Uab, runs=2, return_samples=True)):
        rows.append(r[0].tolist() + r[1].tolist())
    C = ref.cov(rows, 0)
    ctx.close("cross-run", [row[n:] for row in C[:n]], ref.zeros(n, n), scale=1.0)
    ctx.close("same-law", [row[n:] for row in C[n:]], [row[:n] for row in C[:n]], scale=1.0)
    ctx.check("nonzero", C[0][0] > 1e-3, "no variation")


def scn_long(ctx):
    """longer signals, more runs, other magnitudes: exact law of every run (map from white noise to result)"""
    f = ctx.choose("filter", ["fir3", "iir11", "iir2", "long-b", "long-a", "order4", "fir9"])
    n, runs = ctx.pick("size", [(12, 1), (30, 1), (8, 9), (3, 24)], [(60, 1), (5, 40)])
    noise = ctx.choose("noise", ["white", "ar2", "ma2", "arma21", "arma12"])
    low = ctx.choose("low", ["none", "fir", "iir2"])
    s = ctx.choose("scale", gen.SCALES)
    if s != 1.0 and n * runs > 40:
        ctx.prune()
    if not ctx.thorough and (s != 1.0 and (noise not in ("white", "arma21") or f in ("iir11", "long-b")) or n * runs > 40 and low == "fir"):
        ctx.prune()
    ctx.go()
    FILT["order4"] = ([0.5, 0.2, -0.1, 0.3, 0.1], [1.0, -0.3, 0.25, 0.1, -0.05])
    FILT["fir9"] = (gen.vec("generic", 9, 3), None)
    b, a = FILT[f]
    x, std = gen.vec("generic", n, 1), 0.7 * s
    blow, alow = LOW[low]
    N = noise_matrix(noise, n)
    y, U = mcmodel.iir_moments(x, ref.scal(std * std, ref.mm(N, ref.T(N))), b, a or [1.0], blow, alow or [1.0])
    affine(ctx, lambda: [v for r in run(ctx, x, std, f, low, noise, runs=runs, return_samples=True).tolist() for v in r], runs, n, y, U, s)


def scn_long_coefficients(ctx):
    """uncertain coefficients of longer FIR filters, certain signal"""
    nb = ctx.choose("taps", [1, 2, 5, 9])
    n, runs = ctx.pick("size", [(3, 5), (12, 3), (30, 1)], [(40, 4)])
    low = ctx.choose("low", ["none", "fir", "iir2"])
    s = ctx.choose("scale", gen.SCALES)
    a1 = ctx.choose("a", [None, [1.0]])
    if not ctx.thorough and s != 1.0 and (low == "fir" or n == 30):
        ctx.prune()
    ctx.go()
    x, b, Ub = gen.vec("generic", n, 1), gen.vec("generic", nb, 2), gen.scaled(gen.cov("full", nb, 3), s)
    FILT["tmp"] = (b, a1)
    blow, alow = LOW[low]
    y, U = mcmodel.fir_moments(x, ref.zeros(n, n), b, Ub, blow, alow or [1.0])
    affine(ctx, lambda: [v for r in run(ctx, x, 0.0, "tmp", low, runs=runs, Uab=Ub, return_samples=True).tolist() for v in r], runs, n, y, U, s)


def scn_many(ctx):
    """many runs and many samples: statistics are those of the samples"""
    f = ctx.choose("filter", ["fir3", "iir2"])
    runs, n = ctx.pick("size", [(100, 10), (333, 4), (1000, 2), (20, 150)], [(3000, 2), (50, 1000)])
    perc = ctx.choose("Perc", [None, [0.025, 0.975], [0.9, 0.1, 0.5]])
    shift = ctx.choose("shift", [0, 1, -7])
    unc = ctx.choose("Uab", [False, True])
    ctx.go()
    b, a = FILT[f]
    p = len(b) + len(a or [1.0]) - 1
    x = gen.vec("generic", n, 2)
    Uab = ref.diag([0.001 * (i + 1) for i in range(p)]) if unc else None

    def once(**kw):
        rng.counter(17)
        return run(ctx, x, 0.4, f, "iir", "arma21", Uab, runs=runs, **kw)

    Y0 = once(return_samples=True).tolist()
    Y = once(return_samples=True, shift=shift).tolist()
    ctx.check("distinct-runs", len(set(map(tuple, Y0))) == runs, "runs repeat each other")
    ctx.same("shift", Y, [[r[(i - shift) % n] for i in range(n)] for r in Y0])
    r = once(shift=shift, Perc=perc)
    m = ref.mean(Y)
    ctx.close("mean", r[0], m, scale=1.0)
    ctx.close("std", r[1], [math.sqrt(sum((row[i] - m[i]) ** 2 for row in Y) / runs) for i in range(n)], scale=1.0)
    if perc is not None:
        q = r[2].tolist()
        ctx.check("quantile-shape", len(q) == len(perc) and all(len(v) == n for v in q), "shape of quantiles")
        for i in range(n):
            col = sorted(row[i] for row in Y)
            for k, pr in enumerate(perc):
                lo, hi = max(int(math.floor(runs * pr)), 1), min(int(math.ceil(runs * pr)) + 1, runs)
                ctx.check("quantile", col[lo - 1] - 1e-12 <= q[k][i] <= col[hi - 1] + 1e-12, "quantile %s of sample %d" % (pr, i))


SCENARIOS = [
    ("linear", scn_linear),
    ("coefficients", scn_coefficients),
    ("outcomes", scn_outcomes),
    ("statistics", scn_statistics),
    ("runs", scn_runs),
    ("long", scn_long),
    ("long-coefficients", scn_long_coefficients),
    ("many", scn_many),
]
