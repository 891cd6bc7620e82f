"""Monte Carlo propagation through digital filters."""
import numpy as np

from mc import gen, mcmodel, ref, rng
from PyDynamic.uncertainty.propagate_MonteCarlo import MC

TITLE = "MC: Monte Carlo for digital filters"
ASSUMPTIONS = [
    "every random number is one of two values with the mean and variance of the law it stands for; "
    "all answer sequences of the generator are enumerated, so averages are exact expectations",
]
LOW = {"none": (None, None), "fir": ([0.5, 0.25], None), "iir": ([0.7], [1.0, -0.4]), "fir1": ([0.6, -0.3], [1.0])}


def signal_unc(form, n):
    if form == "float":
        return 0.5
    if form == "vec":
        return gen.vec("positive", n, 4)
    if form == "gapped":
        return [abs(v) for v in gen.vec("gapped", n, 4)]
    return gen.cov(form, n, 6)


def as_arg(v):
    return v if v is None or isinstance(v, float) else np.array(v)


def rows(x, Ux, b, a, Uab, low, **kw):
    blow, alow = LOW[low]
    return MC(np.array(x), as_arg(Ux), np.array(b), np.array(a), np.array(Uab), blow=as_arg(blow), alow=as_arg(alow), verbose=False, **kw)


def scn_fir(ctx):
    """uncertain FIR coefficients and noisy signal: exact mean and covariance of the samples"""
    n = ctx.pick("samples", [2, 3], [1, 4])
    nb = ctx.choose("taps", [1, 2, 3])
    uk = ctx.choose("Ux", ["float", "vec", "gapped", "full", "rank1", "pair0", "hole"])
    ck = ctx.choose("Uab", ["zero", "diag", "full", "rank1"])
    low = ctx.choose("low", list(LOW))
    if n == 1 and uk in ("full", "rank1", "pair0", "hole"):
        ctx.prune()
    x, b = gen.vec("generic", n, 1), gen.vec("generic", nb, 2)
    Ux, Ub = signal_unc(uk, n), gen.cov(ck, nb, 3)
    ctx.go()
    got = []
    for _, r in rng.answers(lambda: ctx.call(rows, x, Ux, b, [1.0], Ub, low, runs=1, return_samples=True)):
        ctx.check("shape", r.shape == (1, n), "shape %s" % (r.shape,))
        got.append(r[0].tolist())
    blow, alow = LOW[low]
    y, U = mcmodel.fir_moments(x, mcmodel.full_cov(Ux, n), b, Ub, blow, alow or [1.0])
    ctx.close("mean", ref.mean(got), y, scale=1.0)
    ctx.close("covariance", ref.cov(got, 0), U, scale=1.0, rtol=1e-8)


IIR = {
    "1": ([1.0], [1.0, -0.5]),
    "2": ([0.5, 0.2], [1.0, -0.9, 0.4]),
    "long-b": ([0.5, 0.2, -0.3], [1.0, 0.6]),
    "fir": ([0.5, -0.25], [1.0]),
}


def scn_iir(ctx):
    """certain recursive filter: exact moments"""
    f = ctx.choose("filter", list(IIR))
    n = ctx.pick("samples", [2, 3], [4, 5])
    uk = ctx.choose("Ux", ["float", "vec", "full", "rank1"])
    low = ctx.choose("low", list(LOW))
    b, a = IIR[f]
    p = len(a) + len(b) - 1
    if n + p > 10:
        ctx.prune()
    x, Ux = gen.vec("generic", n, 1), signal_unc(uk, n)
    ctx.go()
    got = [r[0].tolist() for _, r in rng.answers(
        lambda: ctx.call(rows, x, Ux, b, a, ref.zeros(p, p), low, runs=1, return_samples=True))]
    blow, alow = LOW[low]
    y, U = mcmodel.iir_moments(x, mcmodel.full_cov(Ux, n), b, a, blow, alow or [1.0])
    ctx.close("mean", ref.mean(got), y, scale=1.0)
    ctx.close("covariance", ref.cov(got, 0), U, scale=1.0, rtol=1e-8)


def scn_outcomes(ctx):
    """uncertain recursive coefficients, some draws unstable: the set of outcomes"""
    f = ctx.choose("filter", ["1", "2", "long-b", "edge", "fir"])
    b, a = IIR.get(f, ([0.7, 0.1], [1.0, -0.9]))
    n = ctx.pick("samples", [2, 3], [4])
    uk = ctx.choose("Ux", ["float", "vec", "gapped"])
    uab = ctx.choose("u_theta", ["small", "large", "a-only", "b-only"])
    low = ctx.choose("low", list(LOW))
    p = len(a) + len(b) - 1
    u = {
        "small": [0.05 + 0.03 * i for i in range(p)],
        "large": [0.45 + 0.2 * i for i in range(p)],
        "a-only": [0.2] * (len(a) - 1) + [0.0] * len(b),
        "b-only": [0.0] * (len(a) - 1) + [0.2 + 0.1 * i for i in range(len(b))],
    }[uab]
    x = gen.vec("generic", n, 1)
    Ux = signal_unc(uk, n)
    ux = [Ux] * n if isinstance(Ux, float) else Ux
    ctx.go()
    Uab = ref.diag([v * v for v in u])
    got = [r[0].tolist() for _, r in rng.answers(lambda: ctx.call(rows, x, Ux, b, a, Uab, low, runs=1, return_samples=True))]
    blow, alow = LOW[low]
    want = mcmodel.outcomes(x, ux, b, a, u, blow, alow or [1.0], unstable=[0.0] * n)
    mcmodel.multiset_equal(ctx, "outcomes", got, want, 1.0)


def scn_statistics(ctx):
    """returned mean and covariance are unbiased: their expectation over all answers is exact"""
    runs = ctx.choose("runs", [2, 3, 4])
    n = ctx.choose("samples", [2, 3])
    nb = ctx.choose("taps", [1, 2])
    uk = ctx.choose("Ux", ["float", "vec", "full"])
    ck = ctx.choose("Uab", ["zero", "diag", "full"])
    low = ctx.choose("low", ["none", "fir"])
    if runs * (n + nb) > (12 if ctx.thorough else 9):
        ctx.prune()
    x, b = gen.vec("generic", n, 1), gen.vec("generic", nb, 2)
    Ux, Ub = signal_unc(uk, n), gen.cov(ck, nb, 3)
    ctx.go()
    ys, us = [], []
    for _, r in rng.answers(lambda: ctx.call(rows, x, Ux, b, [1.0], Ub, low, runs=runs)):
        ctx.check("shapes", r[0].shape == (n,) and r[1].shape == (n, n), "%s %s" % (r[0].shape, r[1].shape))
        ys.append(r[0].tolist())
        us.append([v for row in r[1].tolist() for v in row])
    blow, alow = LOW[low]
    y, U = mcmodel.fir_moments(x, mcmodel.full_cov(Ux, n), b, Ub, blow, alow or [1.0])
    ctx.close("mean", ref.mean(ys), y, scale=1.0)
    ctx.close("covariance", ref.mean(us), [v for row in U for v in row], scale=1.0, rtol=1e-8)


def scn_stable_only(ctx):
    """mean and covariance come from the stable draws only; shift, verbosity do not matter otherwise"""
    runs = ctx.choose("runs", [4, 7, 10, 25])
    f = ctx.choose("filter", ["1", "2", "edge"])
    b, a = IIR.get(f, ([0.7, 0.1], [1.0, -0.9]))
    n = ctx.choose("samples", [3, 4, 6])
    start = ctx.pick("stream", list(range(2)), list(range(2, 30)))
    u = ctx.choose("u_a", [0.0, 0.15, 0.6])
    shift = ctx.choose("shift", [0, 1, 2, -1, 5])
    uk = ctx.choose("Ux", ["float", "full"])
    p = len(a) + len(b) - 1
    Uab = ref.diag([u * u] * (len(a) - 1) + [0.01] * len(b))
    x, Ux = gen.vec("positive", n, 1), signal_unc(uk, n)
    ctx.go()

    def once(**kw):
        rng.counter(1000 * start)
        return ctx.call(rows, x, Ux, b, a, Uab, "none", runs=runs, **kw)

    Y0 = once(return_samples=True).tolist()
    Y = once(return_samples=True, shift=shift).tolist()
    ctx.check("rows", len(Y) == runs, "%d rows" % len(Y))
    ctx.same("shift", Y, [[r[(i - shift) % n] for i in range(n)] for r in Y0])
    good = [r for r in Y if any(r)]
    if len(good) < 2:
        ctx.prune()
    y, U = once(shift=shift)
    ctx.close("mean-of-stable", y, ref.mean(good))
    ctx.close("covariance-of-stable", U, ref.cov(good), scale=1e-6)


def scn_errors(ctx):
    bad = ctx.choose("Ux", [[0.1, 0.1], "0.1", (0.1, 0.1), None])
    ctx.raises(NotImplementedError, MC, np.ones(2), bad, np.array([1.0]), np.array([1.0]), np.zeros((1, 1)), runs=2, verbose=False)


LONG = {
    "1": ([1.0], [1.0, -0.5]),
    "2": ([0.5, 0.2], [1.0, -0.9, 0.4]),
    "4": ([0.5, 0.2, -0.1, 0.3, 0.1], [1.0, -0.3, 0.25, 0.1, -0.05]),
    "fir": ([0.5, -0.25, 0.3, 0.1, -0.6, 0.2], [1.0]),
    "fir-long": (gen.vec("generic", 11, 3), [1.0]),
}


def scn_long(ctx):
    """longer signals, more runs, other magnitudes: exact law of every run (map from white noise to result)"""
    f = ctx.choose("filter", list(LONG))
    n, runs = ctx.pick("size", [(12, 1), (33, 1), (8, 9), (3, 24)], [(60, 1), (5, 40)])
    what = ctx.choose("uncertain", ["signal", "coefficients"])
    uk = ctx.choose("Ux", ["float", "vec", "full"]) if what == "signal" else "zero"
    low = ctx.choose("low", ["none", "fir", "iir"])
    s = ctx.choose("scale", gen.SCALES)
    if what == "coefficients" and not f.startswith("fir") or f == "fir-long" and n < 11:
        ctx.prune()
    if s != 1.0 and n * runs > 40 and uk != "vec":
        ctx.prune()
    ctx.go()
    b, a = LONG[f]
    p = len(a) + len(b) - 1
    x = gen.vec("generic", n, 1)
    Ux = 0.0 if what == "coefficients" else signal_unc(uk, n)
    if isinstance(Ux, float):
        Ux = Ux * s
    elif isinstance(Ux[0], list):
        Ux = gen.scaled(Ux, s)
    else:
        Ux = [v * s for v in Ux]
    Ub = gen.scaled(gen.cov("full", p, 3), s) if what == "coefficients" else ref.zeros(p, p)
    blow, alow = LOW[low]
    if what == "signal":
        y, U = mcmodel.iir_moments(x, mcmodel.full_cov(Ux, n), b, a, blow, alow or [1.0])
    else:
        y, U = mcmodel.fir_moments(x, ref.zeros(n, n), b, Ub, blow, alow or [1.0])
    mcmodel.affine(ctx, lambda: [v for r in ctx.call(rows, x, Ux, b, a, Ub, low, runs=runs, return_samples=True).tolist() for v in r],
                   runs, n, y, U, s)


def scn_many(ctx):
    """many runs: mean and covariance are those of the samples, samples do not depend on what is returned"""
    f = ctx.choose("filter", list(LONG))
    runs = ctx.pick("runs", [100, 333, 1000, 1025], [3000, 10000])
    n = ctx.choose("samples", [2, 20])
    uk = ctx.choose("Ux", ["float", "vec", "full"])
    low = ctx.choose("low", ["none", "iir"])
    if n == 20 and runs > 400 or runs > 1000 and low == "iir":
        ctx.prune()
    ctx.go()
    b, a = LONG[f]
    p = len(a) + len(b) - 1
    x, Ux, Uab = gen.vec("generic", n, 1), signal_unc(uk, n), ref.diag([1e-6 * (i + 1) for i in range(p)])

    def once(**kw):
        rng.counter(50)
        return ctx.call(rows, x, Ux, b, a, Uab, low, runs=runs, **kw)

    Y = once(return_samples=True).tolist()
    y, U = once()
    ctx.check("rows", len(Y) == runs and all(len(r) == n for r in Y), "shape of samples")
    ctx.check("distinct-runs", len(set(map(tuple, Y))) == runs, "runs repeat each other")
    ctx.close("mean", y, ref.mean(Y), scale=1e-3)
    ctx.close("covariance", U, ref.cov(Y), rtol=1e-8)


SCENARIOS = [
    ("fir", scn_fir),
    ("iir", scn_iir),
    ("outcomes", scn_outcomes),
    ("statistics", scn_statistics),
    ("stable-only", scn_stable_only),
    ("errors", scn_errors),
    ("long", scn_long),
    ("many", scn_many),
]
