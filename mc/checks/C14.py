"""Update Monte Carlo for digital filters."""
import itertools

import numpy as np

from mc import fakepool, gen, mcmodel, ref, rng
from PyDynamic.uncertainty.propagate_MonteCarlo import UMC

TITLE = "UMC: update Monte Carlo for digital filters"
ASSUMPTIONS = [
    "every random number is one of two values with the mean and variance of the law it stands for; "
    "all answer sequences of the generator are enumerated, so averages are exact expectations",
    "the worker pool is simulated in this process (its schedules are explored in C16)",
]
LOW = {"none": {}, "fir": {"blow": [0.5, 0.25]}, "iir": {"blow": [0.7], "alow": [1.0, -0.4]},
       "scaled": {"blow": [1.4, 0.2], "alow": [2.0, -0.8]}, "gain": {"blow": 0.5}, "gain2": {"blow": 1.5, "alow": 2.0}}
FILT = {
    "gain": ([0.8], [1.0]),
    "fir2": ([0.5, -0.25], [1.0]),
    "iir1": ([1.0], [1.0, -0.5]),
    "iir11": ([1.0, 0.3], [1.0, -0.5]),
    "iir2": ([0.5], [1.0, -0.9, 0.4]),
}


def low_pass(low):
    kw = {k: (v if isinstance(v, float) else np.array(v)) for k, v in LOW[low].items()}
    b = LOW[low].get("blow", 1.0)
    a = LOW[low].get("alow", 1.0)
    b, a = [[v] if isinstance(v, float) else v for v in (b, a)]
    return kw, [v / a[0] for v in b], [v / a[0] for v in a]


def run(ctx, x, f, Uab, low, **kw):
    b, a = FILT[f] if isinstance(f, str) else f
    lk, _, _ = low_pass(low)
    with fakepool.active():
        return ctx.call(UMC, np.array(x), np.array(b), np.array(a), np.array(Uab), **lk, **kw)


def draws(f, n, runs):
    b, a = f if not isinstance(f, str) else FILT[f]
    return (runs + 1) * (len(b) + len(a) - 1 + 2 * n)


def scn_linear(ctx):
    """one run, certain coefficients: exact mean and covariance of the outcomes"""
    f = ctx.choose("filter", ["gain", "fir2", "iir1"])
    n = ctx.choose("samples", [1, 2])
    low = ctx.choose("low", list(LOW))
    noise = ctx.choose("noise", ["white", "ar", "ma", "arma"])
    delta = ctx.choose("Delta", [0.0, 0.3])
    if n == 1 and noise != "white" or draws(f, n, 1) > 12 or noise not in ("white", "arma") and delta:
        ctx.prune()
    if not ctx.thorough and (
            draws(f, n, 1) > 10 or draws(f, n, 1) == 10 and (low not in ("none", "scaled") or noise == "ar" or low == "scaled" and noise == "ma")):
        ctx.prune()
    ctx.go()
    x, sigma = gen.vec("generic", n, 1), 0.7
    kw = {}
    phi, theta = {"white": ([], []), "ar": ([0.5], []), "ma": ([], [0.4]), "arma": ([0.5], [0.4])}[noise]
    if phi:
        kw["phi"] = np.array(phi)
    if theta:
        kw["theta"] = np.array(theta)
    b, a = FILT[f]
    p = len(a) + len(b) - 1
    got = [r[0].tolist() for _, r in rng.answers(
        lambda: run(ctx, x, f, ref.zeros(p, p), low, sigma=sigma, Delta=delta, runs=1, blocksize=1, runs_init=1, nbins=1, **kw))]
    _, bl, al = low_pass(low)
    N = mcmodel.conv_matrix(mcmodel.impulse([1.0] + theta, [1.0] + [-v for v in phi], n), n)
    y, U = mcmodel.iir_moments(x, ref.scal(sigma * sigma, ref.mm(N, ref.T(N))), b, a, bl, al)
    ctx.close("mean", ref.mean(got), y, scale=1.0)
    ctx.close("covariance", ref.cov(got, 0), ref.madd(U, ref.eye(n, delta * delta / 3.0)), scale=1.0, rtol=1e-8)


def scn_outcomes(ctx):
    """one run, uncertain coefficients: the set of outcomes"""
    f = ctx.choose("filter", list(FILT))
    n = ctx.choose("samples", [1, 2])
    low = ctx.choose("low", ["none", "scaled", "iir"])
    which = ctx.choose("u_theta", ["all", "first", "last"])
    sigma = ctx.choose("sigma", [1, 0.25])
    if draws(f, n, 1) > (14 if ctx.thorough else 12) or sigma == 1 and which != "all":
        ctx.prune()
    if not ctx.thorough and (draws(f, n, 1) > 10 or draws(f, n, 1) == 10 and (low != "none" or sigma == 1)):
        ctx.prune()
    b, a = FILT[f]
    p = len(a) + len(b) - 1
    u = [0.1 + 0.07 * i for i in range(p)]
    if which != "all":
        u = [v if i == (0 if which == "first" else p - 1) else 0.0 for i, v in enumerate(u)]
    ctx.go()
    x = gen.vec("generic", n, 1)
    Uab = ref.diag([v * v for v in u])
    _, bl, al = low_pass(low)
    got = [r[0].tolist() for _, r in rng.answers(
        lambda: run(ctx, x, f, Uab, low, sigma=sigma, runs=1, blocksize=2, runs_init=1, nbins=2))]
    mcmodel.multiset_equal(ctx, "outcomes", got, mcmodel.outcomes(x, [float(sigma)] * n, b, a, u, bl, al), 1.0)


def scn_correlated(ctx):
    """correlated coefficients of a FIR filter: exact covariance; unbiased covariance for two runs"""
    case = ctx.choose("case", [(2, 1, 1), (2, 2, 1), (1, 1, 2), (1, 1, 3)])
    n, nb, runs = case
    ck = ctx.choose("Uab", ["diag", "full", "rank1"] if nb > 1 else ["diag"])
    bs = ctx.choose("blocksize", [1, 2])
    d = (runs + 1) * (nb + 2 * n)
    if d > (12 if ctx.thorough else 10):
        ctx.prune()
    ctx.go()
    x, b, Ub, sigma = gen.vec("generic", n, 1), gen.vec("generic", nb, 2), gen.cov(ck, nb, 3), 0.6
    ys, us = [], []
    for _, r in rng.answers(lambda: run(ctx, x, (b, [1.0]), Ub, "none", sigma=sigma, runs=runs, blocksize=bs, runs_init=1, nbins=2)):
        ys.append(r[0].tolist())
        us.append([v for row in r[1].tolist() for v in row])
    y, U = mcmodel.fir_moments(x, ref.eye(n, sigma * sigma), b, Ub, None, [1.0])
    ctx.close("mean", ref.mean(ys), y, scale=1.0)
    if runs == 1:
        ctx.close("covariance", ref.cov(ys, 0), U, scale=1.0, rtol=1e-8)
    else:
        ctx.close("covariance", ref.mean(us), [v for row in U for v in row], scale=1.0, rtol=1e-8)


def interp(v, e, G):
    for i in range(len(e) - 1):
        if v <= e[i + 1]:
            return G[i] + (G[i + 1] - G[i]) * (v - e[i]) / (e[i + 1] - e[i])
    return G[-1]


def scn_credible(ctx):
    """credible intervals belong to the returned histograms; configuration of bins is honoured"""
    f = ctx.choose("filter", ["gain", "iir1", "fir2"])
    runs = ctx.choose("runs", [2, 5, 20])
    bs = ctx.choose("blocksize", [1, 3, 8])
    init = ctx.choose("runs_init", [2, 6])
    nbins = ctx.choose("nbins", [1, 4, 30, [3, 10], [50, 2]])
    ci = ctx.choose("credible_interval", [0.95, 0.5, 0.0, 0.99])
    n = ctx.choose("samples", [1, 4])
    low = ctx.choose("low", ["none", "scaled"])
    if not ctx.thorough and (low == "scaled" and f != "iir1" or n == 1 and runs == 5):
        ctx.prune()
    ctx.go()
    b, a = FILT[f]
    p = len(a) + len(b) - 1
    rng.counter(40)
    x = gen.vec("generic", n, 1)
    y, Uy, lo, hi, happr = run(ctx, x, f, ref.diag([1e-4] * p), low, sigma=0.3, runs=runs, blocksize=bs, runs_init=init, nbins=nbins,
                               credible_interval=ci)
    bins = [nbins] if isinstance(nbins, int) else nbins
    ctx.check("shapes", y.shape == (n,) and Uy.shape == (n, n) and lo.shape == hi.shape == (len(bins), n), "shapes")
    ctx.check("bins", sorted(happr) == sorted(bins), "histograms %s instead of %s" % (sorted(happr), bins))
    for m, nb in enumerate(bins):
        e, c = happr[nb]["bin-edges"].tolist(), happr[nb]["bin-counts"].tolist()
        ctx.check("edges", len(e) == nb + 1 and len(c) == nb, "size of histogram")
        for k in range(n):
            ek, ck = [r[k] for r in e], [r[k] for r in c]
            ctx.check("counts", sum(ck) == runs, "%s" % ck)
            ctx.check("ordered", ek[0] - 1e-12 <= lo[m, k] <= hi[m, k] <= ek[-1] + 1e-12, "%r %r in %s" % (lo[m, k], hi[m, k], ek))
            ctx.check("mean-inside", ek[0] - 1e-9 <= y[k] <= ek[-1] + 1e-9, "mean outside of the range")
            G = [0.0]
            for v in ck:
                G.append(G[-1] + v / runs)
            ctx.close("probability", [interp(float(lo[m, k]), ek, G), interp(float(hi[m, k]), ek, G)], [(1 - ci) / 2, (1 + ci) / 2], rtol=1e-7, scale=1.0)


def scn_defaults(ctx):
    """defaults: unit white noise, 1000 bins, 95 % interval; scaling of the low pass does not matter"""
    f = ctx.choose("filter", list(FILT))
    case = ctx.choose("case", ["defaults", "scale"])
    c = ctx.choose("scale", [2.0, -0.5]) if case == "scale" else 1.0
    ctx.go()
    b, a = FILT[f]
    p = len(a) + len(b) - 1
    x = gen.vec("generic", 3, 1)
    U = np.array(ref.diag([1e-4] * p))

    def once(**kw):
        rng.counter(7)
        with fakepool.active():
            return ctx.call(UMC, np.array(x), np.array(b), np.array(a), U, runs=12, runs_init=4, **kw)

    if case == "defaults":
        r = once()
        q = once(blocksize=8, blow=1.0, alow=1.0, phi=0.0, theta=0.0, sigma=1, Delta=0.0, nbins=1000, credible_interval=0.95)
        ctx.check("bins", list(r[4]) == [1000], "bins %s" % list(r[4]))
    else:
        bl, al = np.array([0.4, 0.3]), np.array([1.0, -0.3])
        r, q = once(blow=bl, alow=al, nbins=5), once(blow=c * bl, alow=c * al, nbins=5)
    for i in range(4):
        ctx.close("value%d" % i, r[i], q[i].tolist(), scale=1.0)


def scn_long(ctx):
    """longer signals, several runs and blocks, other magnitudes: the mean is an affine map of the random numbers,
    its exact covariance that of one run divided by the number of runs"""
    f = ctx.choose("filter", ["gain", "fir2", "iir11", "iir2", "order3", "fir7"])
    n, runs, bs = ctx.pick("size", [(12, 1, 1), (20, 1, 8), (5, 7, 3), (3, 9, 8)], [(30, 1, 8), (3, 20, 8), (5, 40, 7)])
    noise = ctx.choose("noise", ["white", "ar", "ma", "arma"])
    low = ctx.choose("low", ["none", "iir", "scaled"])
    s = ctx.choose("scale", gen.SCALES)
    if s != 1.0 and (noise != "white" or low != "none" or n != 12):
        ctx.prune()
    if n != 12 and f not in ("iir2", "fir7"):
        ctx.prune()
    ctx.go()
    b, a = fl = {"order3": ([0.5, 0.2, -0.1], [1.0, -0.4, 0.3, -0.1]), "fir7": (gen.vec("generic", 7, 3), [1.0])}.get(f) or FILT[f]
    p = len(a) + len(b) - 1
    x, sigma = gen.vec("generic", n, 1), 0.7 * s
    kw = {}
    phi, theta = {"white": ([], []), "ar": ([0.5], []), "ma": ([], [0.4]), "arma": ([0.5], [0.4])}[noise]
    if phi:
        kw["phi"] = np.array(phi)
    if theta:
        kw["theta"] = np.array(theta)
    _, bl, al = low_pass(low)
    N = mcmodel.conv_matrix(mcmodel.impulse([1.0] + theta, [1.0] + [-v for v in phi], n), n)
    y, U = mcmodel.iir_moments(x, ref.scal(sigma * sigma / runs, ref.mm(N, ref.T(N))), b, a, bl, al)
    mcmodel.affine(
        ctx, lambda: run(ctx, x, fl, ref.zeros(p, p), low, sigma=sigma, runs=runs, blocksize=bs, runs_init=2, nbins=3, **kw)[0].tolist(),
        1, n, y, U, s)


def scn_long_coefficients(ctx):
    """uncertain FIR coefficients, certain signal"""
    nb = ctx.choose("taps", [1, 2, 5, 8])
    n, runs, bs = ctx.pick("size", [(12, 1, 1), (5, 7, 3), (3, 20, 8)], [(40, 3, 2)])
    low = ctx.choose("low", ["none", "iir", "scaled"])
    s = ctx.choose("scale", gen.SCALES)
    if s != 1.0 and (n != 12 or low != "none"):
        ctx.prune()
    ctx.go()
    x, b, Ub = gen.vec("generic", n, 1), gen.vec("generic", nb, 2), gen.scaled(gen.cov("full", nb, 3), s)
    _, bl, al = low_pass(low)
    y, U = mcmodel.fir_moments(x, ref.zeros(n, n), b, gen.scaled(Ub, runs ** -0.5), bl, al)
    mcmodel.affine(ctx, lambda: run(ctx, x, (b, [1.0]), Ub, low, sigma=0.0, runs=runs, blocksize=bs, runs_init=2, nbins=3)[0].tolist(), 1, n, y, U, s)


SCENARIOS = [("linear", scn_linear), ("outcomes", scn_outcomes), ("correlated", scn_correlated), ("credible", scn_credible), ("defaults", scn_defaults), ("long", scn_long), ("long-coefficients", scn_long_coefficients)]
