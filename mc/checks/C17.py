"""Noise models."""
import cmath
import math

import numpy as np

from mc import gen, mcmodel, ref, rng
from PyDynamic.misc import noise as N

TITLE = "noise models: ARMA recursion, power law noise and its autocorrelation"
ASSUMPTIONS = ["the generator answers with two values per number; all answer sequences are enumerated"]

COEF = {
    "0": 0.0, "0i": 0, "0.5": 0.5, "-1i": -1,
    "1": [0.7], "2": [0.5, -0.3], "3": [0.2, 0.0, 0.6], "4": [0.1, -0.2, 0.3, 0.4], "zeros": [0.0, 0.0],
}


def scn_arma(ctx):
    """e[n] = sum_j phi_j e[n-j] + sum_j theta_j w[n-j] + w[n] for every noise sequence"""
    pk, qk = ctx.choose("phi", list(COEF)), ctx.choose("theta", list(COEF))
    n = ctx.pick("length", [1, 2, 3, 5], [7, 8])
    std = ctx.choose("std", [1.0, 0.25, 2])
    form = ctx.choose("form", ["list", "array"])
    phi, theta = COEF[pk], COEF[qk]
    if form == "array" and not (isinstance(phi, list) or isinstance(theta, list)):
        ctx.prune()
    ctx.go()
    conv = (lambda v: np.array(v) if form == "array" and isinstance(v, list) else v)
    got = [r.tolist() for _, r in rng.answers(lambda: ctx.call(N.ARMA, n, phi=conv(phi), theta=conv(theta), std=std))]
    pl, tl = [v if isinstance(v, list) else [float(v)] for v in (phi, theta)]
    want = []
    import itertools
    for s in itertools.product((1.0, -1.0), repeat=n):
        want.append(ref.lfilter([1.0] + tl, [1.0] + [-v for v in pl], [std * v for v in s]))
    mcmodel.multiset_equal(ctx, "recursion", got, want, 1.0)


def scn_white(ctx):
    n = ctx.choose("N", [1, 2, 4])
    m = ctx.choose("mean", [0, 1.5, -2.0])
    sd = ctx.choose("std", [1, 0.5])
    ctx.go()
    import itertools
    got = [r.tolist() for _, r in rng.answers(lambda: ctx.call(N.white_gaussian, n, mean=m, std=sd))]
    mcmodel.multiset_equal(ctx, "white", got, [[m + sd * v for v in s] for s in itertools.product((1.0, -1.0), repeat=n)], 1.0)


def dft_abs(x):
    n = len(x)
    return [abs(sum(x[t] * cmath.exp(-2j * math.pi * k * t / n) for t in range(n))) for k in range(n // 2 + 1)]


COLORS = {"violet": 2, "blue": 1, "white": 0, "pink": -1, "red": -2, "brown": -2}
SHAPES = ["generic", "unit0", "unit3", "alt", "ramp", "wide", "positive"]


def scn_power_law(ctx):
    """given white noise: exact mean and standard deviation, colour names, scaling and composition of exponents"""
    n = ctx.pick("length", [4, 5, 8, 9, 16], [31, 64])
    color = ctx.choose("color", list(COLORS) + [0.5, -3, 1.5, 0])
    sh = ctx.choose("w", SHAPES)
    mean = ctx.choose("mean", [0.0, 1.25, -3])
    std = ctx.choose("std", [1.0, 0.3])
    ctx.go()
    w = gen.vec(sh, n, 2)
    alpha = COLORS.get(color, color)
    y = ctx.call(N.power_law_noise, w=np.array(w), color_value=color, mean=mean, std=std).tolist()
    ctx.check("length", len(y) == n, "%d values" % len(y))
    m = sum(y) / n
    s = math.sqrt(sum((v - m) ** 2 for v in y) / n)
    ctx.close("mean", m, mean, scale=1.0)
    ctx.close("std", s, std, scale=1.0)
    ctx.close("name-is-exponent", y, ctx.call(N.power_law_noise, w=np.array(w), color_value=alpha, mean=mean, std=std).tolist(), scale=1.0)
    z = ctx.call(N.power_law_noise, w=5.0 * np.array(w) + 2.0, color_value=color, mean=mean, std=std).tolist()
    ctx.close("offset-and-scale-of-w", z, y, scale=1.0, rtol=1e-7)
    one = ctx.call(N.power_law_noise, w=np.array(w), color_value=alpha - 1.0).tolist()
    two = ctx.call(N.power_law_noise, w=np.array(one), color_value=1.0, mean=mean, std=std).tolist()
    ctx.close("exponents-add", two, y, scale=1.0, rtol=1e-7)
    if alpha == 0:
        mw = sum(w) / n
        sw = math.sqrt(sum((v - mw) ** 2 for v in w) / n)
        ctx.close("white", y, [mean + std * (v - mw) / sw for v in w], scale=1.0)
    # ratio of the spectra grows (falls) with the frequency like a power
    a, b = dft_abs(y)[1:], dft_abs(w)[1:]
    r = [(p / q) if q > 1e-6 else None for p, q in zip(a, b)]
    r = [(k + 1, v) for k, v in enumerate(r) if v is not None]
    for (k1, v1), (k2, v2) in zip(r, r[1:]):
        g = math.log(v2 / v1)
        if alpha == 0:
            ctx.check("slope", abs(g) < 1e-6, "white noise is not white")
        else:
            # sqrt of the power: amplitude ~ (index)^(alpha/2), index of k at least k and at most k+2
            lim = abs(alpha) / 2.0 * math.log(float(k2) / k1)
            ctx.check("slope", g * alpha > 0 and abs(g) <= lim + 1e-6, "from bin %d to %d: log ratio %r, at most %r" % (k1, k2, g, lim))
            low = abs(alpha) / 2.0 * math.log((k2 + 3.0) / (k1 + 3.0))
            ctx.check("slope", abs(g) >= low - 1e-6, "from bin %d to %d: log ratio %r, at least %r" % (k1, k2, g, low))


def scn_generated(ctx):
    """drawing the white noise internally = drawing it first"""
    n = ctx.choose("N", [4, 7, 12])
    color = ctx.choose("color", list(COLORS))
    seed = ctx.choose("stream", [0, 1, 2])
    ctx.go()
    rng.counter(100 * seed)
    w = N.white_gaussian(n)
    want = ctx.call(N.power_law_noise, w=w, color_value=color, mean=0.5, std=2.0).tolist()
    rng.counter(100 * seed)
    got = ctx.call(N.power_law_noise, N=n, color_value=color, mean=0.5, std=2.0)
    ctx.close("same", got, want, scale=1.0)


def scn_acf(ctx):
    """autocorrelation: variance at lag zero, scaling, valid covariance (positive semi-definite)"""
    n = ctx.pick("N", [2, 3, 4, 5, 8, 13], [20, 32])
    color = ctx.choose("color", list(COLORS) + [0.5, -3.0])
    std = ctx.choose("std", [1.0, 0.2, 3])
    ctx.go()
    r = ctx.call(N.power_law_acf, n, color_value=color, std=std).tolist()
    ctx.check("length", len(r) == n, "%d values" % len(r))
    ctx.close("variance", r[0], std ** 2)
    base = ctx.call(N.power_law_acf, n, color_value=COLORS.get(color, color)).tolist()
    ctx.close("scaling", r, [std ** 2 * v for v in base], scale=std ** 2)
    ev = ref.jacobi_eigvals(ref.toeplitz(base, n))
    ctx.check("psd", ev[0] >= -1e-9, "eigenvalues %s" % ev)
    if COLORS.get(color, color) == 0:
        ctx.close("white", base, [1.0] + [0.0] * (n - 1))
    elif n > 2:
        # positive exponents alternate first, negative ones are positively correlated with the neighbour
        ctx.check("neighbour", base[1] * COLORS.get(color, color) < 0, "R1=%r" % base[1])


def scn_errors(ctx):
    c = ctx.choose("case", ["name", "none", "list", "both"])
    f = ctx.choose("function", ["alpha", "noise", "acf"])
    call = {
        "alpha": lambda v: N.get_alpha(v),
        "noise": lambda v: N.power_law_noise(N=4, color_value=v),
        "acf": lambda v: N.power_law_acf(4, color_value=v),
    }[f]
    rng.counter(3)
    if c == "name":
        ctx.raises(NotImplementedError, call, "green")
    elif c == "none":
        ctx.raises(IOError, call, None)
    elif c == "list":
        ctx.raises(IOError, call, [1])
    else:
        if f != "noise":
            ctx.prune()
        ctx.raises(UserWarning, N.power_law_noise, N=3, w=np.ones(3))


def scn_arma_long(ctx):
    """long noise and long coefficient vectors: the noise is a linear map of the random numbers, found exactly"""
    p = ctx.choose("p", [0, 1, 3, 6, 9])
    q = ctx.choose("q", [0, 1, 3, 6, 9])
    n = ctx.pick("length", [10, 33, 64], [150])
    std = ctx.choose("std", [1.0, 1e-6, 1e4, 3])
    ctx.go()
    phi, theta = [0.2 * gen.gval(i, 3) for i in range(p)], [gen.gval(i, 4) for i in range(q)]
    base, cols = rng.linear_map(lambda: ctx.call(N.ARMA, n, phi=list(phi), theta=np.array(theta) if q else 0.0, std=std).tolist())
    ctx.close("offset", base, [0.0] * n, atol=0.0)
    used = [c for c in cols if any(c)]
    ctx.check("noises", len(used) == n, "%d random numbers for %d values" % (len(used), n))
    h = mcmodel.impulse([1.0] + theta, [1.0] + [-v for v in phi], n)
    used.sort(key=lambda c: [v == 0 for v in c].index(False))
    sg = [1.0 if c[k] > 0 else -1.0 for k, c in enumerate(used)]
    got = [[sg[k] * v for v in c] for k, c in enumerate(used)]
    want = [[std * h[i - k] if i >= k else 0.0 for i in range(n)] for k in range(n)]
    ctx.close("recursion", got, want, scale=std, rtol=1e-10)


def scn_power_law_long(ctx):
    """longer noise: exact moments, and the spectrum against the definition frequency by frequency"""
    n = ctx.pick("length", [3, 33, 64, 100], [255, 600])
    color = ctx.choose("color", list(COLORS) + [0.5, 0])
    mean = ctx.choose("mean", [0.0, -250.0])
    std = ctx.choose("std", [1.0, 1e-4, 500.0])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ctx.go()
    w = gen.vec("generic", n, 2)
    y = ctx.call(N.power_law_noise, w=gen.lay(w, lay), color_value=color, mean=mean, std=std).tolist()
    ctx.check("length", len(y) == n, "%d values" % len(y))
    m = sum(y) / n
    s = math.sqrt(sum((v - m) ** 2 for v in y) / n)
    ctx.close("mean", m, mean, atol=1e-9 * max(std, abs(mean)))
    ctx.close("std", s, std, rtol=1e-7)
    base = ctx.call(N.power_law_noise, w=gen.arr(w), color_value=COLORS.get(color, color)).tolist()
    ctx.close("mean-and-std-only-shift-and-scale", [(v - mean) / std for v in y], base, scale=1.0, atol=1e-12 * abs(mean) / std, rtol=1e-9)
    alpha = COLORS.get(color, color)
    a, b = dft_abs(base)[1:], dft_abs(w)[1:]
    r = [(k + 1, p / q) for k, (p, q) in enumerate(zip(a, b)) if q > 1e-6]
    for (k1, v1), (k2, v2) in zip(r, r[1:]):
        g = math.log(v2 / v1)
        lim = abs(alpha) / 2.0 * math.log(float(k2) / k1) + 1e-6
        low = abs(alpha) / 2.0 * math.log((k2 + 3.0) / (k1 + 3.0)) - 1e-6
        ctx.check("slope", low <= (g if alpha > 0 else -g) <= lim, "from bin %d to %d: log ratio %r" % (k1, k2, g))


SCENARIOS = [
    ("arma", scn_arma),
    ("white", scn_white),
    ("power-law", scn_power_law),
    ("generated", scn_generated),
    ("acf", scn_acf),
    ("errors", scn_errors),
    ("arma-long", scn_arma_long), ("power-law-long", scn_power_law_long),
]
