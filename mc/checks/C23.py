"""Impulse invariance: digital filter with the sampled impulse response of an analogue system."""
import cmath
import itertools
import math

import numpy as np

from mc import gen
from PyDynamic.misc.impinvar import impinvar, impinvar_causal

TITLE = "impulse invariant digital filters"
ASSUMPTIONS = [
    "poles of the analogue system are equal or separated by much more than the tolerance of the partial fraction expansion",
    "no aliasing of two different poles on each other",
]
# modes: (pole, multiplicity); complex ones stand for the conjugate pair
MODES = [(-1.0, 1), (-2.5, 1), (0.0, 1), (0.4, 1), (-0.5 + 2j, 1), (-0.2 + 0.9j, 1), (3j, 1), (-1.7, 2), (-0.6, 3), (-0.8 + 1.5j, 2)]
RES = [(1.0, 0.5), (-0.7, 1.3), (0.0, 2.0), (2.0, -1.0)]


def pmul(a, b):
    out = [0j] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def system(modes, pattern, scale):
    """-> b, a (highest power first), terms (residue, order, pole)"""
    roots, terms = [], []
    for k, (p, m) in enumerate(modes):
        for q in ([p] if not isinstance(p, complex) else [p, p.conjugate()]):
            roots.append((complex(q) * scale, m))
            for j in range(m):
                x, y = RES[(pattern + k + j) % 4]
                r = complex(x, y if isinstance(p, complex) else 0.0)
                if isinstance(p, complex) and complex(q).imag < 0:
                    r = r.conjugate()
                if x == 0.0 and not isinstance(p, complex) and j == m - 1:
                    r = 0.6  # keep the pole
                terms.append((r * scale ** (j + 1), j, complex(q) * scale))
    a = [1 + 0j]
    for q, m in roots:
        for _ in range(m):
            a = pmul(a, [1.0, -q])
    n = len(a) - 1
    b = [0j] * n
    for r, j, p in terms:
        f = [r]
        for q, m in roots:
            for _ in range(m - (j + 1 if q == p else 0)):
                f = pmul(f, [1.0, -q])
        for i, v in enumerate(reversed(f)):
            b[n - 1 - i] += v
    return [z.real for z in b], [z.real for z in a], terms


def response(terms, ts, N, causal):
    out = []
    for n in range(N):
        t = n * ts
        out.append((ts * sum(r * t ** j / math.factorial(j) * cmath.exp(p * t) for r, j, p in terms)).real)
    if causal:
        out[0] = 0.0
    return out


def impulse(b, a, N):
    b, a = [float(v) for v in b], [float(v) for v in a]
    y = []
    for n in range(N):
        v = b[n] if n < len(b) else 0.0
        for k in range(1, min(n, len(a) - 1) + 1):
            v -= a[k] * y[n - k]
        y.append(v / a[0])
    return y


def compare(ctx, b, a, terms, fs, causal, mult):
    ctx.check("real", np.isrealobj(b) and np.isrealobj(a) and np.ndim(b) == 1 and np.ndim(a) == 1, "%s %s" % (b, a))
    order = sum(1 for _ in terms)
    ctx.check("order", len(a) == order + 1, "denominator of order %d" % order)
    N = 3 * order + 6
    want = response(terms, 1.0 / fs, N, causal)
    scale = max(abs(v) for v in want)
    big = max(sum(abs(v) for v in a), 1.0) / abs(a[0])
    rtol = {1: 1e-7, 2: 1e-6, 3: 1e-4}[mult] * (1.0 if fs < 20 else big)
    ctx.close("impulse-response", impulse(b, a, N), want, rtol=rtol, scale=scale)


def check_system(ctx, modes, pattern, scale, fs, form):
    b, a, terms = system(modes, pattern, scale)
    causal = ctx.choose("function", ["impinvar", "impinvar_causal"]) == "impinvar_causal"
    ctx.go()
    mult = max(m for _, m in modes)
    if form == "gain":
        b, a = [v * 2.5 for v in b], [v * 2.5 for v in a]
    elif form == "zeros":
        b = [0.0] * 1 + b
    elif form == "strip":
        while len(b) > 1 and abs(b[0]) < 1e-12:
            b = b[1:]
    B, A = (list(b), list(a)) if form == "strip" else (gen.arr(b), gen.arr(a))
    kw = {} if fs == 1 else {"fs": fs}
    bz, az = ctx.call(impinvar_causal if causal else impinvar, B, A, **kw)
    compare(ctx, bz, az, terms, fs, causal, mult)
    if causal:
        ctx.check("h0", abs(bz[0]) <= 1e-12 * max(abs(float(v)) for v in bz), "%r" % (bz,))


def scn_simple(ctx):
    """every set of one to three (four) modes"""
    k = ctx.pick("modes", [1, 2, 3], [4])
    modes = ctx.choose("set", [c for c in itertools.combinations(MODES[:7], k)])
    pattern = ctx.choose("residues", list(range(4)))
    scale = ctx.choose("scale", [1.0, 0.1, 40.0])
    fs = ctx.choose("fs", [1, 4.0, 10]) * (scale if scale > 1 else 1)
    check_system(ctx, modes, pattern, scale, fs, ctx.choose("form", ["array", "gain", "zeros", "strip"]))


def scn_multiple(ctx):
    k = ctx.choose("others", [0, 1, 2])
    mult = ctx.choose("multiple", MODES[7:])
    modes = list(ctx.choose("set", [c for c in itertools.combinations(MODES[:7], k)]))
    modes.insert(ctx.choose("position", list(range(k + 1))), mult)
    pattern = ctx.choose("residues", list(range(4)))
    if sum(m * (2 if isinstance(p, complex) else 1) for p, m in modes) > 6:
        ctx.prune()
    fs = ctx.choose("fs", [1, 4.0])
    check_system(ctx, modes, pattern, 1.0, fs, ctx.choose("form", ["array", "gain"]))


def scn_lowpass(ctx):
    """systems without jump: numerator of every lower degree, second order systems among them"""
    k = ctx.choose("modes", [1, 2, 3])
    modes = ctx.choose("set", [c for c in itertools.combinations(MODES[:7], k)])
    fs = ctx.choose("fs", [1, 4.0, 10, 1e3])
    roots = []
    for p, m in modes:
        roots += [complex(p)] if not isinstance(p, complex) else [p, p.conjugate()]
    deg = ctx.choose("numerator", list(range(len(roots))))
    num = ctx.choose("pattern", ["one", "gval"])
    causal = ctx.choose("function", ["impinvar", "impinvar_causal"]) == "impinvar_causal"
    if fs == 1e3 and len(roots) > 3:
        ctx.prune()
    ctx.go()
    b = [1.0 if num == "one" and i == deg else (0.0 if num == "one" else 1.0 + gen.gval(i, 4)) for i in range(deg + 1)]
    if num == "one":
        b = [2.0] + [0.0] * deg
    a = [1 + 0j]
    for q in roots:
        a = pmul(a, [1.0, -q])
    terms = []
    for q in roots:
        d = 1.0
        for o in roots:
            if o != q:
                d *= q - o
        v = 0j
        for c in b:
            v = v * q + c
        terms.append((v / d, 0, q))
    bz, az = ctx.call(impinvar_causal if causal else impinvar, gen.arr(b), gen.arr([z.real for z in a]), fs)
    compare(ctx, bz, az, terms, fs, causal, 1)


PAIRS = [(-1.0, -1.03), (-1.0, -1.1), (-0.5 + 2j, -0.53 + 2j), (-0.5 + 2j, -0.5 + 2.1j), (-1.0, -0.95 + 0.1j), (0.0, -0.05), (3j, -0.1 + 3j)]


def scn_neighbours(ctx):
    """different poles that are close in comparison with their size"""
    pair = ctx.choose("pair", PAIRS)
    other = ctx.choose("other", [None, (-2.5, 1), (-0.2 + 0.9j, 1)])
    pattern = ctx.choose("residues", list(range(4)))
    scale = ctx.choose("scale", [1.0, 10.0, 40.0, 1000.0])
    fs = ctx.choose("fs", [1, 4.0, 10]) * scale
    causal = ctx.choose("function", ["impinvar", "impinvar_causal"]) == "impinvar_causal"
    ctx.go()
    modes = [(p, 1) for p in pair] + ([other] if other else [])
    b, a, terms = system(modes, pattern, scale)
    bz, az = ctx.call(impinvar_causal if causal else impinvar, gen.arr(b), gen.arr(a), fs)
    compare(ctx, bz, az, terms, fs, causal, 3)


def scn_close(ctx):
    """slow poles, fast sampling: poles that nearly meet in the z-domain only"""
    fs = ctx.choose("fs", [1e4, 1e5])
    p = ctx.choose("poles", [(-1.0, -2.0), (-1.0, -1.5), (-5.0, -7.0)])
    r = ctx.choose("residues", [(1.0, -1.0), (1.0, 2.0), (0.5, -2.0)])
    ctx.go()
    a = [1.0, -p[0] - p[1], p[0] * p[1]]
    b = [r[0] + r[1], -r[0] * p[1] - r[1] * p[0]]
    bz, az = ctx.call(impinvar, b, a, fs=fs)
    ctx.check("order", len(az) == 3, "%r" % (az,))
    ts = 1 / fs
    z = [math.exp(q * ts) for q in p]
    ctx.close("denominator", az, [1.0, -z[0] - z[1], z[0] * z[1]], rtol=1e-13)
    bz = [float(v) for v in bz] + [0.0] * (2 - len(bz))
    ctx.close("numerator", bz, [ts * (r[0] + r[1]), -ts * (r[0] * z[1] + r[1] * z[0])], rtol=1e-11, atol=1e-11 * ts)


def scn_errors(ctx):
    """a direct feedthrough cannot be sampled"""
    p = ctx.choose("denominator", [[1.0, 2.0], [1.0, 0.4, 1.0], [2.0, 6.0, 4.0]])
    extra = ctx.choose("excess", [0, 1, 2])
    f = ctx.choose("function", [impinvar, impinvar_causal])
    ctx.raises(ValueError, f, [1.5, 1.0, 3.0, 0.3, 0.2][: len(p) + extra], p)


def scn_forms(ctx):
    """higher orders, other magnitudes, other memory layouts, integer coefficients"""
    n = ctx.pick("order", [2, 4, 6], [8])
    scale = ctx.choose("scale", [1.0, 0.1, 1e5])
    gain = ctx.choose("gain", [1.0, 1e-9, -1e7])
    fs = ctx.choose("fs", [1.0, 3.0]) * scale
    pattern = ctx.choose("residues", list(range(4)))
    lay = ctx.choose("layout", gen.LAYOUTS + ["int"])
    causal = ctx.choose("function", ["impinvar", "impinvar_causal"]) == "impinvar_causal"
    if lay == "int" and (scale != 1.0 or gain < 1 and gain != -1e7 or fs != 1.0 or n > 4):
        ctx.prune()
    ctx.go()
    if lay == "int":
        # residues at the poles -1, -2, (-3, -4): integers give integer coefficients
        poles = [-1.0, -2.0, -3.0, -4.0][:n]
        res = [[1, -2, 3, 1], [2, 2, -1, -1], [1, 0, 0, 5], [-3, 1, 1, 1]][pattern][:n]
        res = [r or 7 for r in res]
        b, a = [0.0] * n, [1 + 0j]
        for q in poles:
            a = pmul(a, [1.0, -q])
        for q, r in zip(poles, res):
            g = [complex(r)]
            for o in poles:
                if o != q:
                    g = pmul(g, [1.0, -o])
            b = [v + w.real for v, w in zip(b, g)]
        a = [z.real for z in a]
        terms = [(complex(r), 0, complex(q)) for q, r in zip(poles, res)]
        B, A = [int(round(gain * v)) for v in b], [int(round(v)) for v in a]
        B, A = (np.array(B), np.array(A)) if pattern % 2 else (B, A)
    else:
        modes = ([(-0.3, 1), (-1.1, 1)] + [(-0.15 * (k + 1) + (0.8 + 0.55 * k) * 1j, 1) for k in range(3)])[: {2: 2, 4: 3, 6: 4, 8: 5}[n]]
        b, a, terms = system(modes, pattern, scale)
        B, A = gen.lay([gain * v for v in b], lay), gen.lay(a, lay)
    bz, az = ctx.call(impinvar_causal if causal else impinvar, B, A, fs=fs)
    terms = [(gain * r, j, p) for r, j, p in terms]
    ctx.check("order", len(az) == len(terms) + 1, "denominator of order %d" % len(terms))
    N = 3 * len(terms) + 6
    want = response(terms, 1.0 / fs, N, causal)
    ctx.close("impulse-response", impulse(bz, az, N), want, rtol=1e-6, scale=max(abs(v) for v in want))
    if causal:
        ctx.check("h0", abs(bz[0]) <= 1e-12 * max(abs(float(v)) for v in bz), "%r" % (bz,))


def scn_high(ctx):
    """poles of multiplicity four, with a tolerance as wide as they need"""
    mult = 4
    p = ctx.choose("pole", [-1.0, -0.5, -0.8, -1.0 + 1j])
    gain = ctx.choose("gain", [6.0, -0.5])
    num = ctx.choose("numerator", [[1.0], [1.0, 0.5], [1.0, -0.3, 2.0]])
    fs = ctx.choose("fs", [2.0, 4.0])
    causal = ctx.choose("function", ["impinvar", "impinvar_causal"]) == "impinvar_causal"
    ctx.go()
    pair = [p, p.conjugate()] if isinstance(p, complex) else [complex(p)]
    a = [1 + 0j]
    for q in pair:
        for _ in range(mult):
            a = pmul(a, [1.0, -q])
    a = [z.real for z in a]
    b = [gain * v for v in num]
    bz, az = ctx.call(impinvar_causal if causal else impinvar, gen.arr(b), gen.arr(a), fs, tol=0.1)
    ctx.check("order", len(az) == len(a), "denominator of order %d" % (len(a) - 1))
    # the impulse response: power series in t from the differential equation, exact up to rounding for t < 10
    n = len(a) - 1
    h = [0.0] * 200
    for k in range(200):
        m = k - (n - len(b) + 1)
        v = b[m] if 0 <= m < len(b) else 0.0
        h[k] = v - sum(a[i] * h[k - i] for i in range(1, min(n, k) + 1))
    N = 30 if not isinstance(p, complex) else 20
    # b/a = sum h[k] s^-k, and s^-k is t^(k-1)/(k-1)!
    want = []
    for i in range(N):
        term, v = 1.0, 0.0
        for k in range(1, 200):
            v += h[k] * term
            term *= i / fs / k
        want.append(v / fs)
    if causal:
        want[0] = 0.0
    ctx.close("impulse-response", impulse(bz, az, N), want, rtol=2e-2, scale=max(abs(v) for v in want))


SCENARIOS = [("simple", scn_simple), ("multiple", scn_multiple), ("lowpass", scn_lowpass), ("neighbours", scn_neighbours), ("close", scn_close), ("errors", scn_errors), ("forms", scn_forms), ("high", scn_high)]
