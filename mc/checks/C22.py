"""Second order systems: frequency response, filter coefficients, propagation to real/imaginary part and amplitude/phase."""
import cmath
import math

import numpy as np

from mc import gen, ref, rng
from PyDynamic.misc.SecondOrderSystem import sos_absphase, sos_FreqResp, sos_phys2filter, sos_realimag

TITLE = "second order systems"
ASSUMPTIONS = [
    "expectations are taken over all answer sequences of the generator (two-point law with mean 0 and variance 1)",
    "phases of different draws differ by less than pi",
]
S_ = [1.0, 0.124, -2.0, 20.0]
D_ = [0.3, 0.0, 1.0, 1.7, 0.004]
F_ = [1.0, 36e3, 0.02]
REL = [0.0, 0.3, 0.9, 1.0, 1.1, 2.5, 40.0]


def H(S, d, f0, f):
    w0, w = 2 * math.pi * f0, 2 * math.pi * f
    return S * w0 * w0 / complex(w0 * w0 - w * w, 2 * d * w0 * w)


def freqs(ctx, f0, d):
    n = ctx.choose("N", [1, 2, 3, 6])
    start = ctx.choose("first", [0, 1, 4])
    return [f0 * r for r in (REL + REL)[start:start + n] if d > 0 or r != 1.0]


def near(ctx, tag, got, want):
    ctx.check(tag + "-shape", np.shape(got) == np.shape(want), "%s instead of %s" % (np.shape(got), np.shape(want)))
    for g, w in zip(ref_flat(got), ref_flat(want)):
        ctx.check(tag, abs(g - w) <= 1e-10 * abs(w), "%r instead of %r" % (g, w))


def ref_flat(x):
    return np.asarray(x).ravel().tolist()


def scn_freqresp(ctx):
    d = ctx.choose("d", D_)
    S = ctx.choose("S", S_)
    f0 = ctx.choose("f0", F_)
    f = freqs(ctx, f0, d)
    if not f:
        ctx.prune()
    near(ctx, "freqresp", ctx.call(sos_FreqResp, S, d, f0, np.array(f)), [H(S, d, f0, x) for x in f])
    b, a = ctx.call(sos_phys2filter, S, d, f0)
    ctx.check("lengths", len(b) == 1 and len(a) == 3, "%s %s" % (b, a))
    w0 = 2 * math.pi * f0
    near(ctx, "coefficients", a, [1.0, 2 * d * w0, w0 * w0])
    near(ctx, "gain", b, [S * w0 * w0])


def scn_vectors(ctx):
    K = ctx.choose("K", [1, 2, 3, 4])
    o = ctx.choose("offset", list(range(4)))
    f0 = ctx.choose("f0", F_)
    S = [S_[(k + o) % 4] for k in range(K)]
    d = [D_[(k + 2 * o) % 5] for k in range(K)]
    F = [f0 * (1 + 0.13 * k) for k in range(K)]
    f = freqs(ctx, f0, 0)
    if not f:
        ctx.prune()
    A = [np.array(v) for v in (S, d, F)]
    near(ctx, "freqresp", ctx.call(sos_FreqResp, A[0], A[1], A[2], np.array(f)), [[H(S[k], d[k], F[k], x) for k in range(K)] for x in f])
    b, a = ctx.call(sos_phys2filter, *A)
    w0 = [2 * math.pi * x for x in F]
    near(ctx, "coefficients", a, [[1.0, 2 * d[k] * w0[k], w0[k] ** 2] for k in range(K)])
    ctx.check("gain-form", np.size(b) == K, "%s" % (b,))
    near(ctx, "gain", np.ravel(b), [S[k] * w0[k] ** 2 for k in range(K)])


def expected(fn, p, u, f):
    """exact mean of H, mean and covariance of its parts over the eight combinations"""
    ref0 = [H(p[0], p[1], p[2], x) for x in f]
    rows, mean = [], [0j] * len(f)
    for k in range(8):
        s = [1.0 if k >> i & 1 else -1.0 for i in range(3)]
        h = [H(p[0] + s[0] * u[0], p[1] + s[1] * u[1], p[2] + s[2] * u[2], x) for x in f]
        mean = [m + z / 8 for m, z in zip(mean, h)]
        if fn == "realimag":
            rows.append([z.real for z in h] + [z.imag for z in h])
        else:
            rows.append([abs(z) for z in h] + [cmath.phase(z / z0) for z, z0 in zip(h, ref0)])
    m = [sum(c) / 8 for c in zip(*rows)]
    n = len(m)
    C = [[sum((r[i] - m[i]) * (r[j] - m[j]) for r in rows) / 8 for j in range(n)] for i in range(n)]
    return mean, C


def case(ctx):
    fn = ctx.choose("function", ["realimag", "absphase"])
    p = ctx.choose("parameters", [(1.0, 0.3, 1.0), (0.124, 1.7, 36e3), (-2.0, 0.05, 0.02)])
    N = ctx.choose("N", [1, 2, 4])
    start = ctx.choose("first", [0, 1, 4])
    f = [p[2] * r for r in (REL + REL)[start:start + N]]
    return fn, p, f, (sos_realimag if fn == "realimag" else sos_absphase)


def scn_exact(ctx):
    """expectation over every answer of the generator, uncertainties of any size"""
    fn, p, f, F = case(ctx)
    which = ctx.choose("uncertain", [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 0, 0)])
    rel = ctx.choose("size", [0.05, 0.2] if sum(which) == 1 else [0.05])
    undamped = ctx.choose("damping", [None, (0.0, 0.1), (0.02, 0.03), (-0.05, 0.01)])
    runs = ctx.choose("runs", [2] + ([3, 2.0] if ctx.thorough and sum(which) else []))
    u = [rel * abs(q) * w for q, w in zip(p, which)]
    if undamped:
        # a damping close to zero: draws on either side
        p, u = (p[0], undamped[0], p[2]), [u[0], undamped[1], u[2]]
        f = [v for v in f if v != p[2]]
        if not which[1] or rel != 0.05 or not f:
            ctx.prune()
    ctx.go()
    want, C = expected(fn, p, u, f)
    n = 2 * len(f)
    mean, cov, cnt = [0j] * len(f), ref.zeros(n, n), 0
    for log, r in rng.answers(lambda: ctx.call(F, *p, *u, np.array(f), runs=runs)):
        m, c = ref_flat(r[0]), np.asarray(r[1]).tolist()
        ctx.check("shape", np.shape(r[0]) == (len(f),) and np.shape(r[1]) == (n, n), "%s %s" % (np.shape(r[0]), np.shape(r[1])))
        mean = [a + b for a, b in zip(mean, m)]
        cov = ref.madd(cov, c)
        cnt += 1
    ctx.close("mean", [z / cnt for z in mean], want, rtol=1e-10)
    s = [max(math.sqrt(abs(C[i][i])), 1e-6 * max(abs(z) for z in want)) if fn == "realimag" or i < n // 2 else
         max(math.sqrt(abs(C[i][i])), 1e-6) for i in range(n)]
    ctx.close("covariance", [[cov[i][j] / cnt / s[i] / s[j] for j in range(n)] for i in range(n)],
              [[C[i][j] / s[i] / s[j] for j in range(n)] for i in range(n)], scale=1.0, rtol=1e-8)


def scn_linear(ctx):
    """many runs, small uncertainties: first order covariance; default number of runs"""
    fn, p, f, F = case(ctx)
    which = ctx.choose("uncertain", [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 2, 0), (3, 1, 2)])
    runs = ctx.choose("runs", [None, 16, 160.0])
    u = [1e-5 * abs(q) * w for q, w in zip(p, which)]
    ctx.go()
    rng.balanced()
    kw = {} if runs is None else {"runs": runs}
    m, c = ctx.call(F, *p, *u, np.array(f), **kw)
    rng.seeded(1)
    want, C = expected(fn, p, u, f)
    R = runs or 10000
    n = 2 * len(f)
    ctx.close("mean", ref_flat(m), want, rtol=1e-8)
    g = max(abs(z) for z in want)
    s = [max(math.sqrt(abs(C[i][i])), 1e-9 * (g if fn == "realimag" or i < n // 2 else 1.0)) for i in range(n)]
    ctx.close("covariance", [[float(c[i][j]) / s[i] / s[j] for j in range(n)] for i in range(n)],
              [[C[i][j] * R / (R - 1) / s[i] / s[j] for j in range(n)] for i in range(n)], scale=1.0, rtol=2e-3)


def scn_forms(ctx):
    """many frequencies, many systems, other magnitudes, other memory layouts"""
    K = ctx.choose("K", [0, 5, 12])
    N = ctx.pick("N", [7, 40], [300])
    S = ctx.choose("S", [1.0, -4e-9, 7e8])
    f0 = ctx.choose("f0", [1.0, 3e-6, 8e9])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ctx.go()
    f = [f0 * 2.3 * (k + 0.37) / N for k in range(N)]
    if not K:
        near(ctx, "freqresp", ctx.call(sos_FreqResp, S, 0.2, f0, gen.lay(f, lay)), [H(S, 0.2, f0, x) for x in f])
        return
    A = [[S * (1 + 0.3 * gen.gval(k, 2)) for k in range(K)], [0.02 + 0.1 * k for k in range(K)], [f0 * (0.7 + 0.08 * k) for k in range(K)]]
    near(ctx, "freqresp", ctx.call(sos_FreqResp, *[gen.lay(v, lay) for v in A], gen.lay(f, lay)),
         [[H(A[0][k], A[1][k], A[2][k], x) for k in range(K)] for x in f])
    b, a = ctx.call(sos_phys2filter, *[gen.lay(v, lay) for v in A])
    w0 = [2 * math.pi * x for x in A[2]]
    near(ctx, "coefficients", a, [[1.0, 2 * A[1][k] * w0[k], w0[k] ** 2] for k in range(K)])
    near(ctx, "gain", np.ravel(b), [A[0][k] * w0[k] ** 2 for k in range(K)])


def scn_linear_forms(ctx):
    """first order propagation at other magnitudes of the parameters and their uncertainties, for many frequencies"""
    fn = ctx.choose("function", ["realimag", "absphase"])
    S = ctx.choose("S", [1.0, -4e-6, 7e5])
    f0 = ctx.choose("f0", [1.0, 3e-4, 8e8])
    d = ctx.choose("d", [0.05, 0.8])
    rel = ctx.choose("size", [1e-4, 1e-6, 1e-7])
    N = ctx.pick("N", [3, 15], [60])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if lay != "C" and (S != 1.0 or f0 != 1.0):
        ctx.prune()
    ctx.go()
    p = (S, d, f0)
    f = [f0 * 2.1 * (k + 0.3) / N for k in range(N)]
    u = [rel * abs(q) * w for q, w in zip(p, (1, 2, 0.5))]
    rng.balanced()
    m, c = ctx.call(sos_realimag if fn == "realimag" else sos_absphase, *p, *u, gen.lay(f, lay), runs=32)
    rng.seeded(1)
    z = [H(*p, x) for x in f]
    part = (lambda h: [v.real for v in h] + [v.imag for v in h]) if fn == "realimag" else (
        lambda h: [abs(v) for v in h] + [cmath.phase(v / q) for v, q in zip(h, z)])
    J = []
    for i in range(3):
        e = 1e-5 * abs(p[i])
        hi, lo = [part([H(*[q + (t * e if k == i else 0) for k, q in enumerate(p)], x) for x in f]) for t in (1, -1)]
        J.append([(x - y) / (2 * e) * u[i] for x, y in zip(hi, lo)])
    C = ref.mm(ref.T(J), J)
    n = 2 * N
    ctx.close("mean", ref_flat(m), z, rtol=1e-5, scale=abs(S))
    s = [math.sqrt(C[i][i]) for i in range(n)]
    g = max(s[:N]), max(s[N:])
    s = [max(v, 1e-2 * g[i >= N]) for i, v in enumerate(s)]
    ctx.close("covariance", [[float(c[i][j]) / s[i] / s[j] for j in range(n)] for i in range(n)],
              [[C[i][j] * 32 / 31.0 / s[i] / s[j] for j in range(n)] for i in range(n)], scale=1.0, rtol=2e-3)


SCENARIOS = [("freqresp", scn_freqresp), ("vectors", scn_vectors), ("exact", scn_exact), ("linear", scn_linear), ("forms", scn_forms), ("linear-forms", scn_linear_forms)]
