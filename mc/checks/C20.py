"""Least-squares IIR filter fits to a frequency response or its reciprocal."""
import cmath
import contextlib
import io
import math

import numpy as np

from mc import gen, ref, rng
from PyDynamic.model_estimation.fit_filter import LSIIR, invLSIIR, invLSIIR_unc

TITLE = "least-squares IIR filter fits, direct and inverse, with uncertainty"
ASSUMPTIONS = [
    "frequencies spread over the band, more values than coefficients",
    "filters with poles closer than 1 % to the unit circle are left out where stability matters",
    "Monte Carlo inside: balanced answers of the generator, small uncertainties (linear limit)",
]
from mc.checks.C19 import response

FREQS = {
    "inner": lambda M: [0.47 * (k + 0.6) / M for k in range(M)],
    "edge": lambda M: [0.5 * k / (M - 1) for k in range(M)],
    "uneven": lambda M: [0.02 + 0.45 * (k / (M - 1.0)) ** 1.4 for k in range(M)],
}
TRUE = {  # b, a (stable)
    "p1": ([0.8], [1.0, -0.6]),
    "p1z1": ([1.0, 0.4], [1.0, 0.5]),
    "p2": ([0.5, 0.2, 0.1], [1.0, -0.9, 0.5]),
    "p2z1": ([0.7, -0.3], [1.0, -1.2, 0.72]),
    "p3": ([1.0, 0.2], [1.0, -0.4, 0.3, -0.1]),
    "z3": ([1.0, 0.3, -0.2, 0.1], [1.0, -0.5]),
}


def poly(c, w):
    return [sum(v * cmath.exp(-1j * x * k) for k, v in enumerate(c)) for x in w]


def gradient(target, w, b, a):
    """normal equations of the equation error | target A - B |^2, relative to the size of its terms"""
    A, B = poly(a, w), poly(b, w)
    e = [t * p - q for t, p, q in zip(target, A, B)]
    out = []
    for k in range(1, len(a)):
        d = [t * cmath.exp(-1j * x * k) for t, x in zip(target, w)]
        out.append((sum((z.conjugate() * r).real for z, r in zip(d, e)), sum(abs(z) * abs(t) for z, t in zip(d, target))))
    for k in range(len(b)):
        d = [cmath.exp(-1j * x * k) for x in w]
        out.append((sum((z.conjugate() * r).real for z, r in zip(d, e)), sum(abs(t) for t in target)))
    return [g / s for g, s in out]


def equation_error(target, w, nb, na):
    """-> b, a minimising it, by the real normal equations"""
    cols = [[t * cmath.exp(-1j * x * k) for t, x in zip(target, w)] for k in range(1, na + 1)]
    cols += [[-cmath.exp(-1j * x * k) for x in w] for k in range(nb + 1)]
    X = [[c[i].real for c in cols] for i in range(len(w))] + [[c[i].imag for c in cols] for i in range(len(w))]
    s = ref.cho_solve_ls(X, [-t.real for t in target] + [-t.imag for t in target])
    return s[na:], [1.0] + s[:na]


def target_of(fn, H, w, tau):
    return [(h if fn == "LSIIR" else 1 / h) * cmath.exp(-1j * x * tau) for h, x in zip(H, w)]


def fit(ctx, fn, H, nb, na, fr, Fs, tau, just, quiet=True):
    f = np.array([v * Fs for v in fr])
    H = np.array(H)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if fn == "LSIIR":
            r = ctx.call(LSIIR, H, nb, na, f, Fs, tau=tau, justFit=just)
        else:
            r = ctx.call(invLSIIR, H, nb, na, f, Fs, tau, justFit=just, verbose=True)
    ctx.check("arity", len(r) == 3, "b, a and tau")
    b, a, t = r
    ctx.check("lengths", np.shape(b) == (nb + 1,) and np.shape(a) == (na + 1,), "%s %s" % (b, a))
    ctx.check("normalised", a[0] == 1.0, "a[0]=%r" % a[0])
    ctx.check("delay-is-integer", isinstance(t, int), "type %s" % type(t))
    return b.tolist(), a.tolist(), t, out.getvalue()


def radius(a):
    return max([abs(z) for z in ref.roots(a)] + [0.0])


def scn_fit(ctx):
    """equation error optimum for the given delay, no stabilisation"""
    fn = ctx.choose("function", ["LSIIR", "invLSIIR"])
    nb = ctx.choose("Nb", [0, 1, 2, 3])
    na = ctx.choose("Na", [0, 1, 2, 3])
    M = ctx.pick("M", [8, 12], [30])
    fk = ctx.choose("f", list(FREQS))
    Fs = ctx.choose("Fs", [1.0, 5e5, 2])
    tau = ctx.choose("tau", [0, 1, 3, -1])
    hk = ctx.choose("H", ["resonance", "generic"])
    ctx.go()
    fr = FREQS[fk](M)
    w = [2 * math.pi * v for v in fr]
    H = response(hk, w)
    b, a, t, _ = fit(ctx, fn, H, nb, na, fr, Fs, tau, True)
    ctx.check("delay-unchanged", t == tau, "%r instead of %r" % (t, tau))
    tg = target_of(fn, H, w, tau)
    ctx.close("least-squares", gradient(tg, w, b, a), [0.0] * (nb + na + 1), atol=1e-8)


def scn_exact(ctx):
    """the frequency response of a filter gives back the filter, with and without stabilisation"""
    fn = ctx.choose("function", ["LSIIR", "invLSIIR"])
    tk = ctx.choose("true", list(TRUE))
    tau = ctx.choose("tau", [0, 1, 2])
    just = ctx.choose("justFit", [True, False])
    fk = ctx.choose("f", list(FREQS))
    M = ctx.pick("M", [8, 15], [40])
    Fs = ctx.choose("Fs", [1.0, 1e4])
    ctx.go()
    tb, ta = TRUE[tk]
    fr = FREQS[fk](M)
    w = [2 * math.pi * v for v in fr]
    G = [p / q for p, q in zip(poly(tb, w), poly(ta, w))]
    # the filter is the target delayed by tau samples
    H = [g * cmath.exp(1j * x * tau) for g, x in zip(G, w)]
    if fn == "invLSIIR":
        H = [1 / h for h in H]
    b, a, t, out = fit(ctx, fn, H, len(tb) - 1, len(ta) - 1, fr, Fs, tau, just)
    ctx.check("delay-unchanged", t == tau, "%r instead of %r" % (t, tau))
    ctx.close("b", b, tb, rtol=1e-6)
    ctx.close("a", a, ta, rtol=1e-6)


def scn_stabilise(ctx):
    """non-minimum phase targets: whatever the delay found, the filter is the optimum for exactly this delay;
    it is stable unless a warning is printed; stable fits are left alone"""
    fn = ctx.choose("function", ["LSIIR", "invLSIIR"])
    zeros = [ctx.choose("root%d" % i, [None, 0.5, 2.0, -1.6, (1.3, 1.0), (0.7, 2.0)]) for i in range(2)]
    pole = ctx.choose("other", [None, 0.4, (0.6, 0.8)])
    nb = ctx.choose("Nb", [2, 4])
    na = ctx.choose("Na", [1, 2, 3])
    tau = ctx.choose("tau", [0, 2])
    M = ctx.pick("M", [20], [40])
    ctx.go()

    def expand(sel):
        c = [1.0 + 0j]
        for r in sel:
            if r is None:
                continue
            zs = [cmath.rect(*r), cmath.rect(*r).conjugate()] if isinstance(r, tuple) else [complex(r)]
            for z in zs:
                c = [p - z * q for p, q in zip(c + [0j], [0j] + c)]
        return [v.real for v in c]

    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    num, den = expand(zeros), expand([pole])
    N, D = poly(num, w), poly(den, w)
    # the roots are poles of the ideal filter
    H = [p / q for p, q in zip(N, D)] if fn == "invLSIIR" else [q / p for p, q in zip(N, D)]
    b, a, t, out = fit(ctx, fn, H, nb, na, fr, 1.0, tau, False)
    tg = target_of(fn, H, w, t)
    ctx.close("least-squares", gradient(tg, w, b, a), [0.0] * (nb + na + 1), atol=1e-7)
    r = radius(a)
    warned = "NOT result in a stable" in out
    if r > 1.01:
        ctx.check("unstable-is-announced", warned, "unstable (largest pole %r) without a warning" % r)
    elif r < 0.99:
        ctx.check("no-false-warning", not warned, "stable (largest pole %r), but a warning" % r)
    b0, a0, t0, _ = fit(ctx, fn, H, nb, na, fr, 1.0, tau, True)
    r0 = radius(a0)
    if r0 < 0.99:
        ctx.check("stable-fit-kept", t == tau, "delay changed from %d to %d although the fit is stable" % (tau, t))
        ctx.same("stable-fit-kept", [b, a], [b0, a0])
    ctx.check("delay-grows", t >= tau, "delay %d smaller than the initial %d" % (t, tau))
    ctx.check("stabilised", r < 1.005 and not warned, "largest pole %r (before: %r), delay %d" % (r, r0, t))


def scn_unc(ctx):
    """mean and covariance over [a1.., b0..] in the linear limit"""
    tk = ctx.choose("true", ["p1", "p1z1", "p2z1"])
    M = ctx.choose("M", [5, 7])
    uk = ctx.choose("UH", ["full", "unit1", "zero"] + (["diag", "rank1", "pair3"] if ctx.thorough else []))
    tau = ctx.choose("tau", [0, 1])
    Fs = ctx.choose("Fs", [1.0, 2e3])
    if (Fs != 1.0) != (M == 5):
        ctx.prune()
    ctx.go()
    tb, ta = TRUE[tk]
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    H = [q / p * cmath.exp(-1j * x * tau) * (1 + 0.01 * gen.gval(i, 3)) for i, (p, q, x) in enumerate(zip(poly(tb, w), poly(ta, w), w))]
    nb, na = len(tb) - 1, len(ta) - 1
    U = ref.scal(1e-12, gen.cov(uk, 2 * M, 2))

    def theta(v):
        h = [complex(v[i], v[M + i]) for i in range(M)]
        b, a = equation_error(target_of("invLSIIR", h, w, tau), w, nb, na)
        return a[1:] + b

    x0 = [z.real for z in H] + [z.imag for z in H]
    J = []
    for i in range(2 * M):
        d = 1e-5
        p, m = list(x0), list(x0)
        p[i] += d
        m[i] -= d
        J.append([(u - v) / (2 * d) for u, v in zip(theta(p), theta(m))])
    J = ref.T(J)
    rng.balanced()
    r = ctx.call(invLSIIR_unc, np.array(H), gen.arr(U), nb, na, np.array(fr) * Fs, Fs, tau)
    rng.seeded(1)
    ctx.check("arity", len(r) == 4, "b, a, tau, Uba")
    b, a, t, Ub = r
    th = theta(x0)
    ctx.close("b", b, th[na:], rtol=1e-6)
    ctx.close("a", a, [1.0] + th[:na], rtol=1e-6)
    ctx.check("delay", t == tau, "delay %r" % t)
    ctx.close("covariance", Ub, ref.quad(J, U), rtol=3e-2, atol=1e-19)


def scn_fit_long(ctx):
    """higher orders, more values, responses of other magnitudes, other memory layouts"""
    fn = ctx.choose("function", ["LSIIR", "invLSIIR"])
    nb, na = ctx.pick("orders", [(1, 2), (4, 5), (6, 4), (7, 7)], [(10, 9), (5, 12)])
    M = ctx.pick("M", [20, 33, 60], [150])
    s = ctx.choose("magnitude of H", [1.0, 1e-4, 1e4])
    tau = ctx.choose("tau", [0, 6, -4])
    hk = ctx.choose("H", ["resonance", "generic"])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if lay != "C" and s != 1.0:
        ctx.prune()
    if hk == "resonance" and nb + na > 4:
        ctx.prune()  # over-parametrised: the optimum is not unique numerically
    ctx.go()
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    H = [s * h for h in response(hk, w)]
    f, h = gen.lay([v * 300.0 for v in fr], lay), gen.lay(H, lay)
    if fn == "LSIIR":
        b, a, t = ctx.call(LSIIR, h, nb, na, f, 300.0, tau=tau, justFit=True)
    else:
        b, a, t = ctx.call(invLSIIR, h, nb, na, f, 300.0, tau, justFit=True)
    ctx.check("lengths", np.shape(b) == (nb + 1,) and np.shape(a) == (na + 1,), "%s %s" % (b, a))
    ctx.check("delay-unchanged", t == tau, "%r instead of %r" % (t, tau))
    tg = target_of(fn, H, w, tau)
    ctx.close("least-squares", gradient(tg, w, b.tolist(), a.tolist()), [0.0] * (nb + na + 1), atol=1e-7 if s == 1.0 else 1e-3)


def scn_unc_forms(ctx):
    """other magnitudes of the response and of its uncertainty, other memory layouts"""
    s = ctx.choose("magnitude of H", [1.0, 1e-3, 1e4])
    su = ctx.choose("relative uncertainty", [1e-6, 1e-8])
    uk = ctx.choose("UH", ["full", "pair3"])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if (lay != "C") + (s != 1.0) + (su != 1e-6) > 1:
        ctx.prune()
    ctx.go()
    tb, ta = TRUE["p1z1"]
    M, tau, Fs, nb, na = 6, 1, 50.0, 1, 1
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    H = [s * q / p * cmath.exp(-1j * x * tau) * (1 + 0.01 * gen.gval(i, 3)) for i, (p, q, x) in enumerate(zip(poly(tb, w), poly(ta, w), w))]
    U = ref.scal((su * s) ** 2, gen.cov(uk, 2 * M, 2))

    def theta(v):
        b, a = equation_error(target_of("invLSIIR", [complex(v[i], v[M + i]) for i in range(M)], w, tau), w, nb, na)
        return a[1:] + b

    x0 = [z.real for z in H] + [z.imag for z in H]
    J = []
    for i in range(2 * M):
        d = 1e-5 * s
        p, m = list(x0), list(x0)
        p[i] += d
        m[i] -= d
        J.append([(u - v) / (2 * d) for u, v in zip(theta(p), theta(m))])
    J = ref.T(J)
    rng.balanced()
    b, a, t, Ub = ctx.call(invLSIIR_unc, gen.lay(H, lay), gen.lay(U, lay), nb, na, gen.lay([v * Fs for v in fr], lay), Fs, tau)
    rng.seeded(1)
    th = theta(x0)
    ctx.close("b", b, th[na:], rtol=1e-6)
    ctx.close("a", a, [1.0] + th[:na], rtol=1e-6)
    W = ref.quad(J, U)
    sc = [math.sqrt(W[i][i]) for i in range(len(W))]
    ctx.close("covariance", [[v / (sc[i] * sc[j]) for j, v in enumerate(r)] for i, r in enumerate(Ub.tolist())], [[v / (sc[i] * sc[j]) for j, v in enumerate(r)] for i, r in enumerate(W)], rtol=3e-2, scale=1.0)


def scn_unc_delays(ctx):
    """draws of which some need a delay for a stable filter: every draw is fitted on its own, from the delay given"""
    root = ctx.pick("root", [-1.2, 1.2, -2.5], [-1.5, 1.3])
    size = ctx.pick("variance", [2e-2], [1e-3, 1e-4])
    M = ctx.pick("M", [8], [12])
    tau = ctx.choose("tau", [0, 1])
    nb, na = ctx.pick("orders", [(2, 2)], [(1, 1)])
    ctx.go()
    fr = [0.45 * k / (M - 1) for k in range(M)]
    w = [2 * math.pi * v for v in fr]
    H = [1 - root * cmath.exp(-1j * x) for x in w]
    fn = np.array(fr)
    rng.balanced()
    b, a, t, Ub = ctx.call(invLSIIR_unc, np.array(H), size * np.eye(2 * M), nb, na, fn, 1.0, tau)
    rng.balanced()
    D = np.random.multivariate_normal(np.r_[np.real(H), np.imag(H)], size * np.eye(2 * M), 1000)
    rng.seeded(1)
    seen = {}
    rows, taus = [], []
    with contextlib.redirect_stdout(io.StringIO()):
        for d in D.tolist():
            key = tuple(d)
            if key not in seen:
                p, q, s = ctx.call(invLSIIR, np.array([complex(d[i], d[M + i]) for i in range(M)]), nb, na, fn, 1.0, tau, verbose=False)
                seen[key] = q.tolist()[1:] + p.tolist(), s
            rows.append(seen[key][0])
            taus.append(seen[key][1])
    n = len(rows)
    m = [sum(c) / n for c in zip(*rows)]
    C = [[sum((r[i] - m[i]) * (r[j] - m[j]) for r in rows) / (n - 1.0) for j in range(len(m))] for i in range(len(m))]
    ctx.close("a", a, [1.0] + m[:na], rtol=1e-8)
    ctx.close("b", b, m[na:], rtol=1e-8)
    ctx.close("delay", float(t), sum(taus) / float(n), rtol=1e-9)
    ctx.close("covariance", Ub, C, rtol=1e-7)


SCENARIOS = [("fit", scn_fit), ("exact", scn_exact), ("stabilise", scn_stabilise), ("unc", scn_unc), ("fit-long", scn_fit_long), ("unc-forms", scn_unc_forms), ("unc-delays", scn_unc_delays)]
