"""Fit of a second order model to a frequency response."""
import math

import numpy as np

from mc import gen, ref, rng
from PyDynamic.identification.fit_transfer import fit_sos
from PyDynamic.model_estimation.fit_transfer import fit_som

TITLE = "fit of a second order model with uncertainty"
ASSUMPTIONS = [
    "frequencies on both sides of the resonance",
    "Monte Carlo inside: balanced answers of the generator, relative uncertainties of 1e-5 (linear limit)",
]
TRUE = [(1.0, 0.3, 1.0), (0.124, 0.05, 36.0), (2.0, 1.4, 0.01), (20.0, 0.7, 36e3), (-2.0, 0.4, 5.0), (1.0, 0.0, 2.0)]
GRID = {4: [0.2, 0.6, 1.3, 1.7], 5: [0.0, 0.4, 0.8, 1.2, 2.1], 7: [0.0, 0.3, 0.55, 0.8, 1.1, 1.5, 1.9], 15: [0.13 * k for k in range(15)]}


def freqresp(p, f):
    S, d, f0 = p
    return [S * f0 ** 2 / (f0 ** 2 + 2j * d * f0 * x - x ** 2) for x in f]


def design(f, s):
    om = [2 * math.pi * x * s for x in f]
    return [[1.0, 0.0, -o * o] for o in om] + [[0.0, 2 * o, 0.0] for o in om]


def wls(X, V, y):
    """generalised least squares with covariance V -> estimator matrix"""
    n = len(X)
    Vi = ref.T([ref.solve(V, [1.0 if i == k else 0.0 for i in range(n)]) for k in range(n)])
    A = ref.mm(ref.T(X), Vi)
    G = ref.mm(A, X)
    P = ref.T([ref.solve(G, [r[i] for r in A]) for i in range(n)])
    return ref.mv(P, y), P


def params(mu, s):
    m0, m1, m2 = mu[0], mu[1] * s, mu[2] * s * s
    return [1 / m0, math.copysign(1.0, m0) * m1 / math.sqrt(abs(m0 * m2)), math.sqrt(abs(m0 / m2)) / 2 / math.pi]


def jac_params(mu, s):
    S, d, f0 = params(mu, s)
    m0, m1, m2 = mu
    return [[-S / m0, 0.0, 0.0], [-d / (2 * m0), 0.0, -d / (2 * m2)], [f0 / (2 * m0), 0.0, -f0 / (2 * m2)]]


def perturbed(p, f, rel):
    return [h * complex(1 + rel * gen.gval(i, 1), rel * gen.gval(i, 2)) for i, h in enumerate(freqresp(p, f))]


def ri(z):
    return [v.real for v in z] + [v.imag for v in z]


def unc(kind, M, scale):
    """-> argument, covariance; of relative size 1e-5"""
    u = 1e-5 * scale
    if kind == "std":
        v = [u * t for t in gen.vec("positive", 2 * M, 3)]
        return gen.arr(v), ref.diag([t * t for t in v])
    U = ref.scal(u * u, gen.cov(kind, 2 * M, 3))
    if kind == "full":  # keep it well conditioned
        U = ref.madd(U, ref.eye(2 * M, u * u))
    return gen.arr(U), U


def scn_fit(ctx):
    """no uncertainty: unweighted optimum of the reciprocal, whatever the scaling"""
    p = ctx.choose("true", TRUE)
    M = ctx.choose("M", list(GRID))
    rel = ctx.choose("disturbance", [0.0, 0.02])
    scaling = ctx.choose("scaling", [None, 1.0, 1e-3, 1e2])
    wk = ctx.choose("weighting", [None, "ones", "const", "array"])
    name = ctx.choose("function", ["fit_som", "fit_sos"])
    if wk == "array" and rel:
        ctx.prune()  # the role of the array is not settled by the documentation; exact data do not depend on it
    ctx.go()
    f = [p[2] * g for g in GRID[M]]
    H = perturbed(p, f, rel)
    kw = {} if scaling is None else {"scaling": scaling}
    if wk:
        kw["weighting"] = {"ones": np.ones(2 * M), "const": np.full(2 * M, 3.0), "array": gen.arr(gen.vec("positive", 2 * M, 4))}[wk]
    r = ctx.call(fit_som if name == "fit_som" else fit_sos, np.array(f), gen.arr(ri(H)), **kw)
    s = 1.0 / p[2]
    mu, _ = wls(design(f, s), ref.eye(2 * M), ri([1 / h for h in H]))
    want = params(mu, s)
    if not rel:
        ctx.close("exact", want, p, scale=0, rtol=1e-9)
    ctx.check("arity", np.shape(r) == (3,), "%s" % (r,))
    for i, n in enumerate(["S0", "delta", "f0"]):
        ctx.close(n, float(r[i]), want[i], rtol=1e-7, atol=1e-8 if i == 1 else 0.0)


def scn_unc(ctx):
    """estimate and covariance, linear and Monte Carlo propagation, every weighting"""
    p = ctx.choose("true", TRUE[:5])
    M = ctx.choose("M", [4, 5, 7])
    rel = ctx.choose("disturbance", [0.0, 0.02])
    uk = ctx.choose("UH", ["std", "diag", "full", "toep", "pair0", "pair5"] + (["rank1", "unit0", "unit6"]))
    wk = ctx.choose("weighting", [None, "diag", "cov", "ones"])
    runs = ctx.choose("MCruns", [None, 1600, 32.0])
    scaling = ctx.choose("scaling", [None, 1.0])
    if uk in ("rank1", "unit0", "unit6") and wk in ("diag", "cov"):
        ctx.prune()  # singular weights
    if scaling is None and p[2] < 1:
        ctx.prune()
    if not ctx.thorough and (scaling == 1.0 and (p[2] > 1 or rel) or rel and p[2] not in (1.0, 5.0) or wk == "ones" and uk != "full"
                             or M == 5 and (runs == 1600 or rel)):
        ctx.prune()
    ctx.go()
    f = [p[2] * g for g in GRID[M]]
    H = perturbed(p, f, rel)
    if f[0] == 0.0 and uk == "unit5":
        ctx.prune()
    Ua, U = unc(uk, M, abs(p[0]))
    kw = {} if scaling is None else {"scaling": scaling}
    if wk:
        kw["weighting"] = np.ones(2 * M) if wk == "ones" else wk
    if runs is not None:
        kw["MCruns"] = runs
    rng.balanced()
    r = ctx.call(fit_som, np.array(f), gen.arr(ri(H)), Ua, **kw)
    rng.seeded(1)
    ctx.check("arity", len(r) == 2, "parameters and covariance")
    J = ref.zeros(2 * M, 2 * M)
    for i, h in enumerate(H):
        d = -1 / h ** 2
        J[i][i], J[i][M + i], J[M + i][i], J[M + i][M + i] = d.real, -d.imag, d.imag, d.real
    iU = ref.quad(J, U)
    V = {None: ref.eye(2 * M), "ones": ref.eye(2 * M), "diag": ref.diag(ref.diagonal(iU)), "cov": iU}[wk]
    s = 1.0 / p[2]
    mu, P = wls(design(f, s), V, ri([1 / h for h in H]))
    want = params(mu, s)
    C = jac_params(mu, s)
    # the middle entry relates to the scaled parameter
    C[1][1] = math.copysign(1.0, mu[0]) / math.sqrt(abs(mu[0] * mu[2]))
    Up = ref.quad(ref.mm(C, P), iU)
    # frequencies are of another order of magnitude: compare relative to the expected standard uncertainties
    tol = 2e-3 if wk in (None, "ones") else 2e-2
    for i, n in enumerate(["S0", "delta", "f0"]):
        ctx.close(n, float(r[0][i]), want[i], rtol=1e-6 if wk in (None, "ones") else 1e-4, atol=1e-6 * max(abs(want[i]), 1.0 if i == 1 else 0.0))
    f1 = 1.0 if runs is None else runs / (runs - 1.0)
    su = [math.sqrt(Up[i][i]) for i in range(3)]
    big = [max(a, 1e-7 * b) for a, b in zip(su, [abs(p[0]) * 1e-5, 1e-5, p[2] * 1e-5])]
    got = [[float(r[1][i][j]) / (f1 * big[i] * big[j]) for j in range(3)] for i in range(3)]
    ctx.close("covariance", got, [[Up[i][j] / (big[i] * big[j]) for j in range(3)] for i in range(3)], rtol=tol)


def scn_errors(ctx):
    case = ctx.choose("case", ["H-short", "H-complex", "UH-short", "UH-rect", "weights-short", "zero"])
    f = np.array([0.2, 0.6, 1.3, 1.7])
    H = gen.arr(ri(freqresp(TRUE[0], f.tolist())))
    U = np.eye(8) * 1e-8
    rng.balanced()
    if case == "H-short":
        ctx.raises(AssertionError, fit_som, f, H[:7])
    elif case == "H-complex":
        ctx.raises(AssertionError, fit_som, f, H[:4] + 1j * H[4:])
    elif case == "UH-short":
        ctx.raises(AssertionError, fit_som, f, H, U[:7, :7])
    elif case == "UH-rect":
        ctx.raises(AssertionError, fit_som, f, H, U[:, :7])
    elif case == "weights-short":
        ctx.raises(AssertionError, fit_som, f, H, weighting=np.ones(7))
    else:
        H[[1, 5]] = 0.0
        ctx.raises(AssertionError, fit_som, f, H)
    rng.seeded(1)


def scn_forms(ctx):
    """many frequencies, other magnitudes of frequencies, gains and uncertainties, other memory layouts"""
    S0 = ctx.choose("S0", [1.0, -3e-7, 2e6])
    d = ctx.choose("delta", [0.05, 0.9, 3.0])
    f0 = ctx.choose("f0", [1.0, 2e-4, 5e9])
    M = ctx.pick("M", [4, 7, 40], [100])
    ul = ctx.choose("uncertainty", [None, 1e-5, 1e-7])
    wk = ctx.choose("weighting", [None, "diag", "cov"])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if ul is None and wk or M > 7 and ul or lay != "C" and (S0 != 1.0 or f0 != 1.0):
        ctx.prune()
    ctx.go()
    g = GRID[M] if M in GRID else [2.2 * (k + 0.4) / M for k in range(M)]
    f = [f0 * v for v in g]
    H = perturbed((S0, d, f0), f, 0.01)
    s = 1.0 / f0
    J = ref.zeros(2 * M, 2 * M)
    for i, h in enumerate(H):
        q = -1 / h ** 2
        J[i][i], J[i][M + i], J[M + i][i], J[M + i][M + i] = q.real, -q.imag, q.imag, q.real
    kw = {"scaling": s}
    V = ref.eye(2 * M)
    args = [gen.lay(f, lay), gen.lay(ri(H), lay)]
    if ul is not None:
        Ua, U = unc("full", M, ul / 1e-5 * abs(S0))
        args.append(gen.lay(U, lay))
        iU = ref.quad(J, U)
        V = {None: V, "diag": ref.diag(ref.diagonal(iU)), "cov": iU}[wk]
        if wk:
            kw["weighting"] = wk
            e = max(abs(v) for v in ref.diagonal(V))
            V = ref.scal(1 / e, V)
    mu, P = wls(design(f, s), V, ri([1 / h for h in H]))
    want = params(mu, s)
    rng.balanced()
    r = ctx.call(fit_som, *args, **kw)
    rng.seeded(1)
    est = r if ul is None else r[0]
    for i, n in enumerate(["S0", "delta", "f0"]):
        ctx.close(n, float(est[i]), want[i], rtol=1e-6 if not wk else 1e-4)
    if ul is None:
        return
    C = jac_params(mu, s)
    C[1][1] = math.copysign(1.0, mu[0]) / math.sqrt(abs(mu[0] * mu[2]))
    Up = ref.quad(ref.mm(C, P), iU)
    su = [math.sqrt(Up[i][i]) for i in range(3)]
    got = [[float(r[1][i][j]) / (su[i] * su[j]) for j in range(3)] for i in range(3)]
    ctx.close("covariance", got, [[Up[i][j] / (su[i] * su[j]) for j in range(3)] for i in range(3)], rtol=2e-3 if not wk else 2e-2, scale=1.0)


SCENARIOS = [("fit", scn_fit), ("unc", scn_unc), ("errors", scn_errors), ("forms", scn_forms)]
