"""Every covariance matrix handed out is one: square, real, symmetric and positive semi-definite."""
import numpy as np

from mc import calls, rng
from PyDynamic.uncertainty.propagate_filter import FIRuncFilter

TITLE = "every returned covariance is a covariance: real, symmetric, positive semi-definite"
ASSUMPTIONS = [
    "semi-definiteness is decided with the eigenvalues of the symmetric part, up to rounding relative to the largest one",
]
WITH = [n for n in calls.NAMES if calls.BY[n][3] is not None]


def verdict(C):
    """None or what is wrong"""
    C = C.toarray() if hasattr(C, "toarray") else np.asarray(C)
    if C.ndim != 2 or C.shape[0] != C.shape[1]:
        return "shape %s" % (C.shape,)
    if C.dtype.kind not in "fiu":
        return "dtype %s" % C.dtype
    M = C.tolist()
    n = len(M)
    big = max([abs(v) for r in M for v in r] + [0.0])
    if not big < np.inf:
        return "not finite: %s" % M
    if big == 0:
        return None
    worst = max([abs(M[i][j] - M[j][i]) for i in range(n) for j in range(n)])
    if worst > 1e-9 * big:
        return "not symmetric, by %.3g of %.3g: %s" % (worst, big, M)
    neg = min(M[i][i] for i in range(n))
    if neg < -1e-12 * big:
        return "negative variance %.3g: %s" % (neg, M)
    # correlation form, so that small variances count as much as large ones
    ev = np.linalg.eigvalsh(np.array([[0.5 * (M[i][j] + M[j][i]) for j in range(n)] for i in range(n)]))
    if ev.min() < -1e-9 * max(big, ev.max()):
        return "eigenvalue %.3g of %.3g: %s" % (ev.min(), ev.max(), M)
    return None


def continued_psd(U, m):
    """is U, continued by m samples into the past as for stationary noise, still a covariance?"""
    n = len(U)
    c = U[0] + [0.0] * m
    M = [[c[abs(i - j)] if min(i, j) < m else U[i - m][j - m] for j in range(n + m)] for i in range(n + m)]
    ev = np.linalg.eigvalsh(np.array(M))
    return ev.min() >= -1e-12 * max(ev.max(), 1.0)


def scn_catalogue(ctx):
    """all functions, sizes, kinds of input uncertainty and input values"""
    name = ctx.choose("call", WITH)
    n = ctx.pick("n", [2, 4, 5], [3, 6, 7, 8])
    uk = ctx.choose("uncertainty", calls.UK)
    salt = ctx.pick("salt", [0, 1], [2, 3, 4])
    if name in calls.SLOW and (n != 4 or salt) or name in ("fit_som", "invLSFIR_unc", "deconvolution.LSFIR_unc", "fit_sos") and (n == 2 or salt > 1):
        ctx.prune()
    ctx.go()
    f, a, k = calls.build(name, n, uk, salt)
    if name == "FIRuncFilter-full" and not continued_psd(a[1].tolist(), len(a[2]) - 1):
        ctx.prune()  # see scn_warmup
    if name.startswith("fit_som") and uk in ("zero", "hole", "rank1") and k.get("weighting"):
        ctx.prune()
    rng.seeded(3 + salt)
    r = ctx.call(f, *a, **k)
    covs = calls.BY[name][3](r)
    ctx.check("given", len(covs) > 0, "%s returns no covariance" % name)
    for i, C in enumerate(covs):
        msg = verdict(C)
        ctx.check("covariance", msg is None, "%s n=%d %s salt=%d #%d: %s" % (name, n, uk, salt, i, msg))


def scn_warmup(ctx):
    """FIRuncFilter for covariances whose continuation into the past is not obvious"""
    U = ctx.choose("Ux", [[[1.0, 1.0], [1.0, 1.0]], [[1.0, 0.9], [0.9, 4.0]], [[1.0, -2.0], [-2.0, 4.0]], [[1.0, 1.0, 1.0]] * 3, [[4.0, 0.0], [0.0, 1.0]]])
    theta = ctx.choose("theta", [[1.0, 1.0], [1.0, -1.0], [1.0, -1.0, 1.0]])
    full = ctx.choose("full", [True, False])
    ctx.go()
    y, C = ctx.call(FIRuncFilter, np.arange(float(len(U))), np.array(U), np.array(theta), return_full_covariance=full)
    msg = verdict(C) if full else None if all(v >= 0 for v in C.tolist()) else "standard uncertainties %s" % C.tolist()
    ctx.check("covariance", msg is None, "FIRuncFilter(Ux=%s, theta=%s): %s" % (U, theta, msg))


def scn_larger(ctx):
    """longer vectors, uncertainties of other magnitudes"""
    name = ctx.choose("call", WITH)
    n = ctx.pick("n", [4, 9, 17], [16, 30])
    uk = ctx.choose("uncertainty", ["full", "toep", "rank1", "diag"])
    scale = ctx.choose("magnitude", [1.0, 1e-6, 1e-3, 30.0])
    if name in calls.SLOW and (n != 4 or uk != "full") or name in ("fit_som", "invLSFIR_unc", "deconvolution.LSFIR_unc", "fit_sos") and uk not in ("full", "diag"):
        ctx.prune()
    if name in ("MC", "MC-low", "Signal") and scale > 1.0:
        ctx.prune()  # so many unstable filters that a single run may remain
    if n == 4 and scale == 1.0:
        ctx.prune()  # in the catalogue
    ctx.go()
    calls.SCALE = scale
    try:
        f, a, k = calls.build(name, n, uk, 2)
    finally:
        calls.SCALE = 1.0
    if name == "FIRuncFilter-full" and not continued_psd((a[1] / scale ** 2).tolist(), len(a[2]) - 1):
        ctx.prune()
    if name.startswith("fit_som") and uk == "rank1" and k.get("weighting"):
        ctx.prune()
    rng.seeded(5)
    r = ctx.call(f, *a, **k)
    for i, C in enumerate(calls.BY[name][3](r)):
        msg = verdict(C)
        ctx.check("covariance", msg is None, "%s n=%d %s times %g #%d: %s" % (name, n, uk, scale, i, str(msg)[:300]))


SCENARIOS = [("catalogue", scn_catalogue), ("warmup", scn_warmup), ("larger", scn_larger)]
