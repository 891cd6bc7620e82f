"""Least-squares FIR filter fits to a frequency response or its reciprocal."""
import cmath
import math

import numpy as np

from mc import gen, ref, rng
from PyDynamic.model_estimation.fit_filter import LSFIR, invLSFIR, invLSFIR_unc, invLSFIR_uncMC

TITLE = "least-squares FIR filter fits, direct and inverse, with uncertainty"
ASSUMPTIONS = [
    "overdetermined, well conditioned fits (frequencies spread over the band)",
    "Monte Carlo inside: balanced answers of the generator (exact first two moments), uncertainties small "
    "enough for the linear limit (relative 1e-5)",
]

FREQS = {  # relative to Fs
    "edge": lambda M: [0.5 * k / (M - 1) for k in range(M)],
    "inner": lambda M: [0.47 * (k + 0.6) / M for k in range(M)],
    "uneven": lambda M: [0.02 + 0.45 * (k / (M - 1.0)) ** 1.4 for k in range(M)],
}


def response(kind, w):
    if kind == "resonance":
        return [1.3 / (1 - (x / 1.9) ** 2 + 0.3j * x) for x in w]
    if kind == "generic":
        return [complex(1.5 + 0.5 * gen.gval(i, 3), gen.gval(i, 4)) for i in range(len(w))]
    if kind == "real":
        return [complex(1.0 + 0.2 * gen.gval(i, 5)) for i in range(len(w))]
    if kind == "const":
        return [2.0 + 0j] * len(w)
    raise ValueError(kind)


def wls(E, g, W):
    """argmin || W (E b - g) || over real b; W square, real"""
    Ew = [[sum(W[i][k] * E[k][j] for k in range(len(E))) for j in range(len(E[0]))] for i in range(len(W))]
    gw = [sum(W[i][k] * g[k] for k in range(len(g))) for i in range(len(W))]
    X = [[z.real for z in r] for r in Ew] + [[z.imag for z in r] for r in Ew]
    return ref.cho_solve_ls(X, [z.real for z in gw] + [z.imag for z in gw])


def design(w, N):
    return [[cmath.exp(-1j * x * k) for k in range(N + 1)] for x in w]


def weights(kind, M):
    """-> argument, matrix"""
    if kind is None:
        return None, ref.eye(M)
    if kind == "vec":
        v = gen.vec("positive", M, 2)
        return gen.arr(v), ref.diag(v)
    if kind == "list":
        v = gen.vec("positive", M, 5)
        return v, ref.diag(v)
    if kind == "ones":
        return np.ones(M), ref.eye(M)
    if kind == "int":
        v = [1 + (3 * i) % 4 for i in range(M)]
        return np.array(v), ref.diag([float(t) for t in v])
    if kind == "skip":  # one value is ignored
        v = [1.0] * M
        v[1] = 0.0
        return gen.arr(v), ref.diag(v)
    if kind == "diag":
        v = gen.vec("positive", M, 6)
        return np.diag(v), ref.diag(v)
    W = [[(2.0 if i == j else 0.0) + 0.3 * gen.gval(i + 5 * j, 7) for j in range(M)] for i in range(M)]
    return gen.arr(W), W


def scn_fit(ctx):
    fn = ctx.choose("function", ["LSFIR", "invLSFIR"])
    M = ctx.pick("M", [4, 5, 9], [7, 20])
    N = ctx.choose("N", [0, 1, 2, 4, 6])
    fk = ctx.choose("f", list(FREQS))
    Fs = ctx.choose("Fs", [1.0, 2, 5e5])
    tau = ctx.choose("tau", [0, 1, 2.5, -1, 7])
    hk = ctx.choose("H", ["resonance", "generic", "real", "const"])
    wk = ctx.choose("Wt", [None, "vec", "list", "ones", "int", "skip", "diag", "full"])
    if 2 * M - 4 < N + 1:
        ctx.prune()
    ctx.go()
    fr = FREQS[fk](M)
    w = [2 * math.pi * v for v in fr]
    H = response(hk, w)
    f = np.array([v * Fs for v in fr])
    if fn == "LSFIR":
        g = [h * cmath.exp(-1j * x * tau) for h, x in zip(H, w)]
    else:
        g = [1 / (h * cmath.exp(1j * x * tau)) for h, x in zip(H, w)]
    wa, W = weights(wk, M)
    kw = {} if wk is None else {"Wt": wa}
    b = ctx.call(LSFIR if fn == "LSFIR" else invLSFIR, np.array(H), N, tau, f, Fs, **kw)
    ctx.close("coefficients", b, wls(design(w, N), g, W), rtol=1e-7, scale=1e-3)


TRUE = {"1": [0.7], "2": [1.0, -0.4], "3": [0.5, -1.2, 0.8], "4": [1.0, 0.5, 0.25, 0.125], "min": [2.0, 0.0, -0.5]}


def scn_exact(ctx):
    """the frequency response of a filter gives back the filter"""
    tk = ctx.choose("true", list(TRUE))
    extra = ctx.choose("extra order", [0, 1, 3])
    delay = ctx.choose("delay", [0, 1, 2])
    fn = ctx.choose("function", ["LSFIR", "invLSFIR", "unc", "uncMC"])
    wk = ctx.choose("Wt", [None, "vec"])
    if fn == "uncMC" and (wk or extra == 1 or delay == 1 or tk not in ("2", "4")):
        ctx.prune()
    ctx.go()
    th = TRUE[tk]
    N = len(th) - 1 + extra
    if N == 0 and fn == "uncMC":
        N += 1
    M = 9
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    B = [sum(t * cmath.exp(-1j * x * k) for k, t in enumerate(th)) for x in w]
    f = np.array(fr) * 100.0
    # filter = target delayed by `delay` samples
    tgt = [z * cmath.exp(1j * x * delay) for z, x in zip(B, w)]
    want = th + [0.0] * (N + 1 - len(th))
    if fn == "LSFIR":
        wa = weights(wk, M)[0]
        b = ctx.call(LSFIR, np.array(tgt), N, delay, f, 100.0, wa)
    else:
        H = np.array([1 / z for z in tgt])
        U0 = np.zeros((2 * M, 2 * M))
        if fn == "invLSFIR":
            b = ctx.call(invLSFIR, H, N, delay, f, 100.0, weights(wk, M)[0])
        else:
            rng.counter()
            if fn == "unc":
                kw = {} if wk is None else {"wt": weights(wk, 2 * M)[0]}
                b, Ub = ctx.call(invLSFIR_unc, H, U0, N, delay, f, 100.0, verbose=False, **kw)
            else:
                b, Ub = ctx.call(invLSFIR_uncMC, H, U0, N, delay, f, 100.0, verbose=False)
            rng.seeded(1)
            ctx.close("no-uncertainty", Ub, ref.zeros(N + 1, N + 1), atol=1e-18)
    ctx.close("recovered", b, want, rtol=1e-7)


def jac_inv(H, w, tau):
    """d(re, im of 1/(H e^{jw tau})) / d(re H.., im H..)"""
    M = len(H)
    J = ref.zeros(2 * M, 2 * M)
    for i in range(M):
        d = -cmath.exp(-1j * w[i] * tau) / H[i] ** 2
        J[i][i], J[i][M + i] = d.real, -d.imag
        J[M + i][i], J[M + i][M + i] = d.imag, d.real
    return J


def pinv(X):
    """(X^T X)^-1 X^T"""
    Xt = ref.T(X)
    G = ref.mm(Xt, X)
    cols = [ref.solve(G, [r[i] for r in Xt]) for i in range(len(X))]
    return ref.T(cols)


UKINDS = ["diag", "full", "rank1", "hole", "toep", "unit1", "unit5", "pair0", "pair3", "zero"]


def unc_case(ctx, kinds, Ms, Ns, taus):
    M = ctx.pick("M", *Ms)
    N = ctx.choose("N", Ns)
    tau = ctx.choose("tau", taus)
    hk = ctx.choose("H", ["resonance", "generic", "const"])
    uk = ctx.choose("UH", kinds)
    Fs = ctx.choose("Fs", [1.0, 5e3])
    if 2 * M - 2 < N + 1:
        ctx.prune()
    return M, N, tau, hk, uk, Fs


def build(M, N, tau, hk, uk):
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    H = response(hk, w)
    U = ref.scal(1e-10, gen.cov(uk, 2 * M, 2))
    E = design(w, N)
    X = [[z.real for z in r] for r in E] + [[z.imag for z in r] for r in E]
    g = [1 / (h * cmath.exp(1j * x * tau)) for h, x in zip(H, w)]
    return fr, w, H, U, X, [z.real for z in g] + [z.imag for z in g]


def scn_unc(ctx):
    """coefficients and covariance, weighted and unweighted"""
    M, N, tau, hk, uk, Fs = unc_case(ctx, UKINDS, ([3, 4, 7], [5, 6]), [1, 2, 4], [0, 2, 1.5])
    wk = ctx.choose("wt", [None, "vec", "ones", "int", "skip"])
    hform = ctx.choose("form of H", ["complex", "real and imaginary"])
    if Fs != 1.0 and (hk != "generic" or uk != "full"):
        ctx.prune()
    if not ctx.thorough and (hk != "generic") + (uk != "full") + (wk is not None) + (hform != "complex") > 2:
        ctx.prune()  # at most two departures from the base case
    ctx.go()
    fr, w, H, U, X, g = build(M, N, tau, hk, uk)
    wa, W = weights(wk, 2 * M)
    P = ref.mm(pinv(ref.mm(W, X)), W)
    J = ref.mm(P, jac_inv(H, w, tau))
    h = np.array(H) if hform == "complex" else np.array([z.real for z in H] + [z.imag for z in H])
    kw = {} if wk is None else {"wt": wa}
    rng.balanced()
    b, Ub = ctx.call(invLSFIR_unc, h, gen.arr(U), N, tau, np.array(fr) * Fs, Fs, verbose=False, **kw)
    rng.seeded(1)
    ctx.close("coefficients", b, ref.mv(P, g), rtol=1e-7)
    ctx.close("covariance", Ub, ref.quad(J, U), rtol=1e-3, atol=1e-17)


def scn_truncate(ctx):
    """singular values below the bound are left out"""
    M = ctx.choose("M", [3, 4, 7])
    N = ctx.choose("N", [1, 2, 4])
    keep = ctx.choose("keep", [0, 1, 2, 3, 5])
    uk = ctx.choose("UH", ["diag", "full"])
    wk = ctx.choose("wt", [None, "vec"])
    if keep > N + 1:
        ctx.prune()
    ctx.go()
    fr, w, H, U, X, g = build(M, N, 1, "generic", uk)
    wa, W = weights(wk, 2 * M)
    u, s, vh = np.linalg.svd(np.array(ref.mm(W, X)), full_matrices=False)
    sv = s.tolist()
    hi, lo = (sv[keep - 1] if keep else 10 * sv[0]), (sv[keep] if keep < len(sv) else 0.1 * sv[-1])
    if hi - lo < 1e-6 * sv[0]:
        ctx.prune()
    si = np.array([1 / v if i < keep else 0.0 for i, v in enumerate(sv)])
    P = ((vh.T * si) @ u.T @ np.array(W)).tolist()
    kw = {} if wk is None else {"wt": wa}
    rng.balanced()
    b, Ub = ctx.call(
        invLSFIR_unc, np.array(H), gen.arr(U), N, 1, np.array(fr), 1.0, verbose=False, trunc_svd_tol=0.5 * (hi + lo), **kw
    )
    rng.seeded(1)
    ctx.close("coefficients", b, ref.mv(P, g), rtol=1e-7)
    ctx.close("covariance", Ub, ref.quad(ref.mm(P, jac_inv(H, w, 1)), U), rtol=1e-3, atol=1e-17)


def scn_unc_mc(ctx):
    M, N, tau, hk, uk, Fs = unc_case(ctx, ["full", "rank1", "unit1", "pair3"], ([3], [4, 7]), [1, 2], [0, 2])
    if hk == "const" or Fs != 1.0 and (tau or hk != "generic" or uk != "full"):
        ctx.prune()
    ctx.go()
    fr, w, H, U, X, g = build(M, N, tau, hk, uk)
    P = pinv(X)
    J = ref.mm(P, jac_inv(H, w, tau))
    rng.balanced()
    b, Ub = ctx.call(invLSFIR_uncMC, np.array(H), gen.arr(U), N, tau, np.array(fr) * Fs, Fs, verbose=False)
    rng.seeded(1)
    ctx.close("coefficients", b, ref.mv(P, g), rtol=1e-6)
    ctx.close("covariance", Ub, ref.quad(J, U), rtol=1e-3, atol=1e-17)


def scn_errors(ctx):
    d = ctx.choose("difference", [-1, 1, 3])
    M = ctx.choose("M", [3, 5])
    fr = FREQS["inner"](M)
    rng.counter()
    ctx.raises(
        ValueError, invLSFIR_unc, np.array(response("generic", fr)), np.eye(2 * M) * 1e-6, 2, 0, np.array(fr), 1.0,
        wt=np.ones(2 * M + d), verbose=False,
    )


def scn_fit_long(ctx):
    """many frequencies, long filters, responses of other magnitudes, other memory layouts"""
    fn = ctx.choose("function", ["LSFIR", "invLSFIR"])
    M, N = ctx.pick("size", [(12, 7), (25, 12), (40, 31), (60, 20)], [(120, 45), (200, 64)])
    wk = ctx.choose("Wt", [None, "vec", "full"])
    s = ctx.choose("magnitude of H", [1.0, 1e-6, 1e4])
    tau = ctx.choose("tau", [0, 20, -3.5])
    lay = ctx.choose("layout", gen.LAYOUTS)
    if lay != "C" and s != 1.0:
        ctx.prune()
    ctx.go()
    Fs = 250.0
    fr = FREQS["inner"](M)
    w = [2 * math.pi * v for v in fr]
    H = [s * h for h in response("generic", w)]
    g = [h * cmath.exp(-1j * x * tau) if fn == "LSFIR" else 1 / (h * cmath.exp(1j * x * tau)) for h, x in zip(H, w)]
    wa, W = weights(wk, M)
    kw = {} if wk is None else {"Wt": gen.lay(wa, lay)}
    b = ctx.call(LSFIR if fn == "LSFIR" else invLSFIR, gen.lay(H, lay), N, tau, gen.lay([v * Fs for v in fr], lay), Fs, **kw)
    ctx.close("coefficients", b, wls(design(w, N), g, W), rtol=1e-7, scale=(s if fn == "LSFIR" else 1 / s) * 1e-2)


def scn_unc_forms(ctx):
    """uncertainty propagation for more values, other magnitudes of response and uncertainty, other memory layouts"""
    M, N = ctx.pick("size", [(4, 2), (7, 6), (7, 8)], [(7, 11), (6, 9)])
    s = ctx.choose("magnitude of H", [1.0, 1e-4, 1e5])
    su = ctx.choose("relative uncertainty", [1e-5, 1e-7])
    wk = ctx.choose("wt", [None, "vec"])
    lay = ctx.choose("layout", gen.LAYOUTS)
    hform = ctx.choose("form of H", ["complex", "real and imaginary"])
    if (lay != "C") + (s != 1.0) + (su != 1e-5) > 1:
        ctx.prune()
    ctx.go()
    tau, Fs = 1, 40.0
    fr, w, H, U, X, g = build(M, N, tau, "generic", "full")
    H = [s * h for h in H]
    U = ref.scal((su / 1e-5 * s) ** 2, U)
    wa, W = weights(wk, 2 * M)
    P = ref.mm(pinv(ref.mm(W, X)), W)
    J = ref.mm(P, jac_inv(H, w, tau))
    h = H if hform == "complex" else [z.real for z in H] + [z.imag for z in H]
    kw = {} if wk is None else {"wt": gen.lay(wa, lay)}
    rng.balanced()
    b, Ub = ctx.call(invLSFIR_unc, gen.lay(h, lay), gen.lay(U, lay), N, tau, gen.lay([v * Fs for v in fr], lay), Fs, verbose=False, **kw)
    rng.seeded(1)
    ctx.close("coefficients", b, ref.mv(P, [v / s for v in g]), rtol=1e-7, scale=1e-2 / s)
    ctx.close("covariance", Ub, ref.quad(J, U), rtol=1e-3, scale=su * su / s ** 2)


SCENARIOS = [
    ("fit", scn_fit),
    ("exact", scn_exact),
    ("unc", scn_unc),
    ("truncate", scn_truncate),
    ("unc-mc", scn_unc_mc),
    ("errors", scn_errors),
    ("fit-long", scn_fit_long), ("unc-forms", scn_unc_forms),
]
