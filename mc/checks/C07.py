"""Amplitude and phase <-> real and imaginary parts <-> time domain."""
import math

import numpy as np
from scipy import sparse

from mc import gen, ref
from PyDynamic.uncertainty.propagate_DFT import (
    AmpPhase2DFT,
    AmpPhase2Time,
    DFT2AmpPhase,
    Time2AmpPhase,
    Time2AmpPhase_multi,
)

TITLE = "amplitude/phase conversions of uncertain spectra"
ASSUMPTIONS = ["amplitudes different from zero (phase is undefined otherwise)", "up to 6 (thorough: 17) spectral lines"]

PHASES = [0.3, math.pi / 2, -2.8, 0.0, math.pi, -math.pi / 2, 1.9, 2.7, -0.4]


def jac_ap2ri(A, P):
    n = len(A)
    J = ref.zeros(2 * n, 2 * n)
    for i in range(n):
        c, s = math.cos(P[i]), math.sin(P[i])
        J[i][i], J[i][n + i] = c, -A[i] * s
        J[n + i][i], J[n + i][n + i] = s, A[i] * c
    return J


def jac_ri2ap(R, I):
    n = len(R)
    J = ref.zeros(2 * n, 2 * n)
    for i in range(n):
        a2 = R[i] ** 2 + I[i] ** 2
        a = math.sqrt(a2)
        J[i][i], J[i][n + i] = R[i] / a, I[i] / a
        J[n + i][i], J[n + i][n + i] = -I[i] / a2, R[i] / a2
    return J


def blockdiag(n, kind, salt):
    """covariance that couples only the two components of one line: (2D list, sparse dia matrix)"""
    d = gen.vec("positive", 2 * n, salt)
    f = {"dia": 0.6, "dia0": 0.0, "dianeg": -0.9}[kind]
    c = [f * (1 if i % 2 == 0 else -0.5) * math.sqrt(d[i] * d[n + i]) for i in range(n)]
    U = ref.diag(d)
    for i in range(n):
        U[i][n + i] = U[n + i][i] = c[i]
    S = sparse.diags([gen.arr(d), gen.arr(c), gen.arr(c)], [0, n, -n])
    return U, S


def unc(kind, n, salt=3):
    """-> (argument, dense covariance)"""
    if kind == "vector":
        v = gen.vec("positive", 2 * n, salt)
        return gen.arr(v), ref.diag(v)
    if kind == "zvector":
        v = [abs(t) for t in gen.vec("gapped", 2 * n, salt)]
        return gen.arr(v), ref.diag(v)
    if kind.startswith("dia") and kind != "diag":
        U, S = blockdiag(n, kind, salt)
        return S, U
    if kind == "int":
        U = [[2 if i == j else (1 if abs(i - j) == 1 else 0) for j in range(2 * n)] for i in range(2 * n)]
        return np.array(U), [[float(t) for t in r] for r in U]
    if kind == "cross":
        U = ref.eye(2 * n)
        for i in range(n):
            j = n + (i + 1) % n
            U[i][j] = U[j][i] = 0.5
        return gen.arr(U), U
    U = gen.cov(kind, 2 * n, salt)
    return gen.arr(U), U


def spectrum(kind, n):
    """-> A, P"""
    if kind == "generic":
        return gen.vec("positive", n, 1), [((1.3 * i + 0.4) % 6.2) - 3.1 for i in range(n)]
    if kind == "axes":
        return [1.0 + i for i in range(n)], [PHASES[(i + 3) % len(PHASES)] for i in range(n)]
    if kind == "real":
        return gen.vec("positive", n, 1), [0.0] * n
    if kind == "const":
        return [2.0] * n, [PHASES[2]] * n
    if kind == "wide":
        return [abs(v) + 1e-2 for v in gen.vec("wide", n, 1)], [PHASES[i % len(PHASES)] for i in range(n)]
    raise ValueError(kind)


UKINDS = ["full", "diag", "vector", "dia", "dia0", "dianeg", "hole", "rank1", "zero", "cross", "int", "zvector"]


def mscale(U):
    return max(max(abs(t) for t in r) for r in U)


def units(n):
    return ["unit%d" % i for i in range(min(2 * n, 6))] + ["pair%d" % i for i in range(min(2 * n, 6))]


def scn_ap2ri(ctx):
    n = ctx.pick("lines", [1, 2, 3, 6], [4, 17])
    sk = ctx.choose("spectrum", ["generic", "axes", "real", "const", "wide", "zeroamp"])
    uk = ctx.choose("UAP", UKINDS + units(n))
    ks = ctx.choose("keep_sparse", [None, True])
    ctx.go()
    if sk == "zeroamp":
        A, P = spectrum("generic", n)
        A[0] = 0.0
    else:
        A, P = spectrum(sk, n)
    arg, U = unc(uk, n)
    F, UF = ctx.call(AmpPhase2DFT, gen.arr(A), gen.arr(P), arg, **({} if ks is None else {"keep_sparse": ks}))
    ctx.close("real-imag", F, [a * math.cos(p) for a, p in zip(A, P)] + [a * math.sin(p) for a, p in zip(A, P)], scale=max(A))
    ctx.check("dense-unless-asked", ks or not sparse.issparse(UF), "sparse result without keep_sparse")
    ctx.close("covariance", UF, ref.quad(jac_ap2ri(A, P), U), scale=mscale(U) * max(1, max(A)) ** 2)


def scn_ri2ap(ctx):
    n = ctx.pick("lines", [1, 2, 3, 6], [4, 17])
    sk = ctx.choose("spectrum", ["generic", "axes", "real", "const", "wide"])
    uk = ctx.choose("UF", [u for u in UKINDS if not (u.startswith("dia") and u != "diag")] + units(n))
    opt = ctx.choose("options", [{}, {"return_type": "joint"}, {"keep_sparse": True}, {"tol": 100.0}])
    ctx.go()
    A, P = spectrum(sk, n)
    R, I = [a * math.cos(p) for a, p in zip(A, P)], [a * math.sin(p) for a, p in zip(A, P)]
    arg, U = unc(uk, n)
    r = ctx.call(DFT2AmpPhase, gen.arr(R + I), arg, **opt)
    sep = "return_type" not in opt
    ctx.check("arity", len(r) == (3 if sep else 2), "number of returned values")
    A2, P2, UAP = (r[0], r[1], r[2]) if sep else (r[0][:n], r[0][n:], r[1])
    ctx.check("length", len(A2) == n and len(P2) == n, "one amplitude and phase per line")
    ctx.close("amplitude", A2, A)
    w = [math.atan2(i, r_) for r_, i in zip(R, I)]
    ctx.close("phase", P2, w, scale=1.0)
    ctx.check("phase-range", all(-math.pi - 1e-12 <= p <= math.pi + 1e-12 for p in P2.tolist()), "phase outside [-pi, pi]")
    ctx.check("dense-unless-asked", "keep_sparse" in opt or not sparse.issparse(UAP), "sparse result")
    # amplitude, cross and phase blocks have different magnitudes: compare block-wise
    W = ref.quad(jac_ri2ap(R, I), U)
    G = UAP.toarray().tolist() if sparse.issparse(UAP) else UAP.tolist()
    s, a = mscale(U), min(A)
    ctx.check("shape", len(G) == 2 * n and len(G[0]) == 2 * n, "covariance shape")
    for tag, i0, j0, sc in (("UAA", 0, 0, s), ("UAP", 0, n, s / a), ("UPA", n, 0, s / a), ("UPP", n, n, s / a ** 2)):
        ctx.close(tag, [row[j0 : j0 + n] for row in G[i0 : i0 + n]], [row[j0 : j0 + n] for row in W[i0 : i0 + n]], scale=sc)


def scn_roundtrip(ctx):
    n = ctx.pick("lines", [1, 2, 3, 6], [17])
    sk = ctx.choose("spectrum", ["generic", "axes", "wide"])
    uk = ctx.choose("UAP", ["full", "diag", "vector", "dia", "rank1", "hole"])
    ks = ctx.choose("keep_sparse", [False, True])
    ctx.go()
    A, P = spectrum(sk, n)
    arg, U = unc(uk, n)
    F, UF = ctx.call(AmpPhase2DFT, gen.arr(A), gen.arr(P), arg)
    A2, P2, U2 = ctx.call(DFT2AmpPhase, F, UF)
    ctx.close("amplitude", A2, A)
    dp = [math.remainder(a - b, 2 * math.pi) for a, b in zip(P2.tolist(), P)]
    ctx.close("phase", dp, [0.0] * n, atol=1e-9)
    ctx.close("covariance", U2, U, scale=mscale(U) * max(1.0, max(A) / min(A)) ** 2)
    # diagonal input keeps a sparse representation that carries the same numbers through both ways
    v = gen.vec("positive", 2 * n, 8)
    A3, P3, U3 = ctx.call(DFT2AmpPhase, F, gen.arr(v), keep_sparse=ks)
    F4, U4 = ctx.call(AmpPhase2DFT, A3, P3, U3, keep_sparse=ks)
    ctx.close("real-imag", F4, F)
    ctx.close("covariance-sparse", U4, ref.diag(v))


def jac_ap2t(A, P, N):
    return ref.mm(ref.irdft_jac(N, N), jac_ap2ri(A, P))


def scn_ap2time(ctx):
    n = ctx.pick("lines", [2, 3, 5], [4, 9])
    sk = ctx.choose("spectrum", ["generic", "axes", "real", "const"])
    uk = ctx.choose("UAP", [u for u in UKINDS if u not in ("vector", "zvector")] + units(n))
    ctx.go()
    A, P = spectrum(sk, n)
    arg, U = unc(uk, n)
    N = 2 * n - 2
    x, Ux = ctx.call(AmpPhase2Time, gen.arr(A), gen.arr(P), arg)
    F = [a * math.cos(p) for a, p in zip(A, P)] + [a * math.sin(p) for a, p in zip(A, P)]
    ctx.close("signal", x, ref.mv(ref.irdft_jac(N, N), F), scale=max(A) / N)
    ctx.close("covariance", Ux, ref.quad(jac_ap2t(A, P, N), U), scale=mscale(U) * max(A) ** 2 / N ** 2)


def sig(N, kind):
    x = gen.vec(kind, N, 1)
    x[0] += 5.0
    return x


def line_ok(J, x, tol=1e-2):
    F = ref.mv(J, x)
    n = len(F) // 2
    return all(math.hypot(F[i], F[n + i]) > tol for i in range(n))


def scn_time2ap(ctx):
    N = ctx.pick("len_x", [2, 3, 4, 5, 8], [9, 16])
    xk = ctx.choose("x", ["generic", "unit0", "ramp", "gapped"])
    uk = ctx.choose("Ux", ["full", "diag", "float", "variances", "hole", "rank1", "ones"] + ["unit%d" % i for i in range(min(N, 3))])
    ctx.go()
    x = sig(N, xk)
    J = ref.rdft_jac(N, N)
    if not line_ok(J, x):
        ctx.prune()
    if uk == "float":
        arg, U = 0.3, ref.eye(N, 0.3)
    elif uk == "variances":
        v = gen.vec("positive", N, 3)
        arg, U = gen.arr(v), ref.diag(v)
    else:
        U = gen.cov(uk, N, 2)
        arg = gen.arr(U)
    A, P, UAP = ctx.call(Time2AmpPhase, gen.arr(x), arg)
    F = ref.mv(J, x)
    n = len(F) // 2
    R, I = F[:n], F[n:]
    ctx.close("amplitude", A, [math.hypot(r, i) for r, i in zip(R, I)])
    dp = [math.remainder(p - math.atan2(i, r), 2 * math.pi) for p, r, i in zip(P.tolist(), R, I)]
    ctx.close("phase", dp, [0.0] * n, atol=1e-9)
    JJ = ref.mm(jac_ri2ap(R, I), J)
    W = ref.quad(JJ, U)
    if uk == "float":
        # white noise: real and imaginary parts are propagated as uncorrelated between lines
        V = ref.diag(ref.diagonal(ref.quad(J, U)))
        W = ref.quad(jac_ri2ap(R, I), V)
    ctx.close("covariance", UAP, W, rtol=1e-8)
    if N % 2 == 0 and uk != "float":
        x2, U2 = ctx.call(AmpPhase2Time, A, P, UAP)
        ctx.close("signal-recovered", x2, x)
        ctx.close("covariance-recovered", U2, U, rtol=1e-7)


def scn_multi(ctx):
    M = ctx.choose("signals", [1, 2, 3])
    N = ctx.pick("len_x", [2, 3, 4, 5, 8], [9])
    sel = ctx.choose("selector", ["none", "first", "last", "reverse", "repeat"])
    ctx.go()
    X = [sig(N, k) for k in ["generic", "ramp", "gapped"][:M]]
    V = [0.3, 1.2, 0.05][:M]
    J = ref.rdft_jac(N, N)
    if not all(line_ok(J, x) for x in X):
        ctx.prune()
    n = N // 2 + 1
    idx = {"none": list(range(n)), "first": [0], "last": [n - 1], "reverse": list(range(n))[::-1], "repeat": [0, n - 1, 0]}[sel]
    A, P, UAP = ctx.call(
        Time2AmpPhase_multi, gen.arr(X), gen.arr(V), **({} if sel == "none" else {"selector": np.array(idx)})
    )
    wA, wP, wU = [], [], []
    for x, v in zip(X, V):
        F = ref.mv(J, x)
        R, I = F[:n], F[n:]
        S = ref.diag([v * sum(c * c for c in r) for r in J])
        W = ref.quad(jac_ri2ap(R, I), S)
        wA.append([math.hypot(R[k], I[k]) for k in idx])
        wP.append([math.atan2(I[k], R[k]) for k in idx])
        wU.append([W[k][k] for k in idx] + [W[k][n + k] for k in idx] + [W[n + k][n + k] for k in idx])
    ctx.close("amplitude", A, wA)
    d = [[math.remainder(a - b, 2 * math.pi) for a, b in zip(r, s)] for r, s in zip(P.tolist(), wP)]
    ctx.close("phase", d, [[0.0] * len(idx)] * M, atol=1e-9)
    ctx.close("variances", UAP, wU, rtol=1e-8)


def scn_errors(ctx):
    n = ctx.choose("lines", [2, 3])
    what = ctx.choose("what", ["A2d", "P-short", "UAP-small", "UAP-long", "time-odd", "time-P-short"])
    A, P = gen.arr(gen.vec("positive", n)), np.zeros(n)
    if what == "A2d":
        ctx.raises(ValueError, AmpPhase2DFT, A[None, :], P[None, :], np.eye(2 * n))
    elif what == "P-short":
        ctx.raises(ValueError, AmpPhase2DFT, A, P[:-1], np.eye(2 * n))
    elif what == "UAP-small":
        ctx.raises(ValueError, AmpPhase2DFT, A, P, np.eye(2 * n - 1))
    elif what == "UAP-long":
        ctx.raises(ValueError, AmpPhase2DFT, A, P, np.ones(2 * n + 1))
    elif what == "time-odd":
        ctx.raises(ValueError, AmpPhase2Time, A, P, np.eye(2 * n - 1))
    else:
        ctx.raises(ValueError, AmpPhase2Time, A, P[:-1], np.eye(2 * n))


def lunc(kind, n, s, lay, salt=3):
    if kind == "vector":
        v = gen.scaled(gen.vec("positive", 2 * n, salt), s)
        return gen.lay(v, lay), ref.diag(v)
    if kind == "dia":
        U, S = blockdiag(n, "dia", salt)
        return S * (s * s), gen.scaled(U, s)
    U = gen.scaled(gen.cov(kind, 2 * n, salt), s)
    return gen.lay(U, lay), U


def blocks(ctx, G, W, n, s, a):
    G = G.toarray().tolist() if sparse.issparse(G) else G.tolist()
    ctx.check("shape", len(G) == 2 * n and len(G[0]) == 2 * n, "covariance shape")
    for tag, i0, j0, sc in (("UAA", 0, 0, s), ("UAP", 0, n, s / a), ("UPA", n, 0, s / a), ("UPP", n, n, s / a ** 2)):
        ctx.close(tag, [row[j0 : j0 + n] for row in G[i0 : i0 + n]], [row[j0 : j0 + n] for row in W[i0 : i0 + n]], scale=sc)


def scn_forms(ctx):
    """memory layouts, magnitudes of spectrum and uncertainty, many lines"""
    f = ctx.choose("function", ["ap2ri", "ri2ap", "ap2time"])
    n = ctx.pick("lines", [2, 5, 11, 24, 33], [50])
    uk = ctx.choose("U", ["full", "vector", "diag", "dia"])
    s = ctx.choose("U-scale", gen.SCALES)
    sa = ctx.choose("amplitude-scale", [1.0, 1e-6, 1e6])
    lay = ctx.choose("layout", gen.LAYOUTS) if n < 10 and sa == 1.0 else "C"
    ks = ctx.choose("keep_sparse", [False, True]) if f != "ap2time" else False
    if (uk == "dia" and f == "ri2ap") or (uk == "vector" and f == "ap2time"):
        ctx.prune()
    ctx.go()
    A, P = spectrum("generic", n)
    A = [sa * a for a in A]
    arg, U = lunc(uk, n, s, lay)
    R, I = [a * math.cos(p) for a, p in zip(A, P)], [a * math.sin(p) for a, p in zip(A, P)]
    kw = {"keep_sparse": True} if ks else {}
    if f == "ri2ap":
        A2, P2, UAP = ctx.call(DFT2AmpPhase, gen.lay(R + I, lay), arg, **kw)
        ctx.close("amplitude", A2, A)
        ctx.close("phase", P2, P, scale=1.0)
        blocks(ctx, UAP, ref.quad(jac_ri2ap(R, I), U), n, mscale(U), min(A))
        return
    # amplitudes may be anything, phases are of order one: their blocks enter with different weights
    J = jac_ap2ri(A, P)
    if f == "ap2ri":
        F, UF = ctx.call(AmpPhase2DFT, gen.lay(A, lay), gen.lay(P, lay), arg, **kw)
        ctx.close("real-imag", F, R + I, scale=max(A))
        ctx.close("covariance", UF, ref.quad(J, U))
    else:
        N = 2 * n - 2
        x, Ux = ctx.call(AmpPhase2Time, gen.lay(A, lay), gen.lay(P, lay), arg)
        Ji = ref.irdft_jac(N, N)
        ctx.close("signal", x, ref.mv(Ji, R + I), scale=max(A) / N)
        ctx.close("covariance", Ux, ref.quad(ref.mm(Ji, J), U), rtol=1e-8)


def scn_time_forms(ctx):
    """time domain to amplitude and phase: layouts, magnitudes, longer signals"""
    N = ctx.pick("len_x", [4, 7, 16, 25, 40], [64])
    uk = ctx.choose("Ux", ["full", "variances", "float"])
    s = ctx.choose("Ux-scale", gen.SCALES)
    sx = ctx.choose("x-scale", [1.0, 1e-6, 1e6])
    lay = ctx.choose("layout", gen.LAYOUTS) if N < 10 and sx == 1.0 else "C"
    ctx.go()
    x = [sx * v for v in sig(N, "generic")]
    J = ref.rdft_jac(N, N)
    if not line_ok(J, x, 1e-2 * sx):
        ctx.prune()
    if uk == "float":
        arg = 0.3 * s * s
        U = ref.eye(N, arg)
    elif uk == "variances":
        v = gen.scaled(gen.vec("positive", N, 3), s)
        arg, U = gen.lay(v, lay), ref.diag(v)
    else:
        U = gen.scaled(gen.cov("full", N, 2), s)
        arg = gen.lay(U, lay)
    A, P, UAP = ctx.call(Time2AmpPhase, gen.lay(x, lay), arg)
    F = ref.mv(J, x)
    n = len(F) // 2
    R, I = F[:n], F[n:]
    V = ref.quad(J, U)
    if uk == "float":
        V = ref.diag(ref.diagonal(V))
    a = [math.hypot(r, i) for r, i in zip(R, I)]
    ctx.close("amplitude", A, a)
    ctx.close("phase", [math.remainder(p - math.atan2(i, r), 2 * math.pi) for p, r, i in zip(P.tolist(), R, I)], [0.0] * n, atol=1e-9)
    blocks(ctx, UAP, ref.quad(jac_ri2ap(R, I), V), n, 10 * mscale(V), min(a))


SCENARIOS = [
    ("ap2ri", scn_ap2ri),
    ("ri2ap", scn_ri2ap),
    ("roundtrip", scn_roundtrip),
    ("ap2time", scn_ap2time),
    ("time2ap", scn_time2ap),
    ("multi", scn_multi),
    ("errors", scn_errors),
    ("forms", scn_forms),
    ("time_forms", scn_time_forms),
]
