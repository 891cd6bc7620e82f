"""Inverse DFT of an uncertain spectrum, and the round trip through both transforms."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_DFT import GUM_DFT, GUM_iDFT

TITLE = "inverse DFT of an uncertain spectrum and round trip"
ASSUMPTIONS = ["signals of even length (the interface cannot express odd ones)", "spectra of up to 9 (thorough: 17) lines"]


def scn_core(ctx):
    M = ctx.pick("lines", [2, 3, 4, 5, 9], [6, 8, 17])
    N = 2 * (M - 1)
    nx = ctx.choose("Nx", [None, N, N - 1, max(1, N // 2), 1])
    if nx is not None and nx < 1:
        ctx.prune()
    fk = ctx.choose("F", ["generic", "unit0", "unit1", "zero", "huge", "int"])
    uk = ctx.choose(
        "UF", ["full", "diag", "vector", "hole", "rank1", "zero", "ones", "tiny"] + ["unit%d" % i for i in range(2 * M if M < 5 else 4)]
        + ["pair%d" % i for i in range(2 * M if M < 5 else 4)] + ["cross", "int"],
    )
    retc = ctx.choose("returnC", [False, True])
    ctx.go()
    if fk == "int":
        F = [float((7 * i) % 5 - 2) for i in range(2 * M)]
        Fa = np.array([int(v) for v in F])
    else:
        F = gen.vec(fk, 2 * M, 1)
        Fa = gen.arr(F)
    if uk == "vector":
        v = gen.vec("positive", 2 * M, 3)
        Ua, U = gen.arr(v), ref.diag(v)
    elif uk == "cross":  # correlation between real and imaginary parts of different lines only
        U = ref.eye(2 * M)
        for i in range(M):
            j = M + (i + 1) % M
            U[i][j] = U[j][i] = 0.5
        Ua = gen.arr(U)
    elif uk == "int":
        U = [[float(2 if i == j else (1 if abs(i - j) == 1 else 0)) for j in range(2 * M)] for i in range(2 * M)]
        Ua = np.array([[int(t) for t in r] for r in U])
    else:
        U = gen.cov(uk, 2 * M, 2)
        Ua = gen.arr(U)
    kw = {}
    if nx is not None:
        kw["Nx"] = nx
    if retc:
        kw["returnC"] = True
    r = ctx.call(GUM_iDFT, Fa, Ua, **kw)
    ctx.check("arity", len(r) == (3 if retc else 2), "number of returned values")
    J = ref.irdft_jac(N, nx or N)
    ctx.close("signal", r[0], ref.mv(J, F), scale=max(abs(v) for v in F) / N)
    ctx.close("covariance", r[1], ref.quad(J, U), scale=max(max(abs(t) for t in row) for row in U) / N ** 2)
    if retc:
        ctx.close("sensitivity-cos", r[2]["Cc"], [[v * N for v in row[:M]] for row in J], scale=1.0)
        ctx.close("sensitivity-sin", r[2]["Cs"], [[v * N for v in row[M:]] for row in J], scale=1.0)
        kw.pop("returnC")
        r2 = ctx.call(GUM_iDFT, Fa, Ua, Cc=r[2]["Cc"], Cs=r[2]["Cs"], **kw)
        ctx.close("signal", r2[0], r[0])
        ctx.close("covariance", r2[1], r[1])


def scn_roundtrip(ctx):
    N = ctx.pick("len_x", [2, 4, 6, 8, 16], [10, 32, 64])
    xk = ctx.choose("x", ["generic", "zero", "const", "alt", "unit0", "unit1", "huge", "tiny"])
    uk = ctx.choose("Ux", ["full", "diag", "variances", "rank1", "hole", "ones", "zero", "tiny", "huge"] + ["unit%d" % i for i in range(min(N, 4))] + ["pair%d" % i for i in range(min(N, 4))])
    nx = ctx.choose("Nx", [None, 1])
    ctx.go()
    x = gen.vec(xk, N, 1)
    if uk == "variances":
        v = gen.vec("positive", N, 3)
        Ua, U = gen.arr(v), ref.diag(v)
    else:
        U = gen.cov(uk, N, 2)
        Ua = gen.arr(U)
    F, UF = ctx.call(GUM_DFT, gen.arr(x), Ua)
    n = N - nx if nx else N
    x2, U2 = ctx.call(GUM_iDFT, F, UF, **({"Nx": n} if nx else {}))
    ctx.close("signal-recovered", x2, x[:n], scale=max(abs(v) for v in x))
    ctx.close("covariance-recovered", U2, [r[:n] for r in U[:n]], scale=max(max(abs(t) for t in r) for r in U))


def scn_pad(ctx):
    """zero padding and truncation: padded transform inverted to the original length gives the original"""
    N = ctx.choose("len_x", [1, 2, 3, 5, 7])
    pad = ctx.choose("padding", [1, 2, 3, 4, 5])
    uk = ctx.choose("Ux", ["full", "diag", "rank1"])
    if (N + pad) % 2:
        ctx.prune()
    x, U = gen.vec("generic", N, 1), gen.cov(uk, N, 2)
    F, UF = ctx.call(GUM_DFT, gen.arr(x), gen.arr(U), N=N + pad)
    x2, U2 = ctx.call(GUM_iDFT, F, UF, Nx=N)
    ctx.close("signal-recovered", x2, x)
    ctx.close("covariance-recovered", U2, U)


def scn_errors(ctx):
    M = ctx.choose("lines", [2, 3, 5])
    more = ctx.choose("excess", [1, 2, 10])
    ctx.raises(ValueError, GUM_iDFT, np.ones(2 * M), np.eye(2 * M), Nx=2 * M - 2 + more)


def scn_forms(ctx):
    """memory layouts, magnitudes of the uncertainty, medium lengths"""
    M = ctx.pick("lines", [2, 5, 9, 17, 18], [33, 40])
    uk = ctx.choose("UF", ["full", "vector", "diag", "rank1"])
    s = ctx.choose("UF-scale", gen.SCALES)
    nx = ctx.choose("Nx", ["default", "short", "one-less"])
    lay = ctx.choose("layout", gen.LAYOUTS) if M < 10 else "C"
    ctx.go()
    N = 2 * (M - 1)
    n = {"default": N, "short": max(1, N // 3), "one-less": max(1, N - 1)}[nx]
    F = gen.vec("generic", 2 * M, 1)
    if uk == "vector":
        v = gen.scaled(gen.vec("positive", 2 * M, 3), s)
        Ua, U = gen.lay(v, lay), ref.diag(v)
    else:
        U = gen.scaled(gen.cov(uk, 2 * M, 2), s)
        Ua = gen.lay(U, lay)
    x, Ux = ctx.call(GUM_iDFT, gen.lay(F, lay), Ua, **({} if nx == "default" else {"Nx": n}))
    J = ref.irdft_jac(N, n)
    ctx.close("signal", x, ref.mv(J, F), scale=max(abs(v) for v in F) / N)
    ctx.close("covariance", Ux, ref.quad(J, U), scale=max(max(abs(t) for t in row) for row in U) / N ** 2)


def scn_roundtrip_scale(ctx):
    """round trip at other magnitudes of signal and uncertainty, and with many samples"""
    N = ctx.pick("len_x", [2, 6, 24, 40], [66, 100])
    sx = ctx.choose("x-scale", [1.0, 1e-9, 1e9])
    su = ctx.choose("Ux-scale", gen.SCALES)
    uk = ctx.choose("Ux", ["full", "diag", "rank1"])
    ctx.go()
    x = [sx * v for v in gen.vec("generic", N, 1)]
    U = gen.scaled(gen.cov(uk, N, 2), su)
    F, UF = ctx.call(GUM_DFT, gen.arr(x), gen.arr(U))
    x2, U2 = ctx.call(GUM_iDFT, F, UF)
    ctx.close("signal-recovered", x2, x)
    ctx.close("covariance-recovered", U2, U)


SCENARIOS = [("core", scn_core), ("roundtrip", scn_roundtrip), ("pad", scn_pad), ("errors", scn_errors), ("forms", scn_forms), ("roundtrip_scale", scn_roundtrip_scale)]
