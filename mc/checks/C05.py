"""Discrete Fourier transform of an uncertain signal."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_DFT import GUM_DFT, GUM_DFTfreq

TITLE = "DFT of an uncertain signal"
ASSUMPTIONS = ["signals of 1 to 9 (thorough: 33) samples for full covariances, up to 129 (513) for white noise"]


def full_cov(form, M, salt=0):
    """-> (Ux argument, covariance)"""
    name, arg = form.split(":")
    if name == "float":
        return float(arg), ref.eye(M, float(arg))
    if name == "var":
        v = gen.vec(arg, M, salt)
        v = [abs(t) for t in v]
        return gen.arr(v), ref.diag(v)
    if name == "intcov":
        U = [[(3 if i == j else (1 if abs(i - j) == 1 else 0)) for j in range(M)] for i in range(M)]
        return np.array(U), [[float(t) for t in r] for r in U]
    U = gen.cov(arg, M, salt)
    return gen.arr(U), U


def model(x, U, N, window, mask):
    M = len(x)
    L = M if N is None else N
    w = window or [1.0] * M
    J = ref.rdft_jac(M, L)
    J = [[v * wi for v, wi in zip(r, w)] for r in J]
    K = L // 2 + 1
    keep = [k for k in range(K) if mask is None or mask[k]]
    J = [J[k] for k in keep] + [J[K + k] for k in keep]
    return ref.mv(J, x), ref.quad(J, U), J


def compare(ctx, F, UF, x, U, N, window, mask, scalar):
    wF, wU, J = model(x, U, N, window, mask)
    ctx.close("best-estimate", F, wF, scale=max([abs(v) for v in x]) if x else None)
    if scalar and window is None:
        # white noise given by its variance: point-wise variances only
        ctx.close("variance", UF, ref.diagonal(wU))
    else:
        ctx.close("covariance", UF, wU)
    return J


def scn_core(ctx):
    M = ctx.pick("len_x", [1, 2, 3, 4, 5, 8, 9], [16, 17])
    form = ctx.choose("Ux", ["float:0.25", "var:positive", "cov:full", "cov:diag"])
    pad = ctx.choose("padding", [None, 0, 1, 2, 5])
    win = ctx.choose("window", [False, True])
    msk = ctx.choose("mask", ["none", "all", "first", "last", "alternate", "single"])
    retc = ctx.choose("returnC", [False, True])
    ctx.go()
    x = gen.vec("generic", M, 1)
    arg, U = full_cov(form, M)
    N = None if pad is None else M + pad
    K = (N or M) // 2 + 1
    mask = {
        "none": None,
        "all": [True] * K,
        "first": [k < (K + 1) // 2 for k in range(K)],
        "last": [k >= K // 2 for k in range(K)],
        "alternate": [k % 2 == 0 for k in range(K)],
        "single": [k == K - 1 for k in range(K)],
    }[msk]
    window = gen.vec("positive", M, 4) if win else None
    kw = {}
    if N is not None:
        kw["N"] = N
    if window:
        kw["window"] = gen.arr(window)
    if mask is not None:
        kw["mask"] = np.array(mask)
    if retc:
        kw["returnC"] = True
    r = ctx.call(GUM_DFT, gen.arr(x), arg, **kw)
    ctx.check("arity", len(r) == (3 if retc else 2), "number of returned values")
    J = compare(ctx, r[0], r[1], x, U, N, window, mask, form.startswith("float"))
    if retc and not (form.startswith("float") and not win):
        n = len(J) // 2
        # sensitivities with respect to the windowed signal
        w = window or [1.0] * M
        Jw = [[v / wi for v, wi in zip(row, w)] for row in J]
        ctx.close("sensitivity-cos", r[2]["CxCos"], Jw[:n], scale=1.0)
        ctx.close("sensitivity-sin", r[2]["CxSin"], Jw[n:], scale=1.0)
        # the returned sensitivities can be handed in again
        kw2 = dict(kw)
        kw2.pop("returnC")
        F2, UF2 = ctx.call(GUM_DFT, gen.arr(x), arg, CxCos=r[2]["CxCos"], CxSin=r[2]["CxSin"], **kw2)
        compare(ctx, F2, UF2, x, U, N, window, mask, False)


def scn_values(ctx):
    M = ctx.choose("len_x", [4, 5, 8] + ([13] if ctx.thorough else []))
    xk = ctx.choose("x", ["zero", "const", "alt", "huge", "tiny", "gapped", "int", "neg"] + ["unit%d" % i for i in range(4)])
    form = ctx.choose(
        "Ux",
        ["float:0.0", "float:3.0", "var:zero", "var:gapped", "var:wide", "cov:hole", "cov:rank1", "cov:ones", "cov:huge", "cov:tiny", "intcov:1"]
        + ["cov:unit%d" % i for i in range(4)]
        + ["cov:pair%d" % i for i in range(4)],
    )
    opt = ctx.choose("options", ["plain", "window", "pad3", "gapwindow"])
    ctx.go()
    if xk == "int":
        x = [float(v) for v in [3, -1, 2, 5, -4, 1, 7, 0, 2, 9, 8, -3, 1][:M]]
        xa = np.array([int(v) for v in x])
    else:
        x = gen.vec(xk, M, 1)
        xa = gen.arr(x)
    arg, U = full_cov(form, M)
    kw, N, window = {}, None, None
    if opt == "pad3":
        kw["N"] = N = M + 3
    elif opt != "plain":
        window = gen.vec("positive" if opt == "window" else "gapped", M, 4)
        kw["window"] = gen.arr(window)
    F, UF = ctx.call(GUM_DFT, xa, arg, **kw)
    compare(ctx, F, UF, x, U, N, window, None, form.startswith("float"))


def scn_large(ctx):
    M = ctx.pick("len_x", [64, 100, 129], [256, 513])
    form = ctx.choose("Ux", ["float:0.5", "var:positive"])
    pad = ctx.choose("padding", [0, 27])
    ctx.go()
    x = gen.vec("generic", M, 1)
    N = M + pad
    v = [0.5] * M if form == "float:0.5" else gen.vec("positive", M)
    F, UF = ctx.call(GUM_DFT, gen.arr(x), 0.5 if form == "float:0.5" else gen.arr(v), **({"N": N} if pad else {}))
    J = ref.rdft_jac(M, N)
    ctx.close("best-estimate", F, ref.mv(J, x))
    if form == "float:0.5":
        ctx.close("variance", UF, [sum(c * c * 0.5 for c in r) for r in J])
    else:
        UF = UF.tolist()
        ctx.close("variance", [UF[i][i] for i in range(len(J))], [sum(c * c * t for c, t in zip(r, v)) for r in J])
        i = len(J) // 2 - 1
        for a, b in ((0, 1), (1, i + 3), (i, len(J) - 1), (2, i)):
            w = sum(p * q * t for p, q, t in zip(J[a], J[b], v))
            ctx.close("covariance", [UF[a][b], UF[b][a]], [w, w], scale=sum(v))


def scn_freq(ctx):
    N = ctx.choose("N", list(range(1, 20)))
    dt = ctx.choose("dt", [None, 1, 0.5, 0.001, 3.0])
    f = ctx.call(GUM_DFTfreq, N) if dt is None else ctx.call(GUM_DFTfreq, N, dt)
    d = dt or 1
    ctx.close("frequencies", f, [k / (N * d) for k in range(N // 2 + 1)])


def scn_errors(ctx):
    M = ctx.choose("len_x", [2, 5])
    N = ctx.choose("missing", [1, 2])
    U = ctx.choose("Ux", ["float:0.5", "var:positive", "cov:full"])
    ctx.raises(ValueError, GUM_DFT, gen.arr(gen.vec("generic", M)), full_cov(U, M)[0], N=M - N)


def scn_forms(ctx):
    """memory layouts, magnitudes of the uncertainty, medium lengths with full covariance"""
    M = ctx.pick("len_x", [4, 7, 12, 31, 32], [50, 65])
    form = ctx.choose("Ux", ["float", "var", "cov"])
    s = ctx.choose("Ux-scale", gen.SCALES)
    opt = ctx.choose("options", ["plain", "pad", "window", "mask", "all"])
    lay = ctx.choose("layout", gen.LAYOUTS) if M < 20 else "C"
    ctx.go()
    x = gen.vec("generic", M, 1)
    if form == "float":
        arg, U = 0.3 * s * s, ref.eye(M, 0.3 * s * s)
    elif form == "var":
        v = gen.scaled(gen.vec("positive", M, 3), s)
        arg, U = gen.lay(v, lay), ref.diag(v)
    else:
        U = gen.scaled(gen.cov("full", M, 2), s)
        arg = gen.lay(U, lay)
    kw, N, window, mask = {}, None, None, None
    if opt in ("pad", "all"):
        kw["N"] = N = M + 5
    if opt in ("window", "all"):
        window = gen.vec("positive", M, 4)
        kw["window"] = gen.lay(window, lay)
    if opt in ("mask", "all"):
        mask = [k % 3 != 1 for k in range((N or M) // 2 + 1)]
        kw["mask"] = gen.lay(mask, lay)
    F, UF = ctx.call(GUM_DFT, gen.lay(x, lay), arg, **kw)
    compare(ctx, F, UF, x, U, N, window, mask, form == "float")


SCENARIOS = [("core", scn_core), ("values", scn_values), ("large", scn_large), ("freq", scn_freq), ("errors", scn_errors), ("forms", scn_forms)]
