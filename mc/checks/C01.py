"""FIR filtering with uncertain signal and uncertain coefficients."""
import math

import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_filter import FIRuncFilter

TITLE = "FIR filter uncertainty propagation"
ASSUMPTIONS = [
    "values outside the enumerated alphabets are covered only through the polynomial form of the formula",
    "IEEE double rounding is bounded by a relative tolerance of 1e-9 of the largest entry",
]


# ---- reference model -------------------------------------------------------------------
def ext_signal(y, n):
    return [y[0]] * n + list(y)


def ext_cov(U, n):
    N = len(U)
    out = []
    for i in range(N + n):
        row = []
        for j in range(N + n):
            if i >= n and j >= n:
                row.append(U[i - n][j - n])
            else:
                lag = abs(i - j)
                row.append(U[lag][0] if lag < N else 0.0)
        out.append(row)
    return out


def fir(y, Uy, theta, Uth):
    N, L = len(y), len(theta)
    ye = ext_signal(y, L - 1)
    x = [sum(theta[k] * ye[n + L - 1 - k] for k in range(L)) for n in range(N)]
    U = ref.zeros(N, N)
    Ue = ext_cov(Uy, L - 1) if Uy is not None else None
    for n in range(N):
        for m in range(N):
            s = 0.0
            for i in range(L):
                for j in range(L):
                    a, b = n + L - 1 - i, m + L - 1 - j
                    if Ue is not None:
                        s += theta[i] * theta[j] * Ue[a][b]
                    if Uth is not None:
                        s += ye[a] * ye[b] * Uth[i][j]
                        if Ue is not None:
                            s += Ue[a][b] * Uth[i][j]
            U[n][m] = s
    return x, U


def fir_var(y, vy, theta, vth):
    """point-wise variances for uncorrelated signal noise and uncorrelated coefficients"""
    N, L = len(y), len(theta)
    ye = ext_signal(y, L - 1)
    ve = [vy[0]] * (L - 1) + list(vy)
    x = [sum(theta[k] * ye[n + L - 1 - k] for k in range(L)) for n in range(N)]
    v = [
        sum(
            theta[k] ** 2 * ve[n + L - 1 - k]
            + (vth[k] if vth else 0.0) * (ye[n + L - 1 - k] ** 2 + ve[n + L - 1 - k])
            for k in range(L)
        )
        for n in range(N)
    ]
    return x, v


def model(y, Uy, theta, Uth, blow, shift):
    if blow is not None:
        y, Uy = fir(y, Uy, blow, None)
    x, U = fir(y, Uy, theta, Uth)
    N = len(x)
    s = int(shift)
    x = [x[(n + s) % N] for n in range(N)]
    U = [[U[(n + s) % N][(m + s) % N] for m in range(N)] for n in range(N)]
    return x, U


def input_cov(form, N, salt=0):
    """-> (sigma_noise argument, kind argument or None, covariance of the signal)"""
    name, arg = form.split(":")
    if name == "float":
        s = float(arg)
        return s, None, ref.eye(N, s * s)
    if name == "diag":
        v = gen.vec(arg, N, salt)
        return gen.arr(v), "diag", ref.diag([t * t for t in v])
    if name == "corr":
        L = {"short": max(1, N - 1), "one": 1, "equal": N, "long": N + 3}[arg]
        r = [1.3 * 0.6 ** k * math.cos(0.9 * k) for k in range(L)]
        return gen.arr(r), "corr", ref.toeplitz(r, N)
    if name == "cov":
        U = gen.cov(arg, N, salt)
        return gen.arr(U), None, U
    raise ValueError(form)


def coeff_unc(form, L, salt=5):
    if form == "none":
        return None, None
    name, arg = form.split(":")
    if name == "std":
        v = gen.vec(arg, L, salt)
        return gen.arr(v), ref.diag([t * t for t in v])
    U = gen.cov(arg, L, salt)
    return gen.arr(U), U


def run(ctx, y, sigma, kind, theta, Utheta, blow, shift, full):
    kw = {}
    if Utheta is not None:
        kw["Utheta"] = Utheta
    if kind is not None:
        kw["kind"] = kind
    if blow is not None:
        kw["blow"] = blow
    if shift:
        kw["shift"] = shift
    if full:
        kw["return_full_covariance"] = True
    return ctx.call(FIRuncFilter, y, sigma, theta, **kw)


def compare(ctx, x, U, wx, wU, full):
    ctx.close("filtered-signal", x, wx)
    if full:
        ctx.close("covariance", U, wU)
    else:
        ctx.close("variance", [u * u for u in U.tolist()], [abs(v) for v in ref.diagonal(wU)])


def scn_core(ctx):
    """all combinations of sizes and argument forms on generic values"""
    N = ctx.pick("len_y", [1, 2, 4], [3, 7])
    L = ctx.pick("len_theta", [1, 2, 3], [5, 8])
    form = ctx.choose(
        "sigma_noise",
        ["float:0.5", "diag:positive", "cov:full", "corr:short", "corr:equal", "corr:long", "corr:one", "cov:diag"],
    )
    uth = ctx.choose("Utheta", ["none", "std:positive", "cov:full", "cov:diag"])
    bl = ctx.pick("len_blow", [0, 2, 1], [4])
    shift = ctx.pick("shift", [0, 1, -2], [5])
    full = ctx.choose("full", [True, False])
    ctx.go()
    sigma, kind, Uy = input_cov(form, N)
    Utheta, Uth = coeff_unc(uth, L)
    y, theta = gen.vec("generic", N, 1), gen.vec("generic", L, 2)
    blow = gen.vec("generic", bl, 9) if bl else None
    x, U = run(
        ctx, gen.arr(y), sigma, kind, gen.arr(theta), Utheta, None if blow is None else gen.arr(blow), shift, full
    )
    wx, wU = model(y, Uy, theta, Uth, blow, shift)
    compare(ctx, x, U, wx, wU, full)


def scn_values(ctx):
    """value patterns: zeros, impulses, ties, signs, magnitudes, integers"""
    N, L = ctx.choose("sizes", [(4, 2), (3, 4), (5, 3), (5, 5)] + ([(9, 4)] if ctx.thorough else []))
    ykind = ctx.choose("y", ["zero", "const", "unit0", "unit1", "unit2", "alt", "neg", "huge", "tiny", "gapped", "int", "noncontig"])
    tkind = ctx.choose("theta", ["generic", "unit0", "unit1", "const", "zero", "alt", "gapped", "int"])
    form, uth = ctx.choose(
        "uncertainty",
        [
            ("float:0.0", "none"), ("float:2.0", "std:positive"), ("diag:gapped", "std:gapped"),
            ("diag:neg", "none"), ("diag:zero", "cov:full"), ("diag:unit0", "cov:full"), ("diag:unit2", "std:positive"),
            ("cov:hole", "cov:hole"), ("cov:rank1", "cov:rank1"), ("cov:ones", "none"), ("cov:zero", "cov:full"),
            ("cov:unit0", "cov:unit1"), ("cov:pair0", "cov:pair1"), ("cov:pair1", "none"),
            ("cov:tiny", "cov:tiny"), ("cov:huge", "cov:full"), ("cov:full", "cov:zero"), ("diag:wide", "std:wide"),
        ],
    )
    full = ctx.choose("full", [True, False])
    ctx.go()
    sigma, kind, Uy = input_cov(form, N)
    Utheta, Uth = coeff_unc(uth, L)
    if ykind == "int":
        y = [3, -1, 2, 5, -4, 1, 7, 0, 2][:N]
        ya = np.array(y)
        y = [float(v) for v in y]
    elif ykind == "noncontig":
        y = gen.vec("generic", N, 4)
        buf = np.zeros(2 * N)
        buf[::2] = y
        ya = buf[::2]
    else:
        y = gen.vec(ykind, N, 1)
        ya = gen.arr(y)
    if tkind == "int":
        th = [2, -1, 3, 1, -2][:L]
        ta = np.array(th)
        th = [float(v) for v in th]
    else:
        th = gen.vec(tkind, L, 2)
        ta = gen.arr(th)
    x, U = run(ctx, ya, sigma, kind, ta, Utheta, None, 0, full)
    wx, wU = model(y, Uy, th, Uth, None, 0)
    compare(ctx, x, U, wx, wU, full)


def scn_large(ctx):
    """longer signals and filters: the streaming form of the formula for uncorrelated noise"""
    N = ctx.pick("len_y", [17, 64, 130, 600], [1025, 5000])
    L = ctx.pick("len_theta", [2, 16, 33, 129], [300])
    form = ctx.choose("sigma_noise", ["float", "diag"])
    uth = ctx.choose("Utheta", [False, True])
    shift = ctx.choose("shift", [0, 7])
    ctx.go()
    y, th = gen.vec("generic", N, 3), gen.vec("generic", L, 4)
    sd = [0.3] * N if form == "float" else gen.vec("positive", N, 6)
    su = gen.vec("positive", L, 8) if uth else None
    x, U = run(
        ctx, gen.arr(y), 0.3 if form == "float" else gen.arr(sd), None if form == "float" else "diag",
        gen.arr(th), None if su is None else gen.arr(su), None, shift, False,
    )
    wx, wv = fir_var(y, [s * s for s in sd], th, [s * s for s in su] if su else None)
    wx = [wx[(n + shift) % N] for n in range(N)]
    wv = [wv[(n + shift) % N] for n in range(N)]
    ctx.close("filtered-signal", x, wx)
    ctx.close("variance", [u * u for u in U.tolist()], wv)


def scn_large_full(ctx):
    """full covariance of longer signals; blow longer than theta and vice versa"""
    N, L, B = ctx.pick("sizes", [(17, 3, 0), (12, 13, 0), (12, 2, 9), (40, 5, 2)], [(70, 9, 0), (64, 4, 4)])
    form = ctx.choose("sigma_noise", ["cov:full", "corr:short", "diag:positive", "float:0.7"])
    uth = ctx.choose("Utheta", ["cov:full", "none"])
    shift = ctx.choose("shift", [0, -3])
    ctx.go()
    sigma, kind, Uy = input_cov(form, N)
    Utheta, Uth = coeff_unc(uth, L)
    y, th = gen.vec("generic", N, 1), gen.vec("generic", L, 2)
    blow = gen.vec("generic", B, 9) if B else None
    x, U = run(ctx, gen.arr(y), sigma, kind, gen.arr(th), Utheta, gen.arr(blow) if B else None, shift, True)
    wx, wU = model(y, Uy, th, Uth, blow, shift)
    compare(ctx, x, U, wx, wU, True)


def scn_forms(ctx):
    """memory layouts, magnitudes of both uncertainties, and sizes beyond the core ones"""
    N, L, B = ctx.pick("sizes", [(5, 3, 0), (3, 5, 2), (24, 7, 0), (9, 9, 3)], [(50, 12, 5)])
    form = ctx.choose("sigma_noise", ["float", "diag", "corr", "cov"])
    uth = ctx.choose("Utheta", ["none", "std", "cov"])
    sn = ctx.choose("noise-scale", gen.SCALES)
    st = ctx.choose("Utheta-scale", gen.SCALES) if uth != "none" else 1.0
    lay = ctx.choose("layout", gen.LAYOUTS) if (sn == 1.0 or st == 1.0) else "C"
    full = ctx.choose("full", [True, False])
    shift = ctx.choose("shift", [0, 2])
    ctx.go()
    kind = None
    if form == "float":
        sigma, Uy = 0.5 * sn, ref.eye(N, 0.25 * sn * sn)
    elif form == "diag":
        v = [sn * t for t in gen.vec("positive", N, 3)]
        sigma, kind, Uy = gen.lay(v, lay), "diag", ref.diag([t * t for t in v])
    elif form == "corr":
        r = [sn * sn * 1.3 * 0.6 ** k * math.cos(0.9 * k) for k in range(N)]
        sigma, kind, Uy = gen.lay(r, lay), "corr", ref.toeplitz(r, N)
    else:
        Uy = gen.scaled(gen.cov("full", N, 2), sn)
        sigma = gen.lay(Uy, lay)
    Utheta = Uth = None
    if uth == "std":
        v = [st * t for t in gen.vec("positive", L, 5)]
        Utheta, Uth = gen.lay(v, lay), ref.diag([t * t for t in v])
    elif uth == "cov":
        Uth = gen.scaled(gen.cov("full", L, 5), st)
        Utheta = gen.lay(Uth, lay)
    y, th = gen.vec("generic", N, 1), gen.vec("generic", L, 2)
    blow = gen.vec("generic", B, 9) if B else None
    x, U = run(ctx, gen.lay(y, lay), sigma, kind, gen.lay(th, lay), Utheta, gen.lay(blow, lay), shift, full)
    wx, wU = model(y, Uy, th, Uth, blow, shift)
    compare(ctx, x, U, wx, wU, full)


SCENARIOS = [("core", scn_core), ("values", scn_values), ("large", scn_large), ("large_full", scn_large_full), ("forms", scn_forms)]
