"""Deconvolution / transfer function estimation in the frequency domain."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_DFT import DFT_deconv, DFT_multiply, DFT_transferfunction, GUMdeconv

TITLE = "spectral deconvolution and transfer function"
ASSUMPTIONS = ["divisor spectrum different from zero at every line", "up to 5 (thorough: 9) lines"]


def cpx(F):
    n = len(F) // 2
    return [complex(F[i], F[n + i]) for i in range(n)]


def ri(Z):
    return [z.real for z in Z] + [z.imag for z in Z]


def jac_mul(C):
    """d(c*z)/d(re z, im z) for a vector of complex factors c"""
    n = len(C)
    J = ref.zeros(2 * n, 2 * n)
    for i, c in enumerate(C):
        J[i][i], J[i][n + i] = c.real, -c.imag
        J[n + i][i], J[n + i][n + i] = c.imag, c.real
    return J


def unc(kind, m, salt):
    if kind == "vector":
        v = gen.vec("positive", m, salt)
        return gen.arr(v), ref.diag(v)
    if kind == "zvector":
        v = [abs(t) for t in gen.vec("gapped", m, salt)]
        return gen.arr(v), ref.diag(v)
    if kind == "int":
        U = [[2 if i == j else (1 if abs(i - j) == 1 else 0) for j in range(m)] for i in range(m)]
        return np.array(U), [[float(t) for t in r] for r in U]
    if kind == "cross":
        n = m // 2
        U = ref.eye(m)
        for i in range(n):
            j = n + (i + 1) % n
            U[i][j] = U[j][i] = 0.5
        return gen.arr(U), U
    U = gen.cov(kind, m, salt)
    return gen.arr(U), U


def spec(kind, n, salt):
    if kind == "generic":
        return ri([complex(gen.gval(2 * i, salt), gen.gval(2 * i + 1, salt)) for i in range(n)])
    if kind == "real":
        return ri([complex(gen.gval(i, salt), 0.0) for i in range(n)])
    if kind == "imag":
        return ri([complex(0.0, gen.gval(i, salt)) for i in range(n)])
    if kind == "neg":
        return ri([complex(-1.0 - i, -0.5) for i in range(n)])
    if kind == "one":
        return ri([complex(1.0, 0.0)] * n)
    if kind == "zero":
        return [0.0] * (2 * n)
    if kind == "huge":
        return [1e5 * v for v in spec("generic", n, salt)]
    if kind == "tiny":
        return [1e-4 * v for v in spec("generic", n, salt)]
    if kind == "int":
        return ri([complex(2 + i, (-1) ** i * (i + 1)) for i in range(n)])
    if kind == "gapped":
        return ri([0j if i % 2 == 0 else complex(gen.gval(i, salt), 0.7) for i in range(n)])
    raise ValueError(kind)


def arr(F, kind):
    return np.array([int(v) for v in F]) if kind == "int" else gen.arr(F)


def model(H, UH, Y, UY):
    h, y = cpx(H), cpx(Y)
    x = [b / a for a, b in zip(h, y)]
    JY = jac_mul([1 / a for a in h])
    JH = jac_mul([-b / a ** 2 for a, b in zip(h, y)])
    return ri(x), ref.madd(ref.quad(JY, UY), ref.quad(JH, UH))


def msc(M):
    return max(max(abs(t) for t in r) for r in M)


UK = ["full", "diag", "vector", "hole", "rank1", "zero", "cross", "int", "zvector", "ones"]


def scn_core(ctx):
    n = ctx.pick("lines", [1, 2, 3, 5], [4, 9])
    hk = ctx.choose("H", ["generic", "real", "imag", "neg", "one", "int"])
    yk = ctx.choose("Y", ["generic", "zero", "imag", "huge", "int"])
    uh = ctx.choose("UH", UK)
    uy = ctx.choose("UY", UK)
    ctx.go()
    H, Y = spec(hk, n, 1), spec(yk, n, 2)
    aH, UH = unc(uh, 2 * n, 3)
    aY, UY = unc(uy, 2 * n, 5)
    X, UX = ctx.call(DFT_deconv, arr(H, hk), arr(Y, yk), aH, aY)
    wX, wU = model(H, UH, Y, UY)
    ctx.close("quotient", X, wX)
    ctx.close("covariance", UX, wU)


def scn_single(ctx):
    """isolate every single entry of both covariances"""
    n = ctx.choose("lines", [1, 2, 3])
    which = ctx.choose("uncertain", ["H", "Y"])
    uk = ctx.choose("entry", ["unit%d" % i for i in range(2 * n)] + ["pair%d" % i for i in range(2 * n)])
    hk = ctx.choose("Hkind", ["generic", "real", "imag", "neg", "tiny", "huge"])
    yk = ctx.choose("Ykind", ["generic", "real", "imag", "neg", "one"])
    f = ctx.choose("function", ["DFT_deconv", "DFT_transferfunction", "GUMdeconv"])
    ctx.go()
    H, Y = spec(hk, n, 1), spec(yk, n, 2)
    aH, UH = unc(uk if which == "H" else "zero", 2 * n, 3)
    aY, UY = unc(uk if which == "Y" else "zero", 2 * n, 5)
    fn = {"DFT_deconv": DFT_deconv, "DFT_transferfunction": DFT_transferfunction, "GUMdeconv": GUMdeconv}[f]
    X, UX = ctx.call(fn, gen.arr(H), gen.arr(Y), aH, aY)
    wX, wU = model(H, UH, Y, UY)
    ctx.close("quotient", X, wX)
    ctx.close("covariance", UX, wU)


def scn_inverse(ctx):
    """multiplying back a certain system recovers the signal and its covariance"""
    n = ctx.pick("lines", [1, 2, 3, 5], [9])
    hk = ctx.choose("H", ["generic", "real", "imag", "neg", "tiny", "huge"])
    yk = ctx.choose("Y", ["generic", "gapped", "huge"])
    uy = ctx.choose("UY", UK[:2] + UK[3:])
    ctx.go()
    H, Y = spec(hk, n, 1), spec(yk, n, 2)
    aY, UY = unc(uy, 2 * n, 5)
    X, UX = ctx.call(DFT_deconv, gen.arr(H), gen.arr(Y), np.zeros((2 * n, 2 * n)), aY)
    Z, UZ = ctx.call(DFT_multiply, X, gen.arr(H), UX)
    ctx.close("recovered", Z, Y)
    ctx.close("covariance-recovered", UZ, UY, scale=msc(UY), rtol=1e-7)


def scn_errors(ctx):
    n = ctx.choose("lines", [2, 3])
    what = ctx.choose("what", ["H-short", "UY-short", "UH-short", "UH-odd", "UY-1d", "UH-1d"])
    H, Y, UH, UY = np.ones(2 * n), np.ones(2 * n), np.eye(2 * n), np.eye(2 * n)
    if what == "H-short":
        H = H[:-2]
        UH = np.eye(2 * n - 2)
    elif what == "UY-short":
        UY = np.eye(2 * n - 2)
    elif what == "UH-short":
        UH = np.eye(2 * n - 2)
    elif what == "UH-odd":
        UH = np.eye(2 * n - 1)
    elif what == "UY-1d":
        UY = np.ones(2 * n + 2)
    else:
        UH = np.ones(2 * n - 2)
    ctx.raises(ValueError, DFT_deconv, H, Y, UH, UY)


def scn_forms(ctx):
    """memory layouts, magnitudes of spectra and uncertainties, many lines"""
    n = ctx.pick("lines", [2, 5, 8, 17, 33], [50, 64])
    uh = ctx.choose("UH", ["full", "vector", "diag"])
    uy = ctx.choose("UY", ["full", "vector"])
    sh = ctx.choose("UH-scale", gen.SCALES)
    sy = ctx.choose("UY-scale", gen.SCALES)
    sx = ctx.choose("H-scale", [1.0, 1e-5, 1e5])
    lay = ctx.choose("layout", gen.LAYOUTS) if n < 10 and sx == 1.0 and (sh == 1.0 or sy == 1.0) else "C"
    if n > 10 and sx != 1.0 and sh != 1.0 and sy != 1.0:
        ctx.prune()
    ctx.go()
    H, Y = [sx * v for v in spec("generic", n, 1)], spec("generic", n, 2)
    (aH, UH), (aY, UY) = [sunc(k, n, s, lay, salt) for k, s, salt in ((uh, sh, 3), (uy, sy, 5))]
    X, UX = ctx.call(DFT_deconv, gen.lay(H, lay), gen.lay(Y, lay), aH, aY)
    wX, wU = model(H, UH, Y, UY)
    ctx.close("quotient", X, wX)
    ctx.close("covariance", UX, wU)


def sunc(kind, n, s, lay, salt):
    if kind == "vector":
        v = gen.scaled(gen.vec("positive", 2 * n, salt), s)
        return gen.lay(v, lay), ref.diag(v)
    U = gen.scaled(gen.cov(kind, 2 * n, salt), s)
    return gen.lay(U, lay), U


SCENARIOS = [("core", scn_core), ("single", scn_single), ("inverse", scn_inverse), ("errors", scn_errors), ("forms", scn_forms)]
