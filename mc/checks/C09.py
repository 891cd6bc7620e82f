"""Multiplication in the frequency domain."""
import numpy as np

from mc import gen, ref
from mc.checks.C08 import arr, cpx, jac_mul, ri, spec, sunc, unc
from PyDynamic.uncertainty.propagate_DFT import DFT_multiply

TITLE = "spectral multiplication with uncertainty"
ASSUMPTIONS = ["up to 5 (thorough: 9) lines; vectors may have any even length"]

UK = ["full", "diag", "vector", "hole", "rank1", "zero", "cross", "int", "zvector", "ones"]


def model(Y, UY, F, UF):
    y, f = cpx(Y), cpx(F)
    U = ref.quad(jac_mul(f), UY)
    if UF is not None:
        U = ref.madd(U, ref.quad(jac_mul(y), UF))
    return ri([a * b for a, b in zip(y, f)]), U


def scn_core(ctx):
    n = ctx.pick("lines", [1, 2, 3, 5], [4, 9])
    yk = ctx.choose("Y", ["generic", "real", "imag", "zero", "int", "huge"])
    fk = ctx.choose("F", ["generic", "real", "imag", "one", "int"])
    uy = ctx.choose("UY", UK)
    uf = ctx.choose("UF", ["none"] + UK)
    ctx.go()
    Y, F = spec(yk, n, 1), spec(fk, n, 2)
    aY, UY = unc(uy, 2 * n, 3)
    aF, UF = (None, None) if uf == "none" else unc(uf, 2 * n, 5)
    if uf == "none":
        Z, UZ = ctx.call(DFT_multiply, arr(Y, yk), arr(F, fk), aY)
    else:
        Z, UZ = ctx.call(DFT_multiply, arr(Y, yk), arr(F, fk), aY, aF)
    wZ, wU = model(Y, UY, F, UF)
    ctx.close("product", Z, wZ, scale=max(map(abs, Y)) * max(map(abs, F)))
    ctx.close("covariance", UZ, wU)


def scn_single(ctx):
    n = ctx.choose("lines", [1, 2, 3])
    which = ctx.choose("uncertain", ["Y", "F"])
    uk = ctx.choose("entry", ["unit%d" % i for i in range(2 * n)] + ["pair%d" % i for i in range(2 * n)])
    yk = ctx.choose("Ykind", ["generic", "real", "imag", "neg", "tiny"])
    fk = ctx.choose("Fkind", ["generic", "real", "imag", "neg", "huge"])
    ctx.go()
    Y, F = spec(yk, n, 1), spec(fk, n, 2)
    aY, UY = unc(uk if which == "Y" else "zero", 2 * n, 3)
    aF, UF = unc(uk if which == "F" else "zero", 2 * n, 5)
    Z, UZ = ctx.call(DFT_multiply, gen.arr(Y), gen.arr(F), aY, aF)
    wZ, wU = model(Y, UY, F, UF)
    ctx.close("product", Z, wZ)
    ctx.close("covariance", UZ, wU)


def scn_commute(ctx):
    """both factors uncertain: the product does not depend on which one is called first"""
    n = ctx.pick("lines", [1, 2, 3, 5], [9])
    yk = ctx.choose("Y", ["generic", "real", "imag", "gapped"])
    fk = ctx.choose("F", ["generic", "neg", "gapped", "tiny"])
    uy = ctx.choose("UY", UK)
    uf = ctx.choose("UF", UK)
    ctx.go()
    Y, F = spec(yk, n, 1), spec(fk, n, 2)
    aY, aF = unc(uy, 2 * n, 3)[0], unc(uf, 2 * n, 5)[0]
    Z1, U1 = ctx.call(DFT_multiply, gen.arr(Y), gen.arr(F), aY, aF)
    Z2, U2 = ctx.call(DFT_multiply, gen.arr(F), gen.arr(Y), aF, aY)
    ctx.close("commutative", Z2, Z1)
    ctx.close("commutative-covariance", U2, U1)


def scn_errors(ctx):
    n = ctx.choose("lines", [1, 2, 3])
    m = ctx.choose("other", [1, 2, 3])
    if m == n:
        ctx.prune()
    uf = ctx.choose("UF", [False, True])
    a = [np.eye(2 * m)] if uf else []
    ctx.raises(ValueError, DFT_multiply, np.ones(2 * n), np.ones(2 * m), np.eye(2 * n), *a)


def scn_forms(ctx):
    """memory layouts, magnitudes of spectra and uncertainties, many lines"""
    n = ctx.pick("lines", [2, 5, 8, 17, 33], [50, 64])
    uy = ctx.choose("UY", ["full", "vector", "diag"])
    uf = ctx.choose("UF", ["full", "vector", "none"])
    sy = ctx.choose("UY-scale", gen.SCALES)
    sf = ctx.choose("UF-scale", gen.SCALES) if uf != "none" else 1.0
    sx = ctx.choose("Y-scale", [1.0, 1e-5, 1e5])
    lay = ctx.choose("layout", gen.LAYOUTS) if n < 10 and sx == 1.0 and (sf == 1.0 or sy == 1.0) else "C"
    if n > 10 and sx != 1.0 and sf != 1.0 and sy != 1.0:
        ctx.prune()
    ctx.go()
    Y, F = [sx * v for v in spec("generic", n, 1)], spec("generic", n, 2)
    aY, UY = sunc(uy, n, sy, lay, 3)
    aF, UF = (None, None) if uf == "none" else sunc(uf, n, sf, lay, 5)
    Z, UZ = ctx.call(DFT_multiply, gen.lay(Y, lay), gen.lay(F, lay), aY, *([] if uf == "none" else [aF]))
    wZ, wU = model(Y, UY, F, UF)
    ctx.close("product", Z, wZ)
    ctx.close("covariance", UZ, wU)


SCENARIOS = [("core", scn_core), ("single", scn_single), ("commute", scn_commute), ("errors", scn_errors), ("forms", scn_forms)]
