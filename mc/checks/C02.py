"""IIR filtering with uncertain signal and uncertain coefficients."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_filter import IIRuncFilter

TITLE = "IIR filter uncertainty propagation"
ASSUMPTIONS = [
    "denominator normalised (a[0]=1), order 1 to 4, numerator not longer than denominator",
    "zero initial state; noise is white",
]


def model(x, noise, b, a, Uab):
    """exact sensitivities by differentiating the difference equation"""
    N, p, q = len(x), len(a) - 1, len(b)
    y = ref.lfilter(b, a, x)
    u = ref.lfilter([1.0], a, x)  # 1/A x
    v = ref.lfilter([1.0], a, y)  # 1/A y
    h = ref.lfilter(b, a, [1.0] + [0.0] * (N - 1))
    var = []
    for n in range(N):
        J = [-(v[n - k] if n - k >= 0 else 0.0) for k in range(1, p + 1)]
        J += [(u[n - k] if n - k >= 0 else 0.0) for k in range(q)]
        s = sum(J[i] * Uab[i][j] * J[j] for i in range(p + q) for j in range(p + q))
        s += sum((h[n - m] * noise[m]) ** 2 for m in range(n + 1))
        var.append(s)
    return y, var


AS = {
    "p1": [1.0, -0.5],
    "p1pos": [1.0, 0.8],
    "p1zero": [1.0, 0.0],
    "p2": [1.0, -0.9, 0.2],
    "p2osc": [1.0, -1.2, 0.85],
    "p2gap": [1.0, 0.0, -0.36],
    "p2tail0": [1.0, -0.7, 0.0],
    "p3": [1.0, -0.4, 0.3, -0.1],
    "p4": [1.0, -0.3, 0.25, 0.1, -0.05],
    "unstable": [1.0, -1.1],
    "integrator": [1.0, -1.0],
}


def do(ctx, xa, x, na, noise, b, a, U):
    y, Uy = ctx.call(IIRuncFilter, xa, na, gen.arr(b), gen.arr(a), gen.arr(U))
    wy, wv = model(x, noise, b, a, U)
    ctx.close("filtered-signal", y, wy)
    ctx.close("variance", [u * u for u in Uy.tolist()], wv)


def scn_core(ctx):
    aname = ctx.choose("a", list(AS))
    a = AS[aname]
    p = len(a) - 1
    q = ctx.choose("len_b", list(range(1, p + 2)))
    bk = ctx.choose("b", ["generic", "unit0", "gapped", "const"])
    N = ctx.pick("len_x", [1, 2, 5], [9, 30])
    xk = ctx.choose("x", ["generic", "unit0", "zero", "const"])
    nz = ctx.choose("noise", ["float", "zero", "array"])
    uk = ctx.choose("Uab", ["full", "diag", "zero", "rank1"] + ["unit%d" % i for i in range(p + q)])
    if (xk in ("zero", "const") or bk == "const") and uk.startswith("unit"):
        ctx.prune()
    ctx.go()
    b = gen.vec(bk, q, 4)
    x = gen.vec(xk, N, 1)
    U = gen.cov(uk, p + q, 2)
    if nz == "array":
        noise = gen.vec("positive", N, 7)
        na = gen.arr(noise)
    else:
        na = 0.4 if nz == "float" else 0.0
        noise = [na] * N
    do(ctx, gen.arr(x), x, na, noise, b, a, U)


def scn_long(ctx):
    a = AS[ctx.choose("a", ["p2osc", "p3", "p4"])]
    N = ctx.pick("len_x", [40, 130], [400])
    scale = ctx.choose("x", ["generic", "huge", "tiny", "int"])
    ctx.go()
    b = gen.vec("generic", len(a), 4)
    U = gen.cov("full", 2 * len(a) - 1, 2)
    U = ref.scal(1e-3, U)
    if scale == "int":
        x = [float((5 * i) % 7 - 3) for i in range(N)]
        xa = np.array([int(v) for v in x])
    else:
        x = gen.vec(scale, N, 1)
        xa = gen.arr(x)
    do(ctx, xa, x, 0.1, [0.1] * N, b, a, U)


def scn_forms(ctx):
    """memory layouts and magnitudes of signal, noise and coefficient uncertainty"""
    a = AS[ctx.choose("a", ["p1", "p2osc", "p3", "p4"])]
    N = ctx.pick("len_x", [4, 12, 33], [60])
    nz = ctx.choose("noise", ["float", "array"])
    sn = ctx.choose("noise-scale", gen.SCALES + [0.0])
    su = ctx.choose("Uab-scale", gen.SCALES + [0.0])
    sx = ctx.choose("x-scale", [1.0, 1e-7, 1e7])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ctx.go()
    b = gen.vec("generic", len(a), 4)
    U = gen.scaled(gen.cov("full", 2 * len(a) - 1, 2), 0.05 * su)
    x = [sx * v for v in gen.vec("generic", N, 1)]
    noise = [sn * v for v in gen.vec("positive", N, 7)] if nz == "array" else [0.3 * sn] * N
    na = gen.lay(noise, lay) if nz == "array" else 0.3 * sn
    y, Uy = ctx.call(IIRuncFilter, gen.lay(x, lay), na, gen.lay(b, lay), gen.lay(a, lay), gen.lay(U, lay))
    wy, wv = model(x, noise, b, a, U)
    ctx.close("filtered-signal", y, wy)
    ctx.close("variance", [u * u for u in Uy.tolist()], wv, rtol=1e-8)


SCENARIOS = [("core", scn_core), ("long", scn_long), ("forms", scn_forms)]
