"""Convolution of two uncertain signals, all boundary modes."""
import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.propagate_convolution import convolve_unc

TITLE = "convolution with uncertainty, all boundary modes"
ASSUMPTIONS = ["signals of 1 to 7 (thorough: 40) samples"]
MODES = ["full", "valid", "same", "nearest", "reflect", "mirror"]


def fold(i, n, mode):
    """index of the sample that stands at position i of the continued signal, None = certain zero"""
    if 0 <= i < n:
        return i
    if mode in ("full", "valid", "same"):
        return None
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if n == 1:
        return 0
    if mode == "reflect":  # d c b a | a b c d | d c b a
        p = i % (2 * n)
        return p if p < n else 2 * n - 1 - p
    p = i % (2 * n - 2)  # mirror: d c b | a b c d | c b a
    return p if p < n else 2 * n - 2 - p


def model(x1, U1, x2, U2, mode):
    if mode in ("full", "valid", "same") and len(x1) < len(x2):
        x1, U1, x2, U2 = x2, U2, x1, U1
    n1, n2 = len(x1), len(x2)
    if mode == "full":
        out = list(range(n1 + n2 - 1))
    elif mode == "valid":
        out = list(range(n2 - 1, n1))
    elif mode == "same":
        out = [i + (n2 - 1) // 2 for i in range(n1)]
    else:
        out = [i + n2 // 2 for i in range(n1)]
    sel = [[fold(o - k, n1, mode) for k in range(n2)] for o in out]
    y = [sum(x2[k] * x1[s] for k, s in enumerate(row) if s is not None) for row in sel]
    # Jacobians with respect to x1 and x2, second order term of the bilinear form
    N = len(out)
    J1 = ref.zeros(N, n1)
    J2 = ref.zeros(N, n2)
    for n, row in enumerate(sel):
        for k, s in enumerate(row):
            if s is not None:
                J1[n][s] += x2[k]
                J2[n][k] += x1[s]
    U = ref.zeros(N, N)
    if U1 is not None:
        U = ref.madd(U, ref.quad(J1, U1))
    if U2 is not None:
        U = ref.madd(U, ref.quad(J2, U2))
    if U1 is not None and U2 is not None:
        for n in range(N):
            for m in range(N):
                s = 0.0
                for k in range(n2):
                    for l in range(n2):
                        a, b = sel[n][k], sel[m][l]
                        if a is not None and b is not None:
                            s += U1[a][b] * U2[k][l]
                U[n][m] += s
    return y, U


def do(ctx, x1, U1, x2, U2, mode, a1=None, a2=None):
    c, U = ctx.call(
        convolve_unc,
        gen.arr(x1) if a1 is None else a1,
        None if U1 is None else gen.arr(U1),
        gen.arr(x2) if a2 is None else a2,
        None if U2 is None else gen.arr(U2),
        *([] if mode is None else [mode])
    )
    wy, wU = model(x1, U1, x2, U2, mode or "full")
    ctx.close("convolution", c, wy)
    ctx.close("covariance", U, wU)


def covk(kind, n, salt):
    return None if kind == "none" else gen.cov(kind, n, salt)


def scn_sizes(ctx):
    mode = ctx.choose("mode", MODES + [None])
    n1 = ctx.pick("n1", [1, 2, 3, 4, 5, 7], [6, 11])
    n2 = ctx.pick("n2", [1, 2, 3, 4, 5, 7], [6, 11])
    u1 = ctx.choose("U1", ["full", "none", "diag"])
    u2 = ctx.choose("U2", ["full", "none", "diag"])
    ctx.go()
    do(ctx, gen.vec("generic", n1, 1), covk(u1, n1, 1), gen.vec("generic", n2, 2), covk(u2, n2, 2), mode)


def scn_values(ctx):
    mode = ctx.choose("mode", MODES)
    n1, n2 = ctx.choose("sizes", [(5, 3), (4, 4), (3, 4), (6, 2)])
    k1 = ctx.choose("x1", ["zero", "unit0", "unit1", "unit3", "const", "huge", "tiny", "gapped", "int"])
    k2 = ctx.choose("x2", ["generic", "unit0", "unit1", "zero", "int"])
    u1, u2 = ctx.choose(
        "U",
        [("full", "full"), ("hole", "rank1"), ("unit0", "unit1"), ("unit2", "unit0"), ("ones", "hole"),
         ("pair0", "pair1"), ("zero", "full"), ("full", "zero"), ("tiny", "none"), ("huge", "tiny")],
    )
    ctx.go()
    a1 = a2 = None
    if k1 == "int":
        x1 = [3.0, -1.0, 2.0, 0.0, 4.0, -2.0][:n1]
        a1 = np.array([int(v) for v in x1])
    else:
        x1 = gen.vec(k1, n1, 1)
    if k2 == "int":
        x2 = [2.0, -3.0, 1.0, 5.0][:n2]
        a2 = np.array([int(v) for v in x2])
    else:
        x2 = gen.vec(k2, n2, 2)
    do(ctx, x1, gen.cov(u1, n1, 1), x2, covk(u2, n2, 2), mode, a1, a2)


def scn_large(ctx):
    mode = ctx.choose("mode", MODES)
    n1, n2 = ctx.pick("sizes", [(17, 6), (9, 16), (20, 5)], [(40, 7), (12, 33)])
    u1 = ctx.choose("U1", ["toep", "none"])
    u2 = ctx.choose("U2", ["full", "none"])
    ctx.go()
    do(ctx, gen.vec("generic", n1, 1), covk(u1, n1, 1), gen.vec("generic", n2, 2), covk(u2, n2, 2), mode)


def scn_errors(ctx):
    n1 = ctx.choose("n1", [2, 3])
    n2 = ctx.choose("n2", [2, 3])
    mode = ctx.choose("mode", ["wrap", "constant", "", "Full", 1])
    U1, U2 = gen.arr(gen.cov("full", n1)), gen.arr(gen.cov("full", n2))
    ctx.raises((ValueError,), convolve_unc, np.ones(n1), U1, np.ones(n2), U2, mode=mode)


def scn_forms(ctx):
    """memory layouts, magnitudes of both covariances, longer kernels"""
    mode = ctx.choose("mode", MODES + [None])
    n1, n2 = ctx.pick("sizes", [(5, 3), (3, 4), (25, 3), (12, 8), (8, 12)], [(45, 11), (11, 45)])
    u1 = ctx.choose("U1", ["full", "none"])
    u2 = ctx.choose("U2", ["full", "none"])
    s1 = ctx.choose("U1-scale", gen.SCALES) if u1 == "full" else 1.0
    s2 = ctx.choose("U2-scale", gen.SCALES) if u2 == "full" else 1.0
    lay = ctx.choose("layout", gen.LAYOUTS) if (s1 == 1.0 and s2 == 1.0 and n1 * n2 < 100) else "C"
    ctx.go()
    x1, x2 = gen.vec("generic", n1, 1), gen.vec("generic", n2, 2)
    U1, U2 = gen.scaled(covk(u1, n1, 1), s1), gen.scaled(covk(u2, n2, 2), s2)
    a = [gen.lay(v, lay) for v in (x1, U1, x2, U2)]
    c, U = ctx.call(convolve_unc, *a, *([] if mode is None else [mode]))
    wy, wU = model(x1, U1, x2, U2, mode or "full")
    ctx.close("convolution", c, wy)
    ctx.close("covariance", U, wU)


SCENARIOS = [("sizes", scn_sizes), ("values", scn_values), ("large", scn_large), ("errors", scn_errors), ("forms", scn_forms)]
