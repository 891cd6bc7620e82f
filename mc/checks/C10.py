"""Interpolation of uncertain data."""
import itertools
import math

import numpy as np

from mc import gen, ref
from PyDynamic.uncertainty.interpolate import interp1d_unc

TITLE = "interpolation with uncertainty"
ASSUMPTIONS = ["2 to 6 (thorough: 12) distinct nodes, uncorrelated uncertainties"]

GRIDS = {
    "unit": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0],
    "uneven": [-1.5, -1.0, 0.25, 0.3, 4.0, 10.0, 10.5, 11.0, 30.0, 31.0, 32.5, 40.0],
    "negative": [-9.0, -7.0, -6.5, -2.0, -1.0, -0.5, -0.25, -0.1, -0.05, -0.04, -0.03, -0.01],
    "offset": [1e6 + 0.5 * i * i for i in range(12)],
    "small": [1e-6 * v for v in [1, 2, 4, 7, 8, 9, 11, 12, 15, 16, 18, 19]],
    "int": [0, 2, 3, 7, 8, 12, 13, 17, 20, 21, 25, 30],
}


def position(t, p):
    """abstract position -> timestamp.  ('node', i) | ('in', i, frac) | 'below' | 'above' | 'far'"""
    if p[0] == "node":
        return t[min(p[1], len(t) - 1)]
    if p[0] == "in":
        i = min(p[1], len(t) - 2)
        if p[2] == 0.5 and t[i] != int(t[i]):
            # a tie of "nearest" is only meaningful where the midpoint is represented exactly
            return t[i] + 0.45 * (t[i + 1] - t[i])
        return t[i] + p[2] * (t[i + 1] - t[i])
    w = t[-1] - t[0]
    if p[0] == "below":
        return t[0] - p[1] * w
    return t[-1] + p[1] * w


def model(tn, t, y, u, kind, fv, fu):
    """-> values, uncertainties, sensitivities; fv/fu: (below, above) or None if out of range is impossible"""
    Y, U, C = [], [], []
    n = len(t)
    for s in tn:
        row = [0.0] * n
        if s < t[0]:
            row[0] = 1.0
            Y.append(fv[0])
            U.append(fu[0])
        elif s > t[-1]:
            row[-1] = 1.0
            Y.append(fv[1])
            U.append(fu[1])
        else:
            if kind == "linear":
                i = 0
                while i < n - 2 and s > t[i + 1]:
                    i += 1
                h = t[i + 1] - t[i]
                row[i], row[i + 1] = (t[i + 1] - s) / h, (s - t[i]) / h
            elif kind == "previous":
                row[max(i for i in range(n) if t[i] <= s)] = 1.0
            elif kind == "next":
                row[min(i for i in range(n) if t[i] >= s)] = 1.0
            else:  # nearest, ties go to the lower node
                row[min(range(n), key=lambda i: (abs(t[i] - s), i))] = 1.0
            Y.append(sum(c * v for c, v in zip(row, y)))
            U.append(math.sqrt(sum((c * v) ** 2 for c, v in zip(row, u))))
        C.append(row)
    return Y, U, C


POS = [("node", 0), ("in", 0, 0.5), ("in", 0, 0.25), ("node", 1), ("in", 1, 0.75), ("node", 99), ("in", 99, 0.5)]
OUT = [("below", 0.1), ("above", 0.1), ("below", 3.0), ("above", 2.0)]


def data(n, vk="generic"):
    u = gen.vec("positive", n, 5)
    if vk == "zerounc":
        return gen.vec("generic", n, 1), [0.0] * n
    if vk == "oneunc":
        return gen.vec("generic", n, 1), [0.0] * (n // 2) + [2.0] + [0.0] * (n - n // 2 - 1)
    if vk == "int":
        return [float((5 * i) % 7 - 3) for i in range(n)], [float(1 + i % 3) for i in range(n)]
    return gen.vec(vk, n, 1), u


def same_nan(ctx, tag, got, want, scale):
    g, w = got.tolist(), want
    ctx.check(tag, len(g) == len(w), "length %d instead of %d" % (len(g), len(w)))
    nans = [i for i, v in enumerate(w) if v != v]
    ctx.check(tag, all(g[i] != g[i] for i in nans), "expected NaN at %s, got %s" % (nans, g))
    keep = [i for i in range(len(w)) if i not in nans]
    ctx.close(tag, [g[i] for i in keep], [w[i] for i in keep], scale=scale)


def run(ctx, tn, t, y, u, kind, fv, fu, call_kw, returnC, ta=None, wrap=np.array):
    r = ctx.call(interp1d_unc, wrap(tn), np.array(t) if ta is None else ta[0], gen.arr(y) if ta is None else ta[1],
                 gen.arr(u) if ta is None else ta[2], **call_kw)
    ctx.check("arity", len(r) == (4 if returnC else 3), "number of returned values")
    wy, wu, wc = model(tn, t, y, u, kind, fv, fu)
    ctx.close("timestamps", np.asarray(r[0], dtype=float), [float(v) for v in tn])
    sy, su = max(map(abs, y)), max(map(abs, u))
    same_nan(ctx, "values", r[1], wy, sy)
    same_nan(ctx, "uncertainties", r[2], wu, su)
    if returnC:
        ctx.close("sensitivity", r[3], wc, scale=1.0, rtol=1e-8)


def scn_inside(ctx):
    """every ordered selection of up to three requests inside the range"""
    grid = ctx.choose("grid", ["unit", "uneven", "int", "offset", "negative", "small"])
    n = ctx.pick("nodes", [2, 3, 5], [4, 12])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest", None])
    m = ctx.choose("requests", [1, 2, 3])
    retc = ctx.choose("returnC", [False, True]) if kind in ("linear", None) else False
    pos = [ctx.choose("t_new[%d]" % i, POS if m < 3 else POS[1::2] + POS[:1]) for i in range(m)]
    ctx.go()
    t = GRIDS[grid][:n]
    tn = [position(t, p) for p in pos]
    y, u = data(n)
    kw = {}
    if kind:
        kw["kind"] = kind
    if retc:
        kw["returnC"] = True
    run(ctx, tn, t, y, u, kind or "linear", None, None, kw, retc)


def scn_outside(ctx):
    """requests outside of the range with every way to state fill values"""
    grid = ctx.choose("grid", ["unit", "uneven"])
    n = ctx.choose("nodes", [2, 3, 5])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    pos = [ctx.choose("t_new[%d]" % i, OUT[:2] + [POS[2], POS[0], POS[5]] + ([OUT[2], OUT[3]] if i == 0 else [])) for i in range(2)]
    fv = ctx.choose("fill_value", ["default", "extrapolate", 7.5, (1.25, -3.5), 3])
    fu = ctx.choose("fill_unc", ["default", "extrapolate", 0.75, (0.5, 2.5), 2, (1, 3)])
    be = ctx.choose("bounds_error", [False, None])
    retc = ctx.choose("returnC", [False, True])
    if retc and (kind != "linear" or fu != "extrapolate"):
        ctx.prune()
    if be is None and fv != "extrapolate":
        ctx.prune()
    ctx.go()
    t = GRIDS[grid][:n]
    tn = [position(t, p) for p in pos]
    y, u = data(n)
    kw = {"kind": kind}
    if be is not None:
        kw["bounds_error"] = be
    if fv != "default":
        kw["fill_value"] = fv
    if fu != "default":
        kw["fill_unc"] = fu
    if retc:
        kw["returnC"] = True

    def pair(f, v):
        if f == "default":
            return (math.nan, math.nan)
        if f == "extrapolate":
            return (v[0], v[-1])
        if isinstance(f, tuple):
            return tuple(float(x) for x in f)
        return (float(f), float(f))

    run(ctx, tn, t, y, u, kind, pair(fv, y), pair(fu, u), kw, retc)


def scn_forms(ctx):
    """input containers, value patterns, sorting, references instead of copies"""
    grid = ctx.choose("grid", ["unit", "uneven", "int"])
    n = ctx.choose("nodes", [2, 3, 4])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    vk = ctx.choose("values", ["generic", "zero", "huge", "tiny", "zerounc", "oneunc", "int", "const"])
    form = ctx.choose("form", ["array", "lists", "nocopy", "unsorted", "intarrays", "scalar-order"])
    perm = ctx.choose("permutation", list(itertools.permutations(range(n)))) if form == "unsorted" else None
    ctx.go()
    t = GRIDS[grid][:n]
    y, u = data(n, vk)
    tn = [position(t, p) for p in [POS[5], POS[2], POS[0], POS[6], POS[1], POS[3]]]
    kw = {"kind": kind}
    ta, wrap = None, np.array
    if form == "lists":
        ta, wrap = (list(t), list(y), list(u)), list
    elif form == "nocopy":
        ta = (gen.arr(t), gen.arr(y), gen.arr(u))
        kw["copy"] = False
    elif form == "intarrays":
        if vk != "int":
            ctx.prune()
        ta = (np.array(t), np.array([int(v) for v in y]), np.array([int(v) for v in u]))
    elif form == "unsorted":
        kw["assume_sorted"] = False
        ta = (np.array([t[i] for i in perm]), gen.arr([y[i] for i in perm]), gen.arr([u[i] for i in perm]))
    elif form == "scalar-order":
        tn = tn[:1]
    before = None if ta is None else [list(map(float, v)) for v in ta]
    run(ctx, tn, t, y, u, kind, None, None, kw, False, ta, wrap)
    if before:
        ctx.same("inputs-untouched", [list(map(float, v)) for v in ta], before)


def scn_long(ctx):
    n = ctx.pick("nodes", [40, 300], [2000])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    retc = ctx.choose("returnC", [False, True])
    order = ctx.choose("order", ["ascending", "descending", "mixed"])
    if retc and (kind != "linear" or n > 300):
        ctx.prune()
    t, a = [], 0.0
    for i in range(n):
        a += 0.1 + abs(gen.gval(i, 3))
        t.append(a)
    y, u = data(n)
    m = 2 * n + 7
    tn = [t[0] + (t[-1] - t[0]) * ((i * (1 if order != "mixed" else 37)) % m) / m for i in range(m)]
    if order == "descending":
        tn = tn[::-1]
    ctx.go()
    run(ctx, tn, t, y, u, kind, None, None, {"kind": kind, **({"returnC": True} if retc else {})}, retc)


def scn_errors(ctx):
    what = ctx.choose("what", ["below", "above", "below-True", "uy-length", "kind", "returnC-kind", "returnC-fill", "y-length"])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    n = ctx.choose("nodes", [2, 4])
    t, (y, u) = np.array(GRIDS["uneven"][:n]), data(n)
    y, u = gen.arr(y), gen.arr(u)
    inside = np.array([t[0]])
    if what == "below":
        ctx.raises(ValueError, interp1d_unc, np.array([t[0], t[0] - 1e-3]), t, y, u, kind=kind)
    elif what == "above":
        ctx.raises(ValueError, interp1d_unc, np.array([t[-1] + 1e-3, t[0]]), t, y, u, kind=kind)
    elif what == "below-True":
        ctx.raises(ValueError, interp1d_unc, np.array([t[0] - 5.0]), t, y, u, kind=kind, bounds_error=True, fill_value=0.0, fill_unc=0.0)
    elif what == "uy-length":
        ctx.raises(ValueError, interp1d_unc, inside, t, y, u[:-1], kind=kind)
    elif what == "y-length":
        ctx.raises(ValueError, interp1d_unc, inside, t, y[:-1], u, kind=kind)
    elif what == "kind":
        ctx.raises(NotImplementedError, interp1d_unc, inside, t, y, u, kind="spline")
    elif what == "returnC-kind":
        if kind == "linear":
            ctx.prune()
        ctx.raises(NotImplementedError, interp1d_unc, inside, t, y, u, kind=kind, returnC=True)
    else:
        ctx.raises(
            NotImplementedError, interp1d_unc, np.array([t[0] - 1]), t, y, u, kind=kind, bounds_error=False,
            fill_value=0.0, fill_unc=0.0, returnC=True,
        )


def scn_scales(ctx):
    """memory layouts; magnitudes of values, uncertainties and time; more nodes than the core ones"""
    n = ctx.pick("nodes", [3, 12, 27], [100])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    su = ctx.choose("u-scale", gen.SCALES)
    sy = ctx.choose("y-scale", [1.0, 1e-9, 1e9])
    st = ctx.choose("t-scale", [1.0, 1e-9, 1e6])
    t0 = ctx.choose("t-offset", [0.0, -50.0])
    lay = ctx.choose("layout", gen.LAYOUTS)
    out = ctx.choose("outside", ["none", "extrapolate", "number"])
    retc = ctx.choose("returnC", [False, True])
    if retc and (kind != "linear" or out == "number"):
        ctx.prune()
    ctx.go()
    t = [st * (t0 + i + 0.25 * math.sin(i)) for i in range(n)]
    y = [sy * v for v in gen.vec("generic", n, 1)]
    u = [su * v for v in gen.vec("positive", n, 5)]
    tn = [position(t, p) for p in [("node", n - 1), ("in", n - 2, 0.25), ("in", 0, 0.75), ("node", 1), ("in", n // 2, 0.4), ("node", 0)]]
    kw, fv, fu = {"kind": kind}, None, None
    if out != "none":
        tn = [position(t, OUT[0])] + tn + [position(t, OUT[1])]
        kw["bounds_error"] = False
        kw["fill_value"] = "extrapolate" if out == "extrapolate" else 2.5
        kw["fill_unc"] = "extrapolate" if out == "extrapolate" else 1e-7
        fv = (y[0], y[-1]) if out == "extrapolate" else (2.5, 2.5)
        fu = (u[0], u[-1]) if out == "extrapolate" else (1e-7, 1e-7)
    if retc:
        kw["returnC"] = True
    r = ctx.call(interp1d_unc, gen.lay(tn, lay), gen.lay(t, lay), gen.lay(y, lay), gen.lay(u, lay), **kw)
    wy, wu, wc = model(tn, t, y, u, kind, fv, fu)
    ctx.same("timestamps", r[0], tn)
    ctx.close("values", r[1], wy)
    for got, want in zip(r[2].tolist(), wu):
        ctx.close("uncertainty", got, want, atol=1e-9 * max(u))
    if retc:
        ctx.close("sensitivity", r[3], wc, scale=1.0)


SCENARIOS = [
    ("inside", scn_inside),
    ("outside", scn_outside),
    ("forms", scn_forms),
    ("long", scn_long),
    ("errors", scn_errors),
    ("scales", scn_scales),
]
