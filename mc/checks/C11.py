"""Equidistant resampling."""
import math

import numpy as np

from mc import gen
from mc.checks.C10 import GRIDS, data, model
from PyDynamic.misc.tools import make_equidistant as legacy
from PyDynamic.uncertainty.interpolate import make_equidistant

TITLE = "equidistant resampling with uncertainty"
ASSUMPTIONS = ["2 to 6 (thorough: 12) nodes in ascending order"]


def snap(s, t):
    """a grid point that equals a node up to rounding may count as that node"""
    for v in t:
        if abs(s - v) <= 1e-12 * (abs(v) + abs(t[-1] - t[0])):
            return v
    return s


def check(ctx, r, t, y, u, dt, kind):
    ctx.check("arity", len(r) == 3, "three arrays")
    tn = [float(v) for v in r[0].tolist()]
    a, b = float(t[0]), float(t[-1])
    n = len(tn)
    eps = 1e-9 * (b - a + dt)
    ctx.check("not-empty", n >= 1, "no timestamps")
    ctx.close("equidistant", tn, [a + k * dt for k in range(n)], atol=eps)
    ctx.check("inside-range", tn[-1] <= b, "timestamp %r beyond the last node %r" % (tn[-1], b))
    ctx.check("covers-range", tn[-1] + dt >= b - eps, "grid ends at %r, last node is %r, dt=%r" % (tn[-1], b, dt))
    tc = [min(max(s, a), b) for s in tn]
    wy, wu, _ = model(tc, t, y, u, kind, None, None)
    if kind == "linear":
        sl = max(abs((y[i + 1] - y[i]) / (t[i + 1] - t[i])) for i in range(len(t) - 1))
        ctx.close("values", r[1], wy, atol=eps * sl)
        su = max(u) / min(t[i + 1] - t[i] for i in range(len(t) - 1))
        ctx.close("uncertainties", r[2], wu, atol=2 * eps * su)
    else:
        # a grid point within rounding of a node or a tie may legitimately fall on either side
        gy, gu = r[1].tolist(), r[2].tolist()
        ctx.check("length", len(gy) == n and len(gu) == n, "lengths differ")
        for k in range(n):
            ok = []
            for d in (0.0, -eps, eps):
                s = min(max(tc[k] + d, a), b)
                v, w, _ = model([s], t, y, u, kind, None, None)
                ok.append((v[0], w[0]))
            ctx.check("lookup", (gy[k], gu[k]) in ok, "at %r got (%r, %r), expected one of %r" % (tn[k], gy[k], gu[k], ok))
        ctx.close("timestamps-seen", tn, tn)


def scn_core(ctx):
    grid = ctx.choose("grid", ["unit", "uneven", "int", "negative", "offset", "small"])
    n = ctx.pick("nodes", [2, 3, 5, 6], [4, 12])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest", None])
    f = ctx.choose("dt/range", [0.5, 0.3, 1.0, 1 / 3, 0.1, 1.7, 0.01, 1 / 7, 2 / 3])
    vk = ctx.choose("values", ["generic", "zerounc", "int"])
    ctx.go()
    t = GRIDS[grid][:n]
    y, u = data(n, vk)
    dt = f * (t[-1] - t[0])
    r = ctx.call(make_equidistant, np.array(t), gen.arr(y), gen.arr(u), dt, **({"kind": kind} if kind else {}))
    check(ctx, r, t, y, u, dt, kind or "linear")


def scn_legacy(ctx):
    """every split into positional and keyword arguments, both entry points"""
    legacy_ = ctx.choose("entry", [True, False])
    npos = ctx.choose("positional", [0, 1, 2, 3, 4, 5])
    given = ctx.choose("given", ["none", "dt", "kind", "both"])
    kind = ctx.choose("kind", ["previous", "next", "nearest", "linear"])
    n = ctx.choose("nodes", [3, 5])
    if npos > 3 and given == "none" or npos > 3 and given == "kind" or npos > 4 and given != "both":
        ctx.prune()
    ctx.go()
    t = GRIDS["uneven"][:n]
    y, u = data(n)
    dt = 0.3 if given in ("dt", "both") else 5e-2
    args = [("t", np.array(t)), ("y", gen.arr(y)), ("uy", gen.arr(u))] + ([("dt", 0.3)] if given in ("dt", "both") else []) + (
        [("kind", kind)] if given in ("kind", "both") else [])
    r = ctx.call(legacy if legacy_ else make_equidistant, *[v for _, v in args[:npos]], **dict(args[npos:]))
    check(ctx, r, t, y, u, dt, kind if given in ("kind", "both") else "linear")


def scn_steps(ctx):
    """absolute steps, integer steps, default step, list inputs, the deprecated entry point"""
    grid = ctx.choose("grid", ["unit", "int", "uneven"])
    n = ctx.choose("nodes", [2, 3, 4])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    dt = ctx.choose("dt", [None, 1, 0.1, 0.25, 2, 0.7, 0.05])
    form = ctx.choose("form", ["array", "list", "legacy"])
    ctx.go()
    t = GRIDS[grid][:n]
    y, u = data(n)
    fn = legacy if form == "legacy" else make_equidistant
    wrap = list if form == "list" else np.array
    kw = {} if dt is None else {"dt": dt}
    r = ctx.call(fn, wrap(t), wrap(y), wrap(u), kind=kind, **kw)
    check(ctx, r, t, y, u, 0.05 if dt is None else dt, kind)


def scn_scales(ctx):
    """magnitudes of time, values and uncertainties; memory layouts; many nodes"""
    n = ctx.pick("nodes", [3, 14, 40], [150])
    kind = ctx.choose("kind", ["linear", "previous", "next", "nearest"])
    st = ctx.choose("t-scale", [1.0, 1e-6, 1e4])
    t0 = ctx.choose("t-offset", [0.0, -40.0, 15.0])
    su = ctx.choose("u-scale", gen.SCALES)
    f = ctx.choose("dt/range", [0.013, 0.11, 0.5, 1.0])
    lay = ctx.choose("layout", gen.LAYOUTS) if st == 1.0 and su == 1.0 else "C"
    ctx.go()
    t = [st * (t0 + i + 0.25 * math.sin(i)) for i in range(n)]
    y = gen.vec("generic", n, 1)
    u = [su * v for v in gen.vec("positive", n, 5)]
    dt = f * (t[-1] - t[0])
    r = ctx.call(make_equidistant, gen.lay(t, lay), gen.lay(y, lay), gen.lay(u, lay), dt, kind=kind)
    check(ctx, r, t, y, u, dt, kind)
    if kind == "linear":  # relative to the uncertainties themselves
        ctx.check("uncertainty-bounds", all(v <= max(u) * (1 + 1e-9) for v in r[2].tolist()), "%s" % r[2])


SCENARIOS = [("core", scn_core), ("steps", scn_steps), ("legacy", scn_legacy), ("scales", scn_scales)]
