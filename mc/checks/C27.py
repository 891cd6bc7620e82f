"""Signal objects: every history of filter applications against a reference state machine."""
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np
from matplotlib import pyplot

from mc import gen, ref, rng
from mc.checks.C01 import fir
from PyDynamic.signals import Signal
from PyDynamic.uncertainty.propagate_MonteCarlo import MC

TITLE = "Signal objects keep time, values and uncertainty together over histories"
ASSUMPTIONS = [
    "Monte Carlo steps are compared with MC on the same random numbers (MC itself is decided by C12)",
    "linear (GUM) steps are compared with an independent model of the FIR filter",
]


def silent(f, *a, **k):
    import io
    import sys

    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        return f(*a, **k)
    finally:
        sys.stdout = old


def build(ctx, n, uk):
    """object, expected (time, values, uncertainty)"""
    t = [0.5 * k for k in range(n)]
    x = gen.vec("generic", n, 2)
    if uk == "none":
        ua, u = None, [0.0] * n
    elif uk == "float":
        ua, u = 0.3, [0.3] * n
    elif uk == "int":
        ua, u = 2, [2.0] * n
    elif uk == "vector":
        u = gen.vec("positive", n, 3)
        ua = gen.arr(u)
    elif uk == "list":
        u = gen.vec("positive", n, 4)
        ua = list(u)
    elif uk == "column":
        u = gen.vec("positive", n, 3)
        ua = gen.arr([[v] for v in u])
    else:
        u = gen.cov(uk, n, 3)
        ua = gen.arr(u)
    kw = {} if ua is None else {"uncertainty": ua}
    s = ctx.call(Signal, gen.arr(t), gen.arr(x), **kw)
    return s, t, x, u


def fir_gum(x, u, b, Ub):
    """point-wise uncertainty of the FIR filter output, signal continued to the left"""
    y, U = fir(x, ref.diag([v * v for v in u]), b, Ub)
    return y, [max(U[i][i], 0.0) ** 0.5 for i in range(len(y))]


FIRS = {"id": [1.0], "diff": [1.0, -1.0], "smooth": [0.5, 0.3, 0.2]}
IIRS = {"low": ([0.5], [1.0, -0.5]), "two": ([0.2, 0.1], [1.0, -0.6, 0.25])}
OPS = ["fir-diff", "fir-smooth-U", "mcfir-smooth", "mcfir-diff-U", "mciir-low", "mciir-two-U", "iirlist-low", "fir-id"]


def apply(ctx, s, state, op, runs, salt):
    """one transition of object and model"""
    kind, name = op.split("-")[:2]
    withU = op.endswith("-U")
    x, u = state
    if kind in ("fir", "mcfir"):
        b, a = FIRS[name], None
        p = len(b)
    else:
        b, a = IIRS[name]
        p = len(a) + len(b) - 1
    Ub = ref.scal(1e-4, gen.cov("full", p, salt)) if withU else None
    kw = {}
    if withU:
        kw["filter_uncertainty"] = gen.arr(Ub)
    if kind == "iirlist":
        kw["a"] = list(a)
    elif a is not None:
        kw["a"] = gen.arr(a)
    mc = kind != "fir" or isinstance(u[0], list)
    if mc:
        kw["MonteCarloRuns"] = runs
    rng.counter(100 * salt)
    r = silent(ctx.call, s.apply_filter, gen.arr(b), **kw)
    ctx.check("return", r is None, "apply_filter has no return value")
    if not mc:
        y, uy = fir_gum(x, u, b, Ub or ref.zeros(p, p))
    else:
        rng.counter(100 * salt)
        y, uy = silent(MC, gen.arr(x), gen.arr(u), gen.arr(b), np.ones(1) if a is None else gen.arr(a),
                       np.zeros((p, p)) if Ub is None else gen.arr(Ub), runs=runs, verbose=False)
        y, uy = y.tolist(), uy.tolist()
    rng.seeded(1)
    return y, uy


def compare(ctx, s, t, state):
    x, u = state
    ctx.same("time", s.time, t)
    ctx.close("values", s.values, x, rtol=1e-9, scale=1.0)
    ctx.close("uncertainty", s.uncertainty, u, rtol=1e-7, scale=1.0, atol=1e-9)
    ctx.check("sampling", s.Ts == 0.5 and s.Fs == 2.0, "%r %r" % (s.Ts, s.Fs))


def scn_history(ctx):
    """all sequences of filter applications; plots and labels in between leave the state alone"""
    depth = ctx.pick("depth", [1, 2, 3], [4])
    uk = ctx.choose("uncertainty", ["none", "float", "int", "vector", "list", "column", "full", "rank1"])
    n = ctx.choose("N", [4, 6] if depth < 3 else [5])
    if depth == 3 and uk not in ("none", "vector", "full") or depth == 4 and uk not in ("vector",):
        ctx.prune()
    ops = [ctx.choose("op%d" % i, OPS if depth < 3 else OPS[:6]) for i in range(depth)]
    runs = ctx.choose("runs", [5, 3] if depth == 1 else [4])
    plots = ctx.choose("plots", ["no", "yes"] if depth == 2 and n == 4 and not ctx.thorough and uk in ("vector", "full") or depth == 1 else ["no"])
    ctx.go()
    s, t, x, u = build(ctx, n, uk)
    state = (x, u)
    compare(ctx, s, t, state)
    for i, op in enumerate(ops):
        state = apply(ctx, s, state, op, runs, i + 1)
        if plots == "yes":
            show(ctx, s, t, state)
        compare(ctx, s, t, state)
        # go on from the equal state of the object: singular covariances magnify rounding
        state = (s.values.tolist(), s.uncertainty.tolist())


def show(ctx, s, t, state):
    x, u = state
    std = [max(u[i][i], 0.0) ** 0.5 for i in range(len(t))] if isinstance(u[0], list) else u
    s.set_labels(unit_time="ms", unit_values="V", name_values="y")
    pyplot.close("all")
    ctx.call(s.plot)
    ax = pyplot.gca()
    line = ax.get_lines()[0]
    ctx.close("plot-values", line.get_ydata(), x, rtol=1e-9, scale=1.0)
    ctx.same("plot-time", line.get_xdata(), t)
    v = ax.collections[0].get_paths()[0].vertices.tolist()
    scale = max([abs(q) for q in x] + [1.0])
    for k, tk in enumerate(t):
        ys = [p[1] for p in v if p[0] == tk]
        for want in (x[k] - std[k], x[k] + std[k]):
            ctx.check("band", min([abs(y - want) for y in ys]) <= 1e-7 * scale, "band %s at %s, not %s" % (ys, tk, want))
    ctx.check("labels", ax.get_xlabel() == "time / ms" and ax.get_ylabel() == "y / V", "%s %s" % (ax.get_xlabel(), ax.get_ylabel()))
    ctx.call(s.plot_uncertainty)
    pyplot.close("all")


def scn_construct(ctx):
    """every combination of sampling information"""
    n = ctx.choose("N", [2, 3, 8])
    step = ctx.choose("step", [0.5, 2, 1e-3, 1e6, 1e-7])
    ts = ctx.choose("Ts", ["none", "right", "wrong"])
    fs = ctx.choose("Fs", ["none", "right", "wrong"])
    values = ctx.choose("values", ["float", "int"])
    start = ctx.choose("start", [0, 7])
    ctx.go()
    t = [start + step * k for k in range(n)]
    x = gen.arr([float(k * k) for k in range(n)]) if values == "float" else np.array([k * k for k in range(n)])
    kw = {}
    T = {"none": None, "right": step, "wrong": step * 2}[ts]
    F = {"none": None, "right": 1 / step, "wrong": 4 / step}[fs]
    if T is not None:
        kw["Ts"] = T
    if F is not None:
        kw["Fs"] = F
    if T is not None and F is not None and abs(T * F - 1) > 1e-3:
        ctx.raises(AssertionError, Signal, np.array(t), x, **kw)
        return
    s = ctx.call(Signal, np.array(t), x, **kw)
    want = T if T is not None else (1 / F if F is not None else step)
    rtol = 1e-9 + 2e-14 / step  # the differences of the time values are rounded
    ctx.close("Ts", float(s.Ts), float(want), rtol=rtol)
    ctx.close("Fs", float(s.Fs), 1 / float(want), rtol=rtol)
    ctx.same("values", s.values, x)
    ctx.same("time", s.time, t)
    ctx.same("uncertainty", s.uncertainty, [0.0] * n)
    ctx.check("labels", (s.unit_time, s.unit_values, s.name) == ("s", "a.u.", "signal"), "")


def scn_default_runs(ctx):
    """cases that fall back to 10000 Monte Carlo runs"""
    case = ctx.choose("case", ["fir-matrix", "iir-vector", "iir-matrix"])
    withU = ctx.choose("filter_uncertainty", [False, True])
    ctx.go()
    s, t, x, u = build(ctx, 4, "full" if case.endswith("matrix") else "vector")
    b, a = (FIRS["diff"], [1.0]) if case.startswith("fir") else IIRS["low"]
    p = len(a) + len(b) - 1
    U = ref.scal(1e-4, gen.cov("full", p, 2)) if withU else ref.zeros(p, p)
    kw = {"filter_uncertainty": gen.arr(U)} if withU else {}
    if case.startswith("iir"):
        kw["a"] = gen.arr(a)
    rng.counter(5)
    silent(ctx.call, s.apply_filter, gen.arr(b), **kw)
    rng.counter(5)
    y, uy = silent(MC, gen.arr(x), gen.arr(u), gen.arr(b), gen.arr(a), gen.arr(U), runs=10000, verbose=False)
    rng.seeded(1)
    compare(ctx, s, t, (y.tolist(), uy.tolist()))


def scn_labels(ctx):
    """set_labels"""
    args = {k: v for k, v in (("unit_time", ctx.choose("unit_time", [None, "ms", 3])), ("unit_values", ctx.choose("unit_values", [None, "V", 3])),
                              ("name_values", ctx.choose("name_values", [None, "u", 3]))) if v is not None}
    ctx.go()
    s, *_ = build(ctx, 3, "none")
    ctx.call(s.set_labels, **args)
    for k, attr, d in (("unit_time", "unit_time", "s"), ("unit_values", "unit_values", "a.u."), ("name_values", "name", "signal")):
        v = args.get(k, d)
        ctx.check(attr, getattr(s, attr) == (v if isinstance(v, str) else d), "%r" % (getattr(s, attr),))


def scn_errors(ctx):
    case = ctx.choose("case", ["2d", "length", "uncertainty-length", "covariance-rect"])
    n = ctx.choose("N", [3, 5])
    t, x = np.arange(float(n)), np.ones(n)
    if case == "2d":
        ctx.raises(NotImplementedError, Signal, t, np.ones((n, 2)))
    elif case == "length":
        ctx.raises(AssertionError, Signal, t, np.ones(n + 1))
    elif case == "uncertainty-length":
        ctx.raises(AssertionError, Signal, t, x, uncertainty=np.ones(n + 1))
    else:
        ctx.raises(AssertionError, Signal, t, x, uncertainty=np.ones((n, n + 1)))


def scn_forms(ctx):
    """longer signals, other magnitudes of values, uncertainties and sampling interval, other memory layouts"""
    n = ctx.pick("N", [7, 20], [60])
    uk = ctx.choose("uncertainty", ["float", "vector", "full"])
    s = ctx.choose("magnitude", [1.0, 1e-7, 1e5])
    su = ctx.choose("relative uncertainty", [1.0, 1e-6])
    Ts = ctx.choose("Ts", [0.5, 2e-7, 3600.0])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ops = ctx.choose("ops", [("fir-smooth-U",), ("fir-diff", "fir-smooth-U"), ("mcfir-diff-U",), ("mciir-two-U", "fir-smooth-U"), ("fir-smooth", "iirlist-low")])
    if (s != 1.0) + (su != 1.0) + (Ts != 0.5) + (lay != "C") > 1 or n > 7 and len(ops) > 1:
        ctx.prune()
    ctx.go()
    t, x = [Ts * k for k in range(n)], [s * v for v in gen.vec("generic", n, 2)]
    if uk == "float":
        ua = 0.3 * s * su
        u = [ua] * n
    elif uk == "vector":
        u = [s * su * v for v in gen.vec("positive", n, 3)]
        ua = gen.lay(u, lay)
    else:
        u = ref.scal((s * su) ** 2, gen.cov("full", n, 3))
        ua = gen.lay(u, lay)
    o = ctx.call(Signal, gen.lay(t, lay), gen.lay(x, lay), uncertainty=ua)
    ctx.close("Ts", float(o.Ts), Ts)
    ctx.close("Fs", float(o.Fs), 1 / Ts)
    state = (x, u)
    for i, op in enumerate(ops):
        state = apply(ctx, o, state, op, 4, i + 1)
        x, u = state
        ctx.same("time", o.time, t)
        ctx.close("values", o.values, x, rtol=1e-9, scale=s)
        v = max(abs(q) for r in u for q in (r if isinstance(r, list) else [r]))
        ctx.close("uncertainty", o.uncertainty, u, rtol=1e-6, scale=v)
        state = (o.values.tolist(), o.uncertainty.tolist())


SCENARIOS = [("history", scn_history), ("construct", scn_construct), ("default-runs", scn_default_runs), ("labels", scn_labels), ("errors", scn_errors), ("forms", scn_forms)]
