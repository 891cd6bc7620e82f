"""Vector and matrix helpers."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import gen, mcmodel, ref, rng
from PyDynamic.misc import tools as T

TITLE = "helpers: trimming and shifting with uncertainty, complex conversion, printing, progress"
ASSUMPTIONS = ["FreqResp2RealImag: the generator answers with two values per number, all sequences are enumerated"]


def scn_trim(ctx):
    n = ctx.choose("n", list(range(1, 7)))
    m = ctx.choose("length", list(range(0, 10)))
    form = ctx.choose("form", ["array", "list", "int"])
    mode = ctx.choose("mode", [None, "constant", "edge", "wrap"])
    ctx.go()
    x = [i + 1 for i in range(n)] if form == "int" else gen.vec("generic", n, 1)
    X = x if form == "list" else np.array(x)
    r = ctx.call(T.trimOrPad, X, m, **({} if mode is None else {"mode": mode}))
    ctx.check("type", isinstance(r, np.ndarray), "type %s" % type(r))
    pad = {None: lambda i: 0.0, "constant": lambda i: 0.0, "edge": lambda i: x[-1], "wrap": lambda i: x[i % n]}[mode]
    ctx.same("content", r, [float(x[i]) if i < n else float(pad(i)) for i in range(m)] if form != "int" else
             [x[i] if i < n else pad(i) for i in range(m)])
    ctx.same("input-untouched", X, x)


def scn_shift(ctx):
    """signal and uncertainty are rotated together; shifts compose and invert"""
    n = ctx.pick("n", [1, 2, 3, 4], [5, 8])
    s = ctx.choose("shift", list(range(-5, 6)))
    form = ctx.choose("ux", ["float", "vec", "cov", "unit", "int-vec"])
    t = ctx.choose("then", [0, 1, -2])
    lst = ctx.choose("x", ["array", "list"])
    ctx.go()
    x = gen.vec("generic", n, 1)
    ux = {"float": 0.3, "vec": gen.vec("positive", n, 2), "cov": [[10.0 * i + j for j in range(n)] for i in range(n)],
          "unit": gen.cov("unit%d" % (n - 1), n), "int-vec": list(range(n))}[form]
    U = ux if form == "float" else np.array(ux)
    X = x if lst == "list" else np.array(x)
    xs, us = ctx.call(T.shift_uncertainty, X, U, s)
    xs, us = ctx.call(T.shift_uncertainty, xs, us, t)
    k = s + t
    ctx.same("signal", xs, [x[(i - k) % n] for i in range(n)])
    if form == "float":
        ctx.same("uncertainty", us, 0.3)
    elif form in ("vec", "int-vec"):
        ctx.same("uncertainty", us, [ux[(i - k) % n] for i in range(n)])
    else:
        ctx.same("uncertainty", us, [[ux[(i - k) % n][(j - k) % n] for j in range(n)] for i in range(n)])
    ctx.same("input-untouched", X, x)
    if form != "float":
        ctx.same("input-untouched", U, ux)


def scn_shift_errors(ctx):
    bad = ctx.choose("ux", ["list", "3d", "none", "rect"])
    x = np.ones(2)
    if bad == "list":
        ctx.raises(TypeError, T.shift_uncertainty, x, [0.1, 0.1], 1)
    elif bad == "3d":
        ctx.raises(TypeError, T.shift_uncertainty, x, np.zeros((2, 2, 2)), 1)
    elif bad == "none":
        ctx.raises(TypeError, T.shift_uncertainty, x, None, 1)
    else:
        ctx.raises(AssertionError, T.shift_uncertainty, x, np.zeros((2, 3)), 1)


def scn_freqresp(ctx):
    """Monte Carlo conversion to real and imaginary parts: set of outcomes"""
    n, runs = ctx.choose("size", [(1, 2), (1, 3), (2, 2), (1, 4)] + ([(3, 2), (2, 3)] if ctx.thorough else []))
    form = ctx.choose("Unc", ["vec", "diag", "list", "zero"])
    amp = ctx.choose("Abs", ["positive", "const", "huge", "noisy", "none"])
    lists = ctx.choose("inputs", ["array", "list"])
    asfloat = ctx.choose("MCruns", [False, True])
    ctx.go()
    a, p = [abs(v) for v in gen.vec("positive" if amp in ("noisy", "none") else amp, n, 1)], gen.vec("generic", n, 2)
    var = [0.01 * (i + 1) * (a[0] ** 2 if i < n else 1.0) for i in range(2 * n)]
    if amp == "noisy":  # amplitude below its uncertainty
        var = [4.0 * a[0] ** 2 * (i + 1) if i < n else 2.0 for i in range(2 * n)]
    elif amp == "none":
        a = [0.0] * n
        var = [1.0 + i for i in range(2 * n)]
    if form == "zero":
        var = [0.0] * (2 * n)
    Unc = {"vec": np.array(var), "zero": np.array(var), "diag": np.array(ref.diag(var)), "list": var}[form]
    A, P = (np.array(a), np.array(p)) if lists == "array" else (a, p)
    got = []
    for _, r in rng.answers(lambda: ctx.call(T.FreqResp2RealImag, A, P, Unc, MCruns=float(runs) if asfloat else runs)):
        ctx.check("shapes", np.shape(r[0]) == (n,) and np.shape(r[1]) == (n,) and np.shape(r[2]) == (2 * n, 2 * n),
                  "%s %s %s" % (np.shape(r[0]), np.shape(r[1]), np.shape(r[2])))
        got.append(r[0].tolist() + r[1].tolist() + [v for row in r[2].tolist() for v in row])
    one = []
    for s in itertools.product((1.0, -1.0), repeat=2 * n):
        v = [m + math.sqrt(q) * e for m, q, e in zip(a + p, var, s)]
        one.append([v[i] * math.cos(v[n + i]) for i in range(n)] + [v[i] * math.sin(v[n + i]) for i in range(n)])
    want = []
    for rows in itertools.product(one, repeat=runs):
        want.append(ref.mean(rows) + [v for row in ref.cov(rows) for v in row])
    mcmodel.multiset_equal(ctx, "outcomes", got, want, max(1.0, max(a) ** 2))


def scn_freqresp_cov(ctx):
    """correlated amplitude and phase: linear (small uncertainty) limit of the covariance"""
    n = ctx.choose("n", [1, 2])
    ck = ctx.choose("Unc", ["full", "rank1", "pair0", "pair1", "diag"])
    ctx.go()
    a, p = gen.vec("positive", n, 1), gen.vec("generic", n, 2)
    U = ref.scal(1e-12, gen.cov(ck, 2 * n, 3))
    us, ms = [], []
    for _, r in rng.answers(lambda: ctx.call(T.FreqResp2RealImag, np.array(a), np.array(p), np.array(U), MCruns=2)):
        us.append([v for row in r[2].tolist() for v in row])
        ms.append(r[0].tolist() + r[1].tolist())
    J = ref.zeros(2 * n, 2 * n)
    for i in range(n):
        J[i][i], J[i][n + i] = math.cos(p[i]), -a[i] * math.sin(p[i])
        J[n + i][i], J[n + i][n + i] = math.sin(p[i]), a[i] * math.cos(p[i])
    W = ref.quad(J, U)
    ctx.close("covariance", ref.mean(us), [v for row in W for v in row], scale=1e-12, rtol=1e-4)
    ctx.close("mean", ref.mean(ms), [a[i] * math.cos(p[i]) for i in range(n)] + [a[i] * math.sin(p[i]) for i in range(n)], rtol=1e-9)


def scn_freqresp_errors(ctx):
    c = ctx.choose("case", ["phase", "unc"])
    if c == "phase":
        ctx.raises(ValueError, T.FreqResp2RealImag, np.ones(2), np.ones(3), np.eye(4))
    else:
        ctx.raises(ValueError, T.FreqResp2RealImag, np.ones(2), np.ones(2), np.eye(3))


NUMS = [0.0, 1.0, -2.5, 123456.789, 1e-7, -3.14159265e20]


def scn_print(ctx):
    """the text contains every number to the requested precision, in order"""
    m = ctx.choose("n", [1, 2, 3])
    v = [ctx.choose("v%d" % i, NUMS) for i in range(m)]
    prec = ctx.choose("prec", [None, 1, 3, 10])
    vert = ctx.choose("vertical", [False, True])
    rets = ctx.choose("retS", [True, False])
    what = ctx.choose("what", ["vec", "mat"])
    if what == "mat" and m != 2:
        ctx.prune()
    ctx.go()
    kw = {} if prec is None else {"prec": prec}
    if vert:
        kw["vertical"] = True
    if rets:
        kw["retS"] = True
    buf = io.StringIO()
    X = np.array(v) if what == "vec" else np.array([v, [2 * q for q in v], [7.0, -q if (q := v[0]) else 0.5]])
    with contextlib.redirect_stdout(buf):
        s = ctx.call(T.print_vec if what == "vec" else T.print_mat, X, **kw)
    if rets:
        ctx.check("silent", buf.getvalue() == "", "printed although a string was requested")
    else:
        ctx.check("prints", s is None, "returned %r" % s)
        s = buf.getvalue()
    p = 5 if prec is None else prec
    if what == "vec":
        want = v
        lines = [l for l in s.split("\n") if l.strip()]
        ctx.check("layout", len(lines) == (m if vert else 1), "%r" % s)
    else:
        rows = X.T.tolist() if vert else X.tolist()
        lines = [l for l in s.split("\n") if l.strip()]
        ctx.check("layout", [len(l.split()) for l in lines] == [len(r) for r in rows], "%r" % s)
        want = [q for r in rows for q in r]
    toks = [float(t) for t in s.split()]
    ctx.check("count", len(toks) == len(want), "%r" % s)
    for g, w in zip(toks, want):
        ctx.check("precision", g == float("%.*g" % (p, w)), "%r instead of %r" % (g, w))


def scn_progress(ctx):
    n = ctx.choose("count_max", [1, 2, 7, 30, 100])
    width = ctx.choose("width", [1, 10, 30])
    pre = ctx.choose("prefix", ["", "UMC: "])
    done, todo = ctx.choose("marks", [("#", "."), ("=", " ")])
    ctx.go()
    last = -1
    for i in range(n):
        f = io.StringIO()
        ctx.call(T.progress_bar, i, n, width=width, prefix=pre, done_indicator=done, todo_indicator=todo, fout=f)
        s = f.getvalue()
        ctx.check("prefix", s.startswith(pre + "["), "%r" % s)
        bar = s[len(pre) + 1: len(pre) + 1 + width]
        ctx.check("closed", s[len(pre) + 1 + width] == "]", "%r" % s)
        k = bar.count(done)
        ctx.check("bar", bar == done * k + todo * (width - k), "%r" % s)
        ctx.check("monotone", k >= last and abs(k - width * (i + 1) / float(n)) < 1 + 1e-9, "%r" % s)
        ctx.check("counter", s[len(pre) + 2 + width:].strip() == "%d/%d" % (i + 1, n) and s.endswith("\r"), "%r" % s)
        last = k
    ctx.check("complete", last == width, "%d of %d" % (last, width))


def scn_long(ctx):
    """longer vectors, shifts beyond the length, other memory layouts"""
    what = ctx.choose("function", ["trim", "shift"])
    n = ctx.pick("n", [9, 17, 33], [70])
    k = ctx.choose("by", [-100, -34, -18, -9, -2, 0, 1, 5, 16, 17, 33, 40, 67])
    lay = ctx.choose("layout", gen.LAYOUTS)
    s = ctx.choose("magnitude", [1.0, 1e-9, 1e7])
    ctx.go()
    x = [s * v for v in gen.vec("generic", n, 1)]
    X = gen.lay(x, lay)
    if what == "trim":
        m = max(n + k, 0)
        for mode in ("constant", "edge", "reflect", "mean"):
            if mode == "reflect" and m > 2 * n - 1:
                continue
            pad = {"constant": lambda i: 0.0, "edge": lambda i: x[-1], "reflect": lambda i: x[2 * n - 2 - i], "mean": lambda i: sum(x) / n}[mode]
            r = ctx.call(T.trimOrPad, X, m, mode=mode)
            ctx.close("content", r, [x[i] if i < n else pad(i) for i in range(m)], scale=s)
    else:
        for kind in ("vec", "full"):
            u = [s * v for v in gen.vec("positive", n, 2)] if kind == "vec" else [[s * s * (10.0 * i + j) for j in range(n)] for i in range(n)]
            U = gen.lay(u, lay)
            xs, us = ctx.call(T.shift_uncertainty, X, U, k)
            ctx.same("signal", xs, [x[(i - k) % n] for i in range(n)])
            ctx.same("uncertainty", us, [u[(i - k) % n] for i in range(n)] if kind == "vec" else
                     [[u[(i - k) % n][(j - k) % n] for j in range(n)] for i in range(n)])
            ctx.same("input-untouched", U, u)
    ctx.same("input-untouched", X, x)


def scn_freqresp_scale(ctx):
    """many frequencies, other magnitudes and memory layouts: first order covariance from balanced random numbers"""
    n = ctx.pick("n", [1, 3, 7], [5])
    s = ctx.choose("magnitude", [1.0, 1e-7, 1e6])
    rel = ctx.choose("size", [1e-4, 1e-6, 1e-7])
    form = ctx.choose("Unc", ["full", "vec", "pair0"])
    lay = ctx.choose("layout", gen.LAYOUTS)
    turn = ctx.choose("turns", [0, 40, -1000])
    runs = ctx.choose("MCruns", [32, 10000])
    if runs != 32 and (lay != "C" or turn):
        ctx.prune()
    ctx.go()
    a, p = [s * v for v in gen.vec("positive", n, 1)], [v + 2 * math.pi * turn for v in gen.vec("generic", n, 2)]
    D = [rel * s] * n + [rel] * n
    if form == "vec":
        var = [d * d * v for d, v in zip(D, gen.vec("positive", 2 * n, 3))]
        U, arg = ref.diag(var), gen.lay(var, lay)
    else:
        C = gen.cov(form, 2 * n, 3)
        U = [[C[i][j] * D[i] * D[j] for j in range(2 * n)] for i in range(2 * n)]
        arg = gen.lay(U, lay)
    rng.balanced()
    r, i_, Uri = ctx.call(T.FreqResp2RealImag, gen.lay(a, lay), gen.lay(p, lay), arg, MCruns=runs)
    rng.seeded(1)
    J = ref.zeros(2 * n, 2 * n)
    for i in range(n):
        J[i][i], J[i][n + i] = math.cos(p[i]), -a[i] * math.sin(p[i])
        J[n + i][i], J[n + i][n + i] = math.sin(p[i]), a[i] * math.cos(p[i])
    W = ref.scal(runs / (runs - 1.0), ref.quad(J, U))
    ctx.close("real", r, [q * math.cos(t) for q, t in zip(a, p)], scale=s, rtol=1e-5)
    ctx.close("imag", i_, [q * math.sin(t) for q, t in zip(a, p)], scale=s, rtol=1e-5)
    ctx.close("covariance", Uri, W, scale=max(abs(v) for row in W for v in row), rtol=2e-3)


SCENARIOS = [
    ("trim", scn_trim),
    ("shift", scn_shift),
    ("shift-errors", scn_shift_errors),
    ("freqresp", scn_freqresp),
    ("freqresp-cov", scn_freqresp_cov),
    ("freqresp-errors", scn_freqresp_errors),
    ("print", scn_print),
    ("progress", scn_progress),
    ("long", scn_long), ("freqresp-scale", scn_freqresp_scale),
]
