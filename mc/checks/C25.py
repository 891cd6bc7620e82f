"""Filter helpers."""
import cmath
import itertools
import math

import numpy as np

from mc import gen, ref
from PyDynamic.misc import filterstuff as F

TITLE = "filter helpers: stability, root mapping, group delay, Kaiser low pass, Savitzky-Golay, dB, phase"
ASSUMPTIONS = ["poles closer than 0.5 % to the stability boundary are left out (root finding is not exact)"]

DIGITAL = [0.5, -0.99, 1.01, 0.0, -1.5, (0.6, 1.0), (0.995, 0.3), (1.02, 2.5), (3.0, 1.2), -0.5]
ANALOG = [-1.0, 0.1, -0.1, 2.5, (-0.5, 3.0), (0.2, 1.0), (-20.0, 5.0)]


def poly(roots, gain=1.0):
    c = [complex(gain)]
    for r in roots:
        c = [a - r * b for a, b in zip(c + [0j], [0j] + c)]
    return [v.real for v in c]


def expand(sel, digital):
    out = []
    for r in sel:
        if isinstance(r, tuple):
            z = cmath.rect(*r) if digital else complex(*r)
            out += [z, z.conjugate()]
        else:
            out.append(complex(r))
    return out


def scn_isstable(ctx):
    """every multiset of up to four poles or pole pairs"""
    kind = ctx.choose("ftype", ["digital", "analog", "default"])
    m = ctx.pick("poles", [0, 1, 2, 3], [4])
    alpha = ANALOG if kind == "analog" else DIGITAL
    idx, sel = 0, []
    for i in range(m):
        idx = ctx.choose("pole%d" % i, list(range(idx, len(alpha))))
        sel.append(alpha[idx])
    gain = ctx.choose("a0", [1.0, -2.0, 0.25])
    b = ctx.choose("b", [[1.0], [0.0], [1.0, -7.0, 3.0]])
    if len(sel) > 2 and (gain != 1.0 or b != [1.0]):
        ctx.prune()
    if any(sel.count(s) > 2 for s in sel):
        ctx.prune()
    ctx.go()
    r = expand(sel, kind != "analog")
    a = poly(r, gain)
    got = ctx.call(F.isstable, np.array(b), np.array(a), *([kind] if kind != "default" else []))
    want = all(z.real < 0 for z in r) if kind == "analog" else all(abs(z) < 1 for z in r)
    ctx.check("stable", bool(got) == want, "isstable(%s) says %s for poles %s" % (a, got, r))


def scn_mapinside(ctx):
    """all roots inside, magnitude response unchanged up to a constant, stable polynomials untouched"""
    m = ctx.pick("roots", [1, 2, 3], [4])
    idx, sel = 0, []
    for i in range(m):
        idx = ctx.choose("root%d" % i, list(range(idx, len(DIGITAL))))
        sel.append(DIGITAL[idx])
    gain = ctx.choose("gain", [1.0, 3.0])
    if any(sel.count(s) > 1 for s in sel) or (gain != 1.0 and m > 2):
        ctx.prune()
    ctx.go()
    r = expand(sel, True)
    a = poly(r, gain)
    A = np.array(a)
    got = ctx.call(F.mapinside, A).tolist()
    ctx.same("input-untouched", A, a)
    ctx.check("degree", len(got) == len(a), "%s" % got)
    ctx.check("real", all(isinstance(v, float) for v in got), "%s" % got)
    want = poly([z if abs(z) <= 1 else 1 / z.conjugate() for z in r])
    ctx.close("coefficients", got, want, scale=1.0, rtol=1e-6)
    ratio = []
    for k in range(7):
        e = cmath.exp(-1j * math.pi * (k + 0.3) / 7)
        ratio.append(abs(sum(v * e ** i for i, v in enumerate(got))) / abs(sum(v * e ** i for i, v in enumerate(a))))
    ctx.close("magnitude", ratio, [ratio[0]] * 7, rtol=1e-6)


GD = {
    "b": [[1.0], [1.0, 1.0], [0.5, 1.0, 0.5], [1.0, -0.4, 0.2, 0.7], [0.0, 1.0], [0.0, 0.0, 3.0], [1.0, 0.5], [0.5, 1.0]],
    "a": [[1.0], [1.0, -0.5], [1.0, -0.9, 0.4], [2.0, 0.6], [1.0, 0.0, 0.0, 0.3]],
}


def scn_grpdelay(ctx):
    b, a = ctx.choose("b", GD["b"]), ctx.choose("a", GD["a"])
    nfft = ctx.pick("nfft", [1, 2, 4, 8, 16, None], [64, 100])
    Fs = ctx.choose("Fs", [1.0, 1000.0, 0.3])
    if nfft is not None and len(a) + len(b) - 1 > 2 * nfft:
        ctx.prune()
    ctx.go()
    args = [] if nfft is None else [nfft]
    gd, f = ctx.call(F.grpdelay, np.array(b), np.array(a), Fs, *args)
    nf = nfft or 512
    gd, f = gd.tolist(), f.tolist()
    ctx.close("frequencies", f, [k * Fs / (2.0 * nf) for k in range(nf + 1)][: len(f)], scale=Fs)
    ctx.check("length", len(gd) == len(f) >= nf, "lengths %d %d" % (len(gd), len(f)))
    for k in range(len(f)):
        z = cmath.exp(-1j * math.pi * k / nf)
        B, A = (sum(v * z ** i for i, v in enumerate(c)) for c in (b, a))
        if abs(B) < 1e-3 or abs(A) < 1e-3:
            continue
        dB, dA = (sum(i * v * z ** i for i, v in enumerate(c)) for c in (b, a))
        ctx.close("delay", gd[k], (dB / B - dA / A).real, scale=1.0, rtol=1e-7)


def i0(x):
    s, t, k = 1.0, 1.0, 1
    while t > 1e-17 * s:
        t *= (x / (2.0 * k)) ** 2
        s += t
        k += 1
    return s


def scn_grpdelay_scale(ctx):
    """the delay does not depend on the size of the coefficients"""
    b, a = ctx.choose("b", GD["b"]), ctx.choose("a", GD["a"])
    sb = ctx.choose("size of b", [1e-7, 1e-5, 1.0, 1e8])
    sa = ctx.choose("size of a", [1e-5, 1.0, 1e3, 1e8])
    nfft = ctx.choose("nfft", [16, 64])
    ctx.go()
    gd, f = ctx.call(F.grpdelay, sb * np.array(b), sa * np.array(a), 1.0, nfft)
    gd = gd.tolist()
    for k in range(len(gd)):
        z = cmath.exp(-1j * math.pi * k / nfft)
        B, A = (sum(v * z ** i for i, v in enumerate(c)) for c in (b, a))
        if abs(B) < 1e-2 or abs(A) < 1e-2:
            continue
        dB, dA = (sum(i * v * z ** i for i, v in enumerate(c)) for c in (b, a))
        ctx.close("delay", gd[k], (dB / B - dA / A).real, scale=1.0, rtol=1e-7)


def scn_kaiser(ctx):
    L = ctx.pick("L", [2, 3, 4, 5, 10, 11, 50], [99, 100, 301])
    fc = ctx.choose("fcut/Fs", [0.05, 0.1, 0.25, 0.4])
    Fs = ctx.choose("Fs", [1.0, 500e3])
    beta = ctx.choose("beta", [None, 0.0, 2.5, 8.0, 14.0])
    ctx.go()
    r = ctx.call(F.kaiser_lowpass, L, fc * Fs, Fs, **({} if beta is None else {"beta": beta}))
    bt = 8.0 if beta is None else beta
    b, shift = r[0].tolist(), r[1]
    n = L if L % 2 else L + 1
    M = (n - 1) / 2.0
    h = []
    for i in range(n):
        t = 2 * fc * (i - M)
        s = 1.0 if t == 0 else math.sin(math.pi * t) / (math.pi * t)
        h.append(s * i0(bt * math.sqrt(max(0.0, 1 - ((i - M) / M) ** 2))) / i0(bt))
    g = sum(h)
    ctx.close("coefficients", b, [v / g for v in h], scale=1e-3, rtol=1e-8)
    ctx.check("delay", shift == (n - 1) // 2, "delay %r of %d coefficients" % (shift, n))


def fit(window, order, ts):
    A = [[t ** i for i in range(order + 1)] for t in ts]
    return ref.cho_solve_ls(A, window)


def scn_savgol(ctx):
    w = ctx.choose("window", [3, 5, 7, 9])
    order = ctx.choose("order", [0, 1, 2, 3, 4, 5])
    deriv = ctx.choose("deriv", [0, 1, 2, 3, 4, 5])
    delta = ctx.choose("delta", [1.0, 0.1, 4.0])
    kind = ctx.choose("signal", ["generic", "const", "ramp", "alt", "unit7", "huge", "square", "poly"])
    n = ctx.choose("n", [12, 20])
    if w < order + 2 or deriv > order or (deriv == 0 and delta != 1.0):
        ctx.prune()
    ctx.go()
    y = [0.3 * i * i - i for i in range(n)] if kind == "square" else [0.01 * i ** 5 - i ** 3 for i in range(n)] if kind == "poly" else gen.vec(kind, n, 1)
    Y = np.array(y)
    args = {} if deriv == 0 else {"deriv": deriv, "delta": delta}
    got = ctx.call(F.savitzky_golay, Y, w, order, **args).tolist()
    ctx.same("input-untouched", Y, y)
    ctx.check("length", len(got) == n, "%d values" % len(got))
    h = (w - 1) // 2
    sc = max(abs(v) for v in y) / delta ** deriv
    for i in range(h, n - h):
        c = fit(y[i - h:i + h + 1], order, range(-h, h + 1))
        ctx.close("local-polynomial", got[i], c[deriv] * math.factorial(deriv) / delta ** deriv, scale=sc, rtol=1e-7)
    if kind == "const":
        ctx.close("edges", got, [1.5 if deriv == 0 else 0.0] * n, scale=sc, rtol=1e-7)
    if kind == "ramp" and order >= 1:
        ctx.close("edges", got, y if deriv == 0 else [1.0 / delta if deriv == 1 else 0.0] * n, scale=sc, rtol=1e-7)


def scn_savgol_errors(ctx):
    case = ctx.choose("case", [(4, 2, TypeError), (0, 0, TypeError), (3, 2, TypeError), (5, 4, TypeError), ("x", 1, ValueError), (5, "y", ValueError)])
    ctx.raises(case[2], F.savitzky_golay, np.ones(20), case[0], case[1])


VALS = [1.0, -1.0, 1j, -1j, 10.0, 0.001, 3 - 4j, -2 + 0.1j, -2 - 0.1j]


def scn_db_ua(ctx):
    m = ctx.pick("n", [1, 2, 3], [4])
    v = [ctx.choose("v%d" % i, VALS) for i in range(m)]
    ctx.go()
    A = np.array(v)
    ctx.close("db", ctx.call(F.db, A), [20 * math.log10(abs(z)) for z in v], scale=1.0)
    p = ctx.call(F.ua, A).tolist()
    ctx.check("length", len(p) == m, "%s" % p)
    for q, z in zip(p, v):
        e = cmath.exp(1j * q) * abs(z)
        ctx.close("angle", [e.real, e.imag], [complex(z).real, complex(z).imag], scale=abs(z))
    for q, r in zip(p, p[1:]):
        ctx.check("unwrapped", abs(q - r) <= math.pi * (1 + 1e-9), "jump from %r to %r" % (q, r))
    ctx.check("start", abs(p[0] - cmath.phase(v[0])) < 1e-12, "starts at %r" % p[0])


def scn_errors(ctx):
    t = ctx.choose("ftype", ["", "Digital", "iir"])
    ctx.raises(ValueError, F.isstable, np.ones(1), np.array([1.0, -0.5]), ftype=t)


def scn_isstable_long(ctx):
    """many poles, other magnitudes, layouts and types of the coefficients"""
    kind = ctx.choose("ftype", ["digital", "analog"])
    n = ctx.pick("pairs", [1, 3, 5], [7])
    odd = ctx.choose("one", ["none", "inside", "outside", "outside pair"])
    gain = ctx.choose("a0", [1.0, 1e-9, -1e7])
    lay = ctx.choose("layout", gen.LAYOUTS + ["list"])
    ctx.go()
    if kind == "digital":
        r = [cmath.rect(0.35 + 0.08 * k, 0.3 + 2.5 * k / n) for k in range(n)]
        x = {"none": [], "inside": [-0.93], "outside": [1.04], "outside pair": expand([(1.05, 2.9)], True)}[odd]
    else:
        r = [complex(-0.4 - 0.5 * k, 1.0 + 0.8 * k) for k in range(n)]
        x = {"none": [], "inside": [-0.05], "outside": [0.05], "outside pair": expand([(0.06, 2.9)], False)}[odd]
    a = poly(r + [z.conjugate() for z in r] + x, gain)
    A = a if lay == "list" else gen.lay(a, lay)
    b = gen.lay([0.0, 3.0, 1.0], "C" if lay == "list" else lay)
    got = ctx.call(F.isstable, b, A, kind)
    ctx.check("stable", bool(got) == (odd in ("none", "inside")), "isstable says %s for one=%s" % (got, odd))
    if kind == "digital":
        A = gen.lay(a, "C" if lay == "list" else lay)
        m = ctx.call(F.mapinside, A)
        ctx.same("input-untouched", A, a)
        w = [z if abs(z) <= 1 else 1 / complex(z).conjugate() for z in r + [z.conjugate() for z in r] + x]
        ctx.close("coefficients", m, poly(w), scale=1.0, rtol=1e-5)


def scn_mapinside_gain(ctx):
    """degenerate polynomials and other types of the coefficients"""
    sel = ctx.choose("roots", [(0.5,), (2.0,), (2.0, -3.0), (1.25, (0.5, 1.0)), ((2.0, 0.5), (1.5, 2.0)), (4.0, -0.25, (1.25, 1.0)), (100.0, 1e-3), (0.0, 0.0, 2.0)])
    gain = ctx.choose("gain", [1.0, 1e-9, -1e8, 7.0])
    lay = ctx.choose("layout", gen.LAYOUTS + ["list"])
    ctx.go()
    r = expand(sel, True)
    a = poly(r, gain)
    got = ctx.call(F.mapinside, a if lay == "list" else gen.lay(a, lay))
    ctx.close("coefficients", got, poly([z if abs(z) <= 1 else 1 / z.conjugate() for z in r]), scale=1.0, rtol=1e-6)


def scn_long(ctx):
    """longer filters and windows, other magnitudes and memory layouts"""
    what = ctx.choose("function", ["grpdelay", "kaiser", "savgol", "savgol-deriv", "ua", "db"])
    n = ctx.pick("n", [11, 21, 31, 60], [101])
    s = ctx.choose("magnitude", [1.0, 1e-8, 1e6])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ctx.go()
    if what == "grpdelay":
        b, a = [s * v for v in gen.vec("positive", n, 1)], [1.0 / s] + [0.3 / s * gen.gval(k, 2) / n for k in range(n // 3)]
        gd, f = ctx.call(F.grpdelay, gen.lay(b, lay), gen.lay(a, lay), 1e3 * s, 128)
        for k in range(len(f)):
            z = cmath.exp(-1j * math.pi * k / 128)
            B, A = (sum(v * z ** i for i, v in enumerate(c)) for c in (b, a))
            if abs(B) < 1e-2 * s or abs(A) < 1e-2 / s:
                continue
            dB, dA = (sum(i * v * z ** i for i, v in enumerate(c)) for c in (b, a))
            ctx.close("delay", float(gd[k]), (dB / B - dA / A).real, scale=1.0, rtol=1e-6)
            ctx.close("frequency", float(f[k]), k * 1e3 * s / 256.0, scale=1e3 * s)
    elif what == "kaiser":
        if lay != "C":
            ctx.prune()
        fc, beta = 0.17, 6.5
        r = ctx.call(F.kaiser_lowpass, n, fc * s, s, beta)
        m = n if n % 2 else n + 1
        M = (m - 1) / 2.0
        h = [(1.0 if i == M else math.sin(2 * math.pi * fc * (i - M)) / (2 * math.pi * fc * (i - M)))
             * i0(beta * math.sqrt(max(0.0, 1 - ((i - M) / M) ** 2))) / i0(beta) for i in range(m)]
        ctx.close("coefficients", r[0], [v / sum(h) for v in h], scale=1e-3, rtol=1e-8)
        ctx.check("delay", r[1] == (m - 1) // 2, "delay %r of %d coefficients" % (r[1], m))
    elif what.startswith("savgol"):
        w = n if n % 2 else n - 1
        order, deriv = (3, 0) if what == "savgol" else (4, 2)
        y = [s * v for v in gen.vec("generic", 2 * n, 1)]
        got = ctx.call(F.savitzky_golay, gen.lay(y, lay), w, order, deriv=deriv, delta=0.5).tolist()
        ctx.check("length", len(got) == 2 * n, "%d values" % len(got))
        h = (w - 1) // 2
        for i in range(h, 2 * n - h):
            c = fit(y[i - h:i + h + 1], order, [k / float(h) for k in range(-h, h + 1)])
            ctx.close("local-polynomial", got[i], c[deriv] / float(h) ** deriv * math.factorial(deriv) / 0.5 ** deriv, scale=s * 1e-3, rtol=1e-6)
    else:
        step = 2.4
        z = [s * (1 + 0.3 * gen.gval(k, 3) / 2) * cmath.exp(1j * (0.4 + step * k)) for k in range(n)]
        Z = gen.lay(z, lay)
        if what == "ua":
            ctx.close("phase", ctx.call(F.ua, Z), [0.4 + step * k for k in range(n)], scale=1.0, rtol=1e-10)
            ctx.close("phase", ctx.call(F.ua, gen.lay([v.conjugate() for v in z], lay)), [-0.4 - step * k for k in range(n)], scale=1.0, rtol=1e-10)
        else:
            ctx.close("db", ctx.call(F.db, Z), [20 * math.log10(abs(v)) for v in z], scale=1.0)
            R = [[abs(v) for v in z], [2 * abs(v) for v in z]]
            ctx.close("db", ctx.call(F.db, gen.lay(R, lay)), [[20 * math.log10(v) for v in r] for r in R], scale=1.0)


SCENARIOS = [
    ("isstable", scn_isstable),
    ("mapinside", scn_mapinside),
    ("grpdelay", scn_grpdelay),
    ("grpdelay-scale", scn_grpdelay_scale),
    ("kaiser", scn_kaiser),
    ("savgol", scn_savgol),
    ("savgol-errors", scn_savgol_errors),
    ("db-ua", scn_db_ua),
    ("errors", scn_errors),
    ("isstable-long", scn_isstable_long), ("mapinside-gain", scn_mapinside_gain), ("long", scn_long),
]
