"""Update formulae and histograms of the generic Monte Carlo method."""
import itertools
import math

import numpy as np

from mc import fakepool, gen, ref, rng
from PyDynamic.uncertainty.propagate_MonteCarlo import UMC_generic

TITLE = "UMC_generic: statistics of exactly the requested runs, whatever the block size"
ASSUMPTIONS = ["the stream of samples is scripted and enumerated; evaluation is sequential (n_cpu=1), see C16 for parallel evaluation"]
LEVELS = [0.0, 1.0, -0.6, 2.5]  # inside, upper limit, below, far above the range of the initial runs


def histogram(values, edges):
    c = [0] * (len(edges) - 1)
    for v in values:
        v = min(max(v, edges[0]), edges[-1])
        k = len(edges) - 2
        for i in range(len(edges) - 1):
            if edges[i] <= v < edges[i + 1]:
                k = i
                break
        c[k] += 1
    return c


def run(ctx, stream, evaluate, runs, blocksize, init, nbins, in_shape, out_shape, aslist=False, tie_safe=True):
    """stream: list of samples (nested lists); first `init` are the initial ones"""
    pos = [0]
    arrs = [np.array(s, dtype=float) for s in stream]

    def draw(size):
        ctx.check("too-many-samples", pos[0] + size <= len(arrs), "asked for more than runs_init + runs samples")
        r = arrs[pos[0]:pos[0] + size]
        pos[0] += size
        return r if aslist else np.array(r)

    seen = []

    def ev(s):
        seen.append(np.array(s).tolist())
        return np.array(evaluate(s), dtype=float).reshape(out_shape)

    kw = {} if nbins is None else {"nbins": nbins}
    y, Uy, happr, shape, sims = ctx.call(UMC_generic, draw, ev, runs=runs, blocksize=blocksize, runs_init=init,
                                         return_samples=True, n_cpu=1, **kw)
    ctx.check("consumed", pos[0] == init + runs, "%d samples drawn instead of %d" % (pos[0], init + runs))
    ctx.same("evaluated", seen, [np.array(s, dtype=float).tolist() for s in stream])
    outs = [np.array(evaluate(s), dtype=float).ravel().tolist() for s in arrs]
    first, rest = outs[:init], outs[init:]
    ctx.check("output-shape", tuple(shape) == tuple(out_shape), "%s" % (shape,))
    sc = max(abs(v) for r in outs for v in r) + 1e-300
    ctx.close("mean", y, ref.mean(rest), scale=sc)
    if runs > 1:
        ctx.close("covariance", Uy, ref.cov(rest), scale=sc * sc)
    ctx.same("samples", sims["samples"], [a.tolist() for a in arrs[init:]])
    ctx.same("results", sims["results"], [np.array(r).reshape(out_shape).tolist() for r in rest])
    bins = [100] if nbins is None else ([nbins] if isinstance(nbins, int) else nbins)
    ctx.check("bins", sorted(happr) == sorted(set(bins)), "%s" % list(happr))
    d = len(outs[0])
    for nb in bins:
        e, c = happr[nb]["bin-edges"].tolist(), happr[nb]["bin-counts"].tolist()
        ctx.check("edges-shape", len(e) == nb + 1 and len(c) == nb and len(e[0]) == d and len(c[0]) == d, "shapes")
        for k in range(d):
            lo, hi = min(r[k] for r in first), max(r[k] for r in first)
            inner = [lo + (hi - lo) * i / nb for i in range(nb + 1)]
            ek = [r[k] for r in e]
            ctx.close("inner-edges", ek[1:-1], inner[1:-1], scale=sc)
            ctx.close("outer-edges", [ek[0], ek[-1]], [min(r[k] for r in outs), max(r[k] for r in outs)], scale=sc)
            ck = [r[k] for r in c]
            ctx.check("every-run-counted", sum(ck) == runs, "counts %s of %d runs" % (ck, runs))
            if hi > lo and tie_safe:
                ctx.same("counts", [float(v) for v in ck], [float(v) for v in histogram([r[k] for r in rest], inner)])
    return y, Uy, happr


def scn_streams(ctx):
    """every sequence of results over four levels, every partition into blocks"""
    runs = ctx.pick("runs", [1, 2, 3, 4], [5, 6])
    bs = ctx.choose("blocksize", list(range(1, runs + 2)))
    init = ctx.choose("runs_init", [2, 3])
    nbins = ctx.choose("nbins", [4, [1, 3]] if runs < 5 else [4])
    lev = [ctx.choose("run%d" % i, LEVELS) for i in range(runs)]
    ctx.go()
    st = [[-0.3 + 1.3 * i / (init - 1), 0.1 * i] for i in range(init)]
    st += [[v, 0.07 * (i * i % 5)] for i, v in enumerate(lev)]
    run(ctx, st, lambda s: [s[0] - 0.1, 2.0 * s[1] - s[0]], runs, bs, init, nbins, (2,), (2,), tie_safe=True)


SHAPES = {
    "1->1": ((1,), (1,), lambda s: np.asarray(s) * 2.0),
    "3->2": ((3,), (2,), lambda s: np.array([s[0] + s[1], s[2] * s[0]])),
    "2x2->3": ((2, 2), (3,), lambda s: np.array([s[0][0], s[1][1] * s[0][1], s[1][0] + 1])),
    "2->2x3": ((2,), (2, 3), lambda s: np.array([[s[0], s[1], 1.0], [s[0] * s[1], s[0] - s[1], s[0] ** 2]])),
    "2->1x1x2": ((2,), (1, 1, 2), lambda s: np.array([[[s[0] * 3.0, s[1]]]])),
}


def scn_shapes(ctx):
    """shapes of samples and results, block sizes, numbers of runs"""
    sh = ctx.choose("shapes", list(SHAPES))
    runs = ctx.pick("runs", [1, 5, 8, 12, 30], [17, 64, 65])
    bs = ctx.choose("blocksize", [1, 2, 3, 5, 8, 11, 100])
    init = ctx.choose("runs_init", [1, 2, 10])
    nbins = ctx.choose("nbins", [None, 7, [5], [2, 10]])
    aslist = ctx.choose("draws", ["array", "list"]) == "list"
    vals = ctx.choose("values", ["generic", "const", "huge", "tiny"])
    if vals != "generic" and (aslist or nbins is None or init == 1):
        ctx.prune()
    ctx.go()
    i, o, f = SHAPES[sh]
    size = int(np.prod(i))
    st = [np.array(gen.vec(vals, size, 3 * k)).reshape(i).tolist() for k in range(init + runs)]
    run(ctx, st, f, runs, bs, init, nbins, i, o, aslist, tie_safe=vals == "generic")


def scn_offset(ctx):
    """mean and covariance of results with a large common offset do not depend on the block size"""
    runs = ctx.choose("runs", [3, 8, 20])
    bs = ctx.choose("blocksize", [1, 2, 3, 7, 8, 20])
    off = ctx.choose("offset", [0.0, 1e3, -1e6])
    ctx.go()
    st = [gen.vec("generic", 2, k) for k in range(3 + runs)]
    f = lambda s: np.array([s[0] + off, s[1] - s[0]])
    y, Uy, _ = run(ctx, st, f, runs, bs, 3, 5, (2,), (2,), tie_safe=False)
    rows = [f(s).tolist() for s in st[3:]]
    ctx.close("covariance-relative", Uy, ref.cov([[r[0] - off, r[1]] for r in rows]), scale=1.0, rtol=1e-9 + 1e-15 * off * off)


def scn_return(ctx):
    """same statistics whether or not the samples are returned"""
    runs = ctx.choose("runs", [1, 4, 9])
    bs = ctx.choose("blocksize", [1, 4, 5])
    ctx.go()

    def once(rs):
        k = [0]

        def draw(n):
            k[0] += n
            return [np.array(gen.vec("generic", 2, k[0] - n + i)) for i in range(n)]

        return ctx.call(UMC_generic, draw, lambda s: s * 2.0, runs=runs, blocksize=bs, runs_init=3, nbins=4, return_samples=rs, n_cpu=1)

    a, b = once(False), once(True)
    ctx.check("arity", len(a) == 4 and len(b) == 5, "%d %d" % (len(a), len(b)))
    ctx.close("mean", a[0], b[0], scale=1.0)
    if runs > 1:
        ctx.close("cov", a[1], b[1], scale=1.0)
    ctx.same("hist", a[2][4]["bin-counts"], b[2][4]["bin-counts"])


def scn_many(ctx):
    """many runs and results of many components"""
    runs, bs, d = ctx.pick("size", [(100, 8, 3), (257, 16, 2), (1000, 8, 1), (1000, 300, 1), (20, 3, 40), (9, 4, 150)], [(5000, 8, 1), (40, 8, 200)])
    init = ctx.choose("runs_init", [2, 10, 100])
    nbins = ctx.choose("nbins", [None, 7, [5, 50]])
    vals = ctx.choose("values", ["generic", "tiny", "huge"])
    if d > 20 and (init == 100 or nbins is None):
        ctx.prune()
    ctx.go()
    st = [gen.vec(vals, d, 3 * k) for k in range(init + runs)]
    run(ctx, st, lambda s: np.asarray(s) * 2.0 + 0.25, runs, bs, init, nbins, (d,), (d,), tie_safe=False)


SCENARIOS = [("streams", scn_streams), ("shapes", scn_shapes), ("offset", scn_offset), ("return", scn_return), ("many", scn_many)]
