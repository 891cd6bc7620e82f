"""Parallel evaluation in the generic Monte Carlo method: schedules of the worker pool."""
import itertools
import multiprocessing
import time

import numpy as np

from mc import fakepool, gen, ref, rng
from PyDynamic.uncertainty.propagate_MonteCarlo import UMC, UMC_generic

TITLE = "UMC_generic: parallel evaluation under every schedule"
ASSUMPTIONS = [
    "workers are simulated: private copy of the parent's generator state, initializer, one task at a time",
    "a separate scenario runs real worker processes (small number of runs, forced out-of-order completion)",
]


class Stream:
    def __init__(self):
        self.n = 0

    def __call__(self, size):
        r = [np.array([float(self.n + i), 0.5 * (self.n + i) ** 2]) for i in range(size)]
        self.n += size
        return r


def plain(s):
    return np.array([3.0 * s[0] + 1.0, s[1] - s[0]])


def noisy(s):
    return np.array([s[0], np.random.standard_normal(), np.random.random_sample()])


def slow_first(s):
    time.sleep(0.15 if int(s[0]) % 3 == 0 else 0.0)
    return plain(s)


def slow_noisy(s):
    time.sleep(0.02)
    return noisy(s)


def verify(ctx, r, runs, init):
    y, Uy, happr, shape, sims = r
    want = [plain(np.array([float(k), 0.5 * k * k])).tolist() for k in range(init, init + runs)]
    ctx.same("samples", sims["samples"], [[float(k), 0.5 * k * k] for k in range(init, init + runs)])
    ctx.same("result-belongs-to-sample", sims["results"], want)
    ctx.close("mean", y, ref.mean(want))
    if runs > 1:
        ctx.close("covariance", Uy, ref.cov(want))
    for h in happr.values():
        ctx.same("counted", h["bin-counts"].sum(axis=0), [float(runs)] * 2)


def scn_schedules(ctx):
    """every assignment of tasks to workers and every completion order, up to the deviation bound"""
    ctx.budget(5 if ctx.thorough else 3)
    ncpu = ctx.choose("n_cpu", [2, 3, 4])
    runs = ctx.choose("runs", [3, 4, 6])
    bs = ctx.choose("blocksize", [2, 3, 4])
    init = ctx.choose("runs_init", [1, 2])
    ctx.go()
    rng.light(5)
    with fakepool.active(fakepool.Explored(ctx)) as open_pools:
        r = ctx.call(UMC_generic, Stream(), plain, runs=runs, blocksize=bs, runs_init=init, nbins=3, return_samples=True, n_cpu=ncpu)
        ctx.check("pool-closed", not open_pools, "worker processes were not ended")
    verify(ctx, r, runs, init)


def distinct(ctx, tag, values):
    ctx.check(tag, len(set(values)) == len(values), "%d of %d random numbers are repetitions" % (len(values) - len(set(values)), len(values)))


def scn_noise(ctx):
    """random numbers drawn by evaluate differ between all runs, workers and the parent, whatever the schedule"""
    ctx.budget(4 if ctx.thorough else 2)
    ncpu = ctx.choose("n_cpu", [1, 2, 3, 8])
    runs = ctx.choose("runs", [2, 4, 6])
    bs = ctx.choose("blocksize", [1, 2, 3, 8])
    seed = ctx.choose("seed", [1, 2])
    ctx.go()
    rng.light(seed)
    drawn = []

    def draw(size):
        s = np.random.standard_normal((size, 1))
        drawn.extend(s[:, 0].tolist())
        return s

    with fakepool.active(fakepool.Explored(ctx)):
        r = ctx.call(UMC_generic, draw, noisy, runs=runs, blocksize=bs, runs_init=2, nbins=3, return_samples=True, n_cpu=ncpu)
    res = r[4]["results"].tolist()
    distinct(ctx, "normals", drawn + [v[1] for v in res])
    distinct(ctx, "uniforms", [v[2] for v in res])


def scn_filter(ctx):
    """UMC: signal noise differs between runs for every schedule (a non-zero spread of certain filters)"""
    ctx.budget(2)
    runs = ctx.choose("runs", [2, 3])
    bs = ctx.choose("blocksize", [2, 3, 8])
    ctx.go()
    rng.light(3)
    with fakepool.active(fakepool.Explored(ctx)) as open_pools:
        y, Uy = ctx.call(UMC, gen.arr([1.0, 2.0, 3.0]), np.array([1.0]), np.array([1.0]), np.zeros((1, 1)), runs=runs,
                         blocksize=bs, runs_init=2, nbins=3, sigma=0.5)[:2]
        ctx.check("pool-closed", not open_pools, "worker processes were not ended")
    U = Uy.tolist()
    ctx.check("spread", all(U[i][i] > 1e-24 for i in range(3)), "variances %s although every run has its own noise" % [U[i][i] for i in range(3)])


def scn_real(ctx):
    """conformance of the simulated pool: real processes, forced out-of-order completion"""
    what = ctx.choose("what", ["pairing", "noise"])
    ncpu = ctx.choose("n_cpu", [2, 4])
    bs = ctx.choose("blocksize", [4, 8])
    ctx.go()
    rng.seeded(11)
    runs, init = 6, 2
    before = len(multiprocessing.active_children())
    r = ctx.call(UMC_generic, Stream(), slow_first if what == "pairing" else slow_noisy, runs=runs, blocksize=bs, runs_init=init, nbins=3,
                 return_samples=True, n_cpu=ncpu)
    if what == "pairing":
        verify(ctx, r, runs, init)
    else:
        res = r[4]["results"].tolist()
        distinct(ctx, "normals", [v[1] for v in res])
        distinct(ctx, "uniforms", [v[2] for v in res])
        ctx.same("paired", [v[0] for v in res], [float(k) for k in range(init, init + runs)])
    t0 = time.time()
    while len(multiprocessing.active_children()) > before and time.time() - t0 < 20:
        time.sleep(0.02)
    ctx.check("workers-ended", len(multiprocessing.active_children()) <= before, "worker processes still alive after the call")


SCENARIOS = [("schedules", scn_schedules), ("noise", scn_noise), ("filter", scn_filter), ("real", scn_real)]
