"""Catalogue of calls of every public function, for the properties that concern all of them."""
import math

import numpy as np
from scipy import sparse
from scipy.sparse import csc_matrix

from mc import gen
from PyDynamic.deconvolution import fit_filter as dec
from PyDynamic.identification import fit_filter as idf
from PyDynamic.identification import fit_transfer as idt
from PyDynamic.misc import filterstuff as fs
from PyDynamic.misc.impinvar import impinvar, impinvar_causal
from PyDynamic.misc import noise as no
from PyDynamic.misc import SecondOrderSystem as so
from PyDynamic.misc import testsignals as ts
from PyDynamic.misc import tools as to
from PyDynamic.model_estimation import fit_filter as ff
from PyDynamic.model_estimation import fit_transfer as ft
from PyDynamic.signals import Signal
from PyDynamic.uncertainty import interpolate as ip
from PyDynamic.uncertainty import propagate_convolution as pc
from PyDynamic.uncertainty import propagate_DFT as pd
from PyDynamic.uncertainty import propagate_filter as pf
from PyDynamic.uncertainty import propagate_MonteCarlo as pm

UNSEEDED = {"UMC", "UMC-low"}  # evaluated by worker processes, which seed themselves
UK = ["full", "diag", "rank1", "hole", "zero"]
E = []  # (name, random, build, covariances)


def entry(name, random=False, cov=None, slow=False):
    def deco(f):
        E.append((name, random, f, cov, slow))
        return f

    return deco


def V(kind, n, salt=0):
    return gen.arr(gen.vec(kind, n, salt))


SCALE = 1.0  # factor on standard uncertainties


def U(kind, n, salt=0, s=1.0):
    return s * SCALE * SCALE * gen.arr(gen.cov(kind, n, salt))


def std(uk, n, salt):
    return np.sqrt(np.diag(U(uk, n, salt)))


def lines(n, salt):
    """spectrum [real, imag] of a real signal of length n"""
    X = np.fft.rfft(gen.vec("generic", n, salt) + np.array([3.0] + [0.0] * (n - 1)))
    return np.r_[X.real, X.imag]


def nspec(n):
    return 2 * (n // 2 + 1)


# ---- filters ---------------------------------------------------------------------------
@entry("FIRuncFilter-diag")
def _(n, uk, s):
    return pf.FIRuncFilter, (V("generic", n, s), std(uk, n, s), V("generic", 3, s + 1), U(uk, 3, s + 2)), {"kind": "diag"}


@entry("FIRuncFilter-full", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pf.FIRuncFilter, (V("generic", n, s), U(uk, n, s), V("generic", 3, s + 1), U(uk, 3, s + 2)), {"return_full_covariance": True, "shift": 1}


@entry("FIRuncFilter-corr-blow", cov=lambda r: [r[1]])
def _(n, uk, s):
    r = gen.arr([1.3 * 0.6 ** k * math.cos(0.9 * k) for k in range(n)])
    return pf.FIRuncFilter, (V("generic", n, s), r, V("generic", 2, s + 1), U(uk, 2, s + 2)), {
        "kind": "corr", "blow": V("positive", 3, s), "return_full_covariance": True}


@entry("FIRuncFilter-float", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pf.FIRuncFilter, (V("generic", n, s), 0.3, V("generic", 4, s + 1), std(uk, 4, s)), {"return_full_covariance": True}


@entry("IIRuncFilter")
def _(n, uk, s):
    return pf.IIRuncFilter, (V("generic", n, s), std(uk, n, s), np.array([0.5, 0.2]), np.array([1.0, -0.5, 0.2]), U(uk, 4, s, 1e-3)), {}


@entry("convolve_unc-full", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pc.convolve_unc, (V("generic", n, s), U(uk, n, s), V("generic", 3, s + 1), U(uk, 3, s + 1)), {}


for _m in ("valid", "same", "nearest", "reflect", "mirror"):
    def _f(n, uk, s, m=_m):
        return pc.convolve_unc, (V("generic", n, s), U(uk, n, s), V("generic", 3, s + 1), U(uk, 3, s + 1)), {"mode": m}

    entry("convolve_unc-" + _m, cov=lambda r: [r[1]])(_f)


# ---- Monte Carlo -----------------------------------------------------------------------
IIR = (np.array([0.5, 0.2]), np.array([1.0, -0.5]))


@entry("MC", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return pm.MC, (V("generic", n, s), U(uk, n, s), IIR[0].copy(), IIR[1].copy(), U(uk, 3, s, 1e-3)), {"runs": 7, "verbose": False, "shift": 1}


@entry("MC-low", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return pm.MC, (V("generic", n, s), std(uk, n, s), IIR[0].copy(), IIR[1].copy(), U(uk, 3, s, 1e-3)), {
        "runs": 5, "verbose": False, "blow": np.array([0.7]), "alow": np.array([1.0, -0.4])}


@entry("SMC", random=True)
def _(n, uk, s):
    return pm.SMC, (V("generic", n, s), 0.3, IIR[0].copy(), IIR[1].copy(), U(uk, 3, s, 1e-3)), {
        "runs": 6, "Perc": [5, 95], "blow": np.array([0.7]), "alow": np.array([1.0, -0.4]), "phi": np.array([0.3]), "theta": np.array([0.2]), "Delta": 0.1}


@entry("UMC", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return pm.UMC, (V("generic", n, s), IIR[0].copy(), IIR[1].copy(), U(uk, 3, s, 1e-3)), {
        "runs": 6, "blocksize": 4, "runs_init": 3, "nbins": [5, 9], "sigma": 0.2}


@entry("UMC-low", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return pm.UMC, (V("generic", n, s), 2 * IIR[0], 2 * IIR[1], U(uk, 3, s, 1e-3)), {
        "runs": 6, "blocksize": 4, "runs_init": 3, "nbins": [5], "sigma": 0.2, "blow": np.array([0.7]), "alow": np.array([2.0, -0.8])}


@entry("UMC_generic", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    C = U(uk, n, s)

    def draw(size):
        return np.random.multivariate_normal(np.ones(n), C, size)

    def evaluate(x):
        return np.array([x[0] * x[1], x.sum()])

    return pm.UMC_generic, (draw, evaluate), {"runs": 9, "blocksize": 4, "runs_init": 3, "nbins": 5, "n_cpu": 1, "return_samples": True}


# ---- DFT -------------------------------------------------------------------------------
@entry("GUM_DFT", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_DFT, (V("generic", n, s), U(uk, n, s)), {}


@entry("GUM_DFT-vector", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_DFT, (V("generic", n, s), np.diag(U(uk, n, s)).copy()), {"N": n + 2, "window": V("positive", n, s)}


@entry("GUM_DFT-variance")
def _(n, uk, s):
    return pd.GUM_DFT, (V("generic", n, s), 0.3), {"mask": np.arange(n // 2 + 1) % 2 == 0}


@entry("GUM_DFT-mask", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_DFT, (V("generic", n, s), U(uk, n, s)), {"mask": np.arange(n // 2 + 1) < 2}


@entry("GUM_DFT-C", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_DFT, (V("generic", n, s), U(uk, n, s)), {"returnC": True}


@entry("GUM_iDFT", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_iDFT, (lines(n, s), U(uk, nspec(n), s)), {"Nx": n - n % 2}


@entry("GUM_iDFT-C", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.GUM_iDFT, (lines(n, s), U(uk, nspec(n), s)), {"Nx": n - n % 2, "returnC": True}


@entry("GUM_DFTfreq")
def _(n, uk, s):
    return pd.GUM_DFTfreq, (n, 0.1), {}


@entry("DFT2AmpPhase", cov=lambda r: [r[2]])
def _(n, uk, s):
    return pd.DFT2AmpPhase, (lines(n, s) + 0.3, U(uk, nspec(n), s, 1e-4)), {}


@entry("DFT2AmpPhase-sparse", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.DFT2AmpPhase, (lines(n, s) + 0.3, np.diag(U(uk, nspec(n), s, 1e-4)).copy()), {"keep_sparse": True, "return_type": "joint"}


@entry("AmpPhase2DFT", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.AmpPhase2DFT, (V("positive", n, s), V("generic", n, s), U(uk, 2 * n, s)), {}


@entry("AmpPhase2DFT-sparse", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.AmpPhase2DFT, (V("positive", n, s), V("generic", n, s), np.diag(U(uk, 2 * n, s)).copy()), {"keep_sparse": True}


def blocks(uk, n, s):
    """covariance that couples only the two components of one line, stored by diagonals"""
    C = U(uk, 2 * n, s)
    d = np.diag(C).copy()
    c = np.array([0.6 * math.sqrt(d[i] * d[n + i]) for i in range(n)])
    return sparse.diags([d, c, c], [0, n, -n])


@entry("AmpPhase2DFT-blocks", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.AmpPhase2DFT, (V("positive", n, s), V("generic", n, s), blocks(uk, n, s)), {"keep_sparse": n % 2 == 0}


@entry("AmpPhase2Time-blocks", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.AmpPhase2Time, (V("positive", n, s), V("generic", n, s), blocks(uk, n, s)), {}


@entry("AmpPhase2Time", cov=lambda r: [r[1]])
def _(n, uk, s):
    return pd.AmpPhase2Time, (V("positive", n, s), V("generic", n, s), U(uk, 2 * n, s)), {}


@entry("Time2AmpPhase", cov=lambda r: [r[2]])
def _(n, uk, s):
    return pd.Time2AmpPhase, (V("generic", n, s) + np.arange(n) ** 2, U(uk, n, s, 1e-4)), {}


@entry("Time2AmpPhase_multi")
def _(n, uk, s):
    x = np.array([gen.vec("generic", n, s + k) for k in range(3)]) + np.arange(n) ** 2
    return pd.Time2AmpPhase_multi, (x, np.array([0.1, 0.2, 0.3])), {"selector": np.array([0, 1])}


@entry("DFT_deconv", cov=lambda r: [r[1]])
def _(n, uk, s):
    m = nspec(n)
    return pd.DFT_deconv, (lines(n, s) + 0.3, lines(n, s + 1), U(uk, m, s), U(uk, m, s + 1)), {}


@entry("DFT_transferfunction", cov=lambda r: [r[1]])
def _(n, uk, s):
    m = nspec(n)
    return pd.DFT_transferfunction, (lines(n, s) + 0.3, lines(n, s + 1), U(uk, m, s), U(uk, m, s + 1)), {}


@entry("DFT_multiply", cov=lambda r: [r[1]])
def _(n, uk, s):
    m = nspec(n)
    return pd.DFT_multiply, (lines(n, s), lines(n, s + 1), U(uk, m, s), U(uk, m, s + 1)), {}


@entry("DFT_multiply-certain", cov=lambda r: [r[1]])
def _(n, uk, s):
    m = nspec(n)
    return pd.DFT_multiply, (lines(n, s), lines(n, s + 1), np.diag(U(uk, m, s)).copy()), {}


# ---- interpolation ---------------------------------------------------------------------
for _k in ("linear", "previous", "next", "nearest"):
    def _f(n, uk, s, k=_k):
        t = np.cumsum(V("positive", n, s))
        tn = np.linspace(t[0], t[-1], 5)[1:-1]
        kw = {"kind": k}
        if k == "linear":
            kw["returnC"] = True
        return ip.interp1d_unc, (tn, t, V("generic", n, s), std(uk, n, s)), kw

    entry("interp1d_unc-" + _k)(_f)


@entry("interp1d_unc-unsorted")
def _(n, uk, s):
    t = np.cumsum(V("positive", n, s))[::-1].copy()
    return ip.interp1d_unc, (np.array([t[-1] - 1, t[0] + 1, t[1]]), t, V("generic", n, s), std(uk, n, s)), {
        "assume_sorted": False, "fill_value": "extrapolate", "fill_unc": "extrapolate", "bounds_error": False}


@entry("make_equidistant")
def _(n, uk, s):
    return ip.make_equidistant, (np.cumsum(V("positive", n, s)), V("generic", n, s), std(uk, n, s)), {"dt": 0.3}


# ---- model estimation ------------------------------------------------------------------
FR = np.array([0.02, 0.07, 0.13, 0.19, 0.26, 0.33, 0.41])


def resp(s):
    w = 2 * np.pi * FR
    return (1.3 + 0.1 * s) / (1 - (w / 1.9) ** 2 + 0.3j * w)


@entry("LSFIR")
def _(n, uk, s):
    return ff.LSFIR, (resp(s), n - 1, 1, FR.copy(), 1.0), {"Wt": V("positive", 7, s)}


@entry("invLSFIR")
def _(n, uk, s):
    return ff.invLSFIR, (resp(s), n - 1, 1, FR.copy(), 1.0), {"Wt": V("positive", 7, s)}


@entry("invLSFIR_unc", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return ff.invLSFIR_unc, (resp(s), U(uk, 14, s, 1e-6), n - 1, 1, FR.copy(), 1.0), {"wt": V("positive", 14, s), "verbose": False}


@entry("invLSFIR_uncMC", random=True, cov=lambda r: [r[1]], slow=True)
def _(n, uk, s):
    return ff.invLSFIR_uncMC, (resp(s), U(uk, 14, s, 1e-6), n - 1, 1, FR.copy(), 1.0), {"verbose": False}


@entry("LSIIR")
def _(n, uk, s):
    return ff.LSIIR, (resp(s), 2, 2, FR.copy(), 1.0, 1), {}


@entry("invLSIIR")
def _(n, uk, s):
    return ff.invLSIIR, (resp(s), 2, 2, FR.copy(), 1.0, 2), {"verbose": False}


@entry("invLSIIR_unc", random=True, cov=lambda r: [r[3]], slow=True)
def _(n, uk, s):
    return ff.invLSIIR_unc, (resp(s), U(uk, 14, s, 1e-6), 1, 2, FR.copy(), 1.0), {"tau": 2}


def som(s):
    f = np.array([0.2, 0.6, 1.3, 1.7])
    H = (1.0 + 0.1 * s) / (1 + 0.6j * f - f ** 2)
    return f, np.r_[H.real, H.imag]


@entry("fit_som", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return ft.fit_som, som(s) + (U(uk, 8, s, 1e-6) + 1e-8 * np.eye(8),), {"weighting": "diag"}


@entry("fit_som-MC", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return ft.fit_som, som(s) + (U(uk, 8, s, 1e-6),), {"MCruns": 9}


# ---- miscellaneous ---------------------------------------------------------------------
@entry("db")
def _(n, uk, s):
    return fs.db, (V("generic", n, s),), {}


@entry("ua")
def _(n, uk, s):
    return fs.ua, (np.exp(1j * V("ramp", n, s)),), {}


@entry("grpdelay")
def _(n, uk, s):
    return fs.grpdelay, (V("generic", 3, s), np.array([1.0, -0.5, 0.2]), 10.0), {"nfft": 8}


@entry("mapinside")
def _(n, uk, s):
    return fs.mapinside, (np.array([1.0, -2.5, 1.7 + 0.1 * s]),), {}


@entry("kaiser_lowpass")
def _(n, uk, s):
    return fs.kaiser_lowpass, (2 * n, 0.1, 1.0), {}


@entry("isstable")
def _(n, uk, s):
    return fs.isstable, (np.array([1.0]), np.array([1.0, -0.5, 0.2])), {}


@entry("isstable-analog")
def _(n, uk, s):
    return fs.isstable, (np.array([1.0]), np.array([1.0, 0.5, 0.2])), {"ftype": "analog"}


@entry("savitzky_golay")
def _(n, uk, s):
    return fs.savitzky_golay, (V("generic", n + 4, s), 5, 2), {"deriv": 1}


@entry("impinvar")
def _(n, uk, s):
    return impinvar, (np.array([1.0, 0.5]), np.array([1.0, 0.4 + 0.1 * s, 1.0, 0.2])), {"fs": 4.0}


@entry("impinvar_causal")
def _(n, uk, s):
    return impinvar_causal, (np.array([1.0, 0.5]), np.array([1.0, 3.0, 2.0 + s])), {"fs": 4.0}


@entry("sos_FreqResp")
def _(n, uk, s):
    return so.sos_FreqResp, (V("positive", 3, s), V("positive", 3, s + 1), V("positive", 3, s + 2), V("positive", n, s)), {}


@entry("sos_phys2filter")
def _(n, uk, s):
    return so.sos_phys2filter, (V("positive", 3, s), V("positive", 3, s + 1), V("positive", 3, s + 2)), {}


@entry("sos_realimag", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return so.sos_realimag, (1.0, 0.3, 1.0, 0.01, 0.02, 0.03, V("positive", n, s)), {"runs": 9}


@entry("sos_absphase", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return so.sos_absphase, (1.0, 0.3, 1.0, 0.01, 0.02, 0.03, V("positive", n, s)), {"runs": 9}


for _name, _args in (("shocklikeGaussian", (1.0, 2.0, 0.5)), ("GaussianPulse", (1.0, 2.0, 0.5)), ("rect", (0.4, 1.2)), ("squarepulse", (2.0,)),
                     ("sine", (1.5, 2.0)), ("multi_sine", ([1.0, 2.0], [0.4, 3.0]))):
    def _f(n, uk, s, name=_name, args=_args):
        return getattr(ts, name), (np.cumsum(V("positive", n, s)),) + args, {"noise": 0.1}

    entry(_name, random=True)(_f)


def noise_process(N, seed, again):
    o = ts.corr_noise(0.5, 1.0, seed=seed)
    return o.calc_noise(N), o.calc_cov(), o.calc_noise2(N), o.calc_psd()


@entry("corr_noise", cov=lambda r: [r[1]])
def _(n, uk, s):
    return noise_process, (n + 8, s, 0), {}


@entry("white_gaussian", random=True)
def _(n, uk, s):
    return no.white_gaussian, (n,), {"mean": 1.0}


@entry("power_law_noise", random=True)
def _(n, uk, s):
    return no.power_law_noise, (), {"N": n + 4, "color_value": "pink"}


@entry("power_law_noise-w")
def _(n, uk, s):
    return no.power_law_noise, (), {"w": V("generic", n + 4, s), "color_value": 1}


@entry("power_law_acf")
def _(n, uk, s):
    return no.power_law_acf, (n,), {"color_value": "red"}


@entry("ARMA", random=True)
def _(n, uk, s):
    return no.ARMA, (n,), {"phi": np.array([0.4, -0.2]), "theta": [0.3]}


@entry("get_alpha")
def _(n, uk, s):
    return no.get_alpha, ("violet",), {}


@entry("shift_uncertainty", cov=lambda r: [r[1]])
def _(n, uk, s):
    return to.shift_uncertainty, (V("generic", n, s), U(uk, n, s), 2), {}


@entry("trimOrPad")
def _(n, uk, s):
    return to.trimOrPad, (V("generic", n, s), 5 if s % 2 else n + 2), {}


@entry("print_vec")
def _(n, uk, s):
    return to.print_vec, (V("generic", n, s),), {"retS": True}


@entry("print_mat")
def _(n, uk, s):
    return to.print_mat, (U(uk, n, s),), {"retS": True}


@entry("make_semiposdef", cov=lambda r: [r])
def _(n, uk, s):
    A = U(uk, n, s)
    A[0, 1] += 0.2
    return to.make_semiposdef, (A,), {}


@entry("make_semiposdef-indefinite", cov=lambda r: [r])
def _(n, uk, s):
    return to.make_semiposdef, (U(uk, n, s) - 0.3 * np.eye(n),), {"maxiter": 3}


@entry("make_semiposdef-sparse", cov=lambda r: [r.toarray()])
def _(n, uk, s):
    return to.make_semiposdef, (csc_matrix(U(uk, n, s) - 0.3 * np.eye(n)),), {}


@entry("FreqResp2RealImag", random=True, cov=lambda r: [r[2]])
def _(n, uk, s):
    return to.FreqResp2RealImag, (V("positive", n, s), V("generic", n, s), U(uk, 2 * n, s)), {"MCruns": 2 * n + 3}


def signal_life(t, x, u, b, Ub, b2, a2, Uab, runs):
    """life of a signal object"""
    s = Signal(t, x, uncertainty=u)
    s.apply_filter(b, filter_uncertainty=Ub)
    r = [s.values, s.uncertainty]
    s.apply_filter(b2, a2, Uab, MonteCarloRuns=runs)
    return r + [s.values, s.uncertainty, s.Ts, s.Fs]


@entry("Signal", random=True, cov=lambda r: [r[3]])
def _(n, uk, s):
    return signal_life, (np.arange(n) * 0.5, V("generic", n, s), std(uk, n, s), V("generic", 3, s), U(uk, 3, s, 1e-3),
                         IIR[0].copy(), IIR[1].copy(), U(uk, 3, s, 1e-3), 5), {}


# ---- deprecated names ------------------------------------------------------------------
@entry("deconvolution.LSFIR_unc", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return dec.LSFIR_unc, (resp(s), U(uk, 14, s, 1e-6), n - 1, 1, FR.copy(), 1.0), {"verbose": False}


@entry("deconvolution.LSIIR")
def _(n, uk, s):
    return dec.LSIIR, (resp(s), 2, 2, FR.copy(), 1.0, 2), {"verbose": False}


@entry("fit_sos", random=True, cov=lambda r: [r[1]])
def _(n, uk, s):
    return idt.fit_sos, som(s) + (U(uk, 8, s, 1e-6),), {}


NAMES = [e[0] for e in E]
BY = {e[0]: e for e in E}
SLOW = [e[0] for e in E if e[4]]


def build(name, n, uk, salt):
    return BY[name][2](n, uk, salt)


def changes(v):
    """values that have much in common with v: (what was done to it, other value)"""
    if isinstance(v, np.ndarray) and v.dtype == bool and v.size:
        return [("rolled", np.roll(v, 1)), ("inverted", ~v)]
    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fci":
        out = [("scaled", v * 1.5)]
        if v.ndim == 2 and v.shape[0] == v.shape[1]:
            for k in (0, -1):
                w = v.astype(float) if v.dtype.kind == "i" else v.copy()
                w[k, k] = w[k, k] * 1.3 + 0.01 * abs(v).max()
                out.append(("[%d,%d]" % (k, k), w))
            out.append(("reversed", v[::-1, ::-1].copy()))
        else:
            for k in (0, -1):
                w = v.astype(float) if v.dtype.kind == "i" else v.copy()
                w[(k,) * v.ndim] = w[(k,) * v.ndim] * 1.3 + 0.01 * abs(v).max()
                out.append(("[%d]" % k, w))
            out.append(("reversed", v[::-1].copy()))
        return out
    if sparse.issparse(v):
        w = v.copy()
        w.data[(0,) * w.data.ndim] *= 1.3
        return [("scaled", v * 1.5), ("[0]", w)]
    if isinstance(v, bool):
        return [("not", not v)]
    if isinstance(v, int):
        return [("+1", v + 1)]
    if isinstance(v, float):
        return [("*1.3", v * 1.3 + 0.01)]
    if isinstance(v, list) and v and all(isinstance(x, (int, float)) for x in v):
        return [("[0]", [v[0] * 1.3 + 0.01] + v[1:]), ("reversed", v[::-1])] if isinstance(v[0], float) else [("[0]", [v[0] + 1] + v[1:])]
    if isinstance(v, str):
        return [(o, o) for o in OTHER.get(v, [])]
    return []


OTHER = {"diag": ["corr", "cov"], "corr": ["diag"], "linear": ["nearest"], "nearest": ["linear", "mirror"], "reflect": ["mirror"], "mirror": ["reflect"],
         "same": ["valid"], "valid": ["same"], "pink": ["red"], "red": ["pink"], "violet": ["blue"], "joint": ["separate"], "previous": ["next"], "next": ["previous"]}


def specials(v):
    """arguments of unusual value, type or layout"""
    out = []
    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fci":
        out = [("zero", v * 0), ("negative", -v), ("fortran", np.array(v, order="F")), ("view", np.repeat(v, 2, axis=0)[::2]),
               ("float32", v.astype("complex64" if v.dtype.kind == "c" else "float32")), ("list", v.tolist())]
        if v.dtype.kind == "f":
            out += [("int", (3 * v).astype(int)), ("holes", np.where(np.arange(v.size).reshape(v.shape) % 2 == 0, v, 0.0)), ("nan", np.where(np.arange(v.size).reshape(v.shape) == 0, np.nan, v))]
        if v.ndim == 2 and v.shape[0] == v.shape[1]:
            w = 0.5 * (v + v.T)
            i = np.eye(len(v))
            out += [("symmetric", w), ("indefinite", w - 0.7 * abs(w).max() * i), ("definite", w + 2 * abs(w).sum() * i), ("asymmetric", v + 0.1 * np.triu(v, 1)), ("diagonal", w * i),
                    ("vector", np.diag(v).copy())]
        if v.ndim == 1:
            out += [("longer", np.r_[v, v[-1:]]), ("shorter", v[:-1]), ("matrix", np.diag(v))]
    elif isinstance(v, bool) or v is None:
        pass
    elif isinstance(v, (int, float)):
        out = [("zero", 0 * v), ("negative", -v), ("numpy", np.float64(v) if isinstance(v, float) else np.int64(v))]
    elif isinstance(v, list) and v:
        out = [("array", np.array(v)), ("longer", v + v[-1:]), ("shorter", v[:-1])]
    return out


def odd_arguments(name, n, uk, salt):
    """[(which argument, what it is)]"""
    f, a, k = build(name, n, uk, salt)
    return [(i, what) for i, v in list(enumerate(a)) + sorted(k.items()) for what, _ in changes(v) + specials(v)]


def build_odd(name, n, uk, salt, odd):
    f, a, k = build(name, n, uk, salt)
    a, k = list(a), dict(k)
    for where, what in odd:
        box = a if isinstance(where, int) else k
        box[where] = dict(changes(box[where]) + specials(box[where]))[what]
    return f, a, k


def variants(name, n, uk, salt):
    """[(which argument, what was done to it)]"""
    f, a, k = build(name, n, uk, salt)
    return [(i, what) for i, v in list(enumerate(a)) + sorted(k.items()) for what, _ in changes(v)]


def build_variant(name, n, uk, salt, where, what):
    f, a, k = build(name, n, uk, salt)
    a, k = list(a), dict(k)
    box = a if isinstance(where, int) else k
    box[where] = dict(changes(box[where]))[what]
    return f, tuple(a), k


# ---- comparison of arbitrary results -----------------------------------------------------
def plain(x):
    """nested tuples of numbers and strings, with type of container and shape"""
    if hasattr(x, "toarray"):
        return ("sparse", plain(x.toarray()))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return ("objects", x.shape) + tuple(plain(v) for v in x.ravel())
        return ("array", x.dtype.kind, x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((str(k), plain(v)) for k, v in sorted(x.items(), key=lambda i: str(i[0])))
    if isinstance(x, np.generic):
        return x.item()
    if callable(x):
        return ("callable",)
    return x


def same_text(a, b):
    """identical, nan included"""
    return a == b or repr(a) == repr(b)


def equal(a, b, rtol=1e-11):
    """same structure, numbers equal up to rounding"""
    if isinstance(a, tuple):
        if not (isinstance(b, tuple) and len(a) == len(b)):
            return False
        if a and a[0] == "array" and b[0] == "array":
            if a[1:3] != b[1:3]:
                return False
            m = max([abs(v) for v in a[3] if isinstance(v, (int, float, complex)) and abs(v) < math.inf] + [0.0])
            return all(p == q or (p != p and q != q) or abs(p - q) <= rtol * m for p, q in zip(a[3], b[3]))
        return all(equal(p, q, rtol) for p, q in zip(a, b))
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b))
    return a == b
