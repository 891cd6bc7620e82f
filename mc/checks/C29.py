"""Old names are the same functions as the new ones, and every advertised name can be reached on every import path."""
import contextlib
import importlib
import io
import os
import sys
import warnings

import numpy as np

from mc import calls, gen, rng
from mc.checks.C28 import in_child

TITLE = "deprecated and re-exported names behave exactly as the functions they stand for"
ASSUMPTIONS = [
    "both names get equal arguments and equal random numbers; results, printed text and refusals are compared",
    "import histories start from an interpreter that has not imported PyDynamic",
]
ME = "PyDynamic.model_estimation.fit_filter"
FT = "PyDynamic.model_estimation.fit_transfer"
DEC = "PyDynamic.deconvolution.fit_filter"
FR = np.array([0.02, 0.07, 0.13, 0.19, 0.26, 0.33, 0.41])


def resp(s=0):
    w = 2 * np.pi * FR
    return (1.3 + 0.1 * s) / (1 - (w / 1.9) ** 2 + 0.3j * w)


def som(s=0):
    f = np.array([0.2, 0.6, 1.3, 1.7])
    H = (1.0 + 0.1 * s) / (1 + 0.6j * f - f ** 2)
    return np.r_[H.real, H.imag]


def UH(kind, n, s=1e-6):
    return s * gen.arr(gen.cov(kind, n))


H2 = [resp(), resp(2)]
U2 = [UH("full", 14), UH("diag", 14, 1e-4)]
W7, W14 = gen.arr(gen.vec("positive", 7)), gen.arr(gen.vec("positive", 14))
MISSING = "default"
# old (module, name), new (module, name), parameters with the values they may take
F7 = [FR, FR * 1.1, FR[::-1].copy(), list(FR), FR[:6]]
PAIRS = {
    "dec.LSFIR": ((DEC, "LSFIR"), (ME, "invLSFIR"), [
        ("H", H2 + [list(resp()), resp()[:6], resp().real]), ("N", [3, 5, 0, 3.0]), ("tau", [1, 2, 0, 0.5, -1]), ("f", F7), ("Fs", [1.0, 1.3, 2, 0]),
        ("Wt", [MISSING, W7, np.diag(W7), list(W7), 2.0, None, 0.0, W7[:6]])]),
    "dec.LSFIR_unc": ((DEC, "LSFIR_unc"), (ME, "invLSFIR_unc"), [
        ("H", H2 + [np.r_[resp().real, resp().imag], list(resp()), resp()[:6]]), ("UH", U2 + [U2[1].tolist(), np.zeros((14, 14))]),
        ("N", [3, 5, 0]), ("tau", [1, 2, 0, 0.5]), ("f", F7[:3] + F7[4:]), ("Fs", [1.0, 1.3, 2]), ("wt", [MISSING, W14, None, list(W14), W14[:13], 0.0]),
        ("verbose", [False, MISSING, True, 0]), ("trunc_svd_tol", [MISSING, 0.5, 2.0, 2.3, 2, None, 0.0, 9.0])]),
    "dec.LSFIR_uncMC": ((DEC, "LSFIR_uncMC"), (ME, "invLSFIR_uncMC"), [
        ("H", H2), ("UH", U2), ("N", [3, 0]), ("tau", [1, 2, 0]), ("f", [FR]), ("Fs", [1.0, 1.3]), ("verbose", [False, MISSING])]),
    "dec.LSIIR": ((DEC, "LSIIR"), (ME, "invLSIIR"), [
        ("Hvals", H2 + [list(resp()), resp()[:6]]), ("Nb", [1, 2, 0]), ("Na", [2, 3, 0]), ("f", F7), ("Fs", [1.0, 1.3, 2]), ("tau", [2, 0, 0.5, -1]),
        ("justFit", [MISSING, True, None, 1]), ("verbose", [False, MISSING, None, 1])]),
    "dec.LSIIR_unc": ((DEC, "LSIIR_unc"), (ME, "invLSIIR_unc"), [
        ("H", [resp()]), ("UH", U2), ("Nb", [1]), ("Na", [2]), ("f", [FR]), ("Fs", [1.0]), ("tau", [MISSING, 3, 0])]),
    "idf.LSFIR": (("PyDynamic.identification.fit_filter", "LSFIR"), (ME, "LSFIR"), [
        ("H", H2 + [list(resp()), resp()[:6]]), ("N", [3, 5, 0]), ("tau", [1, 2, 0]), ("f", F7), ("Fs", [1.0, 1.3, 2]),
        ("Wt", [MISSING, W7, np.diag(W7), None, 0.0, W7[:6]])]),
    "idf.LSIIR": (("PyDynamic.identification.fit_filter", "LSIIR"), (ME, "LSIIR"), [
        ("Hvals", H2 + [list(resp()), resp()[:6]]), ("Nb", [1, 2, 0]), ("Na", [2, 3, 0]), ("f", F7), ("Fs", [1.0, 1.3]), ("tau", [MISSING, 1, 0, 0.5]),
        ("justFit", [MISSING, True, None, 1])]),
    "fit_sos": (("PyDynamic.identification.fit_transfer", "fit_sos"), (FT, "fit_som"), [
        ("f", [np.array([0.2, 0.6, 1.3, 1.7]), [0.2, 0.6, 1.3, 1.7], np.array([0.2, 0.6, 1.3])]), ("H", [som(), som(1), np.zeros(8), som()[:7]]),
        ("UH", [MISSING, UH("full", 8), np.full(8, 1e-3), None, np.full(7, 1e-3), UH("full", 8)[:, :7], UH("diag", 8).tolist()]),
        ("weighting", [MISSING, "diag", gen.arr(gen.vec("positive", 8)), "cov", "nonsense", None, np.ones(7), np.zeros(8)]),
        ("MCruns", [MISSING, 7, 7.0, None, 1, 0, np.int64(7)]), ("scaling", [MISSING, 1.0, 1e-3, 0.0, 2])]),
    "interp1d_unc": (("PyDynamic.uncertainty.interpolation", "interp1d_unc"), ("PyDynamic.uncertainty.interpolate", "interp1d_unc"), [
        ("t_new", [np.array([0.3, 1.4]), np.array([-0.5, 0.7])]), ("t", [np.array([0.0, 0.5, 1.0, 2.0])]), ("y", [gen.arr(gen.vec("generic", 4))]),
        ("uy", [gen.arr(gen.vec("positive", 4))]), ("kind", [MISSING, "previous"]), ("copy", [MISSING, False]), ("bounds_error", [MISSING, False]),
        ("fill_value", [MISSING, 3.0, 0.0, "extrapolate"]), ("fill_unc", [MISSING, 0.5, 0.0, "extrapolate"]), ("assume_sorted", [MISSING, False]),
        ("returnC", [MISSING, True])]),
    "make_equidistant": (("PyDynamic.misc.tools", "make_equidistant"), ("PyDynamic.uncertainty.interpolate", "make_equidistant"), [
        ("t", [np.array([0.0, 0.5, 1.1, 2.0]), [0.0, 0.5, 1.1, 2.0], np.array([0, 1, 2, 4])]), ("y", [gen.arr(gen.vec("generic", 4)), gen.arr(gen.vec("ramp", 4))]),
        ("uy", [gen.arr(gen.vec("positive", 4)), np.ones(3)]), ("dt", [MISSING, 0.3, 1, 5.0, 0.0]),
        ("kind", [MISSING, "nearest", "nonsense", "previous", "next", "spline"])]),
    "GUMdeconv": (("PyDynamic.uncertainty.propagate_DFT", "GUMdeconv"), ("PyDynamic.uncertainty.propagate_DFT", "DFT_deconv"), [
        ("H", [np.array([1.0, 2.0, 0.5, 0.3]), np.array([1.0, 2.0, 0.5, -0.3]), np.ones(6)]), ("Y", [np.array([0.4, 1.0, 0.3, 0.6]), np.zeros(4)]),
        ("UH", [gen.arr(gen.cov("full", 4)), gen.arr(gen.cov("diag", 4)), np.eye(6)]), ("UY", [gen.arr(gen.cov("full", 4, 1)), np.array([0.1, 0.2, 0.3, 0.4]), np.ones(3)])]),
}
# DFT_transferfunction names its parameters differently
PAIRS["DFT_transferfunction"] = (("PyDynamic.uncertainty.propagate_DFT", "DFT_transferfunction"), ("PyDynamic.uncertainty.propagate_DFT", "DFT_deconv"), [
    ("X", PAIRS["GUMdeconv"][2][0][1]), ("Y", PAIRS["GUMdeconv"][2][1][1]), ("UX", PAIRS["GUMdeconv"][2][2][1]), ("UY", PAIRS["GUMdeconv"][2][3][1])])
POSITIONAL_ONLY_NEW = {"DFT_transferfunction"}
SLOW = {"dec.LSFIR_uncMC", "dec.LSIIR_unc"}
COSTLY = {"dec.LSFIR_unc", "fit_sos"}


def outcome(f, a, k):
    out = io.StringIO()
    rng.seeded(5)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            r = ("value", calls.plain(f(*a, **k)))
    except Exception as e:
        r = ("refused", type(e).__name__, str(e))
    return r, out.getvalue(), rng.S.rs.get_state()[1].tolist()[:4]


def scn_alias(ctx):
    """every combination of a parameter value, and every split of positional and keyword arguments"""
    which = ctx.choose("alias", list(PAIRS))
    (om, on), (nm, nn), params = PAIRS[which]
    names = [p for p, _ in params]
    # at most two (three) parameters off their first value
    ctx.budget(1 if which in SLOW and not ctx.thorough else 3 if ctx.thorough and which not in SLOW | COSTLY else 2)
    vals = [ctx.choose(p, list(range(len(v))), dev=True) if len(v) > 1 else 0 for p, v in params]
    vals = [v[i] for (_, v), i in zip(params, vals)]
    used = [isinstance(v, str) and v == MISSING for v in vals]
    first_missing = used.index(True) if True in used else len(used)
    npos = ctx.choose("positional", [0, first_missing] if which in SLOW | COSTLY and not ctx.thorough else list(range(first_missing + 1)))
    ctx.go()
    old, new = (getattr(importlib.import_module(m), n) for m, n in ((om, on), (nm, nn)))

    def args(v):
        return np.copy(v) if isinstance(v, np.ndarray) else v

    got = outcome(old, [args(v) for v in vals[:npos]], {p: args(v) for p, v, m in list(zip(names, vals, used))[npos:] if not m})
    if which in POSITIONAL_ONLY_NEW:
        want = outcome(new, [args(v) for v in vals], {})
    else:
        want = outcome(new, [], {p: args(v) for p, v, m in zip(names, vals, used) if not m})
    ctx.ex.transitions += 2
    info = "%s(%s)" % (which, ", ".join("%s=%s" % (p, calls.plain(v)) for p, v, m in zip(names, vals, used) if not m))
    if want[0][0] == "refused":
        ctx.check("refusal", got[0][:2] == want[0][:2], "%s: %s instead of %s" % (info, got[0], want[0]))
        return
    ctx.check("result", got[0][0] == "value" and calls.equal(got[0][1], want[0][1]), "%s: %s instead of %s" % (info, got[0], want[0]))
    ctx.check("printed", got[1] == want[1], "%s printed %r instead of %r" % (info, got[1], want[1]))
    ctx.check("random", got[2] == want[2], "%s consumed other random numbers" % (info,))


# ---- namespaces ------------------------------------------------------------------------
HOME = {  # where the documentation puts the functions
    ME: ["LSFIR", "LSIIR", "invLSFIR", "invLSIIR", "invLSFIR_unc", "invLSFIR_uncMC", "invLSIIR_unc"],
    FT: ["fit_som"],
    DEC: ["LSFIR_unc", "LSFIR_uncMC", "LSIIR_unc"],
    "PyDynamic.identification.fit_transfer": ["fit_sos"],
    "PyDynamic.uncertainty.propagate_DFT": ["GUM_DFT", "GUM_iDFT", "DFT_deconv", "DFT_multiply", "DFT2AmpPhase", "AmpPhase2DFT", "AmpPhase2Time", "Time2AmpPhase"],
    "PyDynamic.uncertainty.propagate_filter": ["FIRuncFilter", "IIRuncFilter"],
    "PyDynamic.uncertainty.propagate_MonteCarlo": ["MC", "SMC", "UMC", "UMC_generic"],
    "PyDynamic.uncertainty.interpolate": ["interp1d_unc"],
    "PyDynamic.misc.filterstuff": ["db", "grpdelay", "mapinside", "isstable", "kaiser_lowpass", "savitzky_golay"],
    "PyDynamic.misc.impinvar": ["impinvar"],
    "PyDynamic.misc.SecondOrderSystem": ["sos_absphase", "sos_realimag", "sos_FreqResp", "sos_phys2filter"],
    "PyDynamic.misc.testsignals": ["shocklikeGaussian", "GaussianPulse", "squarepulse", "rect", "corr_noise", "sine"],
    "PyDynamic.misc.noise": ["ARMA"],
    "PyDynamic.misc.tools": ["print_vec", "print_mat", "make_semiposdef", "make_equidistant", "FreqResp2RealImag"],
}
WHERE = {n: m for m, ns in HOME.items() for n in ns}
OTHER = {("PyDynamic.deconvolution", "LSFIR"): DEC, ("PyDynamic.deconvolution", "LSIIR"): DEC}
PACKAGES = {
    "PyDynamic": sorted(WHERE),
    "PyDynamic.model_estimation": HOME[ME] + HOME[FT],
    "PyDynamic.deconvolution": ["LSFIR", "LSIIR", "LSFIR_unc", "LSFIR_uncMC", "LSIIR_unc"],
    "PyDynamic.identification": ["LSFIR", "LSIIR", "fit_sos"],
    "PyDynamic.uncertainty": [n for m, ns in HOME.items() if m.startswith("PyDynamic.uncertainty") for n in ns],
    "PyDynamic.misc": [n for m, ns in HOME.items() if m.startswith("PyDynamic.misc") for n in ns],
}
MODULES = sorted(set(HOME) | set(PACKAGES) | {"PyDynamic.signals", "PyDynamic.uncertainty.interpolation", "PyDynamic.uncertainty.propagate_convolution",
                                              "PyDynamic.identification.fit_filter"})
DEPRECATED = {DEC: DeprecationWarning, "PyDynamic.identification.fit_filter": DeprecationWarning,
              "PyDynamic.identification.fit_transfer": DeprecationWarning, "PyDynamic.uncertainty.interpolation": PendingDeprecationWarning}


def forget():
    for m in [m for m in sys.modules if m == "PyDynamic" or m.startswith("PyDynamic.")]:
        del sys.modules[m]


def namespaces(seq, how):
    """in a fresh process: import, then look every name up"""
    forget()
    said = []
    with warnings.catch_warnings():
        old = warnings.warn
        warnings.warn = lambda message, category=None, *a, **k: said.append(category)
        try:
            for m in seq:
                if how == "star":
                    exec("from %s import *" % m, {})
                elif how == "statement":
                    exec("import %s" % m, {})
                else:
                    importlib.import_module(m)
        finally:
            warnings.warn = old
    for m, cat in DEPRECATED.items():
        if m in sys.modules and cat not in said:
            return "no %s on import of %s, got %s" % (cat.__name__, m, said)
    for p, names in PACKAGES.items():
        mod = importlib.import_module(p)
        ns = {}
        exec("from %s import *" % p, ns)
        for n in names:
            home = OTHER.get((p, n), WHERE[n])
            want = getattr(sys.modules.get(home) or importlib.import_module(home), n)
            for how2, got in (("%s.%s" % (p, n), getattr(mod, n, None)), ("from %s import *: %s" % (p, n), ns.get(n))):
                if got is not want:
                    return "%s is %r, %s.%s is %r" % (how2, got, home, n, want)
            if not callable(want):
                return "%s.%s is not a function: %r" % (p, n, want)
        missing = [n for n in getattr(mod, "__all__", []) if not hasattr(mod, n)]
        if missing:
            return "%s.__all__ promises %s" % (p, missing)
    for m in MODULES:
        mod = importlib.import_module(m)
        missing = [n for n in getattr(mod, "__all__", []) if not hasattr(mod, n)]
        if missing:
            return "%s.__all__ promises %s" % (m, missing)
    return None


def scn_imports(ctx):
    """histories of imports"""
    how = ctx.choose("how", ["module", "star", "statement"])
    seq = [ctx.choose("import%d" % i, MODULES) for i in range(2 if ctx.thorough or how == "module" else 1)]
    ctx.go()
    ctx.ex.transitions += len(seq) + 1
    tag, msg = in_child(lambda: namespaces(seq, how))
    ctx.check("names", tag == "ok" and msg is None, "import %s: %s" % (", ".join(seq), msg))


def scn_warning(ctx):
    """the moved function says so, on every call"""
    ncalls = ctx.choose("calls", [1, 2, 3])
    how = ctx.choose("name", ["PyDynamic", "PyDynamic.misc", "PyDynamic.misc.tools"])
    ctx.go()
    f = importlib.import_module(how).make_equidistant
    for _ in range(ncalls):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            f(np.array([0.0, 1.0, 2.0]), np.arange(3.0), np.ones(3))
        ctx.ex.transitions += 1
        ctx.check("warns", any(issubclass(x.category, PendingDeprecationWarning) for x in w), "no PendingDeprecationWarning but %s" % [str(x.category) for x in w])


SCENARIOS = [("alias", scn_alias), ("imports", scn_imports), ("warning", scn_warning)]
