"""The properties, as data.  mk.py writes properties.jsonl and MANIFEST.json from this."""

F = "PyDynamic/uncertainty/propagate_filter.py"
D = "PyDynamic/uncertainty/propagate_DFT.py"
M = "PyDynamic/uncertainty/propagate_MonteCarlo.py"
I = "PyDynamic/uncertainty/interpolate.py"
V = "PyDynamic/uncertainty/propagate_convolution.py"
T = "PyDynamic/misc/tools.py"

INP = "every input of the documented forms; decided for every combination of the enumerated sizes, argument forms and value patterns"

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)])
P = {}


def add(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P[pid] = (title, statement, over, text, why, files, mech)


add(
    "C01", "FIRuncFilter propagates signal and coefficient uncertainty exactly",
    "For every signal, filter and form of uncertainty input (white noise level, pointwise standard uncertainties with kind='diag', autocovariance with kind='corr'; certain coefficients, standard uncertainties or covariance of the coefficients; with or without a preceding certain low-pass `blow`), FIRuncFilter returns the convolution of the signal, continued to the left with its first value, with the coefficients, and the uncertainty (or the full covariance) that GUM assigns to it including the second order term trace(Ux Utheta). "
    "The diagonal of the full covariance equals the squared point-wise uncertainty, whichever internal path is taken. "
    "A requested shift rotates the signal and its (co)variance together, without changing anything else.",
    ["inputs", "configurations"], INP,
    "Tests compare a few random signals of one size; the branches (float/diag/corr, theta form, full or not, blow longer or shorter than theta, single coefficient, integer arrays) multiply to thousands of combinations that no test list enumerates.",
    [F], [("FIRuncFilter", F), ("_fir_filter", F), ("_stationary_prepend_covariance", F)])
add(
    "C02", "IIRuncFilter propagates signal noise and coefficient uncertainty exactly",
    "For every stable normalised filter, input signal, white-noise level (scalar or per sample) and covariance of the coefficients (ordered a1..ap, b0..bq), IIRuncFilter returns the filter output for zero initial state and, at every instant, the first-order (GUM) standard uncertainty of that output with respect to coefficients and input noise. "
    "Any order, any coefficients with a numerator of at most the order of the denominator, and any length of the signal are covered.",
    ["inputs", "configurations"], INP,
    "The existing tests run IIRuncFilter on one filter and look at shapes or at agreement with one Monte Carlo run; the state-space recursion is wrong or right depending on order, zero coefficients and time step.",
    [F], [("IIRuncFilter", F)])
add(
    "C03", "convolve_unc returns convolution and covariance in every boundary mode",
    "For signals of any two lengths, any (absent, diagonal, full) covariance of either one and any of the modes full, valid, same, nearest, reflect and mirror, convolve_unc returns the convolution with the boundary handling of numpy.convolve / scipy.ndimage.convolve1d and the exactly propagated covariance, including the joint second-order term and the repeated samples at mirrored boundaries. "
    "An absent covariance means certain values; unsupported modes raise.",
    ["inputs", "configurations"], INP,
    "Tests use a handful of random sizes; boundary cases (filter as long as or longer than the signal, even and odd lengths, single samples) are where modes differ.",
    [V], [("convolve_unc", V), ("_ws_jacobian and padding", V)])
add(
    "C04", "Filters are causal, linear, time-invariant systems over sample histories",
    "Run on any history of samples, FIRuncFilter and IIRuncFilter never change an output value or uncertainty that earlier samples already determined when a sample is appended; starting the history earlier with its own continuation changes nothing either. "
    "Signal outputs superpose, and for certain coefficients the uncertainty does not depend on the signal values.",
    ["histories", "inputs"], "every history of appended samples over a three-letter alphabet up to the depth bound, for every configuration of the two filters",
    "A relation between runs on different histories cannot be sampled with single calls; tests never compare two calls.",
    [F], [("FIRuncFilter", F), ("IIRuncFilter", F)])
add(
    "C05", "GUM_DFT returns the DFT and its full covariance",
    "For every signal, window, zero padding, frequency mask and form of uncertainty (variance of white noise, vector of squared uncertainties, covariance matrix), GUM_DFT returns real and imaginary parts of the one-sided DFT and the covariance C Ux C^T of exactly that vector; masking selects rows and columns of both consistently. "
    "GUM_DFTfreq gives the matching frequencies.",
    ["inputs", "configurations"], INP,
    "Existing tests use one length and one shape of uncertainty; odd/even length, padding, windows, masks and input forms select different code and indices.",
    [D], [("GUM_DFT", D), ("_apply_window", D), ("GUM_DFTfreq", D)])
add(
    "C06", "GUM_iDFT inverts GUM_DFT for values and covariances",
    "For every one-sided spectrum and covariance, GUM_iDFT returns the inverse DFT (of the requested length) and the exactly propagated, symmetric covariance; the sensitivities it can return reproduce that covariance. "
    "Applying GUM_iDFT to the result of GUM_DFT gives back signal and covariance, also after zero padding.",
    ["inputs", "configurations"], INP,
    "Round trips in tests use one signal; correlations between real and imaginary parts of different lines and truncated lengths are not exercised.",
    [D], [("GUM_iDFT", D), ("_prod", D)])
add(
    "C07", "Amplitude/phase and real/imaginary/time conversions propagate uncertainty",
    "AmpPhase2DFT, DFT2AmpPhase, AmpPhase2Time, Time2AmpPhase and Time2AmpPhase_multi return the converted values and the first-order covariance of the joint vector (amplitudes first, then phases; real parts first, then imaginary), for full, diagonal and sparse/kept-sparse representations alike. "
    "Converting there and back returns values and covariances, for phases in all quadrants and one-line as well as long spectra.",
    ["inputs", "configurations"], INP,
    "Tests use random vectors of one length; the sparse and dense branches, quadrants, axes and diagonal forms need enumeration.",
    [D], [("AmpPhase2DFT", D), ("DFT2AmpPhase", D), ("AmpPhase2Time", D), ("Time2AmpPhase", D), ("Time2AmpPhase_multi", D)])
add(
    "C08", "DFT_deconv and DFT_transferfunction divide spectra with exact covariance",
    "For every pair of spectra with non-zero divisor and every combination of uncertainty inputs (covariance matrix or vector of squared uncertainties), DFT_deconv(H, Y, UH, UY) returns Y/H and the first-order covariance of its real and imaginary parts with contributions of both inputs; DFT_transferfunction(X, Y, UX, UY) is the same quotient Y/X. "
    "Multiplying the result by a certain H recovers Y and its covariance.",
    ["inputs", "configurations"], INP,
    "Tests only compare against Monte Carlo of one system, with tolerances that hide single wrong sensitivity entries.",
    [D], [("DFT_deconv", D), ("DFT_transferfunction", D)])
add(
    "C09", "DFT_multiply multiplies spectra with exact covariance",
    "For every pair of spectra, DFT_multiply returns the complex product line by line and the first-order covariance with contributions of both factors, as a full covariance whatever the form of the inputs; it does not matter which uncertain factor is named first. "
    "Without uncertainty of the second factor it is treated as certain.",
    ["inputs", "configurations"], INP,
    "Tests run one product and check shapes.",
    [D], [("DFT_multiply", D)])
add(
    "C10", "interp1d_unc interpolates values and uncertainties consistently",
    "For every set of distinct nodes (sorted or not), every request inside the range and each kind (linear, previous, next, nearest), interp1d_unc returns the interpolated value and the uncertainty the GUM gives for the weights that were applied, together with those weights if asked for. "
    "Requests outside the range raise, extrapolate or are filled on each side exactly as fill_value, fill_unc and bounds_error say, and requests are independent of each other and of their order.",
    ["inputs", "configurations", "histories"], "every ordered selection of up to three requests from an exhaustive set of positions relative to the nodes, every combination of the fill and bounds arguments",
    "Hypothesis tests sample; the combinations of fill forms, both sides, unsorted nodes and requests on nodes are not covered systematically, and results for request tuples are never compared with those for single requests.",
    [I], [("interp1d_unc", I)])
add(
    "C11", "make_equidistant resamples onto a complete equidistant grid",
    "For every series of ascending timestamps, step and kind, make_equidistant returns timestamps that start at the first one, are spaced by the step, never leave the original range and cover it (the next one would lie outside), with the interpolated values and uncertainties at exactly these instants. "
    "The deprecated entry point in misc.tools does the same.",
    ["inputs"], INP,
    "Existing tests check sampled series for shapes and step; floating point steps that do or do not divide the range decide about the last point.",
    [I, T], [("make_equidistant", I)])
add(
    "C12", "MC: Monte Carlo for filters has exactly the distribution that was asked for",
    "Over all answers of the random number generator, the output samples of MC are the filter outputs for coefficients with mean and covariance Uab and input signals with mean x and the noise stated by Ux (scalar, vector, covariance - singular ones included), optionally low-pass filtered; draws that are unstable are left out. "
    "Mean and covariance that are returned are the unbiased statistics of exactly the stable draws, shifted as requested, and the same whether samples are kept or not.",
    ["inputs", "configurations"], "every answer sequence of the random number generator (two-point law with the right first two moments), for every enumerated configuration",
    "A test sees one random stream and cannot tell a slightly wrong distribution from scatter; enumerating every answer makes expectations exact.",
    [M], [("MC", M), ("Normal_ZeroCorr", M)])
add(
    "C13", "SMC: sequential Monte Carlo equals filtering every run separately",
    "Over all answers of the random number generator, each run of SMC is the recursion of one drawn filter over the signal plus its own white, AR, MA or ARMA noise, followed by the low-pass filter, independent of the other runs, for numerator and denominator of any lengths; unstable draws are replaced by the estimate. "
    "Mean, standard uncertainty and quantiles that are returned are those of the runs at each instant, and the samples come back when asked for.",
    ["inputs", "configurations", "histories"], "every answer sequence of the generator and every time step, for every enumerated configuration",
    "The sequential state update mixes buffers of signal, noise and low-pass over time; tests look at one random run with loose tolerance (and the pinned code did not even run for some configurations).",
    [M], [("SMC", M), ("ARMA noise and low-pass buffers", M)])
add(
    "C14", "UMC: update Monte Carlo for filters has exactly the requested distribution",
    "Over all answers of the random number generator, the runs of UMC are low-pass filtered outputs of filters drawn with the stated coefficients' covariance for the signal plus white noise of the stated level. "
    "The returned estimate and covariance are unbiased for that law, credible intervals belong to the returned histograms, and number of bins, blocks and the normalisation of the low-pass coefficients do not change the law.",
    ["inputs", "configurations"], "every answer sequence of the generator for every enumerated configuration; every sequence of outcomes for the interval",
    "Tests run one stream and check shapes.",
    [M], [("UMC", M), ("UMC_generic", M)])
add(
    "C15", "UMC_generic: statistics of exactly the requested runs for every block size",
    "For every stream of samples, number of runs, block size and shape, UMC_generic evaluates every run exactly once and its estimate, covariance and histograms are those of all requested runs - the same as evaluating all in one block - with every result counted in exactly one bin per output. "
    "Returned samples are the ones the statistics were computed from, paired with their own results.",
    ["histories", "inputs", "configurations"], "every sequence of results over four levels up to the bound on runs, and every partition into blocks",
    "Update formulae are exact or wrong depending on the sequence of block sizes and on the order of extreme values; tests use one divisor of the number of runs.",
    [M], [("UMC_generic", M), ("_UMCevaluate", M)])
add(
    "C16", "UMC_generic: parallel evaluation does not change the result in any schedule",
    "Whatever the assignment of tasks to worker processes and the order of their completion, UMC_generic pairs every sample with its own result, and gives the statistics of sequential evaluation. "
    "Random numbers drawn inside the evaluation differ between runs and between workers, and no worker process is left behind.",
    ["schedules"], "every assignment of tasks to simulated workers and every completion order up to the deviation bound; conformance on real processes with forced out-of-order completion",
    "A test run sees one schedule of the operating system - nearly always the in-order one.",
    [M], [("UMC_generic pool.imap_unordered / imap and re-seeding", M)])
add(
    "C17", "Noise models follow their documented recursions, spectra and covariances",
    "ARMA(length, phi, theta, std) satisfies e[n] = sum_j phi_j e[n-j] + sum_j theta_j w[n-j] + w[n] for the white noise w it draws, for coefficients of any length; power_law_noise keeps mean and standard deviation and scales the spectrum of the given white noise by |f|^(alpha/2), named colours being their exponents. "
    "power_law_acf starts with the variance, scales with it, and always gives a valid autocovariance; white_gaussian draws what it is told.",
    ["inputs", "histories"], "every answer sequence of the generator up to the length bound; every enumerated configuration",
    "Tests look at lengths or at one random stream.",
    ["PyDynamic/misc/noise.py"], [("ARMA", "PyDynamic/misc/noise.py"), ("power_law_noise", "PyDynamic/misc/noise.py"), ("power_law_acf", "PyDynamic/misc/noise.py")])
add(
    "C18", "make_semiposdef shifts by the smallest diagonal that is needed",
    "For every real square matrix, dense or sparse, make_semiposdef returns the symmetrised matrix plus a multiple of the identity, is positive semi-definite up to rounding, and the shift does not exceed what the smallest eigenvalue and the tolerance require; matrices that already qualify come back unshifted. "
    "The bound on iterations is honoured, and matrices that are not square raise.",
    ["inputs", "configurations"], "every matrix of order 1 and 2 and every symmetric one of order 3 over the alphabet, structured ones above",
    "Tests try two or three matrices.",
    [T], [("make_semiposdef", T), ("_smallest_eigenvalue", T)])
add(
    "C25", "Filter helpers do what their names say",
    "isstable tells stable from unstable filters, digital and analog, for every pole configuration; mapinside moves roots into the unit circle without changing the shape of the magnitude response; grpdelay is the negative derivative of the phase at the frequencies it returns, whatever the size of the coefficients; kaiser_lowpass returns a symmetric unit-gain low-pass and its delay in samples; savitzky_golay reproduces polynomials and their derivatives; db and ua are the level in decibel and the unwrapped phase of the values.",
    ["inputs"], "every multiset of up to three (thorough: four) poles over the alphabet and every enumerated configuration of the others",
    "Tests try single filters; conditions such as pole order, position and even/odd lengths need enumeration.",
    ["PyDynamic/misc/filterstuff.py"], [(n, "PyDynamic/misc/filterstuff.py") for n in ("isstable", "mapinside", "grpdelay", "kaiser_lowpass", "savitzky_golay", "db", "ua")])
add(
    "C26", "Vector helpers keep values, uncertainties and order together",
    "trimOrPad returns exactly the requested number of entries (leading ones kept, the rest padded as told); shift_uncertainty rotates signal and uncertainty (scalar, vector, matrix) together; printing shows every value to the requested precision. "
    "FreqResp2RealImag returns mean and covariance of the real and imaginary parts of the sampled amplitudes and phases.",
    ["inputs", "configurations"], "every enumerated size, shift, form; every answer sequence of the generator for the Monte Carlo conversion",
    "Property tests sample sizes; Monte Carlo conversion is only tested for exceptions.",
    [T], [("trimOrPad", T), ("shift_uncertainty", T), ("FreqResp2RealImag", T), ("print_vec / print_mat / progress_bar", T)])
FF = "PyDynamic/model_estimation/fit_filter.py"
FT = "PyDynamic/model_estimation/fit_transfer.py"
SO = "PyDynamic/misc/SecondOrderSystem.py"
II = "PyDynamic/misc/impinvar.py"
TS = "PyDynamic/misc/testsignals.py"
SG = "PyDynamic/signals.py"
add(
    "C19", "FIR filter fits are the weighted least-squares optimum, with its uncertainty",
    "LSFIR and invLSFIR return the real coefficients that minimise the (weighted) squared deviation, over real and imaginary parts, between the filter's frequency response with the given delay and the given frequency response or its reciprocal; the response of a filter gives back that filter. "
    "invLSFIR_unc and invLSFIR_uncMC return that optimum and the covariance that follows from the covariance UH of real and imaginary parts, with weights and truncation of small singular values as requested; inputs of inconsistent length are refused.",
    ["inputs", "configurations"], INP,
    "Tests fit one measured response and look at shapes or one design; sign of the delay, weight vectors and matrices, order and correlation between real and imaginary parts each need their own case.",
    [FF], [(n, FF) for n in ("LSFIR", "invLSFIR", "invLSFIR_unc", "invLSFIR_uncMC")])
add(
    "C20", "IIR filter fits return the optimum for the delay they report, stable or warned",
    "LSIIR and invLSIIR return a normalised filter that is the equation-error least-squares optimum for the delay they return, whether or not they had to stabilise; without stabilisation, or if the fit is stable already, the delay is the given one. The filter is stable unless a warning is printed, and the response of a stable filter gives back this filter. "
    "invLSIIR_unc returns mean and covariance of [a1.., b0..] over the stated uncertainty of the frequency response.",
    ["inputs", "configurations"], INP,
    "Tests check one response; the stabilisation loop takes a different number of rounds for every target and only some targets show a wrong delay or an unstable result.",
    [FF], [(n, FF) for n in ("_fitIIR", "LSIIR", "invLSIIR", "invLSIIR_unc")])
add(
    "C21", "fit_som recovers second-order systems and propagates uncertainty to first order",
    "For the exact frequency response of any second-order system fit_som returns its static gain, damping and resonance frequency, independent of scaling and weights; for other responses the weighted least-squares optimum of the reciprocal. "
    "With an uncertainty (standard uncertainties or covariance of real and imaginary parts) it returns the first-order covariance of the three parameters, by matrix or Monte Carlo propagation, for every way of weighting.",
    ["inputs", "configurations"], INP,
    "Tests fit one system; each parameter's sensitivity enters with its own sign and scaling, and errors only show for other gains, dampings, weights.",
    [FT], [("fit_som", FT)])
add(
    "C22", "Second-order systems: response, filter coefficients and their uncertainty",
    "sos_FreqResp is S0/(w0^2+2 j d w0 w-w^2) times w0^2, with w0 = 2 pi f0, at every frequency and for vectors of parameters; sos_phys2filter gives numerator and denominator of the same transfer function. "
    "sos_realimag and sos_absphase return mean and covariance of real and imaginary part, or of modulus and phase, over independent normal draws of the three parameters with the stated uncertainties, in the order of the frequencies.",
    ["inputs", "configurations"], "every enumerated parameter combination; every answer sequence of the generator for small numbers of draws",
    "Tests sample parameters and check shapes of the Monte Carlo results.",
    [SO], [(n, SO) for n in ("sos_FreqResp", "sos_phys2filter", "sos_realimag", "sos_absphase")])
add(
    "C23", "impinvar preserves the impulse response of the analogue system",
    "The digital filter returned by impinvar has exactly the sampled impulse response of the analogue system, scaled by the sampling interval - for simple, multiple, complex, unstable and marginal poles, numerators of every lower degree, any scaling of numerator and denominator, poles being equal or separated by more than the tolerance for equal poles (the accuracy of multiple poles is that of a partial fraction expansion); impinvar_causal differs from it in the sample at time zero alone, which it sets to zero. "
    "Systems with direct feedthrough are refused.",
    ["inputs", "configurations"], "every set of modes from the alphabet up to the bound, numerators of every degree, several sampling frequencies; the impulse response is compared sample by sample",
    "Tests transform two or three systems and compare coefficients with Matlab.",
    [II], [("impinvar", II), ("impinvar_causal", II)])
add(
    "C24", "Test signals have the documented shape, and their noise the documented law",
    "shocklikeGaussian, GaussianPulse, rect, squarepulse, sine and multi_sine return the documented values at every given instant (any number, order, dtype of instants), plus independent normal noise of exactly the stated standard deviation. "
    "corr_noise generates noise with the covariance it reports, of the stated standard deviation, reproducible for equal seeds, without touching the global generator; its derived quantities are those of the generated noise.",
    ["inputs", "histories", "configurations"], "every enumerated time axis and parameter; every answer sequence (or basis of answers) of the generator; every history of seeding and generating up to the bound",
    "Tests look at amplitude or mean of one random signal.",
    [TS], [(n, TS) for n in ("shocklikeGaussian", "GaussianPulse", "rect", "squarepulse", "sine", "multi_sine", "corr_noise")])
add(
    "C27", "Signal objects keep time, values and uncertainty together over histories",
    "After every sequence of filter applications (FIR or IIR, certain or uncertain, linear or Monte Carlo), plots and relabelling, a Signal holds the values and the uncertainty that the functions of PyDynamic.uncertainty assign to that chain for its data, uncertainty given as number, vector or covariance; time axis, sampling interval and frequency stay consistent with each other, and plotting or labelling changes no data. "
    "Any consistent combination of time, sampling interval and frequency constructs the same object; inconsistent lengths are refused.",
    ["histories", "configurations"], "every sequence of operations up to the depth bound for every construction",
    "There is a single test for Signal objects; state after several operations, and the combinations of uncertainty form and filter, are not tested.",
    [SG], [("Signal.__init__", SG), ("Signal.apply_filter", SG), ("Signal.plot / set_labels", SG)])
ALL = ["PyDynamic/uncertainty", "PyDynamic/model_estimation", "PyDynamic/misc", "PyDynamic/signals.py"]
add(
    "C28", "Functions are pure: results do not depend on earlier calls or change arguments",
    "Whatever calls of PyDynamic came before in the same process, a call returns what it returns as the first call of a fresh process (given the same random numbers). "
    "No call changes its arguments, the numpy error or print settings, warning filters or the working directory, and none seeds the global random number generator; deterministic functions draw no random numbers, random ones give other results for other random numbers. Results handed out earlier are not changed by later calls.",
    ["histories"], "every ordered pair of calls from a catalogue of all public functions, every sequence of three (quick: two) calls of one function with similar arguments, triples within families of functions, each in a fresh process",
    "Tests call functions in one fixed order, each result thrown away before the next call; aliasing, caches keyed by too little, or in-place changes show only in particular histories.",
    ALL, [("all public functions", "PyDynamic")])
add(
    "C29", "Deprecated and re-exported names behave exactly as the functions they stand for",
    "The deprecated functions (deconvolution.LSFIR, LSFIR_unc, LSFIR_uncMC, LSIIR, LSIIR_unc; identification.LSFIR, LSIIR, fit_sos; uncertainty.interpolation.interp1d_unc; misc.make_equidistant; GUMdeconv, DFT_transferfunction) return, print and refuse exactly what their replacements do for every argument, passed by position or by keyword, given or left at its default. "
    "Every name that PyDynamic and its subpackages export is the documented function, in whatever order modules are imported, and the deprecated modules announce themselves.",
    ["inputs", "histories", "configurations"], "every combination of up to two (three) arguments off their base value and every split into positional and keyword arguments; every history of up to two imports",
    "Tests import everything in one order and call the aliases rarely; a forgotten or swapped argument shows only when it is not at its default.",
    ["PyDynamic/__init__.py", "PyDynamic/deconvolution/fit_filter.py", "PyDynamic/identification/fit_filter.py", "PyDynamic/identification/fit_transfer.py",
     "PyDynamic/uncertainty/interpolation.py", T, D],
    [("aliases", "PyDynamic/deconvolution, PyDynamic/identification, PyDynamic/uncertainty/interpolation.py, PyDynamic/misc/tools.py"), ("__all__", "PyDynamic/**/__init__.py")])
add(
    "C30", "Every returned covariance is one: real, symmetric, positive semi-definite",
    "For every valid covariance (full, diagonal, rank deficient, with zero rows, zero) of the inputs, every covariance matrix returned by a function of PyDynamic is a real, square, finite, symmetric, positive semi-definite matrix up to rounding, without negative variances.",
    ["inputs"], "every function of the catalogue that returns a covariance, every enumerated size, kind of input covariance and pattern of values",
    "Tests use well-conditioned random covariances; indefinite results need correlation or rank deficiency of a certain kind.",
    ALL, [("all public functions returning a covariance", "PyDynamic")])
