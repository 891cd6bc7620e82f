"""make_semiposdef."""
import itertools
import math

import numpy as np
import scipy.sparse as sp

from mc import gen, ref
from PyDynamic.misc.tools import make_semiposdef

TITLE = "make_semiposdef: minimal diagonal shift to a positive semi-definite matrix"
ASSUMPTIONS = ["matrices up to 4x4 over a small integer alphabet, structured matrices up to 16x16"]


def verify(ctx, M, R, tol, scale, maxiter=10, shift_known=True):
    n = len(M)
    S = [[0.5 * (M[i][j] + M[j][i]) for j in range(n)] for i in range(n)]
    R = R.tolist() if not hasattr(R, "toarray") else R.toarray().tolist()
    ctx.check("shape", len(R) == n and all(len(r) == n for r in R), "shape")
    for i in range(n):
        for j in range(n):
            ctx.check("symmetric", R[i][j] == R[j][i], "entry %d,%d" % (i, j))
    c = R[0][0] - S[0][0]
    ctx.close("only-the-diagonal-is-shifted", R, [[S[i][j] + (c if i == j else 0.0) for j in range(n)] for i in range(n)], scale=scale)
    e = ref.jacobi_eigvals(S)[0]
    noise = 1e-13 * n * scale
    if maxiter:
        ctx.check("psd", ref.jacobi_eigvals(R)[0] >= -1e-10 * scale, "smallest eigenvalue %r" % ref.jacobi_eigvals(R)[0])
    lim = (max(0.0, -e) + 100 * tol) * (1 + 1e-9) + 50 * noise
    ctx.check("minimal", -noise <= c <= lim, "shift %r for smallest eigenvalue %r (at most %r)" % (c, e, lim))
    if e > 10 * tol + 10 * noise:
        ctx.same("unchanged", R, S)


def scn_small(ctx):
    """every 1x1, 2x2 matrix over the alphabet, every symmetric 3x3 matrix"""
    n = ctx.choose("n", [1, 2, 3])
    sym = ctx.choose("symmetric", [True, False])
    sparse = ctx.choose("sparse", [None, "csr", "csc"])
    alpha = [0, 1, -1, 2.5] if n < 3 else [0, 1, -2]
    if n == 3 and not sym or n == 1 and not sym:
        ctx.prune()
    cells = [(i, j) for i in range(n) for j in range(n) if (j <= i or not sym)]
    M = ref.zeros(n, n)
    for i, j in cells:
        v = ctx.choose("m%d%d" % (i, j), alpha)
        M[i][j] = float(v)
        if sym:
            M[j][i] = float(v)
    ctx.go()
    A = np.array(M)
    A0 = A.copy()
    X = A if sparse is None else (sp.csr_matrix(A) if sparse == "csr" else sp.csc_matrix(A))
    R = ctx.call(make_semiposdef, X)
    if sparse is None:
        ctx.same("input-untouched", A, A0)
        ctx.check("type", isinstance(R, np.ndarray), "type")
    else:
        ctx.same("input-untouched", X.toarray(), A0)
        ctx.check("sparse-stays-sparse", sp.issparse(R), "type %s" % type(R))
    verify(ctx, M, R, 1e-12, max(1.0, max(abs(v) for r in M for v in r)))


def structured(kind, n, scale, neg):
    if kind == "cov":
        M = gen.cov("full", n, 1)
    elif kind == "rank1":
        M = gen.cov("rank1", n, 1)
    elif kind == "toep":
        M = gen.cov("toep", n, 1)
    elif kind == "ones":
        M = gen.cov("ones", n)
    elif kind == "asym":
        M = [[gen.gval(3 * i + 5 * j) for j in range(n)] for i in range(n)]
    else:
        M = ref.diag([(-1.0) ** i * (1 + 0.3 * i) for i in range(n)])
    return [[scale * (v - (neg if i == j else 0.0)) for j, v in enumerate(r)] for i, r in enumerate(M)]


def scn_structured(ctx):
    kind = ctx.choose("kind", ["cov", "rank1", "toep", "ones", "asym", "diag"])
    n = ctx.pick("n", [2, 4, 7, 8, 9, 12], [16, 30])
    scale = ctx.choose("scale", [1.0, 1e-6, 1e6, 1e10])
    neg = ctx.choose("shift", [0.0, 0.5, -0.5, 1e-9])
    form = ctx.choose("form", ["dense", "csr", "csc"])
    if form != "dense" and (scale != 1.0 or neg == 1e-9 or n > 12):
        ctx.prune()
    if form != "dense" and n > 8 and kind in ("rank1", "ones", "toep"):
        ctx.prune()  # clustered spectra: convergence of the iterative solver is not claimed
    ctx.go()
    M = structured(kind, n, scale, neg)
    A = np.array(M)
    R = ctx.call(make_semiposdef, A if form == "dense" else (sp.csr_matrix(A) if form == "csr" else sp.csc_matrix(A)))
    verify(ctx, M, R, 1e-12, max(abs(v) for r in M for v in r) * (1 if form == "dense" else 10) + (0 if scale != 1e-6 else 1e-6))


def scn_maxiter(ctx):
    """number of iterations and tolerance are honoured, the call always ends"""
    kind = ctx.choose("kind", ["cov", "rank1", "diag", "asym"])
    n = ctx.choose("n", [2, 5, 9])
    maxiter = ctx.choose("maxiter", [0, 1, 2, 10, 50])
    tol = ctx.choose("tol", [1e-12, 1e-6, 1e-2, 0.0])
    scale = ctx.choose("scale", [1.0, 1e3, 1e12])
    verbose = ctx.choose("verbose", [False, True])
    ctx.go()
    M = structured(kind, n, scale, 0.25)
    R = ctx.call(make_semiposdef, np.array(M), maxiter=maxiter, tol=tol, verbose=verbose)
    e = ref.jacobi_eigvals([[0.5 * (M[i][j] + M[j][i]) for j in range(n)] for i in range(n)])[0]
    big = max(abs(v) for r in M for v in r)
    noise = 1e-12 * n * big
    Rl = R.tolist()
    c = Rl[0][0] - M[0][0]
    if maxiter == 0:
        ctx.close("no-iteration", c, 0.0, scale=big)
        verify(ctx, M, R, tol, big, maxiter=0)
        return
    if maxiter == 1:
        want = abs(e) + tol if e < tol else 0.0
        ctx.close("one-iteration", c, want, atol=noise)
    verify(ctx, M, R, tol, big)
    if e > 0 and tol == 1e-2:
        pass
    if maxiter >= 2 and tol > 10 * noise and e < tol:
        ctx.check("tolerance", ref.jacobi_eigvals(Rl)[0] >= tol * (1 - 1e-6) - noise, "smallest eigenvalue %r below %r" % (ref.jacobi_eigvals(Rl)[0], tol))


def scn_idempotent(ctx):
    kind = ctx.choose("kind", ["cov", "asym", "diag"])
    n = ctx.choose("n", [1, 3, 6])
    ctx.go()
    R = ctx.call(make_semiposdef, np.array(structured(kind, n, 1.0, 0.5)), tol=1e-6)
    R2 = ctx.call(make_semiposdef, R)
    ctx.close("fixed-point", R2, R.tolist(), scale=1.0)


def scn_errors(ctx):
    shape = ctx.choose("shape", [(1, 2), (3, 2), (2, 5)])
    sparse = ctx.choose("sparse", [False, True])
    A = np.ones(shape)
    ctx.raises(ValueError, make_semiposdef, sp.csr_matrix(A) if sparse else A)


def scn_large(ctx):
    """larger matrices, integer entries, other memory layouts, far smaller and far larger values"""
    kind = ctx.choose("kind", ["cov", "rank1", "toep", "asym", "diag", "int"])
    n = ctx.pick("n", [3, 16, 17, 33], [50, 65])
    scale = ctx.choose("scale", [1.0, 1e-4, 1e3, 1e14])
    neg = ctx.choose("shift", [0.5, 0.0, -0.5])
    lay = ctx.choose("layout", gen.LAYOUTS)
    ctx.go()
    if kind == "int":
        M = [[int(3 * gen.gval(3 * i + 5 * j, 2)) for j in range(n)] for i in range(n)]
    else:
        M = structured(kind, n, scale, neg)
    if kind == "int" and (scale != 1.0 or neg != 0.5):
        ctx.prune()
    A = gen.lay(M, lay)
    A0 = A.copy()
    R = ctx.call(make_semiposdef, A)
    ctx.same("input-untouched", A, A0)
    verify(ctx, [[float(v) for v in r] for r in M], R, 1e-12, max(1e-4, max(abs(v) for r in M for v in r)))


def scn_tiny(ctx):
    """elements far below one: symmetry and definiteness are relative to them"""
    kind = ctx.choose("kind", ["cov", "asym", "upper", "diag"])
    n = ctx.pick("n", [2, 3, 6], [12])
    scale = ctx.choose("scale", [1e-8, 1e-10, 1e-13])
    neg = ctx.choose("shift", [0.5, 0.0])
    form = ctx.choose("form", ["dense", "csr", "csc"])
    ctx.go()
    if kind == "upper":
        M = [[scale * (2.0 - neg if i == j else 1.0 if j > i else 0.0) for j in range(n)] for i in range(n)]
    else:
        M = structured(kind, n, scale, neg)
    A = np.array(M)
    tol = 1e-6 * scale
    R = ctx.call(make_semiposdef, A if form == "dense" else (sp.csr_matrix(A) if form == "csr" else sp.csc_matrix(A)), tol=tol)
    verify(ctx, M, R, tol, max(abs(v) for r in M for v in r) * (1 if form == "dense" else 10))


SCENARIOS = [
    ("small", scn_small),
    ("structured", scn_structured),
    ("maxiter", scn_maxiter),
    ("idempotent", scn_idempotent),
    ("errors", scn_errors),
    ("large", scn_large),
    ("tiny", scn_tiny),
]
