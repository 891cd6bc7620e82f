"""Finite alphabets for signals, coefficient vectors and covariance matrices.

Every list is ordered simplest first.  The numeric "generic" entries are pairwise different and
algebraically unrelated enough that two different polynomial formulas of the sizes used here do
not agree on them by accident; unit vectors isolate single matrix entries; constant, zero, tied,
negative, tiny and huge patterns reach the special cases a formula may take.
"""
import math

import numpy as np


def gval(i, salt=0):
    """deterministic 'generic' number in (-2, 2), never 0"""
    v = 2.0 * math.sin(1.0 + 1.7 * i + 0.91 * salt + 0.13 * i * i)
    return v if abs(v) > 1e-3 else 0.37


def vec(kind, n, salt=0):
    """1D list of length n"""
    if kind == "generic":
        return [gval(i, salt) for i in range(n)]
    if kind == "positive":
        return [abs(gval(i, salt)) + 0.1 for i in range(n)]
    if kind == "const":
        return [1.5] * n
    if kind == "zero":
        return [0.0] * n
    if kind == "ramp":
        return [float(i + 1) for i in range(n)]
    if kind == "alt":
        return [(-1.0) ** i * (1 + i // 2) for i in range(n)]
    if kind == "huge":
        return [1e6 * gval(i, salt) for i in range(n)]
    if kind == "tiny":
        return [1e-6 * gval(i, salt) for i in range(n)]
    if kind == "wide":
        return [gval(i, salt) * 10.0 ** ((i % 5) - 2) for i in range(n)]
    if kind == "neg":
        return [-abs(gval(i, salt)) - 0.1 for i in range(n)]
    if kind == "gapped":  # generic with zeros inside, first and last
        return [0.0 if i % 3 == 0 else gval(i, salt) for i in range(n)]
    if kind.startswith("unit"):
        k = int(kind[4:])
        return [1.0 if i == k % n else 0.0 for i in range(n)]
    raise ValueError(kind)


def cov(kind, n, salt=0):
    """2D symmetric positive semi-definite list of lists"""
    if kind == "zero":
        return [[0.0] * n for _ in range(n)]
    if kind == "diag":
        v = vec("positive", n, salt + 3)
        return [[v[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    if kind == "full":
        L = [[gval(3 * i + 7 * j, salt + 1) if j <= i else 0.0 for j in range(n)] for i in range(n)]
        return [
            [sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)
        ]
    if kind == "rank1":
        v = vec("generic", n, salt + 2)
        return [[v[i] * v[j] for j in range(n)] for i in range(n)]
    if kind == "ones":
        return [[0.25] * n for _ in range(n)]
    if kind == "hole":  # generic, with one certain component
        A = cov("full", n, salt)
        h = n // 2
        for i in range(n):
            A[i][h] = A[h][i] = 0.0
        return A
    if kind == "tiny":
        return [[1e-12 * v for v in r] for r in cov("full", n, salt)]
    if kind == "huge":
        return [[1e8 * v for v in r] for r in cov("full", n, salt)]
    if kind == "toep":
        r = [0.5 ** k * math.cos(0.7 * k) for k in range(n)]
        return [[r[abs(i - j)] for j in range(n)] for i in range(n)]
    if kind.startswith("unit"):
        k = int(kind[4:])
        return [[1.0 if i == j == k % n else 0.0 for j in range(n)] for i in range(n)]
    if kind.startswith("pair"):  # correlation between two neighbours only
        k = int(kind[4:]) % n
        m = (k + 1) % n
        A = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        if m != k:
            A[k][m] = A[m][k] = -0.5
        return A
    raise ValueError(kind)


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


LAYOUTS = ["C", "strided", "reversed", "fortran", "readonly"]
SCALES = [1.0, 1e-5, 1e-9, 1e5]  # factors on standard uncertainties


def lay(x, layout):
    """the same numbers in another memory layout; what surrounds them in memory is not a number to use"""
    if x is None or not isinstance(x, (list, np.ndarray)):
        return x
    a = np.array(x)
    if layout == "strided":
        big = np.full(tuple(2 * s for s in a.shape), 77, dtype=a.dtype)
        v = big[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if layout == "reversed":
        f = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[f])[f]
    if layout == "fortran":
        if a.ndim == 1:
            big = np.full((a.shape[0], 3), 77, dtype=a.dtype)
            big[:, 1] = a
            return big[:, 1]
        return np.asfortranarray(a)
    if layout == "readonly":
        a.flags.writeable = False
    return a


def scaled(U, s):
    """covariance matrix (list of lists) or variances (list), for standard uncertainties times s"""
    if U is None:
        return None
    if U and isinstance(U[0], list):
        return [[v * s * s for v in r] for r in U]
    return [v * s * s for v in U]
