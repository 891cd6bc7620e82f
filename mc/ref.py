"""Reference models: plain Python, lists and loops, written from the documented mathematics."""
import cmath
import math


def zeros(n, m=None):
    return [0.0] * n if m is None else [[0.0] * m for _ in range(n)]


def eye(n, s=1.0):
    return [[s if i == j else 0.0 for j in range(n)] for i in range(n)]


def diag(v):
    n = len(v)
    return [[v[i] if i == j else 0.0 for j in range(n)] for i in range(n)]


def diagonal(A):
    return [A[i][i] for i in range(len(A))]


def T(A):
    return [list(r) for r in zip(*A)]


def mm(A, B):
    Bt = list(zip(*B))
    return [[sum(a * b for a, b in zip(r, c)) for c in Bt] for r in A]


def mv(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def madd(*Ms):
    return [[sum(v) for v in zip(*rows)] for rows in zip(*Ms)]


def scal(s, A):
    return [[s * v for v in r] for r in A]


def quad(J, U):
    """J U J^T"""
    return mm(mm(J, U), T(J))


def outer(a, b):
    return [[x * y for y in b] for x in a]


def block(A, B, C, D):
    return [ra + rb for ra, rb in zip(A, B)] + [rc + rd for rc, rd in zip(C, D)]


def toeplitz(c, n):
    return [[c[abs(i - j)] if abs(i - j) < len(c) else 0.0 for j in range(n)] for i in range(n)]


def lfilter(b, a, x):
    """direct form difference equation with zero past; a[0] may be != 1"""
    y = []
    for n in range(len(x)):
        s = 0.0
        for k, bk in enumerate(b):
            if n - k >= 0:
                s += bk * x[n - k]
        for k in range(1, len(a)):
            if n - k >= 0:
                s -= a[k] * y[n - k]
        y.append(s / a[0])
    return y


def roots(c):
    """Durand-Kerner for small polynomials c[0] z^n + ... (leading zeros removed)"""
    c = [complex(v) for v in c]
    while c and c[0] == 0:
        c = c[1:]
    tail = 0
    while c and c[-1] == 0:
        c = c[:-1]
        tail += 1
    n = len(c) - 1
    if n < 1:
        return [0j] * tail
    c = [v / c[0] for v in c]
    r = 1 + max(abs(v) for v in c)
    z = [r * 0.7 * cmath.exp(2j * math.pi * k / n + 0.4j) for k in range(n)]
    for _ in range(500):
        d = 0.0
        for i in range(n):
            p = 1 + 0j
            for v in c[1:]:
                p = p * z[i] + v
            q = 1 + 0j
            for j in range(n):
                if j != i:
                    q *= z[i] - z[j]
            if q == 0:
                q = 1e-30
            s = p / q
            z[i] -= s
            d = max(d, abs(s))
        if d < 1e-15 * r:
            break
    return z + [0j] * tail


def rdft(x, N=None):
    """real and imaginary parts of the DFT at the non-negative frequencies"""
    n = len(x) if N is None else N
    x = list(x) + [0.0] * (n - len(x))
    re, im = [], []
    for k in range(n // 2 + 1):
        re.append(sum(x[t] * math.cos(2 * math.pi * k * t / n) for t in range(n)))
        im.append(-sum(x[t] * math.sin(2 * math.pi * k * t / n) for t in range(n)))
    return re + im


def rdft_jac(M, N):
    """rows: re_0..re_K, im_0..im_K; columns: the M samples (zero padded to N)"""
    K = N // 2 + 1
    C = [[math.cos(2 * math.pi * k * t / N) for t in range(M)] for k in range(K)]
    S = [[-math.sin(2 * math.pi * k * t / N) for t in range(M)] for k in range(K)]
    return C + S


def irdft_jac(N, Nx):
    """x[n] as linear map of (re_0..re_{N/2}, im_0..im_{N/2}), N even (numpy irfft convention)"""
    K = N // 2 + 1
    rows = []
    for n in range(Nx):
        r, i = [], []
        for k in range(K):
            w = 1.0 if k == 0 or k == N // 2 else 2.0
            r.append(w * math.cos(2 * math.pi * k * n / N) / N)
            i.append(0.0 if k == 0 or k == N // 2 else -w * math.sin(2 * math.pi * k * n / N) / N)
        rows.append(r + i)
    return rows


def cho_solve_ls(A, b):
    """least squares via normal equations + Gaussian elimination with pivoting"""
    At = T(A)
    M = mm(At, A)
    v = mv(At, b)
    return solve(M, v)


def solve(M, v):
    n = len(M)
    A = [list(M[i]) + [v[i]] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c] / d
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [A[i][n] / A[i][i] for i in range(n)]


def mean(rows):
    n = len(rows)
    return [sum(c) / n for c in zip(*rows)]


def cov(rows, ddof=1):
    n = len(rows)
    m = mean(rows)
    d = len(m)
    return [
        [sum((r[i] - m[i]) * (r[j] - m[j]) for r in rows) / (n - ddof) for j in range(d)]
        for i in range(d)
    ]


def jacobi_eigvals(A, sweeps=60):
    """eigenvalues of a symmetric matrix by cyclic Jacobi rotations"""
    n = len(A)
    a = [list(r) for r in A]
    for _ in range(sweeps):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        tot = sum(a[i][i] ** 2 for i in range(n)) + off
        if off <= 1e-30 * tot or tot == 0:
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                if a[p][q] == 0:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
    return sorted(a[i][i] for i in range(n))
