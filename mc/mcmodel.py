"""Exact first and second moments of Monte Carlo propagation through uncertain filters."""
import itertools

from mc import gen, ref, rng


def impulse(b, a, n):
    return ref.lfilter(b, a, [1.0] + [0.0] * (n - 1))


def conv_matrix(h, n):
    return [[h[i - j] if i >= j else 0.0 for j in range(n)] for i in range(n)]


def full_cov(Ux, n):
    """float / vector of standard uncertainties / covariance matrix -> covariance matrix"""
    if isinstance(Ux, float):
        return ref.eye(n, Ux * Ux)
    if not isinstance(Ux[0], list):
        return ref.diag([v * v for v in Ux])
    return Ux


def fir_moments(x, Ux, b, Ub, blow, alow):
    """uncertain FIR coefficients, optional certain low pass, zero initial state"""
    n, nb = len(x), len(b)
    L = conv_matrix(impulse(blow, alow, n), n) if blow is not None else ref.eye(n)
    xl = ref.mv(L, x)
    Ul = ref.quad(L, Ux)
    B = conv_matrix((list(b) + [0.0] * n)[:n], n)
    y = ref.mv(B, xl)
    U = ref.quad(B, Ul)
    for i in range(n):
        for j in range(n):
            s = 0.0
            for k in range(min(nb, i + 1)):
                for m in range(min(nb, j + 1)):
                    s += Ub[k][m] * (xl[i - k] * xl[j - m] + Ul[i - k][j - m])
            U[i][j] += s
    return y, U


def iir_moments(x, Ux, b, a, blow, alow):
    """certain coefficients"""
    n = len(x)
    L = conv_matrix(impulse(blow, alow, n), n) if blow is not None else ref.eye(n)
    H = conv_matrix(impulse(b, a, n), n)
    M = ref.mm(H, L)
    return ref.mv(M, x), ref.quad(M, Ux)


def outcomes(x, ux, b, a, uab, blow, alow, unstable=None):
    """all outputs for independent two-point deviations of every uncertain quantity"""
    th = list(a[1:]) + list(b)
    out = []
    for s in itertools.product((1.0, -1.0), repeat=len(x) + len(th)):
        xs = [v + u * q for v, u, q in zip(x, ux, s)]
        t = [v + u * q for v, u, q in zip(th, uab, s[len(x):])]
        aa, bb = [1.0] + t[: len(a) - 1], t[len(a) - 1:]
        if unstable is not None and max([abs(z) for z in ref.roots(aa)] + [0.0]) >= 1.0:
            out.append(unstable)
            continue
        if blow is not None:
            xs = ref.lfilter(blow, alow, xs)
        out.append(ref.lfilter(bb, aa, xs))
    return out


def multiset_equal(ctx, tag, got, want, scale):
    """equal as multisets, up to rounding"""
    def key(r):
        return tuple(round(v / (scale * 1e-6)) for v in r)

    g, w = sorted(got, key=key), sorted(want, key=key)
    # multiplicities of the reference may be smaller by a common factor
    ctx.check(tag, len(g) % len(w) == 0, "%d outcomes instead of %d" % (len(g), len(w)))
    f = len(g) // len(w)
    w = [r for r in w for _ in range(f)]
    ctx.close(tag, g, w, scale=scale, rtol=1e-7)


def affine(ctx, run, runs, n, y, U, s=1.0):
    """results are affine in the random numbers: every run has the exact law, and no number reaches two runs"""
    base, cols = rng.linear_map(run)
    for r in range(runs):
        ctx.close("mean", base[r * n:(r + 1) * n], y, scale=1e-3)
    acc = [ref.zeros(n, n) for _ in range(runs)]
    for c in cols:
        hit = [r for r in range(runs) if any(c[r * n:(r + 1) * n])]
        ctx.check("runs-independent", len(hit) <= 1, "one random number reaches the runs %s" % hit)
        for r in hit:
            v = c[r * n:(r + 1) * n]
            acc[r] = ref.madd(acc[r], ref.outer(v, v))
    for r in range(runs):
        ctx.close("covariance", acc[r], U, rtol=1e-8 + 3e-14 / s)  # differences of rounded results
