"""Reference model of the two interpolants, and the enumerated casts.

The reference works on one contiguous block of valid data, in Hermite form,
for many casts at once; it shares nothing with the code under test.
"""
import itertools

import numpy as np

NAN = np.nan


def block(okx, oky=None):
    """[k, K) of the first contiguous run of levels valid in both masks."""
    n = len(okx)
    ok = [bool(a) and (oky is None or bool(b)) for a, b in zip(okx, oky or okx)]
    k = 0
    while k < n and not ok[k]:
        k += 1
    K = k
    while K < n and ok[K]:
        K += 1
    return k, K


def slopes(X, Y):
    """PCHIP slopes at the knots (Fritsch-Carlson, three-point ends); Y is (N, n)."""
    n = X.size
    h = X[1:] - X[:-1]
    dl = (Y[:, 1:] - Y[:, :-1]) / h
    D = np.zeros_like(Y)
    if n == 2:
        D[:, 0] = D[:, 1] = dl[:, 0]
        return D

    def end(h0, h1, d0, d1):
        s = d0 + (d0 - d1) * (h0 / (h0 + h1))
        s = np.where(s * d0 <= 0, 0.0, s)
        lim = (d0 * d1 <= 0) & (np.abs(s) > 3 * np.abs(d0))
        return np.where(lim, 3 * d0, s)

    D[:, 0] = end(h[0], h[1], dl[:, 0], dl[:, 1])
    D[:, -1] = end(h[-1], h[-2], dl[:, -1], dl[:, -2])
    for i in range(1, n - 1):
        a, b = dl[:, i - 1], dl[:, i]
        same = ((a > 0) & (b > 0)) | ((a < 0) & (b < 0))
        w = (h[i] + 2 * h[i - 1]) / (3 * (h[i] + h[i - 1]))  # weight of b's partner
        den = np.where(same, w * a + (1 - w) * b, 1.0)
        # weighted harmonic mean: 1 / (w1/a + w2/b), w1 = (h0 + 2 h1), w2 = (2 h0 + h1)
        D[:, i] = np.where(same, a * b / den, 0.0)
    return D


def reference(kind, X, Y, x, d):
    """d'th derivative at sites x (S,) of the interpolants of Y (N, n) on X (n,).

    Returns (N, S).  X, Y hold the valid block only.
    """
    N = Y.shape[0]
    out = np.full((N, x.size), NAN)
    n = X.size
    if n < 2:
        return out
    h = X[1:] - X[:-1]
    dl = (Y[:, 1:] - Y[:, :-1]) / h
    if kind == "pchip":
        D = slopes(X, Y)
    for j, xj in enumerate(x):
        if np.isnan(xj) or xj < X[0] or xj > X[-1]:
            continue
        i = 0
        while i < n - 2 and xj > X[i + 1]:
            i += 1
        s = xj - X[i]
        if kind == "linear":
            c = (Y[:, i], dl[:, i])
        else:
            d0, d1 = D[:, i], D[:, i + 1]
            c = (
                Y[:, i],
                d0,
                (3 * dl[:, i] - 2 * d0 - d1) / h[i],
                (d0 + d1 - 2 * dl[:, i]) / h[i] ** 2,
            )
        acc = np.zeros(N)
        for p in range(d, len(c)):
            f = 1.0
            for q in range(p - d + 1, p + 1):
                f *= q
            acc = acc + f * c[p] * s ** (p - d)
        out[:, j] = acc
    return out


def sites(X, ulp=True, fr=(0.25, 0.5, 0.8125)):
    """Knots, their float neighbours, interior points, outside, NaN."""
    X = np.asarray(X, float)
    X = X[np.isfinite(X)]
    if X.size == 0:
        return np.array([0.0, NAN])
    s = [X[0] - 1.0, X[-1] + 1.0, NAN]
    for v in X:
        s.append(v)
        if ulp:
            s += [np.nextafter(v, -np.inf), np.nextafter(v, np.inf)]
    for a, b in zip(X[:-1], X[1:]):
        s += [a + f * (b - a) for f in fr]
    return np.array(s)


def tolerance(X, Y, d):
    hm = np.min(np.diff(X)) if X.size > 1 else 1.0
    sc = np.max(np.abs(Y)) if Y.size else 1.0
    xs = np.max(np.abs(X)) if X.size else 1.0
    return 1e-12 * max(sc, 1e-300) * (1 + xs / hm) * 10.0 / min(1.0, hm) ** d


def tuples(alphabet, n):
    return np.array(list(itertools.product(alphabet, repeat=n)), dtype=float)


def same(a, b, tol):
    """NaN in the same places, equal within tol elsewhere."""
    na, nb_ = np.isnan(a), np.isnan(b)
    with np.errstate(invalid="ignore"):
        return (na & nb_) | (~na & ~nb_ & (np.abs(a - b) <= tol))
