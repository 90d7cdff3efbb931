"""PCHIP is shape preserving, smooth, exact at the data, local and symmetric."""
import itertools

import numpy as np

from mc.interp import tuples

BOUNDS = (
    "casts of 2-5 levels (6 in thorough): every combination of gaps {1, 2, 0.25} (5 levels: {1, 4}) "
    "and values from {0,1,2,5} / {-3,0,1,1.125}; 13 sites per interval; values and slopes, by one-shot "
    "interpolation and by coefficients; mirror image in X and Y, affine scaling, units of depth and value from 2^-40 to 2^40, and locality "
    "(changing data three levels away).  states = casts, transitions = interpolations executed."
)
ASSUMES = ["finite data, strictly increasing X"]
FR = np.linspace(0, 1, 13)


def tasks(tier):
    t = []
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        gal = (1.0, 2.0, 0.25) if n < 5 else (1.0, 4.0)
        for a, alpha in enumerate(((0.0, 1.0, 2.0, 5.0), (-3.0, 0.0, 1.0, 1.125))):
            for g in itertools.product(gal, repeat=n - 1):
                t.append(("n=%d gaps %s alphabet %d" % (n, g, a), dict(g=g, alpha=alpha)))
    return t


def warm(ctx, tier):
    global ui, uc, ppval
    from neutralocean.ppinterp import make_pp, ppval

    ui, uc = make_pp("pchip", "u", "interp"), make_pp("pchip", "u", "coeffs")
    X = np.arange(4.0)
    ui(0.5, X, X, 0), ppval(0.5, X, uc(X, X), 0)


def run(ctx, p):
    X = np.concatenate(([0.0], np.cumsum(p["g"])))
    n = X.size
    Y = tuples(p["alpha"], n)
    N = len(Y)
    x = X[:-1, None] + FR * np.diff(X)[:, None]  # (n-1, 13)
    x[:, -1] = X[1:]
    sc = np.abs(Y).max()
    tol = 1e-11 * sc
    ctx.tick(dict(X=X))
    C = uc(X, Y)
    for route in ("interp", "coeffs"):
        if route == "interp":
            f = lambda xs, XX, YY, d: ui(xs, XX, YY, d)
        else:
            f = lambda xs, XX, YY, d: ppval(xs, XX, uc(XX, YY), d)
        y = f(x.ravel(), X, Y[:, None, :], 0).reshape(N, n - 1, FR.size)
        ctx.count(transitions=y.size)

        def bad(mask, what):
            if mask.any():
                c = np.argwhere(mask)[0]
                ctx.fail("pchip (%s): %s" % (route, what), X=X, Y=Y[c[0]], where=c, values=y[c[0]])

        bad(~np.isfinite(y), "not finite within the data range")
        bad(np.abs(y[:, :, 0] - Y[:, :-1]) > tol, "does not pass through the data")
        bad(np.abs(y[:, :, -1] - Y[:, 1:]) > tol, "does not pass through the data")
        lo, hi = np.minimum(Y[:, :-1], Y[:, 1:]), np.maximum(Y[:, :-1], Y[:, 1:])
        bad((y < lo[:, :, None] - tol) | (y > hi[:, :, None] + tol), "overshoots the data")
        up = np.sign(Y[:, 1:] - Y[:, :-1])[:, :, None]
        bad(np.diff(y, axis=2) * up < -tol, "is not monotone between two data points")
        # slopes
        s = f(x.ravel(), X, Y[:, None, :], 1).reshape(N, n - 1, FR.size)
        stol = 1e-9 * sc / np.diff(X).min()
        bad(s * up < -stol, "slope has the wrong sign")
        if n > 2:
            left = f(X[1:-1], X, Y[:, None, :], 1)
            right = f(np.nextafter(X[1:-1], np.inf), X, Y[:, None, :], 1)
            bad(np.abs(left - right) > stol, "first derivative jumps at a data point")
            ext = np.sign(Y[:, 2:] - Y[:, 1:-1]) * np.sign(Y[:, 1:-1] - Y[:, :-2]) <= 0
            bad(ext & (np.abs(left) > stol), "slope at a local extremum is not zero")
            # the derivative is that of the interpolant: Simpson's rule is exact for cubics
            q = s[:, :, 0] * 0
            h = np.diff(X)
            mid = f(X[:-1] + 0.5 * h, X, Y[:, None, :], 1)
            rgt = f(np.nextafter(X[:-1], np.inf), X, Y[:, None, :], 1)
            q = h / 6 * (rgt + 4 * mid + s[:, :, -1])
            bad(np.abs(q - np.diff(Y, axis=1)) > 1e-8 * sc, "derivative does not integrate to the data")
        else:
            bad(np.abs(s - np.diff(Y, axis=1)[:, :, None] / np.diff(X)) > stol, "two points: not linear")
        # symmetries
        ctx.tick(dict(X=X, what="mirror"))
        m = f(-x.ravel(), -X[::-1], np.ascontiguousarray(Y[:, ::-1])[:, None, :], 0).reshape(y.shape)
        bad(np.abs(m - y) > 10 * tol, "mirror image of the cast interpolates differently")
        m = f(8.0 * x.ravel() + 64.0, 8.0 * X + 64.0, 3.0 - 2.0 * Y[:, None, :], 0).reshape(y.shape)
        bad(np.abs((3.0 - m) / 2.0 - y) > 1e-9 * sc, "rescaled cast interpolates differently")
        # any unit of depth and value: powers of two scale exactly
        for u, v in ((1.0, 2.0**-40), (1.0, 2.0**40), (2.0**-30, 1.0), (2.0**30, 1.0), (2.0**20, 2.0**-20)):
            m = f(u * x.ravel(), u * X, v * Y[:, None, :], 0).reshape(y.shape)
            bad(np.abs(m / v - y) > 1e-9 * sc, "the unit of depth (x%g) or value (x%g) matters" % (u, v))
        ctx.count(transitions=9 * y.size, validated=12 * N)
        if n >= 5:
            # value in interval i depends only on data i-1 .. i+2
            for i in range(n - 1):
                far = [j for j in range(n) if j < i - 1 or j > i + 2]
                if far:
                    Y2 = Y.copy()
                    Y2[:, far] += 2.5
                    ctx.tick(dict(X=X, what="local", interval=i))
                    m = f(x[i], X, Y2[:, None, :], 0)
                    # end slopes apply only when the neighbour is the end; data within the stencil is kept
                    bad(np.abs(m - y[:, i, :]) > tol, "depends on data outside its stencil")
                    ctx.count(transitions=m.size, validated=N)
    ctx.count(states=N)
    ctx.outcome("n=%d" % n, N)
    ctx.sample(dict(X=X, Y=Y[N // 3], y=y[N // 3]))
