"""Interpolated values: every route, against the reference interpolants."""
import itertools

import numba as nb
import numpy as np

from mc.interp import NAN, block, reference, same, sites, tolerance, tuples

BOUNDS = (
    "casts of 1-5 levels (6 in thorough) with every combination of gaps {1,3} and of values from "
    "a 4-5 letter alphabet; every pattern of NaN over (X,Y) levels up to 5 levels; casts of 8-300 "
    "levels with 6 profiles and every number of levels missing (in X, in Y, in both) above and below (for casts over 17 levels, a list of numbers); sites: all knots, both float neighbours, 3 interior points per "
    "interval, outside, NaN; derivatives 0-4; linear and PCHIP; through ready coefficients and "
    "through one-shot interpolation, vectorised and scalar routines.  states = (cast, site, "
    "derivative) triples, transitions = interpolations executed."
)
ASSUMES = ["X increasing over each valid block", "finite data (no infinities)"]

KINDS = ("linear", "pchip")


def tasks(tier):
    t = []
    for kind in KINDS:
        for n in (1, 2, 3, 4):
            t.append(("values %s n=%d" % (kind, n), dict(m="vals", kind=kind, n=n, tail=None)))
        for n in (1, 2, 3, 4, 5):
            if n < 5:
                t.append(("nans %s n=%d" % (kind, n), dict(m="nans", kind=kind, n=n, first=None)))
            else:
                for f in range(4):
                    t.append(("nans %s n=5/%d" % (kind, f), dict(m="nans", kind=kind, n=5, first=f)))
        for n in (8, 9, 16, 17, 33, 64, 101, 300):
            t.append(("long %s %d" % (kind, n), dict(m="long", kind=kind, n=n)))
        for g in itertools.product((1.0, 3.0), repeat=4):
            t.append(("values %s n=5 %s" % (kind, g), dict(m="vals", kind=kind, n=5, tail=g)))
        if tier == "thorough":
            for g in itertools.product((1.0, 3.0), repeat=5):
                t.append(("values %s n=6 %s" % (kind, g), dict(m="vals", kind=kind, n=6, tail=g)))
    return t


def warm(ctx, tier):
    from neutralocean.ppinterp import make_pp, ppval, ppval_1

    global F, loop_interp, loop_ppval

    @nb.njit
    def loop_interp(f, x, X, Y, d, out):
        for c in range(Y.shape[0]):
            for s in range(x.size):
                out[c, s] = f(x[s], X, Y[c], d)

    @nb.njit
    def loop_ppval(g, f, x, X, Y, d, out):
        for c in range(Y.shape[0]):
            C = g(X, Y[c])
            for s in range(x.size):
                out[c, s] = f(x[s], X, C, d)

    F = {}
    for kind in KINDS:
        F[kind] = dict(
            ci=make_pp(kind, kind="u", out="coeffs"),
            ii=make_pp(kind, kind="u", out="interp"),
            c1=make_pp(kind, kind="1", out="coeffs"),
            i1=make_pp(kind, kind="1", out="interp"),
            pp=ppval, pp1=ppval_1,
        )
    for kind in KINDS:
        for d in (0, 4):
            compare(ctx, kind, np.arange(3.0), np.ones((2, 3)), 0, 3, np.array([0.5]), d)


def routes(kind, X, Y, x, d):
    f = F[kind]
    N, S = Y.shape[0], x.size
    yield "universal interp", f["ii"](x[None, :], X, Y[:, None, :], d)
    yield "universal coeffs", f["pp"](x[None, :], X, f["ci"](X, Y)[:, None, :, :], d)
    o = np.empty((N, S))
    loop_interp(f["i1"], x, X, Y, d, o)
    yield "single interp", o
    o = np.empty((N, S))
    loop_ppval(f["c1"], f["pp1"], x, X, Y, d, o)
    yield "single coeffs", o


def compare(ctx, kind, X, Y, k, K, x, d):
    ref = reference(kind, X[k:K], Y[:, k:K], x, d)
    tol = tolerance(X[k:K], Y[:, k:K], d)
    for name, got in routes(kind, X, Y, x, d):
        ok = same(got, ref, tol)
        if not ok.all():
            c, s = np.argwhere(~ok)[0]
            ctx.fail(
                "%s %s, derivative %d: got %r, expected %r" % (kind, name, d, got[c, s], ref[c, s]),
                X=X, Y=Y[c], x=x[s], d=d,
            )
        ctx.count(transitions=ref.size, validated=len(Y))
    ctx.count(states=ref.size)
    ctx.outcome("%s %s" % (kind, "all NaN" if np.isnan(ref).all() else "values"), ref.size)


def run(ctx, p):
    kind = p["kind"]
    if p["m"] == "vals":
        n = p["n"]
        gaps = [p["tail"]] if p["tail"] else list(itertools.product((1.0, 3.0), repeat=n - 1))
        alpha = {1: (-1, 0, 2), 2: (-2, -1, 0, 1, 3), 3: (-2, -1, 0, 1, 3), 4: (-2, 0, 1, 1.5, 4),
                 5: (-1, 0, 1, 4), 6: (0, 1, 3.5)}[n]
        Y = tuples(alpha, n)
        for g in gaps:
            for x0 in (0.0, -1.5, 1000.0) if n < 5 else (-1.5,):
                X = x0 + np.concatenate(([0.0], np.cumsum(g)))
                x = sites(X)
                for d in range(5):
                    ctx.tick(dict(kind=kind, X=X, d=d))
                    compare(ctx, kind, X, Y, 0, n, x, d)
        ctx.sample(dict(kind=kind, X=X, Y=Y[len(Y) // 3], sites=x))
    elif p["m"] == "nans":
        n = p["n"]
        base = np.array([[0, 1, 2, 3, 4], [3, 1, 4, 1, 5], [2, 2, 1, 1, 0], [0, 1, 0, 1, 0],
                         [-1, 5, 5.5, 5.75, 9]], float)[:, :n]
        for gaps in ((1, 1, 1, 1), (2, 0.5, 4, 1)):
            X0 = np.concatenate(([0.5], 0.5 + np.cumsum(gaps)))[:n]
            for pat in itertools.product(range(4), repeat=n):
                if p["first"] is not None and pat[0] != p["first"]:
                    continue
                okx = [not (q & 1) for q in pat]
                oky = [not (q & 2) for q in pat]
                k, K = block(okx, oky)
                X = np.where(okx, X0, NAN)
                Y = np.where(oky, base, NAN)
                x = sites(X0)
                for d in (0, 1, 2):
                    ctx.tick(dict(kind=kind, X=X, pattern=pat, d=d))
                    compare(ctx, kind, X, Y, k, K, x, d)
        ctx.sample(dict(kind=kind, X=X, Y=Y[0]))
    else:
        for n in (p["n"],):
            i = np.arange(n)
            X = 5.0 + np.cumsum(np.array([1, 2, 0.5, 7])[i % 4])
            Y = np.array([i, i % 3, -(i**2) / 7.0, np.sin(i), (i // 2), 1.0 / (1 + i)], float)
            few = range(n + 1) if n <= 17 else sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, n // 2, n - 17, n - 16, n - 9, n - 8, n - 3, n - 2, n - 1, n})
            for a, b in itertools.product(few, repeat=2):
                if b <= a:
                    continue
                for where in ("Y", "X", "both") if b - a < n else ("Y",):
                    Xn, Yn = X.copy(), Y.copy()
                    if where != "X":
                        Yn[:, :a] = Yn[:, b:] = NAN
                    if where != "Y":
                        Xn[:a] = Xn[b:] = NAN
                    for d in range(5) if where == "Y" and a in (0, 4) and b in (n, n - 3) else (0, 1):
                        ctx.tick(dict(kind=kind, n=n, d=d, valid=(a, b), missing=where))
                        x = sites(X)
                        if n > 33:
                            x = x[:: max(1, x.size // 150)] if (a, b) != (0, n) else x
                        for k in range(0, x.size, 400):
                            compare(ctx, kind, Xn, Yn, a, b, x[k:k + 400], d)
