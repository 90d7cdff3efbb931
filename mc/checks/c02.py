"""All interpolation variants and broadcast shapes agree with one another."""
import itertools

import numba as nb
import numpy as np

from mc.interp import NAN, block, reference, same, sites, tolerance, tuples

BOUNDS = (
    "every option combination of the interpolation factory (interpolant x kind x output x nans x "
    "number of dependent variables: 32 valid or rejected, plus bad names); every variant of "
    "building and evaluating (16 routes for two dependent variables) on all casts of 2-4 levels "
    "over a 3-letter alphabet, all NaN suffix/prefix/gap patterns of 4 levels, derivatives 0-4; "
    "casts of 6-80 levels with levels missing (in X, in Y, in both) above and below; "
    "every broadcast of sites (), (1,), (2,), (2,3), casts (n,), (2,n), (2,1,n), (1,3,n) ...; "
    "polynomial evaluation for degrees -1..4 and derivatives 0-6.  states = (cast, site, "
    "derivative) or shape combinations, transitions = values computed by the code."
)
ASSUMES = ["X increasing over each valid block", "both dependent variables share their NaN pattern"]
KINDS = ("linear", "pchip")
ALPHA = (-1.0, 0.5, 2.0)


def tasks(tier):
    t = [("options", dict(m="opts")), ("polynomials", dict(m="pval"))]
    for kind in KINDS:
        for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
            for gaps in itertools.product((1.0, 2.5), repeat=n - 1):
                t.append(("variants %s %s" % (kind, gaps), dict(m="vars", kind=kind, gaps=gaps)))
        t.append(("NaN variants " + kind, dict(m="nans", kind=kind)))
        t.append(("shapes " + kind, dict(m="shapes", kind=kind)))
        for n in (6, 9, 17, 33, 80):
            t.append(("long %s %d" % (kind, n), dict(m="long", kind=kind, n=n)))
    return t


def warm(ctx, tier):
    global F, L
    from neutralocean import ppinterp as P

    F = dict(P=P)

    @nb.njit
    def interp(f, x, X, Y, d, out):
        for c in range(Y.shape[0]):
            for s in range(x.size):
                out[c, s] = f(x[s], X, Y[c], d)

    @nb.njit
    def interp2(f, x, X, Y, Z, d, o1, o2):
        for c in range(Y.shape[0]):
            for s in range(x.size):
                o1[c, s], o2[c, s] = f(x[s], X, Y[c], Z[c], d)

    @nb.njit
    def pp(g, f, x, X, Y, d, out):
        for c in range(Y.shape[0]):
            C = g(X, Y[c])
            for s in range(x.size):
                out[c, s] = f(x[s], X, C, d)

    @nb.njit
    def pp2(g, f, x, X, Y, Z, d, o1, o2):
        for c in range(Y.shape[0]):
            C = g(X, Y[c])
            D = g(X, Z[c])
            for s in range(x.size):
                o1[c, s], o2[c, s] = f(x[s], X, C, D, d)

    L = dict(interp=interp, interp2=interp2, pp=pp, pp2=pp2)
    X = np.arange(3.0)
    Y = np.ones((2, 3))
    for kind in KINDS:
        for nans in (True, False):
            for _ in routes(kind, X, Y, Y, np.array([0.5]), 0, nans):
                pass


def routes(kind, X, Y, Z, x, d, nans):
    """Yield (name, values of Y, values of Z or None)."""
    P = F["P"]
    mk = P.make_pp
    sh = (Y.shape[0], x.size)

    def two():
        return np.empty(sh), np.empty(sh)

    ui = mk(kind, kind="u", out="interp", nans=True, num_dep_vars=1)
    ui2 = mk(kind, kind="u", out="interp", nans=True, num_dep_vars=2)
    uc = mk(kind, kind="u", out="coeffs", nans=True, num_dep_vars=1)
    i1 = mk(kind, kind="1", out="interp", nans=True, num_dep_vars=1)
    i12 = mk(kind, kind="1", out="interp", nans=True, num_dep_vars=2)
    c1 = mk(kind, kind="1", out="coeffs", nans=True, num_dep_vars=1)
    c1n = mk(kind, kind="1", out="coeffs", nans=False, num_dep_vars=1)
    xx, YY, ZZ = x[None, :], Y[:, None, :], Z[:, None, :]
    yield "u interp", ui(xx, X, YY, d), ui(xx, X, ZZ, d)
    a, b = ui2(xx, X, YY, ZZ, d)
    yield "u interp two", a, b
    CY, CZ = uc(X, Y)[:, None], uc(X, Z)[:, None]
    yield "u ppval", P.ppval(xx, X, CY, d), P.ppval(xx, X, CZ, d)
    a, b = P.ppval_two(xx, X, CY, CZ, d)
    yield "u ppval two", a, b
    a, b = two()
    L["interp"](i1, x, X, Y, d, a)
    L["interp"](i1, x, X, Z, d, b)
    yield "1 interp", a, b
    a, b = two()
    L["interp2"](i12, x, X, Y, Z, d, a, b)
    yield "1 interp two", a, b
    a, b = two()
    L["pp"](c1, P.ppval_1, x, X, Y, d, a)
    L["pp"](c1, P.ppval_1, x, X, Z, d, b)
    yield "1 ppval", a, b
    a, b = two()
    L["pp2"](c1, P.ppval_1_two, x, X, Y, Z, d, a, b)
    yield "1 ppval two", a, b
    if not nans:
        for cname, cf in (("", c1), (" coeffs nonan", c1n)):
            a, b = two()
            L["pp"](cf, P.ppval_1_nonan, x, X, Y, d, a)
            L["pp"](cf, P.ppval_1_nonan, x, X, Z, d, b)
            yield "1 ppval nonan" + cname, a, b
            a, b = two()
            L["pp2"](cf, P.ppval_1_nonan_two, x, X, Y, Z, d, a, b)
            yield "1 ppval nonan two" + cname, a, b


def agree(ctx, kind, X, Y, k, K, x, d, nans):
    Z = np.ascontiguousarray(Y[::-1] * 3.0 - 1.0)
    ry = reference(kind, X[k:K], Y[:, k:K], x, d)
    rz = reference(kind, X[k:K], Z[:, k:K], x, d)
    tol = 4 * tolerance(X[k:K], Y[:, k:K], d)
    for name, a, b in routes(kind, X, Y, Z, x, d, nans):
        for which, got, ref, D in (("first", a, ry, Y), ("second", b, rz, Z)):
            ok = same(got, ref, tol)
            if not ok.all():
                c, s = np.argwhere(~ok)[0]
                ctx.fail(
                    "%s %s, %s variable, derivative %d: got %r, others %r"
                    % (kind, name, which, d, got[c, s], ref[c, s]),
                    X=X, Y=D[c], x=x[s], d=d,
                )
            ctx.count(transitions=got.size, validated=len(got))
    ctx.count(states=ry.size)
    ctx.outcome("%s d=%d %s" % (kind, d, "NaN data" if nans else "finite data"), ry.size)


def run(ctx, p):
    P = F["P"]
    if p["m"] == "vars":
        X = np.concatenate(([1.0], 1.0 + np.cumsum(p["gaps"])))
        Y = tuples(ALPHA, X.size)
        for d in range(5):
            ctx.tick(dict(kind=p["kind"], X=X, d=d))
            agree(ctx, p["kind"], X, Y, 0, X.size, sites(X), d, False)
        ctx.sample(dict(kind=p["kind"], X=X, Y=Y[7 % len(Y)], sites=sites(X)))
    elif p["m"] == "nans":
        Y0 = tuples(ALPHA, 4)[5::7]
        for X0 in (np.array([0.0, 1, 2, 3]), np.array([-4.0, -1, 5, 5.5])):
            for pat in itertools.product(range(4), repeat=4):
                okx = [not (q & 1) for q in pat]
                oky = [not (q & 2) for q in pat]
                k, K = block(okx, oky)
                X, Y = np.where(okx, X0, NAN), np.where(oky, Y0, NAN)
                for d in (0, 1):
                    ctx.tick(dict(kind=p["kind"], X=X, pattern=pat, d=d))
                    agree(ctx, p["kind"], X, Y, k, K, sites(X0), d, True)
    elif p["m"] == "long":
        n = p["n"]
        i = np.arange(n)
        X0 = 5.0 + np.cumsum(np.array([1, 2, 0.5, 7])[i % 4])
        Y0 = np.array([i, i % 3, -(i**2) / 7.0, np.sin(i), (i // 2), 1.0 / (1 + i)], float)
        few = range(n + 1) if n <= 9 else sorted({0, 1, 2, 3, 4, 5, 8, 9, n // 2, n - 5, n - 4, n - 3, n - 2, n - 1, n})
        for a, b in itertools.product(few, repeat=2):
            for where in ("Y", "X", "both") if 0 < b - a < n else ("Y",) if b > a else ():
                X, Y = X0.copy(), Y0.copy()
                if where != "X":
                    Y[:, :a] = Y[:, b:] = NAN
                if where != "Y":
                    X[:a] = X[b:] = NAN
                x = sites(X0)
                x = x[:: max(1, x.size // 100)]
                for d in (0, 1, 2):
                    ctx.tick(dict(kind=p["kind"], n=n, valid=(a, b), missing=where, d=d))
                    agree(ctx, p["kind"], X, Y, a, b, x, d, b - a < n)
    elif p["m"] == "opts":
        options(ctx)
    elif p["m"] == "pval":
        for n in range(0, 6):
            for C in itertools.product((-1.0, 0.0, 2.0), repeat=n) if n < 5 else [(1.0, -2, 3, 0.5, 4)]:
                for x in (-1.5, 0.0, 2.0):
                    for d in range(0, 7):
                        if n == 0:
                            continue
                        ctx.tick(dict(C=C, x=x, d=d))
                        want = 0.0
                        for j, c in enumerate(C):
                            e = n - 1 - j
                            if e >= d:
                                f = 1.0
                                for q in range(e - d + 1, e + 1):
                                    f *= q
                                want += f * c * x ** (e - d)
                        got = P.pval(x, np.array(C), d)
                        ctx.check(abs(got - want) <= 1e-11 * (1 + abs(want)),
                                  "polynomial value %r, expected %r" % (got, want), C=C, x=x, d=d)
                        if d == 0:
                            ctx.check(P.pval(x, np.array(C)) == got, "default derivative is not 0")
                        ctx.count(states=1, transitions=1, validated=1)
    else:
        shapes(ctx, p["kind"])


def options(ctx):
    mk = F["P"].make_pp
    ctx.tick("options")
    good = {}
    for it, k, o, nn, nv in itertools.product(
        ("linear", "pchip", "spline"), ("u", "1", "2"), ("coeffs", "interp", "ppc"), (True, False), (1, 2, 3)
    ):
        legal = (
            it != "spline" and k != "2" and o != "ppc" and nv != 3
            and not (o == "coeffs" and nv != 1)
            and not (nn is False and (o == "interp" or k == "u"))
        )
        ctx.count(states=1, transitions=1, validated=1)
        try:
            f = mk(it, kind=k, out=o, nans=nn, num_dep_vars=nv)
        except ValueError:
            ctx.check(not legal, "a legal combination of options was rejected", options=(it, k, o, nn, nv))
            ctx.outcome("rejected")
            continue
        ctx.check(legal, "an illegal combination of options was accepted", options=(it, k, o, nn, nv))
        ctx.check(callable(f), "not a function")
        good[it, k, o, nn, nv] = f
        ctx.outcome("accepted")
    ctx.check(mk() is not None and callable(mk()), "defaults")
    # the defaults are linear, universal, coefficients
    X = np.array([0.0, 1, 3])
    Y = np.array([2.0, 5, 1])
    C = mk()(X, Y)
    ctx.check(np.shape(C) == (3, 2) and abs(F["P"].ppval(2.0, X, C, 0) - 3.0) < 1e-12, "default factory output")
    # default derivative order of one-shot interpolation is the value
    for it in KINDS:
        i1 = mk(it, kind="1", out="interp")
        ctx.check(abs(i1(0.25, X, Y) - i1(0.25, X, Y, 0)) == 0, "default derivative")


def shapes(ctx, kind):
    """Universal functions act as a loop over the broadcast of their inputs."""
    P = F["P"]
    mk = P.make_pp
    ui, ui2 = mk(kind, "u", "interp"), mk(kind, "u", "interp", True, 2)
    uc = mk(kind, "u", "coeffs")
    n = 4
    xs = [(), (1,), (3,), (2, 1), (2, 3), (1, 1), (2, 2, 3)]
    ls = [(), (1,), (3,), (2, 1), (1, 3), (2, 3)]
    rng = np.arange(1, 60.0)

    def arr(shape, kindof):
        m = int(np.prod(shape)) if shape else 1
        if kindof == "x":
            return (rng[:m] * 0.37 % 4.2).reshape(shape)
        if kindof == "X":
            base = np.cumsum(1.0 + (np.arange(m * n).reshape(m, n) % 3) * 0.25, axis=1) - 1.0
            return base.reshape(shape + (n,))
        return np.sin(rng[: 1] + np.arange(m * n) ** 2).reshape(shape + (n,))

    for sx, sX, sY in itertools.product(xs, ls, ls):
        try:
            full = np.broadcast_shapes(sx, sX, sY)
            cast = np.broadcast_shapes(sX, sY)
        except ValueError:
            continue
        x, X, Y = arr(sx, "x"), arr(sX, "X"), arr(sY, "Y")
        Z = 2 * Y - 1
        for nanlev in (None, 0, 3):
            if nanlev is not None:
                Y = Y.copy()
                Y[..., nanlev] = NAN
                Z = Z.copy()
                Z[..., nanlev] = NAN
            for d in (0, 1):
                ctx.tick(dict(kind=kind, shapes=(sx, sX, sY), nan_level=nanlev, d=d))
                xb = np.broadcast_to(x, full)
                Xb = np.broadcast_to(X, full + (n,))
                Yb = np.broadcast_to(Y, full + (n,))
                Zb = np.broadcast_to(Z, full + (n,))
                ry, rz = np.empty(full), np.empty(full)
                for i in np.ndindex(*full):
                    k, K = block(list(np.isfinite(Xb[i])), list(np.isfinite(Yb[i])))
                    ry[i] = reference(kind, Xb[i][k:K], Yb[i][None, k:K], np.array([xb[i]]), d)[0, 0]
                    rz[i] = reference(kind, Xb[i][k:K], Zb[i][None, k:K], np.array([xb[i]]), d)[0, 0]
                C, D = uc(X, Y), uc(X, Z)
                ctx.check(C.shape[:-1] == cast + (n,), "shape of coefficients", got=C.shape)
                got = dict(
                    interp=(ui(x, X, Y, d), ui(x, X, Z, d)),
                    interp2=ui2(x, X, Y, Z, d),
                    ppval=(P.ppval(x, X, C, d), P.ppval(x, X, D, d)),
                    ppval2=P.ppval_two(x, X, C, D, d),
                )
                for nm, (a, b) in got.items():
                    ctx.check(np.shape(a) == full and np.shape(b) == full,
                              "%s %s: wrong shape of output" % (kind, nm), got=np.shape(a), want=full)
                    ctx.check(same(np.asarray(a), ry, 1e-10).all() and same(np.asarray(b), rz, 1e-10).all(),
                              "%s %s differs from a loop over casts" % (kind, nm), x=x, X=X, Y=Y, got=a, want=ry)
                    ctx.count(transitions=2, validated=1)
                ctx.count(states=1)
