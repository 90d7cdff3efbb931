"""Counting and removing static instability."""
import itertools
import warnings

import numpy as np

from mc.interp import NAN, block
from mc.ocean import CUSTOM, eos_fn, lin, thermo

BOUNDS = (
    "counting: every cast of 1-4 levels over 3 salinities x 3 temperatures (2 x 2 for 4; 3 x 3 thorough), every pattern of missing levels of 4-level casts, "
    "4 equations of state, by differences and by derivatives (linear, PCHIP), every layout; stabilising: every cast of 2-3 levels over 3 x 3 values and of "
    "4 levels over 2 x 3, 3 equations of state (linear, thermobaric, JMD95), thresholds 1e-6, 1e-3 and per pair, weights 0.1, 1, 10, casts of 12-30 levels with inversions near the top, middle and bottom, two sets of levels, every pattern of "
    "missing levels of 4-level casts, every position of the vertical dimension of 3D arrays, levels in 1D or 3D, xarray.  Oracle: direct evaluation; for the change made, an "
    "exact active-set solution (iterated on linearisations when the equation of state is not linear).  states = casts x parameters, transitions = calls, validated = casts judged."
)
ASSUMES = ["S and T share their pattern of missing levels", "the equation of state gives density and accepts arrays"]
PS = (np.array([0.0, 100.0, 250.0, 600.0]), np.array([10.0, 20.0, 1000.0, 3000.0]))
AS, AT = (34.0, 34.6, 35.1), (1.0, 7.0, 12.0)
EOSES = ("lin", "thermo", "jmd95")
FEAS = 1e-8  # kg m-3 per unit of pressure, at most; in units of the threshold's difference of density below


def tasks(tier):
    t = []
    for e in EOSES:
        for l in (0, 1):
            for n, sa, ta in ((2, AS, AT), (3, AS, AT), (4, AS[:2], AT)) if tier == "quick" else ((2, AS, AT), (3, AS, AT), (4, AS[:2], AT), (4, AS, AT[::2])):
                cfg = [(1e-6, 10.0), (1e-3, 1.0), ("pairs", 0.1)]
                if n == 4 and tier == "quick":
                    cfg = cfg[2:]
                for th, w in cfg:
                    N = len(sa) ** n * len(ta) ** n
                    parts = max(1, N // 400)
                    for i in range(parts):
                        if e != "lin" and n == 4 and l == 1 and tier == "quick":
                            continue
                        t.append(("stabilise %s %d levels %d %s %s part %d" % (e, n, l, th, w, i), dict(k="stab", e=e, l=l, n=n, sa=sa, ta=ta, th=th, w=w, i=i, of=parts)))
        t.append(("missing levels %s" % e, dict(k="nan", e=e)))
    t += [("layouts %s" % x, dict(k="layout", x=x)) for x in ("numpy", "xarray")]
    for e in EOSES + ("jmdfwg06",):
        for n in (1, 2, 3, 4):
            t.append(("count %s %d" % (e, n), dict(k="count", e=e, n=n, m="all")))
        t.append(("count %s missing" % e, dict(k="count", e=e, n=4, m="nan")))
    for e in EOSES + ("jmdfwg06",):
        t.append(("count long %s" % e, dict(k="clong", e=e)))
    for e in EOSES:
        for n in (12, 20, 30):
            t.append(("stabilise long %s %d" % (e, n), dict(k="slong", e=e, n=n)))
    t.append(("count layouts", dict(k="clayout")))
    t.sort(key=lambda x: -x[1].get("n", 0))
    return t


def density(e):
    if e in CUSTOM:
        return CUSTOM[e][0]
    from neutralocean.eos.tools import make_eos

    return make_eos(e)


def derivs(e):
    if e in CUSTOM:
        return CUSTOM[e][1]
    from neutralocean.eos.tools import make_eos_s_t

    return make_eos_s_t(e)


def warm(ctx, tier):
    global stabilize_ST, count_unstable, make_pp
    from neutralocean.ppinterp import make_pp
    from neutralocean.stability import count_unstable, stabilize_ST

    S, T, P = np.array([[35.0, 34.0, 35.0]]), np.array([[5.0, 5.0, 4.0]]), np.array([0.0, 10.0, 20.0])
    for e in EOSES + ("jmdfwg06",):
        ctx.tick(e)
        eos_fn(e)
        stabilize_ST(S.copy(), T.copy(), P, density(e), verbose=False)
        count_unstable(S, T, P, eos=density(e))
        for i in ("linear", "pchip"):
            count_unstable(S, T, P, interp_two=make_pp(i, kind="u", out="interp", num_dep_vars=2), eos_s_t=derivs(e))


def strat(f, S, T, P):
    """Gradient of locally referenced density between adjacent bottles."""
    pa = (P[..., :-1] + P[..., 1:]) / 2
    return (f(S[..., 1:], T[..., 1:], pa) - f(S[..., :-1], T[..., :-1], pa)) / (P[..., 1:] - P[..., :-1])


def qp(A, b, w):
    """min sum w x^2 subject to A x >= b, by trying every active set."""
    if len(b) > 6:  # by its dual (least distance programming)
        from scipy.optimize import nnls

        B = A / np.sqrt(w)
        u, _ = nnls(np.vstack([B.T, b]), np.r_[np.zeros(A.shape[1]), 1.0], maxiter=3000)
        r = np.vstack([B.T, b]) @ u - np.r_[np.zeros(A.shape[1]), 1.0]
        x = -r[:-1] / r[-1] / np.sqrt(w)
        return float(np.sum(w * x * x)), x
    best = None
    m = len(b)
    for r in range(m + 1):
        for act in itertools.combinations(range(m), r):
            if act:
                B = A[list(act)]
                x = (B / w).T @ np.linalg.solve((B / w) @ B.T, b[list(act)])
            else:
                x = np.zeros(A.shape[1])
            if np.all(A @ x >= b - 1e-13 * (1 + np.abs(b))):
                v = float(np.sum(w * x * x))
                if best is None or v < best[0]:
                    best = (v, x)
    return best


def optimum(f, S, T, P, c, weight):
    """Least weighted change that meets the constraint (a local optimum near the origin)."""
    n = len(S)
    w = np.r_[np.full(n, weight), np.ones(n)]
    x = np.zeros(2 * n)
    for it in range(40):
        def g(x):
            return strat(f, S + x[:n], T + x[n:], P) - c

        J = np.empty((n - 1, 2 * n))
        for i in range(2 * n):
            h = np.zeros(2 * n)
            h[i] = 1e-4
            J[:, i] = (g(x + h) - g(x - h)) / 2e-4
        new = qp(J, J @ x - g(x), w)
        if new is None:
            return None
        step = np.max(np.abs(new[1] - x))
        x = new[1]
        if step < 1e-7:
            break
    else:
        return None
    return float(np.sum(w * x * x))


def thresholds(th, n):
    return np.array([2e-4, 1e-6, 1e-3, 5e-5])[: n - 1] if th == "pairs" else np.full(n - 1, th)


def judge(ctx, e, S0, T0, S1, T1, P, c, weight, info):
    """One cast, before and after."""
    f = eos_fn(e)
    same = np.array_equal(S0, S1, equal_nan=True) and np.array_equal(T0, T1, equal_nan=True)
    ok = np.isfinite(S0)
    data = dict(S=S0, T=T0, P=P, S_after=S1, T_after=T1, **info)
    ctx.check(np.array_equal(ok, np.isfinite(S1)) and np.array_equal(ok, np.isfinite(T1)), "missing levels changed", **data)
    k, K = block(list(ok), list(ok))
    ctx.count(states=1, validated=1)
    if K - k < 2:
        ctx.check(same, "a cast without two bottles was changed", **data)
        ctx.outcome("short")
        return
    out = np.r_[0:k, K : len(S0)].astype(int)
    ctx.check(np.array_equal(S0[out], S1[out], equal_nan=True) and np.array_equal(T0[out], T1[out], equal_nan=True), "bottles outside the valid block were changed", **data)
    s0, t0, s1, t1, p, c = S0[k:K], T0[k:K], S1[k:K], T1[k:K], P[k:K], c[k : K - 1]
    g0 = strat(f, s0, t0, p) - c
    rnd = 4e-13 * 1027.0 / np.diff(p)
    if np.any(np.abs(g0) < rnd):
        ctx.outcome("tie, skipped")
        return
    if np.all(g0 >= 0):
        ctx.check(same, "a stable cast was changed", **data)
        ctx.outcome("stable")
        return
    g1 = strat(f, s1, t1, p) - c
    ctx.check(np.all(g1 >= -(1e-7 / np.diff(p) + 1e-3 * c)), "the cast is not as stable as required", gradient=g1 + c, threshold=c, **data)
    v = weight * np.sum((s1 - s0) ** 2) + np.sum((t1 - t0) ** 2)
    w = optimum(f, s0, t0, p, c, weight)
    if w is None:
        ctx.outcome("no reference optimum")
        return
    ctx.check(v <= w * 1.02 + 1e-7, "the change is not the least", got=v, want=w, **data)
    ctx.outcome("stabilised")


def long_unstable(n):
    """Casts of n levels, stable but for a few places; some with missing levels."""
    P = 3000.0 * (np.arange(n) / (n - 1.0)) ** 1.4
    z = np.arange(n) / n
    S0, T0 = 34.0 + 1.5 * z, 16.0 - 14.0 * z**0.7
    S, T = [], []
    for where in ((), (1,), (n // 2,), (n - 2,), (0, n // 2, n - 3), (n // 3, n // 3 + 1)):
        s, t = S0.copy(), T0.copy()
        for k in where:
            s[k] += 0.25
        for ok in (np.arange(n) >= 0, np.arange(n) < n - 4, np.arange(n) > 1):
            S.append(np.where(ok, s, NAN))
            T.append(np.where(ok, t, NAN))
    return np.array(S), np.array(T), P


def call(ctx, info, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        stabilize_ST(*a, verbose=False, **kw)
    ctx.count(transitions=1)


def batch(ctx, info, S0, T0, S1, T1, P, e, kw):
    """Stabilise many casts, in place; the casts on which the solver gave up (and said so)."""
    failed = set()
    try:
        call(ctx, info, S1, T1, P, density(e), **kw)
    except RuntimeError:
        S1[:], T1[:] = S0, T0
        for i in range(len(S0)):
            try:
                call(ctx, info, S1[i], T1[i], P, density(e), **kw)
            except RuntimeError:
                failed.add(i)
                same = np.array_equal(S1[i], S0[i], equal_nan=True) and np.array_equal(T1[i], T0[i], equal_nan=True)
                ctx.check(same, "a cast was changed though the solver failed", S=S0[i], T=T0[i], **info)
                ctx.outcome("solver gave up")
    return failed


def run(ctx, q):
    if q["k"] == "stab":
        e, n, th, w = q["e"], q["n"], q["th"], q["w"]
        P = PS[q["l"]][:n]
        c = thresholds(th, n)
        allS = list(itertools.product(q["sa"], repeat=n))
        allT = list(itertools.product(q["ta"], repeat=n))
        todo = [(s, t) for s in allS for t in allT][q["i"] :: q["of"]]
        info = dict(eos=e, min_dLRPDdp=th if th != "pairs" else c, weight=w)
        arg = c if th == "pairs" else th
        gave_up = 0
        for b in range(0, len(todo), 12):
            S0 = np.array([s for s, t in todo[b : b + 12]])
            T0 = np.array([t for s, t in todo[b : b + 12]])
            S1, T1 = S0.copy(), T0.copy()
            ctx.tick(dict(info, S=S0, T=T0, P=P))
            kw = {} if (th, w) == (1e-6, 10.0) else dict(min_dLRPDdp=arg, weight=w)
            failed = batch(ctx, info, S0, T0, S1, T1, P, e, kw)
            gave_up += len(failed)
            for i in range(len(S0)):
                if i in failed:
                    continue
                judge(ctx, e, S0[i], T0[i], S1[i], T1[i], P, c, w, info)
        ctx.check(gave_up <= 0.2 * len(todo), "stabilisation fails on many casts", failures=gave_up, casts=len(todo), **info)
        ctx.sample(dict(info, S=S0[-1], T=T0[-1], S_after=S1[-1], T_after=T1[-1]))
    elif q["k"] == "nan":
        e = q["e"]
        for P, (s, t) in itertools.product(PS, (([35.0, 34.0, 35.2, 34.2], [5.0, 6.0, 2.0, 7.0]), ([34.0, 34.6, 34.1, 35.0], [3.0, 3.0, 3.0, 3.0]))):
            M = list(itertools.product((True, False), repeat=4))
            S0 = np.array([np.where(m, s, NAN) for m in M])
            T0 = np.array([np.where(m, t, NAN) for m in M])
            for th in (1e-6, "pairs"):
                S1, T1 = S0.copy(), T0.copy()
                c = thresholds(th, 4)
                info = dict(eos=e, min_dLRPDdp=th, weight=10.0)
                ctx.tick(dict(info, S=S0))
                failed = batch(ctx, info, S0, T0, S1, T1, P, e, dict(min_dLRPDdp=c if th == "pairs" else th))
                ctx.check(len(failed) <= 3, "stabilisation fails on many casts", failures=len(failed), **info)
                for i in range(len(S0)):
                    if i in failed:
                        continue
                    judge(ctx, e, S0[i], T0[i], S1[i], T1[i], P, c, 10.0, info)
    elif q["k"] == "slong":
        e, n = q["e"], q["n"]
        S0, T0, P = long_unstable(n)
        for th, w in ((1e-6, 10.0), (1e-4, 1.0)):
            S1, T1 = S0.copy(), T0.copy()
            info = dict(eos=e, min_dLRPDdp=th, weight=w, levels=n)
            ctx.tick(info)
            failed = batch(ctx, info, S0, T0, S1, T1, P, e, dict(min_dLRPDdp=th, weight=w))
            ctx.check(len(failed) <= 0.3 * len(S0), "stabilisation fails on many casts", failures=len(failed), **info)
            for i in range(len(S0)):
                if i not in failed:
                    ctx.tick(info)
                    judge(ctx, e, S0[i], T0[i], S1[i], T1[i], P, np.full(n - 1, th), w, info)
    elif q["k"] == "clong":
        e = q["e"]
        for n in (20, 64, 65, 130):
            S, T, P = long_unstable(n)
            lo, hi = zip(*(expected_count(e, S[c], T[c], P) for c in range(len(S))))
            for c in range(len(S)):
                ctx.tick(dict(eos=e, levels=n, cast=c))
                got = count_unstable(S[c], T[c], P, eos=density(e))
                ctx.check(lo[c] <= got <= hi[c], "number of unstable bottles", got=got, want=[lo[c], hi[c]], S=S[c], T=T[c], P=P, eos=e)
                ctx.count(1, 1, 1)
            got = count_unstable(np.tile(S, (9, 1)), np.tile(T, (9, 1)), P, eos=density(e))
            ctx.check(9 * sum(lo) <= got <= 9 * sum(hi), "number of unstable bottles of many casts", got=got, want=[9 * sum(lo), 9 * sum(hi)], eos=e, levels=n)
            ctx.count(1, 1, 1)
            ctx.outcome("long casts with %d unstable pairs" % sum(lo))
    elif q["k"] == "layout":
        layouts(ctx, q["x"])
    elif q["k"] == "count":
        counts(ctx, q)
    else:
        count_layouts(ctx)


def field():
    """3D data (2, 3, 4), vertical last, with stable, unstable and dry casts."""
    S = np.empty((2, 3, 4))
    T = np.empty((2, 3, 4))
    S[:] = [34.0, 34.5, 34.8, 35.2]
    T[:] = [12.0, 9.0, 5.0, 2.0]
    S[0, 1] = [35.0, 34.0, 35.2, 34.2]
    S[1, 0, 2] = 33.0
    S[1, 2], T[1, 2] = NAN, NAN
    S[0, 2, 3:], T[0, 2, 3:] = NAN, NAN
    T[0, 2, 1] = 15.0
    P = PS[0] + np.arange(6).reshape(2, 3, 1) * np.array([1.0, 1.5, 3.0, 9.0])
    return S, T, P


def layouts(ctx, x):
    S, T, P = field()
    for threeD in (False, True):
        Pz = P if threeD else PS[0]
        want = [S.copy(), T.copy()]
        call(ctx, {}, want[0], want[1], Pz, lin)
        ctx.check(not np.array_equal(want[0], S, equal_nan=True), "nothing was stabilised")
        for a in np.ndindex(2, 3):
            judge(ctx, "lin", S[a], T[a], want[0][a], want[1][a], np.broadcast_to(Pz, S.shape)[a], thresholds(1e-6, 4), 10.0, dict(layout="vertical last"))
        for pos in (0, 1, 2):
            for order in ("C", "F", "view"):
                A = [np.moveaxis(v, -1, pos) for v in (S, T)]
                p3 = np.moveaxis(P, -1, pos) if threeD else Pz
                if order == "view":
                    big = [np.full(tuple(2 * m for m in v.shape), 77.0) for v in A]
                    for g, v in zip(big, A):
                        g[::2, 1::2, ::2] = v
                    A = [g[::2, 1::2, ::2] for g in big]
                else:
                    A = [np.array(v, order=order) for v in A]
                p0 = np.array(p3)
                if x == "numpy":
                    for vd in (pos, pos - 3):
                        B = [v.copy() if order != "view" else v for v in A]
                        info = dict(vert_dim=vd, order=order, levels=np.shape(p3))
                        if order == "view" and vd < 0:
                            continue
                        ctx.tick(info)
                        call(ctx, info, B[0], B[1], p3, lin, vert_dim=vd)
                        for got, w in zip(B, want):
                            ctx.check(np.allclose(np.moveaxis(got, pos, -1), w, rtol=0, atol=1e-12, equal_nan=True), "the layout changes the result", got=got, want=w, **info)
                        ctx.check(np.array_equal(p3, p0), "levels were changed", **info)
                        if order == "view":
                            ctx.check(all(np.all(g[1::2] == 77.0) and np.all(g[:, ::2] == 77.0) for g in big), "wrote outside the array given", **info)
                        ctx.count(states=6, validated=6)
                else:
                    import xarray as xr

                    dims = ["y", "x"]
                    dims.insert(pos, "z")
                    B = [xr.DataArray(v.copy() if order != "view" else v, dims=dims) for v in A]
                    px = xr.DataArray(p0, dims=dims if threeD else ["z"])
                    info = dict(vert_dim="z", dims=dims, order=order, levels=np.shape(p3))
                    ctx.tick(info)
                    call(ctx, info, B[0], B[1], px, lin, vert_dim="z")
                    for got, w in zip(B, want):
                        ctx.check(np.allclose(np.moveaxis(got.values, pos, -1), w, rtol=0, atol=1e-12, equal_nan=True), "the layout changes the result", got=got.values, want=w, **info)
                    ctx.count(states=6, validated=6)


def expected_count(e, S, T, P):
    """(certain, with ties): pairs of valid bottles whose density does not increase."""
    g = strat(eos_fn(e), S, T, P) * np.diff(P)
    with np.errstate(invalid="ignore"):
        return int(np.sum(g < -1e-11)), int(np.sum(g <= 1e-11))


def counts(ctx, q):
    e, n = q["e"], q["n"]
    P = PS[0][:n]
    if q["m"] == "nan":
        M = list(itertools.product((True, False), repeat=4))
        S = np.array([np.where(m, [35.0, 34.0, 35.2, 34.2], NAN) for m in M])
        T = np.array([np.where(m, [5.0, 6.0, 2.0, 7.0], NAN) for m in M])
    else:
        sa, ta = (AS, AT) if n < 4 or ctx.tier == "thorough" else (AS[:2], AT[:2])
        a = list(itertools.product(sa, repeat=n))
        b = list(itertools.product(ta, repeat=n))
        S = np.array([s for s in a for t in b])
        T = np.array([t for s in a for t in b])
    f = density(e)
    for c in range(len(S)):
        if c % 16 == 0:
            ctx.tick(dict(eos=e, S=S[c], T=T[c], P=P))
        got = count_unstable(S[c], T[c], P, eos=f)
        lo, hi = expected_count(e, S[c], T[c], P)
        ctx.check(lo <= got <= hi, "number of unstable bottles", got=got, want=[lo, hi], S=S[c], T=T[c], P=P, eos=e)
        # exact ties count as unstable
        if n == 2 and S[c][0] == S[c][1] and T[c][0] == T[c][1]:
            ctx.check(got == 1, "neutral bottles", got=got, S=S[c], T=T[c])
        ctx.count(1, 1, 1)
    got = count_unstable(S, T, P, eos=f)
    lo, hi = (sum(x) for x in zip(*(expected_count(e, S[c], T[c], P) for c in range(len(S)))))
    ctx.check(lo <= got <= hi, "number of unstable bottles of many casts", got=got, want=[lo, hi], eos=e, levels=n)
    ctx.count(1, 1, 1)
    if n == 1:
        return
    # by derivatives of interpolants: gradient at each bottle
    g = derivs(e)
    for kind in ("linear", "pchip"):
        two = make_pp(kind, kind="u", out="interp", num_dep_vars=2)
        for c in range(0, len(S), 1 if len(S) < 100 else 3):
            if c % 16 == 0:
                ctx.tick(dict(eos=e, interp=kind, S=S[c], T=T[c], P=P))
            got = count_unstable(S[c], T[c], P, interp_two=two, eos_s_t=g)
            ds, dt = two(P, P, S[c], T[c], 1)
            rs, rt = g(S[c], T[c], P)
            z = rs * ds + rt * dt
            with np.errstate(invalid="ignore"):
                # whether the deepest bottle is included is left open
                lo, hi = int(np.sum(z[:-1] < -1e-12)), int(np.sum(z <= 1e-12))
            ctx.check(lo <= got <= hi, "number of unstable bottles, by derivatives", got=got, want=[lo, hi], S=S[c], T=T[c], P=P, eos=e, interp=kind)
            ctx.count(1, 1, 1)
    ctx.sample(dict(eos=e, S=S[c], T=T[c], count=int(got)))


def count_layouts(ctx):
    import xarray as xr

    S, T, P = field()
    for e in ("lin", "jmd95"):
        f = density(e)
        for threeD in (False, True):
            Pb = np.broadcast_to(P if threeD else PS[0], S.shape)
            lo, hi = (sum(x) for x in zip(*(expected_count(e, S[a], T[a], Pb[a]) for a in np.ndindex(2, 3))))
            ctx.check(lo == hi, "the model has ties", lo=lo, hi=hi)
            for pos in (0, 1, 2):
                A = [np.moveaxis(v, -1, pos).copy() for v in (S, T)]
                p = np.moveaxis(P, -1, pos).copy() if threeD else PS[0]
                for vd in (pos, pos - 3):
                    got = count_unstable(A[0], A[1], p, eos=f, vert_dim=vd)
                    ctx.check(got == lo, "the layout changes the count", got=got, want=lo, vert_dim=vd, eos=e)
                dims = ["y", "x"]
                dims.insert(pos, "z")
                B = [xr.DataArray(v, dims=dims) for v in A] + [xr.DataArray(p, dims=dims if threeD else ["z"])]
                got = count_unstable(*B, eos=f, vert_dim="z")
                ctx.check(got == lo, "the layout changes the count", got=got, want=lo, dims=dims, eos=e)
                ctx.count(3, 3, 3)
