"""Mixed-layer depth, cast by cast."""
import itertools

import numpy as np

from mc.interp import NAN, block
from mc.ocean import CUSTOM, as2d, at, eos_fn, eos_kwargs, profiles

BOUNDS = (
    "every stable cast of 2-4 levels over 4 salinities x 3 temperatures (homogeneous layers included), every "
    "pattern of missing levels of 4-level casts, two sets of levels, casts of 40 and 120 levels; thresholds 0.03, 0.2, 0.9, 3; reference pressures 0, 100, "
    "2000; reference bottles 0-2; 6 equations of state (density, specific volume, Boussinesq), linear and PCHIP; defaults.  "
    "states = casts x parameters, transitions = calls, validated = casts compared with a direct scan."
)
ASSUMES = ["potential density does not decrease with depth (strictly increases, for PCHIP)", "S and T share their pattern of missing levels"]
EOSES = ("lin", "thermo", "vol", "gsw", "jmd95-bsq", "jmdfwg06")
LV = {2: [np.array([0.0, 100.0])], 3: [np.array([0.0, 30.0, 200.0]), np.array([5.0, 60.0, 1000.0])], 4: [np.array([0.0, 10.0, 80.0, 400.0])]}
DIFFS = (0.03, 0.2, 0.9, 3.0)


def tasks(tier):
    t = []
    for eos in EOSES:
        for n in (2, 3, 4):
            for l in range(len(LV[n])):
                for kind in ("linear", "pchip"):
                    t.append(("%s %s %d levels, set %d" % (eos, kind, n, l), dict(eos=eos, kind=kind, n=n, l=l, m="all")))
        for n in (40, 120):
            for kind in ("linear", "pchip"):
                t.append(("%s %s long %d" % (eos, kind, n), dict(eos=eos, kind=kind, n=n, m="long")))
        t.append(("%s missing levels" % eos, dict(eos=eos, m="nan")))
    return t


def arg(eos):
    return dict(eos=CUSTOM[eos][0]) if eos in CUSTOM else eos_kwargs(eos)


def warm(ctx, tier):
    global ml
    from neutralocean.mixed_layer import mixed_layer as ml

    for e in EOSES:
        ctx.tick(e)
        eos_fn(e)
        a = np.array([[34.0, 34.5, 35.0]])
        ml(a, a, a, **arg(e))


def density(eos, S, T, ref):
    f = eos_fn(eos)
    r = f(S, T, ref + 0 * S)
    return 1.0 / r if float(f(34.5, 3.0, 1000.0)) < 1 else r


def expected(kind, D, X, ok, bottle, diff):
    """(value, tie) for one cast: densities D, levels X, validity ok."""
    k, K = block(list(np.isfinite(X)), list(ok))
    if not ok[bottle] or K - k < 2:
        return NAN, False
    d = D[k:K] - D[bottle]
    x = X[k:K]
    if np.min(abs(d - diff)) < 1e-9:
        return NAN, True
    if diff < d[0] or diff > d[-1]:
        return NAN, False
    i = int(np.searchsorted(d, diff)) - 1
    if kind == "linear":
        return x[i] + (diff - d[i]) * (x[i + 1] - x[i]) / (d[i + 1] - d[i]), False
    return float(at(kind, d, x, diff)[0]), False


def judge(ctx, eos, kind, X, S, T, refs, bottles, diffs):
    n = S.shape[1]
    for ref in refs:
        D = density(eos, S, T, ref)
        ok = np.isfinite(S)
        with np.errstate(invalid="ignore"):
            steps = np.array([np.nanmin(np.diff(D[c][ok[c]]), initial=1.0) if ok[c].sum() > 1 else 1.0 for c in range(len(S))])
        stable = steps > 1e-6 if kind == "pchip" else steps > -1e-12
        use = np.flatnonzero(stable)
        if use.size == 0:
            continue
        for b in bottles:
            if b >= n:
                continue
            for diff in diffs:
                info = dict(eos=eos, interp=kind, ref_p=ref, bottle_index=b, pot_dens_diff=diff, P=X)
                ctx.tick(info)
                S2, T2 = as2d(S[use], 7), as2d(T[use], 7)
                got = ml(S2, T2, X, pot_dens_diff=diff, ref_p=ref, bottle_index=b, interp=kind, **arg(eos))
                ctx.check(np.shape(got) == S2.shape[:-1], "shape of the result", got=np.shape(got), **info)
                got = np.ravel(got)
                for i, c in enumerate(use):
                    w, tie = expected(kind, D[c], X, ok[c], b, diff)
                    if tie:
                        ctx.outcome("tie, skipped")
                        continue
                    if np.isnan(w) != np.isnan(got[i]) or not (np.isnan(w) or abs(w - got[i]) <= 1e-6 * (1 + abs(w))):
                        ctx.fail("mixed-layer depth", got=got[i], want=w, S=S[c], T=T[c], density=D[c], **info)
                    ctx.outcome("none" if np.isnan(w) else "found")
                ctx.count(states=use.size, transitions=1, validated=use.size)
    ctx.sample(dict(info, S=S[use[-1]], T=T[use[-1]], result=got[use.size - 1]))


def run(ctx, q):
    eos = q["eos"]
    if q["m"] == "nan":
        X = LV[4][0]
        S, T = [], []
        for s, t in (([34.0, 34.1, 34.9, 35.3], [15.0, 14.9, 6.0, 2.0]), ([34.0, 34.5, 35.0, 35.1], [9.0, 8.0, 8.0, 2.0])):
            for m in itertools.product((True, False), repeat=4):
                S.append(np.where(m, s, NAN))
                T.append(np.where(m, t, NAN))
        for kind in ("linear", "pchip"):
            judge(ctx, eos, kind, X, np.array(S), np.array(T), (0.0, 100.0), (0, 1, 2), DIFFS)
        # defaults, 1D casts, and levels per cast
        S, T = np.array(S), np.array(T)
        a = ml(S, T, X, **arg(eos))
        b = ml(S, T, np.broadcast_to(X, S.shape).copy(), pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, interp="linear", **arg(eos))
        ctx.check(np.array_equal(a, b, equal_nan=True), "default arguments", got=a, want=b)
        for c in range(len(S)):
            one = ml(S[c], T[c], X, **arg(eos))
            ctx.check(np.ndim(one) == 0 and np.array_equal(one, a[c], equal_nan=True), "a cast on its own", got=one, want=a[c])
        if eos == "gsw":
            ctx.check(np.array_equal(ml(S, T, X), a, equal_nan=True), "default equation of state")
        return
    n = q["n"]
    if q["m"] == "long":
        from mc.checks.c16 import long_casts

        S, T, X = long_casts(n)
        S, T = S[:16], T[:16]  # the stable ones
        judge(ctx, eos, q["kind"], X, S, T, (0.0, 100.0, 2000.0), (0, 1, 7, n // 2, n - 2), DIFFS[:2] + (0.005,))
        return
    aS, aT = ((34.0, 34.01, 34.4, 35.2), (14.0, 8.0, 3.0)) if n < 4 else ((34.0, 34.02, 35.2), (10.0, 4.0))
    S, T = profiles(aS, aT, n)
    judge(ctx, eos, q["kind"], LV[n][q["l"]], S, T, (0.0, 100.0, 2000.0), (0, 1, 2), DIFFS)
