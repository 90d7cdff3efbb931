"""Neutral links from bottles to casts, and neutral trajectories."""
import itertools

import numpy as np

from mc import omega as R
from mc.interp import NAN
from mc.ocean import CUSTOM, at_many, eos_fn, eos_kwargs, profiles
from mc.checks.c14 import eos_of

BOUNDS = (
    "links: every cast of 1-3 levels over 3 salinities x 3 temperatures (unstable ones included), every pattern of "
    "missing levels of 4-level casts, x 15 bottles (above, within, below, equal to data) x 3 tolerances x both "
    "interpolants x 5 equations of state, and links to end bottles on dyadic data; trajectories: every sequence of 1-4 casts (5 in thorough) over 7 kinds "
    "(full, short, dense, light, shifted levels, land, one level) x 4 starts x both interpolants x 3 equations of state, and 6 sequences of 70 casts; casts of 40 levels.  states = (bottle, "
    "cast) pairs and sequences, transitions = links made by the code, validated = links compared."
)
ASSUMES = ["S and T share their pattern of missing levels", "where a cast has several neutral points any of them is right"]
EOSES = ("lin", "thermo", "vol", "gsw", "jmd95-bsq")
LV = {1: [np.array([10.0])], 2: [np.array([0.0, 400.0])], 3: [np.array([0.0, 100.0, 250.0]), np.array([5.0, 40.0, 1500.0])], 4: [np.array([0.0, 60.0, 500.0, 1500.0])]}
BOTTLES = [(s, t, p) for p in (0.0, 77.0, 1000.0) for s, t in ((34.0, 15.0), (34.5, 9.0), (34.8, 4.5), (35.0, 2.0), (36.0, 4.0))]
# data on which all values at bottles are exact
DY = [np.array(a) for a in ((0.0, 64.0), (16.0, 2064.0), (0.0, 64.0, 128.0), (16.0, 32.0, 1056.0))]
DY_BOTTLES = [(s, t, p) for p in (0.0, 64.0, 1024.0) for s, t in ((34.0, 1.0), (35.0, 5.0), (36.0, 17.0), (33.75, 0.0), (32.75, 8.0), (34.5, 15.0))]

P = np.array([0.0, 100.0, 300.0, 800.0])
POOL = [
    ([34.0, 34.5, 35.0, 35.5], [20.0, 14.0, 8.0, 3.0], 0.0),
    ([34.2, 34.6, 35.1, 35.6], [18.0, 13.0, 8.0, 4.0], 25.0),
    ([34.1, 34.7, 35.2, NAN], [19.0, 12.0, 7.0, NAN], 0.0),
    ([34.9, 35.0, 35.1, 35.4], [12.0, 9.0, 6.0, 2.0], 0.0),
    ([NAN, 33.5, 34.2, 34.9], [NAN, 17.0, 13.0, 8.0], 10.0),
    ([NAN] * 4, [NAN] * 4, 0.0),
    ([34.5, NAN, NAN, NAN], [12.0, NAN, NAN, NAN], 0.0),
]


def tasks(tier):
    t = []
    for eos in EOSES:
        for kind in ("linear", "pchip"):
            for n in (1, 2, 3):
                for l in range(len(LV[n])):
                    t.append(("links %s %s %d levels, set %d" % (eos, kind, n, l), dict(m="link", eos=eos, kind=kind, n=n, l=l)))
            t.append(("links %s %s missing levels" % (eos, kind), dict(m="nan", eos=eos, kind=kind)))
    for kind in ("linear", "pchip"):
        for l in range(len(DY)):
            t.append(("links at the ends %s, set %d" % (kind, l), dict(m="end", eos="dyadic", kind=kind, l=l)))
    for eos in ("thermo", "gsw", "vol"):
        for kind in ("linear", "pchip"):
            L = 5 if tier == "thorough" else 4
            for l in range(1, L + 1):
                if l == 1:
                    t.append(("long sequences, %s %s" % (eos, kind), dict(m="seq", eos=eos, kind=kind, long=True)))
                    t.append(("long casts, %s %s" % (eos, kind), dict(m="long", eos=eos, kind=kind)))
                for f in range(len(POOL)):
                    t.append(("sequences of %d, %s %s, first %d" % (l, eos, kind, f), dict(m="seq", eos=eos, kind=kind, l=l, f=f)))
    return t


def warm(ctx, tier):
    global link, traj
    from neutralocean.traj import neutral_trajectory as traj, ntp_bottle_to_cast as link

    for eos in EOSES + ("dyadic",):
        for kind in ("linear", "pchip"):
            ctx.tick((eos, kind))
            eos_fn(eos)
            a = np.array([1.0, 2.0])
            link(34.0, 1.0, 1.5, a, a, a, interp=kind, **arg(eos))
    for eos in ("thermo", "gsw", "vol"):
        a = np.array([[34.0, 35.0]])
        traj(a, a, a, 34.5, **arg(eos))
        S, T = (np.array([POOL[k][v] for k in (0, 1)]) for v in (0, 1))
        R.Ocean(S, T, P, eos, "linear", eos_of(eos)).link(1, (34.5, 10.0, 200.0))


def arg(eos):
    return dict(eos=CUSTOM[eos][0]) if eos in CUSTOM else eos_kwargs(eos)


def judge(ctx, eos, kind, S, T, X, tols, bottles=BOTTLES):
    """All casts (N, n) against all bottles."""
    f = eos_fn(eos)
    N = len(S)
    X2 = np.broadcast_to(X, S.shape)
    ok = np.isfinite(S) & np.isfinite(X2)
    # ends of the first contiguous block
    lo, hi = np.full(N, NAN), np.full(N, NAN)
    for c in range(N):
        w = np.flatnonzero(ok[c])
        if w.size:
            k = w[0]
            K = k
            while K < S.shape[1] and ok[c, K]:
                K += 1
            if K - k > 1:
                lo[c], hi[c] = X2[c, k], X2[c, K - 1]
    fr = np.unique(np.concatenate([np.linspace(0, 1, 161), *[((X - X[0]) / max(X[-1] - X[0], 1)) for _ in (0,)]]))
    for (sB, tB, pB) in bottles:
        x = lo[:, None] + (hi - lo)[:, None] * fr[None]
        x[:, -1] = hi
        F = _diff(f, kind, S, T, X2, x, sB, tB, pB)
        for tol in tols:
            got = np.full((N, 3), NAN)
            for c in range(N):
                if c % 64 == 0:
                    ctx.tick(dict(eos=eos, interp=kind, bottle=(sB, tB, pB), cast=(S[c], T[c], X2[c]), tol=tol))
                got[c] = link(sB, tB, pB, S[c], T[c], X2[c], tol_p=tol, interp=kind, **arg(eos))
            p = got[:, 2]
            fin = np.isfinite(p)

            def bad(c, why, **kw):
                ctx.fail(why, eos=eos, interp=kind, bottle=(sB, tB, pB), S=S[c], T=T[c], P=X2[c], tol=tol, got=got[c], **kw)

            scale = np.nanmax(abs(F)) if np.isfinite(F).any() else 1.0
            zero = 1e-11 * max(scale, 1e-300) + 4 * np.finfo(float).eps * abs(float(f(35.0, 5.0, 100.0)))
            with np.errstate(invalid="ignore"):
                opp = ((F[:, 0] > zero) & (F[:, -1] < -zero)) | ((F[:, 0] < -zero) & (F[:, -1] > zero))
                none = np.all(F > zero, axis=1) | np.all(F < -zero, axis=1) | np.isnan(lo)
                # the extremes between scanned points could still cross: demand a margin
                safe = np.isnan(lo) | (np.min(abs(F), axis=1) > 0.5 * np.max(abs(np.diff(F, axis=1)), axis=1))
            for c in np.flatnonzero(opp & ~fin)[:1]:
                bad(c, "a neutral point between the ends of the cast is not found")
            if eos == "dyadic":
                end = (F[:, 0] == 0) | ((F[:, -1] == 0) & (kind == "linear"))
                for c in np.flatnonzero(end & ~fin)[:1]:
                    bad(c, "a link to the end bottle of a cast is not found")
                ctx.outcome("neutral end bottle", end.sum())
            for c in np.flatnonzero(none & safe & fin)[:1]:
                bad(c, "a link is reported where the cast has no neutral point")
            if fin.any():
                i = np.flatnonzero(fin)
                w = i[(p[i] < lo[i]) | (p[i] > hi[i]) | np.isnan(lo[i])]
                if w.size:
                    bad(w[0], "the link is off the cast")
                d = 1.01 * tol + 1e-9 + 8 * np.finfo(float).eps * abs(p[i])
                xx = np.stack([np.maximum(p[i] - d, lo[i]), p[i], np.minimum(p[i] + d, hi[i])], axis=1)
                G = _diff(f, kind, S[i], T[i], X2[i], xx, sB, tB, pB)
                good = (np.min(G, axis=1) <= zero) & (np.max(G, axis=1) >= -zero)
                w = i[~good]
                if w.size:
                    bad(w[0], "the link is not neutral", differences=G[np.flatnonzero(~good)[0]])
                s_, t_ = at_many(kind, X2[i], S[i], p[i][:, None])[:, 0], at_many(kind, X2[i], T[i], p[i][:, None])[:, 0]
                w = i[~((abs(s_ - got[i, 0]) < 1e-9) & (abs(t_ - got[i, 1]) < 1e-9))]
                if w.size:
                    bad(w[0], "salinity and temperature are not those of the cast", want=(s_, t_))
            w = np.flatnonzero(~fin & (np.isfinite(got[:, 0]) | np.isfinite(got[:, 1])))
            if w.size:
                bad(w[0], "properties without a pressure")
            ctx.count(states=N, transitions=N, validated=N)
            ctx.outcome("linked", fin.sum())
            ctx.outcome("no link", (~fin).sum())
            ctx.outcome("several or tangent points", int((~opp & fin).sum()))


def _diff(f, kind, S, T, X, x, sB, tB, pB):
    s, t = at_many(kind, X, S, x), at_many(kind, X, T, x)
    m = 0.5 * (x + pB)
    return f(sB + 0 * m, tB + 0 * m, m) - f(s, t, m)


def long_casts(n=40):
    """Casts of many levels: full, short, top missing, a late gap, few levels."""
    X = 2000.0 * (np.arange(n) / (n - 1)) ** 1.5
    i = np.arange(n)
    S, T = [], []
    for s, t in ((34.0 + 1.8 * i / n, 16.0 - 14.0 * (i / n) ** 0.5), (34.3 + 0.9 * (i / n) ** 2, 12.0 - 11.0 * i / n), (35.0 + 0.5 * np.sin(i / 9.0), 14.0 - 0.3 * i)):
        for ok in (i >= 0, i < 17, i < 33, i > 4, i != 30, (i > 6) & (i < 39), i < 2, i < 1):
            S.append(np.where(ok, s, NAN))
            T.append(np.where(ok, t, NAN))
    return np.array(S), np.array(T), X


def run(ctx, q):
    if q["m"] == "link":
        S, T = profiles((34.0, 34.6, 35.2), (14.0, 8.0, 3.0), q["n"])
        judge(ctx, q["eos"], q["kind"], S, T, LV[q["n"]][q["l"]], (1e-4, 1e-9, 5.0) if q["n"] < 3 else (1e-4,))
        ctx.sample(dict(S=S[-1], T=T[-1]))
    elif q["m"] == "end":
        X = DY[q["l"]]
        S, T = profiles((34.0, 35.0, 37.0), (1.0, 9.0, 21.0), len(X))
        judge(ctx, q["eos"], q["kind"], S, T, X, (1e-4,), DY_BOTTLES)
    elif q["m"] == "long":
        S, T, X = long_casts()
        judge(ctx, q["eos"], q["kind"], S, T, X, (1e-4, 1e-9))
        ctx.sample(dict(S=S[-1], T=T[-1]))
    elif q["m"] == "nan":
        base = [([34.0, 34.4, 34.9, 35.3], [15.0, 10.0, 6.0, 2.0]), ([34.6, 34.2, 35.0, 34.9], [12.0, 13.0, 3.0, 1.0])]
        S, T = [], []
        for s, t in base:
            for m in itertools.product((True, False), repeat=4):
                S.append(np.where(m, s, NAN))
                T.append(np.where(m, t, NAN))
        S, T = np.array(S), np.array(T)
        judge(ctx, q["eos"], q["kind"], S, T, LV[4][0], (1e-4, 1e-9))
        # the same pattern missing from P instead
        X = np.where(np.isfinite(S), LV[4][0], NAN)
        Sf = np.array([b[0] for b in base for _ in range(16)])
        Tf = np.array([b[1] for b in base for _ in range(16)])
        for (sB, tB, pB) in BOTTLES:
            for c in range(len(S)):
                a = link(sB, tB, pB, S[c], T[c], LV[4][0], interp=q["kind"], **arg(q["eos"]))
                b = link(sB, tB, pB, Sf[c], Tf[c], X[c], interp=q["kind"], **arg(q["eos"]))
                ctx.check(np.array_equal(a, b, equal_nan=True), "levels missing from pressure are not treated as missing", got=b, want=a, P=X[c], S=Sf[c], bottle=(sB, tB, pB))
                ctx.count(transitions=2, validated=1)
    else:
        sequences(ctx, q)


def sequences(ctx, q):
    eos, kind = q["eos"], q["kind"]
    tol = 1e-8
    if q.get("long"):
        every = [tuple(w[i % len(w)] for i in range(70)) for w in ((0, 1), (0, 2, 1), (1, 0, 0, 2, 1), (0,), (2, 1), (0, 1, 4, 2))]
    else:
        every = [(q["f"],) + rest for rest in itertools.product(range(len(POOL)), repeat=q["l"] - 1)]
    for ks in every:
        S = np.array([POOL[k][0] for k in ks])
        T = np.array([POOL[k][1] for k in ks])
        X = np.array([P + POOL[k][2] for k in ks])
        oc = R.Ocean(S, T, X, eos, kind, eos_of(eos))
        for p0 in (60.0, 240.0, 300.0, 790.0):
            info = dict(eos=eos, interp=kind, casts=ks, p0=p0)
            ctx.tick(info)
            s, t, p = traj(S, T, X, p0, tol_p=tol, interp=kind, **arg(eos))
            ctx.check(s.shape == t.shape == p.shape == (len(ks),), "one point per cast", **info)
            on = oc.at(0, p0)
            bottle = (on[0], on[1], p0)
            n = 0
            data = dict(got=(s, t, p), **info)
            for c in range(len(ks)):
                if c == 0:
                    if np.isnan(on[0]):
                        ctx.check(np.isnan(s[0]) and np.isnan(t[0]), "properties where the start is off the cast", **data)
                    else:
                        ctx.check(p[0] == p0 and abs(s[0] - on[0]) < 1e-10 and abs(t[0] - on[1]) < 1e-10, "the trajectory does not start at the given bottle", want=bottle, **data)
                else:
                    want = oc.link(c, bottle) if np.isfinite(bottle[0]) else NAN
                    if np.isnan(want):
                        ctx.check(np.isnan(p[c]) and np.isnan(s[c]) and np.isnan(t[c]), "a trajectory continues where no link exists", cast=c, **data)
                    else:
                        if not abs(p[c] - want) <= 3e-7:
                            ctx.fail("a trajectory does not follow the neutral link", cast=c, want=want, **data)
                        u = oc.at(c, p[c])
                        ctx.check(abs(u[0] - s[c]) < 1e-9 and abs(u[1] - t[c]) < 1e-9, "properties along a trajectory", cast=c, want=u, **data)
                        n += 1
                bottle = (s[c], t[c], p[c]) if np.isfinite(s[c]) else (NAN,) * 3
                ctx.count(validated=1)
            ctx.count(states=1, transitions=max(1, len(ks) - 1))
            ctx.outcome("%d links of %d" % (n, len(ks) - 1))
    # levels given once for all casts
    if all(POOL[k][2] == 0 for k in ks):
        a = traj(S, T, P, 240.0, interp=kind, **arg(eos))
        b = traj(S, T, X, 240.0, interp=kind, **arg(eos))
        ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), "levels given once", **info)
    ctx.sample(data)
