"""Neutrality errors and their norms, against their definition."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import CUSTOM, GRAV, RHOC, eos_s_t_fn

BOUNDS = (
    "every list of up to 3 directed edges over 3 casts (self loops, repeats), every graph on 4 casts "
    "(quick: 3 of the equations of state); every surface over 4 bottles and 'off the surface' per cast; 6 equations of state "
    "(one Boussinesq, one specific volume); grid as dictionary with every subset of distances, as "
    "arrays, lists or scalars, and as a bare tuple (errors only); surfaces 1D, 2D, labelled; 5 large graphs (up to 41x43 casts).  states = "
    "(edges, surface, distances), transitions = library calls, validated = edge errors and norms compared."
)
ASSUMES = ["distances are positive"]
EOSES = ("lin", "thermo", "vol", "gsw", "jmd95-bsq", "jmdfwg06")
BOT = [(34.0, 18.0, 100.0), (34.75, 7.5, 650.0), (35.5, 12.0, 300.0), (34.5, 3.0, 2000.0), (NAN, NAN, NAN)]
V = np.array([2.0, 0.8, 5.0, 1.0, 3.0, 0.6])
W = np.array([0.5, 3.0, 1.25, 7.0, 0.2, 2.0])


BIG = ("path", "star", "complete", "grid 41x43", "grid 30x40 periodic")


def tasks(tier):
    t = []
    for eos in EOSES:
        for name in BIG:
            t.append(("%s, %s" % (eos, name), dict(eos=eos, big=name)))
        for n in (2, 3):
            for l in range(0, 4 if n == 3 else 3):
                t.append(("%s, %d casts, %d edges" % (eos, n, l), dict(eos=eos, n=n, l=l)))
        if tier == "quick" and eos not in ("thermo", "gsw", "jmd95-bsq"):
            continue
        for b in range(5):
            t.append(("%s, 4 casts, first bottle %d" % (eos, b), dict(eos=eos, n=4, b=b)))
    return t


def args(eos):
    """Ways to name the derivatives of this equation of state."""
    if eos in CUSTOM:
        return dict(eos_s_t=CUSTOM[eos][1])
    if eos.endswith("-bsq"):
        return dict(eos_s_t=eos[:-4], grav=GRAV, rho_c=RHOC)
    return dict(eos_s_t=eos)


def warm(ctx, tier):
    global errs, norms
    from neutralocean.ntp import ntp_epsilon_errors as errs, ntp_epsilon_errors_norms as norms

    for e in EOSES:
        ctx.tick(e)
        eos_s_t_fn(e)
        errs(np.ones(2), np.ones(2), np.ones(2), (np.array([0]), np.array([1])), **args(e))


def forms(E):
    d, w, one = V[:E], W[:E], np.ones(E)
    yield "none", {}, one, one
    yield "arrays", dict(dist=d, distperp=w), d, w
    yield "scalars", dict(dist=4.0, distperp=0.5), 4 * one, 0.5 * one
    yield "lists", dict(dist=d.tolist(), distperp=w.tolist()), d, w
    yield "dist", dict(dist=d), d, one
    yield "distperp", dict(distperp=w), one, w


def big(ctx, eos, name):
    """The same definition, on a grid of many casts."""
    from mc.checks.c11 import LARGE

    n, es = LARGE[name]
    E = len(es)
    kw = args(eos)
    fst = eos_s_t_fn(eos)
    a, b = (np.array([x[k] for x in es]) for k in (0, 1))
    i = np.arange(n)
    k = np.arange(E)
    for m, gone in enumerate((i < 0, i % 5 == 2, (i * i) % 13 > 3, i >= 0, i != n // 2)):
        s, t, p = 34.0 + (i * 37 % 101) / 50.0, 1.0 + (i * 53 % 89) / 5.0, 3.0 + (i * 71 % 997) * 2.0
        s[gone], t[gone], p[gone] = NAN, NAN, NAN
        sm, tm, pm = (0.5 * (x[a] + x[b]) for x in (s, t, p))
        rs, rt = fst(sm, tm, pm)
        base = rs * (s[b] - s[a]) + rt * (t[b] - t[a])
        scale = np.nanmax(abs(rs), initial=1e-300) * 2 + np.nanmax(abs(rt), initial=1e-300) * 16
        d, w = 0.5 + k % 31 / 4.0, 0.25 + k % 17 / 2.0
        for nm, extra, dd, ww in (("none", {}, 0 * d + 1, 0 * d + 1), ("arrays", dict(dist=d, distperp=w), d, w), ("scalars", dict(dist=4.0, distperp=0.5), 0 * d + 4, 0 * d + 0.5)):
            info = dict(eos=eos, graph=name, missing=m, distances=nm)
            ctx.tick(info)
            grid = dict(edges=(a, b), **extra)
            want = base / dd
            e = errs(s, t, p, grid, **kw)
            bad = [] if np.shape(e) == (E,) else [0]
            if not bad:
                bad = np.flatnonzero(~np.isclose(e, want, rtol=1e-9, atol=1e-12 * scale, equal_nan=True))
            if len(bad):
                ctx.fail("neutrality errors", edge=bad[0], got=e[bad[:3]], want=want[bad[:3]], **info)
            r, mm = norms(s, t, p, grid, **kw)
            ok = np.isfinite(want)
            A = (dd * ww)[ok]
            wr = np.sqrt(np.sum(A * want[ok] ** 2) / A.sum()) if ok.any() else 0.0
            wm = np.sum(A * abs(want[ok])) / A.sum() if ok.any() else 0.0
            if not (abs(r - wr) <= 1e-9 * wr + 1e-12 * scale and abs(mm - wm) <= 1e-9 * wm + 1e-12 * scale):
                ctx.fail("norms of the neutrality errors", got=(r, mm), want=(wr, wm), **info)
            ctx.count(states=1, transitions=2, validated=E + 2)
        ctx.outcome("large, %d of %d edges on the surface" % (np.isfinite(base).sum(), E))
    ctx.sample(info)


def run(ctx, q):
    import xarray as xr

    if "big" in q:
        return big(ctx, q["eos"], q["big"])
    eos, n = q["eos"], q["n"]
    kw = args(eos)
    fst = eos_s_t_fn(eos)
    if "l" in q:
        D = list(itertools.product(range(n), repeat=2))
        lists = [list(x) for x in itertools.product(D, repeat=q["l"])]
        surfs = list(itertools.product(range(5), repeat=n))
        if q["l"] == 3 and eos != "thermo":
            surfs = [x for x in surfs if len(set(x)) == n]
    else:
        pr = list(itertools.combinations(range(4), 2))
        lists = []
        for g in range(64):
            es = [pr[i] for i in range(6) if g >> i & 1]
            lists.append([(y, x) if i % 2 else (x, y) for i, (x, y) in enumerate(es)])
        surfs = [(q["b"],) + x for x in itertools.product(range(5), repeat=3)]
    # definition, for every ordered pair of bottles at once
    B = np.array(BOT)
    sm, tm, pm = (0.5 * (B[:, None, k] + B[None, :, k]) for k in range(3))
    rs, rt = fst(sm, tm, pm)
    EPS = rs * (B[None, :, 0] - B[:, None, 0]) + rt * (B[None, :, 1] - B[:, None, 1])
    scale = np.nanmax(abs(rs)) * 2 + np.nanmax(abs(rt)) * 16
    for es in lists:
        E = len(es)
        a, b = np.array([x for x, _ in es], int), np.array([y for _, y in es], int)
        for ks in surfs:
            st = B[list(ks)]
            s, t, p = (st[:, k].copy() for k in range(3))
            base = np.array([EPS[ks[x], ks[y]] for x, y in es])
            info = dict(eos=eos, edges=es, surface=st)
            ctx.tick(info)
            e = errs(s, t, p, (a, b), **kw)
            ctx.check(np.shape(e) == (E,) and np.allclose(e, base, rtol=1e-9, atol=1e-12 * scale, equal_nan=True), "errors with the grid as a tuple",
                      got=e, want=base, **info)
            for name, extra, d, w in forms(E):
                grid = dict(edges=(a, b), **extra)
                if name == "lists" and E:
                    grid["edges"] = (a.tolist(), b.tolist())
                e = errs(s, t, p, grid, **kw)
                want = base / d
                ctx.check(np.shape(e) == (E,) and np.allclose(e, want, rtol=1e-9, atol=1e-12 * scale, equal_nan=True),
                          "neutrality errors", got=e, want=want, distances=name, **info)
                r, m = norms(s, t, p, grid, **kw)
                ok = np.isfinite(want)
                A = (d * w)[ok]
                wr = np.sqrt(np.sum(A * want[ok] ** 2) / A.sum()) if ok.any() else 0.0
                wm = np.sum(A * abs(want[ok])) / A.sum() if ok.any() else 0.0
                if not (abs(r - wr) <= 1e-9 * wr + 1e-12 * scale and abs(m - wm) <= 1e-9 * wm + 1e-12 * scale):
                    ctx.fail("norms of the neutrality errors", got=(r, m), want=(wr, wm), distances=name, **info)
                ctx.count(states=1, transitions=2, validated=E + 2)
                if not (name == "arrays" or n < 4):
                    continue
            ctx.outcome("%d of %d edges on the surface" % (np.isfinite(base).sum(), E))
        # shapes and containers, once per edge list
        if n == 4:
            grid = dict(edges=(a, b), dist=V[:E], distperp=W[:E])
            want = base / V[:E]
            for f in (lambda x: x.reshape(2, 2), lambda x: xr.DataArray(x.reshape(2, 2), dims=("y", "x")), lambda x: x.astype("f8")[None]):
                e = errs(f(s), f(t), f(p), grid, **kw)
                ctx.check(np.allclose(e, want, rtol=1e-9, atol=1e-12 * scale, equal_nan=True), "errors depend on the container", got=e, want=want, **info)
                r2, m2 = norms(f(s), f(t), f(p), grid, **kw)
                r1, m1 = norms(s, t, p, grid, **kw)
                ctx.check((r1, m1) == (r2, m2), "norms depend on the container", **info)
            ctx.count(transitions=9)
    ctx.sample(dict(info, errors=base))
