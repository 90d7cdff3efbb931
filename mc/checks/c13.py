"""Converged omega surfaces: pinned, on their casts, connected, and optimal."""
import itertools

import numpy as np

from mc import omega as R
from mc.interp import NAN
from mc.ocean import CUSTOM
from mc.checks.c14 import eos_of

BOUNDS = (
    "every graph on 3 casts x every choice of casts from 6 kinds (full, short, dense only, light only, land) x every "
    "pin x 2 pin pressures x 2 equations of state, the casts arranged in one to four dimensions; every graph on 4 casts x 3 oceans x every pin x 2 pressures x 3 starts (pin, isobaric, "
    "patchy) x mixed layer or not x both solvers; up to 50 iterations, and stopped after 1 or 2, with and without wetting; oceans of 42 and 120 casts on 5 grids.  states = runs, transitions = iterations "
    "made, validated = casts and balances checked."
)
ASSUMES = ["casts are stably stratified", "optimality is claimed at convergence, which every run of the bound must reach"]
P = np.array([0.0, 100.0, 300.0, 800.0])
POOL = [
    ([34.0, 34.5, 35.0, 35.5], [20.0, 14.0, 8.0, 3.0]),
    ([34.2, 34.6, 35.1, 35.6], [18.0, 13.0, 8.0, 4.0]),
    ([34.1, 34.7, 35.2, NAN], [19.0, 12.0, 7.0, NAN]),
    ([34.9, 35.0, 35.1, 35.4], [12.0, 9.0, 6.0, 2.0]),
    ([NAN, 33.5, 34.2, 34.9], [NAN, 17.0, 13.0, 8.0]),
    ([NAN] * 4, [NAN] * 4),
]
OCEANS4 = [(0, 1, 2, 3), (1, 5, 0, 4), (3, 0, 1, 1)]
DIST, PERP = np.array([2.0, 0.8, 5.0, 1.0, 3.0, 0.6]), np.array([0.5, 3.0, 1.25, 7.0, 0.2, 2.0])
MAX = 50


def tasks(tier):
    t = []
    for eos, kind in (("thermo", "linear"), ("gsw", "pchip")):
        for ks in itertools.product(range(6), repeat=2):
            t.append(("3 casts %s %s" % (eos, ks), dict(n=3, eos=eos, kind=kind, ks=ks)))
    for name in ("closed", "periodic", "random", "star", "wide"):
        for eos, kind in (("thermo", "linear"), ("gsw", "pchip")):
            for solver in ("poisson", "gradient"):
                t.append(("large %s %s %s" % (name, eos, solver), dict(n=42, big=name, eos=eos, kind=kind, solver=solver)))
    for oc in OCEANS4:
        for solver in ("poisson", "gradient"):
            for eos, kind in (("thermo", "pchip"), ("gsw", "linear"), ("vol", "linear"))[: 3 if tier == "thorough" else 2]:
                for g in range(0, 64, 8):
                    t.append(("4 casts %s %s %s graphs %d-" % (oc, solver, eos, g), dict(n=4, eos=eos, kind=kind, ks=oc, solver=solver, g=g)))
    return t


def eosarg(e):
    return CUSTOM[e] if e in CUSTOM else e


def warm(ctx, tier):
    global omega_surf
    from neutralocean.surface import omega_surf

    S, T = (np.array([POOL[k][v] for k in (0, 1)]) for v in (0, 1))
    for eos, kind in (("thermo", "linear"), ("gsw", "pchip"), ("thermo", "pchip"), ("gsw", "linear"), ("vol", "linear")):
        ctx.tick((eos, kind))
        oc = R.Ocean(S, T, P, eos, kind, eos_of(eos))
        omega_surf(S, T, P, dict(edges=(np.array([0]), np.array([1]))), (0,), 200.0, eos=eosarg(eos), interp=kind, output=False, ITER_MAX=2)
        oc.link(1, (*oc.at(0, 240.0), 240.0)), oc.heave(0, *oc.at(0, 240.0), 240.0, 0.0)


SHAPES = {4: ((2, 2), (2, 1, 2)), 42: ((6, 7), (2, 3, 7), (3, 2, 1, 7)), 120: ((8, 15), (4, 5, 6), (2, 3, 4, 5))}


def judge(ctx, oc, S, T, es, pin, init, p_ml, solver, info, short=0, P=P, DIST=DIST, PERP=PERP):
    n = oc.N
    E = len(es)
    edges = (np.array([x for x, _ in es], int), np.array([y for _, y in es], int))
    adj = R.neighbours(edges, n)
    grid = dict(edges=edges, dist=DIST[:E], distperp=PERP[:E])
    pin_p = init if np.isscalar(init) else init[pin]
    kw = dict(TOL_LRPD_MAV=1e-10, ITER_MAX=MAX, ITER_STOP_WETTING=MAX)
    if short:  # no wetting after the first iteration
        kw = dict(ITER_MAX=short, TOL_LRPD_MAV=0.0, ITER_STOP_WETTING=info["wetting"])
    if p_ml is not None:
        kw["p_ml"] = p_ml.copy()
    ctx.tick(info)
    ctx.count(states=1)
    if np.isnan(oc.at(pin, pin_p)[0]):
        try:
            omega_surf(S, T, P, grid, (pin,), init, eos=eosarg(info["eos"]), interp=oc.kind, output=False, ITER_MAX=2)
        except RuntimeError:
            ctx.outcome("pin off its cast: refused")
            return
        ctx.fail("a pin off its cast is accepted", **info)
    # the casts may be arranged in any number of dimensions
    sh = SHAPES.get(n, ()) + ((n,), (1, n), (n, 1, 1))
    sh = sh[ctx.states % len(sh)]
    arr = lambda x: x if x is None or np.isscalar(x) else np.reshape(x, sh)
    if p_ml is not None:
        kw["p_ml"] = arr(kw["p_ml"])
    pinned = tuple(int(i) for i in np.unravel_index(pin, sh))
    info = dict(info, shape=sh)
    *stp, d = omega_surf(
        np.reshape(S, (*sh, -1)), np.reshape(T, (*sh, -1)), P if P.ndim == 1 else np.reshape(P, (*sh, -1)), grid, pinned, arr(init), eos=eosarg(info["eos"]), interp=oc.kind, output=False, OMEGA_FORMULATION=solver,
        TOL_P_SOLVER=1e-9, **kw)
    ctx.check(all(np.shape(x) == sh for x in stp), "the surface has another shape than the casts", got=[np.shape(x) for x in stp], **info)
    s, t, p = (np.reshape(x, -1) for x in stp)
    ctx.count(transitions=len(d["e_RMS"]) - 1)
    wet = np.isfinite(p)
    data = dict(p=p, s=s, t=t, **info)
    ctx.check(p[pin] == pin_p, "the surface misses its pin", want=pin_p, **data)
    ctx.check(np.array_equal(wet, np.isfinite(s)) and np.array_equal(wet, np.isfinite(t)), "s, t, p differ in their missing casts", **data)
    for c in range(n):
        if wet[c]:
            on = oc.at(c, p[c])
            ctx.check(abs(on[0] - s[c]) < 1e-8 and abs(on[1] - t[c]) < 1e-7, "s, t are not those of the cast at p", cast=c, want=on, **data)
    ocean = [c is not None for c in oc.casts]
    reach = R.component(adj, pin, ocean)
    ctx.check(all(c in reach for c in range(n) if wet[c]), "the surface has casts cut off from the pin", reachable=reach, **data)
    ctx.count(validated=n)
    if short:  # stopped early: only what holds after every iteration
        ctx.outcome("stopped after %d, %d casts" % (short, wet.sum()))
        return
    unit = 1e-6 if float(oc.eos(34.5, 3.0, 1000.0)) < 1 else 1.0
    if not d["ϕ_MAV"][-1] < 1e-10 * unit:
        ctx.fail("iterations do not converge", change=d["ϕ_MAV"], **data)
    comp = R.component(adj, pin, wet)
    ctx.check(len(comp) == wet.sum(), "a converged surface is not connected", region=comp, **data)
    # balance: the sum of squares is stationary at every free cast
    e = R.errors(oc, edges, s, t, p) if E else np.zeros(0)
    D = np.zeros(n)
    ok = np.isfinite(e)
    f = np.where(ok, e * PERP[:E] / DIST[:E], 0.0)
    np.add.at(D, edges[0], f)
    np.add.at(D, edges[1], -f)
    D[pin] = 0.0
    es_ = abs(float(oc.eos_s_t(34.5, 5.0, 100.0)[0]))
    ctx.check(np.all(abs(D) <= 2e-7 * es_), "a converged surface can be made more neutral", imbalance=D, errors=e, **data)
    ne = len({(min(x, y), max(x, y)) for (x, y), k in zip(es, ok) if k})
    if ne == wet.sum() - 1:
        ctx.check(np.all(abs(e[ok]) <= 1e-6 * es_), "links of a surface without loops are not neutral", errors=e, **data)
    # nothing more could be wet
    pm = np.full(n, -np.inf) if p_ml is None else p_ml
    for c in range(n):
        if not wet[c] and ocean[c]:
            for x in adj[c]:
                if wet[x]:
                    q = oc.link(c, (s[x], t[x], p[x]))
                    X = oc.casts[c][0]
                    ctx.check(not (q > max(pm[c], X[0]) + 0.5 and q < X[-1] - 0.5), "a cast neutrally linked to the surface is not on it", cast=c, link=q, **data)
    ctx.count(validated=n + E)
    ctx.outcome("%d casts, %d edges, %s" % (wet.sum(), ok.sum(), "loops" if ne >= wet.sum() else "no loops"))
    return 1


def big(ctx, q):
    from mc.checks.c24 import big_grid, big_ocean

    n = 120 if q["big"] == "wide" else 42
    S, T, X = big_ocean(n)
    g = big_grid(q["big"], n)
    es = list(zip(*(e.tolist() for e in g["edges"])))
    oc = R.Ocean(S, T, X, q["eos"], q["kind"], eos_of(q["eos"]))
    ok = [c for c in range(n) if oc.casts[c] is not None and oc.casts[c][0][-1] > 600]
    for pin in (n // 2 if n // 2 in ok else ok[n // 4], ok[0]):
        for nm, init in (("pin", 260.0), ("isobaric", np.full(n, 330.0))):
            for ml in (None, np.where(np.arange(n) % 5 == 2, 200.0, 30.0)):
                info = dict(grid=q["big"], casts=n, pin=pin, init=nm, eos=q["eos"], interp=q["kind"], mixed_layer=ml is not None, solver=q["solver"])
                judge(ctx, oc, S, T, es, pin, init, ml, q["solver"], info, P=X, DIST=g["dist"], PERP=g["distperp"])
    ctx.sample(info)


def run(ctx, q):
    n = q["n"]
    if "big" in q:
        return big(ctx, q)
    pr = list(itertools.combinations(range(n), 2))
    if n == 3:
        for k in range(6):
            ks = tuple(q["ks"]) + (k,)
            S, T = (np.array([POOL[c][v] for c in ks]) for v in (0, 1))
            oc = R.Ocean(S, T, P, q["eos"], q["kind"], eos_of(q["eos"]))
            for g in range(8):
                es = [pr[i] for i in range(3) if g >> i & 1]
                for pin in range(3):
                    for p0 in (150.0, 420.0):
                        judge(ctx, oc, S, T, es, pin, p0, None, "poisson",
                              dict(casts=ks, edges=es, pin=pin, init=p0, eos=q["eos"], interp=q["kind"], mixed_layer=None))
        ctx.sample(dict(casts=ks, edges=es, pin=pin, init=p0))
        return
    ks = q["ks"]
    S, T = (np.array([POOL[c][v] for c in ks]) for v in (0, 1))
    oc = R.Ocean(S, T, P, q["eos"], q["kind"], eos_of(q["eos"]))
    for g in range(q["g"], q["g"] + 8):
        es = [(y, x) if i % 2 else (x, y) for i, (x, y) in enumerate(pr[i] for i in range(6) if g >> i & 1)]
        for pin in range(4):
            for p0 in (150.0, 290.0):
                patchy = np.array([p0 if c == pin or (c + pin) % 2 else NAN for c in range(4)])
                for nm, init in (("pin", p0), ("isobaric", np.full(4, p0)), ("patchy", patchy)):
                    if nm != "pin" and ks[pin] == 5:
                        continue
                    for ml in (None, np.array([130.0, 110.0, 20.0, 140.0])):
                        info = dict(casts=ks, edges=es, pin=pin, init=init, eos=q["eos"], interp=q["kind"], mixed_layer=ml, solver=q["solver"])
                        judge(ctx, oc, S, T, es, pin, init, ml, q["solver"], info)
                        if nm == "isobaric":
                            for short in (1, 2):
                                for w in (0, 1):
                                    judge(ctx, oc, S, T, es, pin, init, ml, q["solver"], dict(info, ITER_MAX=short, wetting=w), short)
    ctx.sample(dict(casts=ks, edges=es, pin=pin, init=init))
