"""Omega iterations: every transition against the model, every stopping rule, every diagnostic."""
import contextlib
import io
import itertools

import numpy as np

from mc import omega as R
from mc.interp import NAN
from mc.ocean import CUSTOM
from mc.checks.c14 import eos_of

BOUNDS = (
    "4 casts (one short, one that only dense water reaches): every graph x 5 initial surfaces (pin only, full, "
    "patchy, isobaric) x 7 wetting windows x with and without mixed layer x 2 pass limits, 5 iterations each, every "
    "iteration compared with the model started from the previous surface of the code; for the graphs with all casts "
    "connected by a path, cycle or star: every combination of 3 minimum and 4 maximum iteration counts, 4 density "
    "and 4 pressure tolerances, both solvers, 4 equations of state (density and specific volume), diagnostics on and "
    "off, printing on and off; oceans of 42 and 120 casts on 4 grids (closed, periodic, random, star), 3 starts, 4 iterations.  states = surfaces reached, transitions = iterations compared, validated = diagnostics "
    "and surfaces compared."
)
ASSUMES = [
    "casts are stably stratified", "the pin is below its mixed layer",
    "stopping thresholds are away from the quantities they are compared with",
]
P = np.array([0.0, 100.0, 300.0, 800.0])
S = np.array([[34.0, 34.5, 35.0, 35.5], [34.2, 34.6, 35.1, 35.6], [34.1, 34.7, 35.2, NAN], [34.9, 35.0, 35.1, 35.4]])
T = np.array([[20.0, 14.0, 8.0, 3.0], [18.0, 13.0, 8.0, 4.0], [19.0, 12.0, 7.0, NAN], [12.0, 9.0, 6.0, 2.0]])
N = 4
K = 5
INITS = {
    "pin": 240.0,
    "deep pin": 90.0,
    "full": np.array([240.0, 150.0, 260.0, 40.0]),
    "patchy": np.array([240.0, NAN, 200.0, NAN]),
    "isobaric": np.array([350.0, 350.0, 350.0, 350.0]),
}
WINDOWS = [(1, 5), (np.inf, 5), (1, 0), (1, 1), (2, 2), (2, 5), (3, 4)]
MIXED = {"none": None, "array": np.array([20.0, 190.0, -np.inf, 150.0])}
EOSES = ("thermo", "vol", "gsw", "lin")
TOLP = 1e-8
BIG = np.iinfo(int).max
DIST, PERP = np.array([2.0, 0.8, 5.0, 1.0, 3.0, 0.6]), np.array([0.5, 3.0, 1.25, 7.0, 0.2, 2.0])
PAIRS = list(itertools.combinations(range(N), 2))
NAMES = {"e_MAV", "e_RMS", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_wet", "n_newly_wet", "timer_bfs", "timer_mat", "timer_update"}


def tasks(tier):
    t = []
    for eos, kind in (("thermo", "linear"), ("gsw", "pchip")) if tier == "quick" else itertools.product(EOSES, ("linear", "pchip")):
        for g in range(64):
            t.append(("iterations %s %s graph %d" % (eos, kind, g), dict(m="it", eos=eos, kind=kind, g=g)))
    for eos in EOSES:
        for name in ("path", "cycle", "star"):
            for init in ("pin", "full", "patchy"):
                t.append(("control %s %s %s" % (eos, name, init), dict(m="ctl", eos=eos, name=name, init=init)))
    for name in ("closed", "periodic", "random", "star", "wide"):
        for init in ("pin", "isobaric", "patchy"):
            for eos, kind in (("thermo", "linear"), ("gsw", "pchip")):
                t.append(("large %s %s %s" % (name, init, eos), dict(m="big", name=name, init=init, eos=eos, kind=kind)))
    t.append(("mixed layer given by parameters", dict(m="ml")))
    return t


OC = {}


def warm(ctx, tier):
    global omega_surf
    from neutralocean.surface import omega_surf

    for eos, kind in itertools.product(EOSES, ("linear", "pchip")):
        ctx.tick((eos, kind))
        OC[eos, kind] = oc = R.Ocean(S, T, P, eos, kind, eos_of(eos))
        g = grid_of([(0, 1), (1, 2)])
        call(eos, kind, g, "pin", ITER_MAX=1)
        oc.link(1, (*oc.at(0, 240.0), 240.0)), oc.heave(0, *oc.at(0, 240.0), 240.0, 0.0)


def grid_of(es):
    E = len(es)
    return dict(edges=(np.array([x for x, _ in es], int), np.array([y for _, y in es], int)), dist=DIST[:E], distperp=PERP[:E])


def call(eos, kind, grid, init, pin=0, **kw):
    kw = dict(dict(diags=True, output=False, TOL_P_SOLVER=TOLP, TOL_LRPD_MAV=0.0), **kw)
    p0 = INITS[init] if isinstance(init, str) else init
    return omega_surf(S, T, P, grid, (pin,), p0 if np.isscalar(p0) else p0.copy(), eos=CUSTOM[eos] if eos in CUSTOM else eos, interp=kind, **kw)


def start(oc, adj, init, p_ml, rep):
    p0 = INITS[init]
    s, t, p = (np.full(N, NAN) for _ in range(3))
    if np.isscalar(p0):
        p[0] = p0
        s[0], t[0] = oc.at(0, p0)
        s, t, p, _ = R.wet_perimeter(oc, adj, 0, s, t, p, p_ml, rep)
    else:
        for c in range(N):
            s[c], t[c] = oc.at(c, p0[c])
            p[c] = p0[c] if np.isfinite(s[c]) else NAN
    return s, t, p


def close(a, b, rtol, atol):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def prefix(ctx, oc, eos, kind, grid, init, win, ml, rep, solver, info):
    """Run 1..K iterations; compare each with the model; return the sequence of diagnostics."""
    edges = grid["edges"]
    adj = R.neighbours(edges, N)
    p_ml = np.full(N, -np.inf) if MIXED[ml] is None else MIXED[ml]
    kw = dict(ITER_START_WETTING=win[0], ITER_STOP_WETTING=win[1], OMEGA_FORMULATION=solver)
    if MIXED[ml] is not None:
        kw["p_ml"] = MIXED[ml].copy()
    if rep != BIG:
        kw["ITER_WET_PERIM"] = rep
    s, t, p = start(oc, adj, init, p_ml, rep)
    pin_p = p[0]
    ratio = grid["distperp"] / grid["dist"]
    es = abs(float(oc.eos_s_t(34.5, 5.0, 100.0)[0]))  # size of a density change of one salinity unit
    ptol = 2e-5 if solver == "poisson" else 2e-2
    seq = []
    surf = [(s, t, p)]
    d = None
    for k in range(1, K + 1):
        w = R.step(oc, edges, adj, ratio, 0, pin_p, s, t, p, k == 1, win[0] <= k <= win[1], p_ml, rep)
        s1, t1, p1, d1 = call(eos, kind, grid, init, ITER_MAX=k, **kw)
        data = dict(iteration=k, before=p, after=p1, **info)
        if w["tie"]:
            return None
        ctx.check(np.array_equal(np.isnan(p1), np.isnan(w["p"])), "an iteration puts the wrong casts on the surface", want=w["p"], **data)
        ctx.check(np.nanmax(abs(p1 - w["p"])) <= ptol, "an iteration moves the surface wrongly", want=w["p"], phi=w["phi"], **data)
        on = np.array([oc.at(c, p1[c]) for c in range(N)])
        ctx.check(close(s1, on[:, 0], 0, 1e-7) and close(t1, on[:, 1], 0, 1e-6), "s, t are not those of the casts at p", got=(s1, t1), want=on, **data)
        # diagnostics
        ctx.check(set(d1) >= NAMES, "missing diagnostics", got=sorted(d1), **data)
        for nm in NAMES:
            ctx.check(len(d1[nm]) == k + 1, "diagnostics do not have one entry per iteration", which=nm, got=len(d1[nm]), want=k + 1, **data)
            if "timer" in nm:
                ctx.check(np.all(np.asarray(d1[nm]) >= 0) and np.all(np.isfinite(d1[nm])), "time spent", which=nm, **data)
            elif d is not None:
                ctx.check(np.array_equal(np.asarray(d1[nm])[:-1], d[nm], equal_nan=True), "earlier diagnostics changed with the number of iterations", which=nm, **data)
        dp = w["p"] - w["p_old"]
        rms, mav = R.norms(oc, edges, grid["dist"], grid["distperp"], s1, t1, p1)
        want = {
            "e_RMS": rms, "e_MAV": mav, "n_wet": np.isfinite(p1).sum(), "n_newly_wet": w["new"],
            "ϕ_MAV": np.nanmean(abs(w["phi"])), "Δp_RMS": np.sqrt(np.nanmean(dp**2)), "Δp_MAV": np.nanmean(abs(dp)), "Δp_Linf": np.nanmax(abs(dp)),
        }
        for nm, v in want.items():
            if nm[0] == "n":
                tol = 0
            elif nm[0] == "Δ":
                tol = ptol
            elif nm[0] == "e":
                tol = 1e-9 * es + 1e-7 * abs(v)
            else:
                tol = es * (1e-9 if solver == "poisson" else 2e-5)
            if not abs(d1[nm][k] - v) <= tol:
                ctx.fail("a diagnostic does not describe its iteration", which=nm, got=d1[nm][k], want=v, **data)
        if k == 1:
            rms, mav = R.norms(oc, edges, grid["dist"], grid["distperp"], s, t, p)
            ctx.check(abs(d1["e_RMS"][0] - rms) <= 1e-7 * rms + 1e-9 * es and abs(d1["e_MAV"][0] - mav) <= 1e-7 * mav + 1e-9 * es
                      and d1["n_wet"][0] == np.isfinite(p).sum(), "diagnostics of the initial surface",
                      got=(d1["e_RMS"][0], d1["e_MAV"][0], d1["n_wet"][0]), want=(rms, mav), **data)
        s, t, p, d = s1, t1, p1, d1
        surf.append((s, t, p))
        ctx.count(states=1, transitions=1, validated=len(want) + 3)
        ctx.outcome("wet %d, new %d" % (np.isfinite(p).sum(), w["new"]))
    return surf, d, kw


def big_ocean(n):
    """n casts: smooth, with noise; some short, some land, some with dense or light water only."""
    i = np.arange(n)[:, None]
    x = np.array([0.0, 50.0, 120.0, 250.0, 500.0, 900.0, 1500.0])
    z = x / 1500.0
    h = 0.3 * np.sin(0.7 * i) + 0.2 * np.cos(1.9 * i)
    s = 34.0 + 1.6 * z + 0.3 * h + 0.05 * np.sin(5.3 * i)
    t = 20.0 - 17.0 * z**0.6 + 2.0 * h
    for a in (s, t):
        a[n // 3 :: 9, 5:] = NAN
        a[7 :: 13, 3:] = NAN
        a[n // 4 :: 11] = NAN
        a[5 :: 17, 0] = NAN
    return s, t, x


def big_grid(name, n):
    from mc.checks.c11 import edges_of_grid

    if name == "star":
        es = [(n // 2, i) if i % 2 else (i, n // 2) for i in range(n) if i != n // 2]
    elif name == "random":
        es = sorted({(i, (i * i * 3 + k * 5 + 1) % n) for i in range(n) for k in range(2)})
        es = [e for e in es if e[0] != e[1]]
    elif name == "wide":
        es = edges_of_grid(8, 15, (False, True))
    else:
        es = edges_of_grid(6, 7, (name == "periodic",) * 2)
    k = np.arange(len(es))
    return dict(edges=(np.array([e[0] for e in es]), np.array([e[1] for e in es])), dist=0.5 + (k * 7 % 13) / 4.0, distperp=0.4 + (k * 5 % 11) / 3.0)


def big(ctx, q):
    n = 120 if q["name"] == "wide" else 42
    S, T, P = big_ocean(n)
    grid = big_grid(q["name"], n)
    edges = grid["edges"]
    adj = R.neighbours(edges, n)
    oc = R.Ocean(S, T, P, q["eos"], q["kind"], eos_of(q["eos"]))
    ok = [c for c in range(n) if oc.casts[c] is not None and oc.casts[c][0][-1] > 600]
    ratio = grid["distperp"] / grid["dist"]
    for pin in (n // 2, ok[0], ok[-1]) if q["name"] != "star" else (n // 2, ok[0]):
        if pin not in ok:
            continue
        for ml in (None, np.where(np.arange(n) % 5 == 2, 200.0, 30.0)):
            p_ml = np.full(n, -np.inf) if ml is None else ml
            p0 = {"pin": 240.0, "isobaric": np.full(n, 260.0), "patchy": np.where((np.arange(n) % 4 == 1) & (np.arange(n) != pin), NAN, 300.0 + 2.0 * (np.arange(n) % 7))}[q["init"]]
            s, t, p = (np.full(n, NAN) for _ in range(3))
            for c in range(n):
                if not np.isscalar(p0) or c == pin:
                    p[c] = p0 if np.isscalar(p0) else p0[c]
                    s[c], t[c] = oc.at(c, p[c])
                    p[c] = p[c] if np.isfinite(s[c]) else NAN
            if np.isscalar(p0):
                s, t, p, _ = R.wet_perimeter(oc, adj, pin, s, t, p, p_ml)
            pin_p = p[pin]
            for solver in ("poisson", "gradient"):
                s1, t1, p1 = s, t, p
                for k in range(1, 5 if solver == "poisson" else 3):
                    info = dict(grid=q["name"], casts=n, eos=q["eos"], interp=q["kind"], pin=pin, init=q["init"], mixed_layer=ml is not None, solver=solver, iteration=k)
                    ctx.tick(info)
                    w = R.step(oc, edges, adj, ratio, pin, pin_p, s1, t1, p1, k == 1, k >= 2, p_ml)
                    kw = {} if ml is None else dict(p_ml=ml.copy())
                    got = omega_surf(S, T, P, grid, (pin,), p0 if np.isscalar(p0) else p0.copy(), eos=CUSTOM.get(q["eos"], q["eos"]), interp=q["kind"], diags=True,
                                     output=False, TOL_P_SOLVER=TOLP, TOL_LRPD_MAV=0.0, ITER_MAX=k, ITER_START_WETTING=2, ITER_STOP_WETTING=9, OMEGA_FORMULATION=solver, **kw)
                    if w["tie"]:
                        ctx.outcome("tie, skipped")
                        break
                    g = got[2]
                    bad = np.flatnonzero(np.isnan(g) != np.isnan(w["p"]))
                    if bad.size:
                        ctx.fail("an iteration puts the wrong casts on the surface", cast=bad[0], got=g, want=w["p"], before=p1, **info)
                    err = np.nanmax(abs(g - w["p"]))
                    if not err <= (1e-4 if solver == "poisson" else 0.05):
                        ctx.fail("an iteration moves the surface wrongly", error=err, got=g, want=w["p"], before=p1, **info)
                    on = np.array([oc.at(c, g[c]) for c in range(n)])
                    ctx.check(close(got[0], on[:, 0], 0, 1e-7) and close(got[1], on[:, 1], 0, 1e-6), "s, t are not those of the casts at p", **info)
                    rms, mav = R.norms(oc, edges, grid["dist"], grid["distperp"], *got[:3])
                    d = got[3]
                    es = abs(float(oc.eos_s_t(34.5, 5.0, 100.0)[0]))
                    ctx.check(abs(d["e_RMS"][k] - rms) <= 1e-7 * rms + 1e-9 * es and abs(d["e_MAV"][k] - mav) <= 1e-7 * mav + 1e-9 * es
                              and d["n_wet"][k] == np.isfinite(g).sum() and d["n_newly_wet"][k] == w["new"], "diagnostics of an iteration",
                              got=(d["e_RMS"][k], d["e_MAV"][k], d["n_wet"][k], d["n_newly_wet"][k]), want=(rms, mav, np.isfinite(g).sum(), w["new"]), **info)
                    s1, t1, p1 = got[:3]
                    ctx.count(states=1, transitions=1, validated=n)
                    ctx.outcome("large, %d casts, new %d" % (np.isfinite(g).sum(), w["new"]))
    ctx.sample(info)


def run(ctx, q):
    if q["m"] == "big":
        return big(ctx, q)
    if q["m"] == "it":
        oc = OC[q["eos"], q["kind"]]
        es = [PAIRS[i] for i in range(6) if q["g"] >> i & 1]
        es = [(y, x) if i % 2 else (x, y) for i, (x, y) in enumerate(es)]
        grid = grid_of(es)
        for init, win, ml, rep in itertools.product(INITS, WINDOWS, MIXED, (BIG, 1)):
            if rep == 1 and win not in ((1, 5), (2, 2)):
                continue
            info = dict(eos=q["eos"], interp=q["kind"], edges=es, init=init, wetting=win, mixed_layer=ml, passes=rep)
            if ml == "array" and init == "deep pin" and INITS[init] < 25:
                continue
            ctx.tick(info)
            r = prefix(ctx, oc, q["eos"], q["kind"], grid, init, win, ml, rep, "poisson", info)
            if r is None:
                ctx.outcome("tie, skipped")
        ctx.sample(info)
    elif q["m"] == "ctl":
        control(ctx, q)
    else:
        from neutralocean.mixed_layer import mixed_layer

        grid = grid_of([(0, 1), (1, 2), (2, 3), (3, 0)])
        for eos in EOSES:
            for par in (dict(pot_dens_diff=0.03, ref_p=0.0), dict(pot_dens_diff=0.3, bottle_index=0), dict(pot_dens_diff=0.6, ref_p=100.0, bottle_index=0)):
                ctx.tick((eos, par))
                ml = mixed_layer(S, T, P, eos=CUSTOM[eos][0] if eos in CUSTOM else eos, **par)
                a = call(eos, "linear", grid, "pin", ITER_MAX=3, p_ml=dict(par))
                b = call(eos, "linear", grid, "pin", ITER_MAX=3, p_ml=ml)
                ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[:3], b[:3])), "mixed layer by parameters differs from the computed one",
                          eos=eos, parameters=par, got=a[2], want=b[2])
                ctx.count(states=1, transitions=2, validated=3)


def control(ctx, q):
    eos, init = q["eos"], q["init"]
    es = dict(path=[(0, 1), (2, 1), (2, 3)], cycle=[(0, 1), (1, 2), (3, 2), (3, 0)], star=[(0, 1), (2, 0), (0, 3)])[q["name"]]
    grid = grid_of(es)
    kind = "linear"
    oc = OC[eos, kind]
    unit = 1e6 if eos in ("vol", "gsw") and float(oc.eos(34.5, 3.0, 1000.0)) < 1 else 1.0
    for solver in ("poisson", "gradient"):
        for win in ((1, 5), (2, 2)):
            info = dict(eos=eos, edges=es, init=init, wetting=win, solver=solver)
            ctx.tick(info)
            r = prefix(ctx, oc, eos, kind, grid, init, win, "none", BIG, solver, info)
            if r is None:
                continue
            surf, d, kw = r
            phi, dp = np.asarray(d["ϕ_MAV"]), np.asarray(d["Δp_RMS"])

            def thresholds(x, u, tiny):
                out = [0.0]
                for i, j in ((1, 2), (2, 3)):
                    a, b = x[i], x[j]
                    if max(a, b) > tiny:
                        out.append(np.sqrt(max(a, tiny / 10) * max(b, tiny / 10)) * u)
                return out + [1e30]

            for tl, tp in itertools.product(thresholds(phi, unit, 1e-9 / unit), thresholds(dp, 1.0, 1e-4)):
                if any(abs(np.log(max(x, 1e-300) * unit / tl)) < 0.05 for x in phi[1:]) if tl > 0 else False:
                    continue
                if any(abs(np.log(max(x, 1e-300) / tp)) < 0.05 for x in dp[1:]) if tp > 0 else False:
                    continue
                for mn, mx in itertools.product((1, 2, 4), (1, 2, 3, 5)):
                    stop = mx
                    for k in range(1, mx + 1):
                        if k >= mn and (phi[k] * unit < tl or dp[k] < tp):
                            stop = k
                            break
                    c = dict(TOL_LRPD_MAV=tl, TOL_P_CHANGE_RMS=tp, ITER_MIN=mn, ITER_MAX=mx)
                    ctx.tick(dict(info, control=c))
                    s, t, p, dd = call(eos, kind, grid, init, **{**kw, **c})
                    made = len(dd["e_RMS"]) - 1
                    ctx.check(made == stop, "iterations did not stop when they should", got=made, want=stop, density_change=phi * unit, pressure_change=dp, control=c, **info)
                    ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip((s, t, p), surf[stop])),
                              "the surface returned is not that of the last iteration", got=p, want=surf[stop][2], control=c, **info)
                    ctx.check(all(np.array_equal(dd[nm], d[nm][:stop + 1], equal_nan=True) for nm in NAMES if "timer" not in nm),
                              "diagnostics depend on the stopping rule", control=c, **info)
                    ctx.count(states=1, transitions=1, validated=3)
                    if mx >= 3:
                        s2, t2, p2, d2 = call(eos, kind, grid, init, **{**kw, **c, "diags": False})
                        ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip((s2, t2, p2), (s, t, p))) and not d2,
                                  "diagnostics change the surface", got=p2, want=p, control=c, **info)
                        ctx.count(transitions=1, validated=1)
                    ctx.outcome("stopped after %d of at most %d" % (stop, mx))
            # printing changes nothing
            with contextlib.redirect_stdout(io.StringIO()):
                s2, t2, p2, d2 = call(eos, kind, grid, init, **{**kw, "ITER_MAX": K, "output": True})
            ctx.check(np.array_equal(p2, surf[K][2], equal_nan=True) and len(d2["e_RMS"]) == K + 1, "printing changes the surface", **info)
    ctx.sample(dict(info, density_change=phi, pressure_change=dp))
