"""One omega iteration, against dense least squares and bisection."""
import itertools

import numpy as np

from mc import omega as R
from mc.interp import NAN
from mc.ocean import CUSTOM

BOUNDS = (
    "every graph on 2-3 casts (self loops and double edges included) x every initial surface over 3 pressures "
    "and NaN x every pin x 7 forms of distances x both solver choices x 4 equations of state x both interpolants; "
    "every graph on 4 casts x initial surfaces over 2 pressures and NaN x every pin x both solvers x 3 "
    "configurations (all 5-cast graphs in thorough); one iteration without wetting.  states = (graph, surface, pin, "
    "configuration), transitions = iterations executed, validated = casts compared with the model."
)
ASSUMES = ["casts are stably stratified, so that a density occurs once on a cast"]

P = np.array([0.0, 100.0, 300.0, 800.0])
S = np.array([
    [34.0, 34.5, 35.0, 35.5], [34.2, 34.6, 35.1, 35.6], [34.1, 34.7, 35.2, 35.3],
    [33.9, 34.6, 35.0, 35.4], [34.3, 34.4, 35.2, 35.2],
])
T = np.array([
    [20.0, 14.0, 8.0, 3.0], [18.0, 13.0, 8.0, 4.0], [19.0, 12.0, 7.0, 5.0],
    [21.0, 13.0, 6.0, 2.0], [17.0, 12.0, 9.0, 2.5],
])
PI = (90.0, 250.0, 560.0)
EOSES = ("lin", "thermo", "vol", "gsw")
TOLP = 1e-8
W = [0.5, 3.0, 1.25, 7.0, 0.2, 2.0, 4.0, 1.0, 0.75, 5.0, 2.5, 1.1]
V = [2.0, 0.8, 5.0, 1.0, 3.0, 0.6, 1.5, 2.2, 0.9, 4.0, 1.3, 0.7]


def distances(form, E):
    """(grid entries, dist, distperp)"""
    d, w = np.array(V[:E]), np.array(W[:E])
    one = np.ones(E)
    return {
        "omitted": ({}, one, one),
        "scalars": (dict(dist=2.0, distperp=3.0), 2 * one, 3 * one),
        "arrays": (dict(dist=d, distperp=w), d, w),
        "lists": (dict(dist=d.tolist(), distperp=w.tolist()), d, w),
        "dist": (dict(dist=d), d, one),
        "distperp": (dict(distperp=w), one, w),
        "mixed": (dict(dist=d, distperp=1.5), d, 1.5 * one),
    }[form]


FORMS = ("omitted", "scalars", "arrays", "lists", "dist", "distperp", "mixed")


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def graphs(n, multi):
    P_ = pairs(n)
    for g in range(1 << len(P_)):
        es = [P_[i] for i in range(len(P_)) if g >> i & 1]
        # a mixture of orientations
        yield [(y, x) if (i + g) % 3 == 1 else (x, y) for i, (x, y) in enumerate(es)]
    if multi:
        loops = [(0, 0), (n - 1, n - 1)]
        for extra in ([(0, 1)], [(1, 0)], [(0, 1), (0, 1)], [(1, 0), loops[0]], [loops[1]]):
            for base in ([], [(0, 1)], [(x, x + 1) for x in range(n - 1)]):
                yield base + extra


def tasks(tier):
    t = []
    for n in (2, 3):
        for eos in EOSES:
            for kind in ("linear", "pchip"):
                for form in FORMS:
                    t.append(("%d casts %s %s, distances %s" % (n, eos, kind, form), dict(n=n, eos=eos, kind=kind, forms=[form], multi=True, pi=PI)))
    confs = (("thermo", "linear", "arrays"), ("gsw", "pchip", "omitted"), ("lin", "pchip", "distperp"))
    for eos, kind, form in confs:
        for g in range(0, 64, 4):
            t.append(("4 casts %s %s from graph %d" % (eos, kind, g), dict(n=4, eos=eos, kind=kind, forms=[form], multi=False, pi=PI[:2], g=(g, g + 4))))
    if tier == "thorough":
        for eos, kind, form in confs[:2]:
            for g in range(0, 1024, 8):
                t.append(("5 casts %s %s from graph %d" % (eos, kind, g), dict(n=5, eos=eos, kind=kind, forms=[form], multi=False, pi=PI[1:], g=(g, g + 8))))
    return t


def eos_of(name):
    if name in CUSTOM:
        return CUSTOM[name]
    from neutralocean.eos.tools import make_eos, make_eos_s_t

    return make_eos(name), make_eos_s_t(name)


OC = {}


def warm(ctx, tier):
    global omega_surf
    from neutralocean.surface import omega_surf

    for eos in EOSES:
        for kind in ("linear", "pchip"):
            ctx.tick((eos, kind))
            for n in (2, 3, 4, 5):
                OC[eos, kind, n] = R.Ocean(S[:n], T[:n], P, eos, kind, eos_of(eos))
            oc = OC[eos, kind, 2]
            call(np.array([90.0, 250.0]), 0, dict(edges=(np.array([0]), np.array([1]))), 2, eos, kind, "poisson")
            R.step(oc, ([0], [1]), [[1], [0]], np.ones(1), 0, 90.0, np.array([oc.at(0, 90.0)[0], oc.at(1, 250.0)[0]]),
                   np.array([oc.at(0, 90.0)[1], oc.at(1, 250.0)[1]]), np.array([90.0, 250.0]), True, False, np.full(2, -np.inf))


def call(p, pin, grid, n, eos, kind, form, **kw):
    return omega_surf(S[:n], T[:n], P, grid, (pin,), p, eos=CUSTOM[eos] if eos in CUSTOM else eos, interp=kind,
                      diags=False, output=False, ITER_MAX=1, ITER_START_WETTING=9, TOL_P_SOLVER=TOLP,
                      OMEGA_FORMULATION=form, **kw)[:3]


def run(ctx, q):
    n, eos, kind = q["n"], q["eos"], q["kind"]
    oc = OC[eos, kind, n]
    G = list(graphs(n, q["multi"]))
    if "g" in q:
        G = G[q["g"][0]:q["g"][1]]
    surfaces = list(itertools.product(tuple(q["pi"]) + (NAN,), repeat=n))
    pml = np.full(n, -np.inf)
    worst = 0.0
    out = {}
    for es in G:
        edges = (np.array([x for x, _ in es], int), np.array([y for _, y in es], int))
        adj = R.neighbours(edges, n)
        for form in q["forms"]:
            extra, dist, perp = distances(form, len(es))
            grid = dict(edges=edges, **extra)
            if form == "lists":
                grid["edges"] = [e.tolist() for e in edges] if es else edges
            for p0 in surfaces:
                p0 = np.array(p0)
                st = np.array([oc.at(c, p0[c]) for c in range(n)])
                for pin in range(n):
                    if np.isnan(p0[pin]):
                        continue
                    info = dict(casts=n, edges=es, distances=form, p_init=p0, pin=pin, eos=eos, interp=kind)
                    ctx.tick(info)
                    w = R.step(oc, edges, adj, perp / dist, pin, p0[pin], st[:, 0], st[:, 1], p0, True, False, pml)
                    ctx.count(states=1)
                    if w["tie"]:
                        ctx.outcome("tie at the end of a cast, skipped")
                        continue
                    for solver in ("poisson", "gradient"):
                        s, t, p = call(p0, pin, grid, n, eos, kind, solver)
                        tol = 2e-5 if solver == "poisson" else 2e-2
                        ctx.check(np.array_equal(np.isnan(p), np.isnan(w["p"])), "wrong casts on the surface after an iteration",
                                  solver=solver, got=p, want=w["p"], **info)
                        err = np.nanmax(abs(p - w["p"]))
                        worst = max(worst, err) if solver == "poisson" else worst
                        if not err <= tol:
                            ctx.fail("the update is not the weighted least-squares one", solver=solver, got=p, want=w["p"], phi=w["phi"], **info)
                        ctx.check(p[pin] == p0[pin], "the pin moved", solver=solver, got=p, **info)
                        on = np.array([oc.at(c, p[c]) for c in range(n)])
                        ok = np.isfinite(p)
                        ctx.check(np.array_equal(np.isfinite(s), ok) and np.array_equal(np.isfinite(t), ok), "s, t, p differ in their missing casts",
                                  solver=solver, got=(s, t, p), **info)
                        ctx.check(np.all(abs(s - on[:, 0])[ok] < 1e-7) and np.all(abs(t - on[:, 1])[ok] < 1e-6),
                                  "s, t are not those of the casts at p", solver=solver, got=(s, t, p), want=on, **info)
                        ctx.count(transitions=1, validated=n)
                    k = (int(np.isfinite(p0).sum()), int(np.isfinite(w["p"]).sum()))
                    out[k] = out.get(k, 0) + 1
    for k, v in out.items():
        ctx.outcome("%d casts on the surface before, %d after" % k, v)
    ctx.sample(dict(info, after=w["p"], worst_error=worst))
