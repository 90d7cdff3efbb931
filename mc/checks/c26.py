"""The numbering of casts, the order and direction of edges, and unrelated casts do not matter."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.checks.c13 import DIST, OCEANS4, P, PERP, POOL, eosarg

BOUNDS = (
    "4 casts in 3 versions (short cast, light cast, dense cast, land): every graph x every numbering of its casts (24), every order of "
    "up to 3 edges (rotations and reversal beyond), every choice of direction of its edges, edges listed twice with half the width, with unconnected casts before "
    "and after, with all distances or widths doubled, and with the other connected regions emptied; omega surfaces (pinned by a number or a given surface, both "
    "solvers, wetting on, with and without mixed layer; 4 iterations; oceans of 42 and 120 casts, renumbered, with edges reordered and reversed) and their diagnostics, neutrality-error norms, potential density surfaces and mixed layers.  states = "
    "variants of a problem, transitions = library calls, validated = casts compared."
)
ASSUMES = ["casts are stably stratified"]
PAIRS = list(itertools.combinations(range(4), 2))
ML = np.array([20.0, 40.0, 90.0, 30.0])


def tasks(tier):
    t = []
    for name in ("closed", "periodic", "random", "star", "wide"):
        for eos, kind, ml in (("thermo", "linear", False), ("gsw", "pchip", True)):
            for init in ("pin", "array"):
                t.append(("large %s %s %s" % (name, eos, init), dict(big=name, init=init, eos=eos, kind=kind, solver="poisson", ml=ml)))
    for o, oc in enumerate(OCEANS4):
        for init in ("pin", "array"):
            for eos, kind, solver, ml in (("thermo", "linear", "poisson", False), ("gsw", "pchip", "poisson", True), ("thermo", "linear", "gradient", False)):
                if solver == "gradient" and tier == "quick" and o:
                    continue
                for g in range(0, 64, 8):
                    t.append(("ocean %d %s %s %s graphs %d-" % (o, init, eos, solver, g), dict(o=o, init=init, eos=eos, kind=kind, solver=solver, ml=ml, g=g)))
    return t


def warm(ctx, tier):
    global omega, norms, pot, mixed
    from neutralocean.mixed_layer import mixed_layer as mixed
    from neutralocean.ntp import ntp_epsilon_errors_norms as norms
    from neutralocean.surface import omega_surf as omega, potential_surf as pot

    S, T = (np.array([POOL[k][v] for k in (0, 1)]) for v in (0, 1))
    g = dict(edges=(np.array([0]), np.array([1])))
    for eos, kind in (("thermo", "linear"), ("gsw", "pchip")):
        ctx.tick(eos)
        omega(S, T, P, g, (0,), 240.0, eos=eosarg(eos), interp=kind, output=False, ITER_MAX=2)
        pot(S, T, P, grid=g, pin_cast=(0,), pin_p=240.0, eos=eosarg(eos), interp=kind, output=False)
        mixed(S, T, P, eos=eosarg(eos)[0] if eos != "gsw" else eos)


def compute(q, S, T, X, es, dist, perp, pin, init, p_ml):
    edges = (np.array([x for x, _ in es], int), np.array([y for _, y in es], int))
    grid = dict(edges=edges, dist=np.asarray(dist, float), distperp=np.asarray(perp, float))
    kw = dict(eos=eosarg(q["eos"]), interp=q["kind"], output=False)
    ml = {} if p_ml is None else dict(p_ml=p_ml)
    s, t, p, d = omega(S, T, X, grid, (pin,), init, OMEGA_FORMULATION=q["solver"], ITER_MIN=4, ITER_MAX=4, TOL_LRPD_MAV=0.0, TOL_P_SOLVER=1e-10, **ml, **kw)
    a = pot(S, T, X, grid=grid, pin_cast=(pin,), pin_p=240.0, TOL_P_SOLVER=1e-10, **kw)
    e = q["eos"]
    m = mixed(S, T, X, eos=e if e == "gsw" else eosarg(e)[0], interp="linear")
    st = s.copy(), t.copy(), p.copy()
    return dict(s=s, t=t, p=p, a=a[2], m=m), dict(
        n_wet=d["n_wet"], n_newly_wet=d["n_newly_wet"], e_RMS=d["e_RMS"], e_MAV=d["e_MAV"], Linf=d["Δp_Linf"],
        norms=np.array(norms(*st, grid, kw["eos"][1] if e != "gsw" else e)), pot=np.array([a[3]["e_RMS"], a[3]["e_MAV"], a[3]["n_wet"]]))


def big(ctx, q):
    from mc.checks.c24 import big_grid, big_ocean

    n = 120 if q["big"] == "wide" else 42
    S, T, X = big_ocean(n)
    X = X + (np.arange(n) % 3)[:, None]
    gr = big_grid(q["big"], n)
    es = list(zip(*(e.tolist() for e in gr["edges"])))
    D, W = gr["dist"], gr["distperp"]
    E = len(es)
    ok = np.flatnonzero(np.isfinite(S[:, :6]).all(1))
    pin = int(ok[np.argmin(abs(ok - n // 2))])
    init = 260.0 if q["init"] == "pin" else 250.0 + 3.0 * (np.arange(n) % 9)
    p_ml = np.where(np.arange(n) % 5 == 2, 200.0, 30.0) if q["ml"] else None
    info = dict(task=q, pin=pin)
    ctx.tick(info)
    f0, d0 = compute(q, S, T, X, es, D, W, pin, init, p_ml)
    i, k = np.arange(n), np.arange(E)

    def variant(what, f1, d1, sel=slice(None)):
        for nm in f0:
            x, y = np.asarray(f1[nm])[sel], f0[nm]
            if not np.allclose(x, y, rtol=0, atol=1e-4 if nm in "pam" else 1e-5, equal_nan=True):
                j = int(np.argmax(~np.isclose(x, y, rtol=0, atol=1e-5, equal_nan=True)))
                ctx.fail(what, field=nm, cast=j, got=x[j], want=y[j], **info)
        for nm in d0:
            if not np.allclose(d1[nm], d0[nm], rtol=1e-5, atol=1e-8 if nm != "Linf" else 1e-4):
                ctx.fail(what, diagnostic=nm, got=d1[nm], want=d0[nm], **info)
        ctx.count(states=1, transitions=4, validated=5 * n)

    for pi in (i[::-1], (i * 5 + 3) % n if n % 5 else (i * 7 + 3) % n, np.roll(i, 11), np.argsort((i * i * 7 + i) % 101, kind="stable")):
        assert sorted(pi) == list(range(n))
        inv = np.argsort(pi)
        ctx.tick(dict(info, numbering=pi))
        r = compute(q, S[inv], T[inv], X[inv], [(int(pi[x]), int(pi[y])) for x, y in es], D, W, int(pi[pin]), init if np.isscalar(init) else init[inv], None if p_ml is None else p_ml[inv])
        variant("the numbering of casts matters", *r, sel=pi)
    for o in (k[::-1], np.roll(k, E // 2), np.argsort((k * k * 7 + k) % 101, kind="stable")):
        ctx.tick(dict(info, order=o))
        r = compute(q, S, T, X, [es[j] for j in o], D[o], W[o], pin, init, p_ml)
        variant("the order of edges matters", *r)
    for m in (1, 2, 3):
        ctx.tick(dict(info, reversed="every %d" % m))
        r = compute(q, S, T, X, [(y, x) if j % m == 0 else (x, y) for j, (x, y) in enumerate(es)], D, W, pin, init, p_ml)
        variant("the direction of edges matters", *r)
    ctx.outcome("large, %d casts on the surface" % np.isfinite(f0["p"]).sum())
    ctx.sample(dict(info, p=f0["p"]))


def run(ctx, q):
    if "big" in q:
        return big(ctx, q)
    ks = OCEANS4[q["o"]]
    S, T = (np.array([POOL[k][v] for k in ks]) for v in (0, 1))
    X = np.broadcast_to(P, S.shape) + np.array([0.0, 5.0, 0.0, 10.0])[:, None]
    pin = 0
    init = 240.0 if q["init"] == "pin" else np.array([240.0, 200.0, NAN, 260.0])
    p_ml = ML.copy() if q["ml"] else None
    loose = q["solver"] == "gradient"

    for g in range(q["g"], q["g"] + 8):
        es = [PAIRS[i] for i in range(6) if g >> i & 1]
        E = len(es)
        D, W = DIST[:E], PERP[:E]
        info = dict(task=q, edges=es)
        ctx.tick(info)
        f0, d0 = compute(q, S, T, X, es, D, W, pin, init, p_ml)

        def compare(what, f1, d1, sel=slice(None), diag=True, unit=1.0, **kw):
            tol = 2e-2 if loose else 2e-6
            for k in f0:
                x, y = np.asarray(f1[k])[sel], f0[k]
                if not np.allclose(x, y, rtol=0, atol=tol * (1 if k in "pam" else 0.05), equal_nan=True):
                    ctx.fail(what, field=k, got=x, want=y, **kw, **info)
            if diag:
                for k in d0:
                    x, y = np.asarray(d1[k]), d0[k]
                    if k in ("e_RMS", "e_MAV", "norms"):
                        x = x * unit
                    elif k == "pot":
                        x = x * np.array([unit, unit, 1.0])
                    if loose and k in ("e_RMS", "e_MAV", "Linf", "norms"):
                        ok = x.shape == y.shape
                    else:
                        ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-8 if k != "Linf" else 1e-6)
                    if not ok:
                        ctx.fail(what, diagnostic=k, got=x, want=y, **kw, **info)
            ctx.count(states=1, transitions=4, validated=5 * len(S))

        # numbering of the casts: cast c becomes number pi[c]
        for pi in itertools.permutations(range(4)):
            inv = np.argsort(pi)
            r = compute(q, S[inv], T[inv], X[inv], [(pi[x], pi[y]) for x, y in es], D, W, pi[pin],
                        init if np.isscalar(init) else init[inv], None if p_ml is None else p_ml[inv])
            compare("the numbering of casts matters", *r, sel=list(pi), numbering=pi)
        # order of the edges
        orders = list(itertools.permutations(range(E))) if E <= 3 else [tuple(np.roll(range(E), k)) for k in range(E)] + [tuple(range(E))[::-1]]
        for o in orders[1:] if E else []:
            o = list(o)
            r = compute(q, S, T, X, [es[i] for i in o], D[o], W[o], pin, init, p_ml)
            compare("the order of edges matters", *r, order=o)
        # their direction
        for m in range(1, 2**E):
            r = compute(q, S, T, X, [(y, x) if m >> i & 1 else (x, y) for i, (x, y) in enumerate(es)], D, W, pin, init, p_ml)
            compare("the direction of edges matters", *r, reversed=m)
        # an edge given twice with half its width each (the norms count areas, so they agree too)
        r = compute(q, S, T, X, es + [(y, x) for x, y in es], np.tile(D, 2), np.tile(W, 2) / 2, pin, init, p_ml)
        compare("splitting interfaces matters", *r)
        # units of the distances: only ratios matter to the surface; errors are per unit of distance
        r = compute(q, S, T, X, es, D * 2, W, pin, init, p_ml)
        compare("the unit of distance matters", *r, unit=2.0)
        r = compute(q, S, T, X, es, D, W * 2, pin, init, p_ml)
        compare("the unit of width matters", *r)
        # unconnected casts, before or after
        for extra in (0, 4):
            k = POOL[extra + 1]
            at0 = lambda Y, y: np.concatenate([[y], Y])
            at1 = lambda Y, y: np.concatenate([Y, [y]])
            for nm, f, off in (("before", at0, 1), ("after", at1, 0)):
                Y = f(X, P)
                i2 = init if np.isscalar(init) else f(init, NAN)
                r = compute(q, f(S, k[0]), f(T, k[1]), Y, [(x + off, y + off) for x, y in es], D, W, pin + off, i2, None if p_ml is None else f(p_ml, 10.0))
                r[1]["pot"] = d0["pot"]  # that surface exists on every cast
                compare("an unconnected cast matters", *r, sel=slice(off, off + 4), where=nm)
        # casts of the other regions may as well be land
        near = {pin}
        while True:
            new = {y for e_ in es for x, y in (e_, e_[::-1]) if x in near} - near
            if not new:
                break
            near |= new
        far = [c for c in range(4) if c not in near]
        if far:
            S2, T2 = S.copy(), T.copy()
            S2[far] = T2[far] = NAN
            r = compute(q, S2, T2, X, es, D, W, pin, init, p_ml)
            f0 = {k: np.where(np.isin(range(4), far), NAN, v) if k in "am" else v for k, v in f0.items()}
            # such casts are not on the omega surface, once it has been searched
            compare("casts of another region matter", *r, diag=False)
        ctx.outcome("%d casts on the surface" % np.isfinite(f0["p"]).sum())
    ctx.sample(dict(info, p=f0["p"]))
