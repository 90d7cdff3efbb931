"""A Boussinesq ocean in depth is the non-Boussinesq one at the hydrostatic pressure of each depth."""
import itertools

import numpy as np

from mc.checks.c13 import P, POOL

BOUNDS = (
    "3 built-in equations of state, 3 pairs of gravity and reference density, both interpolants (4 combinations, all 18 in thorough), given by name or as "
    "functions made by the factories, x every ocean of 3 casts out of 6 kinds: potential density surfaces (2 references, pinned or not, 3 pins), anomaly "
    "surfaces, omega surfaces (pinned by number or given surface, both solvers, every graph, with diagnostics), mixed layers, neutral links and trajectories, Veronis "
    "density, neutrality errors and norms, and the functions of every factory (also the derivative with depth), all in depth and in pressure; and "
    "oceans of 42 and 120 casts with mixed layers, given or computed.  states = problems, transitions = "
    "library calls, validated = values compared."
)
ASSUMES = ["casts are stably stratified"]
EOSES = ("gsw", "jmd95", "jmdfwg06")
CONST = [(9.81, 1027.5), (9.7963, 1035.0), (10.0, 1000.0)]


def tasks(tier):
    if tier == "quick":  # few, large tasks: each compiles its own configuration
        conf = [("gsw", 1, "linear"), ("gsw", 0, "pchip"), ("jmd95", 2, "linear"), ("jmdfwg06", 1, "linear")]
    else:
        conf = [(e, c, k) for e in EOSES for c in range(3) for k in ("linear", "pchip")]
    big = [("large %s %s %s" % (b, e, k), dict(eos=e, c=c, kind=k, big=b)) for e, c, k in conf[:: 1 if tier == "thorough" else 3] for b in ("random", "wide")]
    return big + [("%s %s constants %d first cast %s" % (e, k, c, h), dict(eos=e, c=c, kind=k, k=h)) for e, c, k in conf for h in ((0, 3, 4), (1, 2, 5))]


def large(ctx, q):
    """An ocean of many casts, with everything that omega surfaces offer."""
    from mc.checks.c24 import big_grid, big_ocean

    g, rho = CONST[q["c"]]
    f = 1e-4 * g * rho
    n = 120 if q["big"] == "wide" else 42
    S, T, Z = big_ocean(n)
    Z = np.array(Z, float)
    grid = big_grid(q["big"], n)
    pin = int(np.nonzero(np.isfinite(S).sum(-1) == S.shape[-1])[0][n // 5])
    zp = float(0.4 * np.nanmax(Z))
    deep, plain = dict(eos=q["eos"], grav=g, rho_c=rho), dict(eos=q["eos"])
    kw = dict(interp=q["kind"], output=False, TOL_P_SOLVER=1e-9)
    info = dict(task=q)

    def same(what, a, b, scales, tol):
        for x, y, sc in zip(a, b, scales):
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.shape != y.shape or not np.allclose(x * sc, y, rtol=1e-8, atol=tol, equal_nan=True):
                ctx.fail(what, depth=x, pressure=y, per_depth=f, **info)
            ctx.count(validated=max(1, x.size))
        ctx.count(states=1, transitions=2)

    for fn, nm in ((pot, "potential density surface"), (ano, "anomaly surface")):
        ctx.tick(dict(info, what=nm))
        a, b = (fn(S, T, Z * u, grid=grid, pin_cast=(pin,), pin_p=zp * u, **e, **kw) for u, e in ((1.0, deep), (f, plain)))
        same(nm, a[:3], b[:3], (1, 1, f), 1e-5)
        same(nm + ": norms", [a[3]["e_RMS"], a[3]["e_MAV"]], [b[3]["e_RMS"], b[3]["e_MAV"]], (1, 1), 1e-9)
    ml = mixed(S, T, Z, ref_p=50.0, pot_dens_diff=0.2, interp=q["kind"], **deep)
    same("mixed layer", [ml], [mixed(S, T, Z * f, ref_p=50.0 * f, pot_dens_diff=0.2, interp=q["kind"], **plain)], (f,), 1e-5)
    for init in (zp, np.asarray(a[2])):
        for layer in (None, dict(pot_dens_diff=0.2, ref_p=50.0), ml):
            for solver in ("poisson", "gradient"):
                ctx.tick(dict(info, mixed_layer=layer is not None, solver=solver))
                out = []
                for u, e in ((1.0, deep), (f, plain)):
                    l = dict(layer, ref_p=50.0 * u) if isinstance(layer, dict) else layer if layer is None else layer * u
                    out.append(omega(S, T, Z * u, grid, (pin,), init * u, p_ml=l, OMEGA_FORMULATION=solver, ITER_MIN=3, ITER_MAX=3, TOL_LRPD_MAV=0.0, **e, **kw))
                tol = 1e-4 if solver == "poisson" else 3e-2
                same("omega surface", out[0][:3], out[1][:3], (1, 1, f), tol)
                if solver == "poisson":
                    ks = ("e_RMS", "e_MAV", "n_wet", "n_newly_wet", "Δp_RMS", "Δp_MAV", "Δp_Linf", "ϕ_MAV")
                    same("diagnostics of an omega surface", [out[0][3][k] for k in ks], [out[1][3][k] for k in ks], (1, 1, 1, 1, f, f, f, 1), 1e-4)
                ctx.outcome("large, %d casts with the surface" % np.isfinite(out[0][2]).sum())
    ctx.sample(info)


def warm(ctx, tier):
    global pot, ano, omega, mixed, link, traj, veronis, errs, norms, make_eos, make_eos_s_t, make_eos_p
    from neutralocean.eos import make_eos, make_eos_s_t
    from neutralocean.eos.tools import make_eos_p
    from neutralocean.label import veronis
    from neutralocean.mixed_layer import mixed_layer as mixed
    from neutralocean.ntp import ntp_epsilon_errors as errs, ntp_epsilon_errors_norms as norms
    from neutralocean.surface import anomaly_surf as ano, omega_surf as omega, potential_surf as pot
    from neutralocean.traj import neutral_trajectory as traj, ntp_bottle_to_cast as link


def run(ctx, q):
    if "big" in q:
        return large(ctx, q)
    g, rho = CONST[q["c"]]
    f = 1e-4 * g * rho  # pressure per depth
    kind = q["kind"]
    ways = {
        "name": (dict(eos=q["eos"], grav=g, rho_c=rho),) * 2,
        "functions": (dict(eos=(make_eos(q["eos"], g, rho), make_eos_s_t(q["eos"], g, rho))), dict(eos=make_eos(q["eos"], g, rho))),
    }
    plain = (dict(eos=q["eos"]),) * 2
    pr = [(0, 1), (2, 1), (0, 2)]
    z = P.astype(float)
    for k0, *rest in itertools.product(q["k"], range(len(POOL)), range(len(POOL))):
        ks = (k0, *rest)
        S, T = (np.array([POOL[k][v] for k in ks]) for v in (0, 1))
        Z = z + np.array([0.0, 5.0, 10.0])[:, None]
        first = next((c for c in range(3) if np.isfinite(S[c, 1])), None)
        for way, (full, single) in ways.items():
            if way == "functions" and rest[0] != rest[1]:
                continue
            info = dict(task=q, casts=ks, given_as=way)

            def same(what, a, b, scales, tol=1e-6):
                """b: with pressures; scales: factor from depth to pressure of each result."""
                for x, y, sc in zip(a, b, scales):
                    x, y = np.asarray(x, float), np.asarray(y, float)
                    if x.shape != y.shape or not np.allclose(x * sc, y, rtol=1e-9, atol=tol, equal_nan=True):
                        ctx.fail(what, depth=x, pressure=y, per_depth=f, **info)
                    ctx.count(validated=max(1, x.size))
                ctx.count(states=1, transitions=2)

            ctx.tick(info)
            kw = dict(interp=kind, output=False, TOL_P_SOLVER=1e-9)
            grid = dict(edges=(np.array([x for x, _ in pr]), np.array([y for _, y in pr])), dist=np.array([2.0, 0.5, 3.0]), distperp=np.array([1.0, 4.0, 0.7]))
            if first is not None:
                for zp in (60.0, 240.0):
                    for ref in (None, 0.0, 700.0):
                        a, b = (pot(S, T, X, grid=grid, ref=None if ref is None else ref * u, pin_cast=(first,), pin_p=zp * u, **e, **kw)
                                for X, u, e in ((Z, 1.0, full), (Z * f, f, plain[0])))
                        same("potential density surface", a[:3], b[:3], (1, 1, f))
                        same("diagnostics of a potential density surface", [a[3][k] for k in ("e_RMS", "e_MAV", "n_wet", "isoval", "ref")],
                             [b[3][k] for k in ("e_RMS", "e_MAV", "n_wet", "isoval", "ref")], (1, 1, 1, 1, f), 1e-9)
                    a, b = (ano(S, T, X, grid=grid, pin_cast=(first,), pin_p=zp * u, **e, **kw) for X, u, e in ((Z, 1.0, full), (Z * f, f, plain[0])))
                    same("anomaly surface", a[:3], b[:3], (1, 1, f))
                    same("norms of an anomaly surface", [a[3]["e_RMS"], a[3]["e_MAV"]], [b[3]["e_RMS"], b[3]["e_MAV"]], (1, 1), 1e-9)
                # omega surfaces
                for gr in range(8) if rest[0] <= rest[1] else (7,):
                    m = [i for i in range(3) if gr >> i & 1]
                    grid = dict(edges=(np.array([pr[i][0] for i in m], int), np.array([pr[i][1] for i in m], int)), dist=np.array([2.0, 0.5, 3.0])[m])
                    for init, solver in ((240.0, "poisson"), (np.full(3, 200.0), "poisson"), (240.0, "gradient")):
                        out = []
                        for X, u, e in ((Z, 1.0, full), (Z * f, f, plain[0])):
                            o = omega(S, T, X, grid, (first,), init * u, OMEGA_FORMULATION=solver, ITER_MIN=3, ITER_MAX=3, TOL_LRPD_MAV=0.0, **e, **kw)
                            out.append(o)
                        tol = 1e-5 if solver == "poisson" else 1e-2
                        same("omega surface", out[0][:3], out[1][:3], (1, 1, f), tol)
                        if solver == "poisson":
                            same("diagnostics of an omega surface", [out[0][3][k] for k in ("e_RMS", "e_MAV", "n_wet", "Δp_RMS", "ϕ_MAV")],
                                 [out[1][3][k] for k in ("e_RMS", "e_MAV", "n_wet", "Δp_RMS", "ϕ_MAV")], (1, 1, 1, f, 1), 1e-5)
                grid = dict(edges=(np.array([x for x, _ in pr]), np.array([y for _, y in pr])), dist=np.array([2.0, 0.5, 3.0]), distperp=np.array([1.0, 4.0, 0.7]))
                s, t, p = np.asarray(a[0]), np.asarray(a[1]), np.asarray(a[2])
                es = dict(eos_s_t=q["eos"], grav=g, rho_c=rho) if way == "name" else dict(eos_s_t=full["eos"][1])
                same("neutrality errors", [errs(s, t, p, grid, **es)], [errs(s, t, p * f, grid, eos_s_t=q["eos"])], (1,), 1e-12)
                same("norms", [norms(s, t, p, grid, **es)], [norms(s, t, p * f, grid, eos_s_t=q["eos"])], (1,), 1e-12)
            for dz in (0.03, 0.3):
                for ref in (100.0, 1500.0):
                    a, b = (mixed(S, T, X, pot_dens_diff=dz, ref_p=ref * u, **e) for X, u, e in ((Z, 1.0, single), (Z * f, f, plain[1])))
                    same("mixed layer", [a], [b], (f,), 1e-5)
            for z0 in (60.0, 300.0):
                a, b = (traj(S, T, X, z0 * u, tol_p=1e-9, interp=kind, **e) for X, u, e in ((Z, 1.0, single), (Z * f, f, plain[1])))
                same("neutral trajectory", a, b, (1, 1, f))
                for c in range(3):
                    a, b = (link(34.6, 11.0, z0 * u, S[c], T[c], X[c], tol_p=1e-9, interp=kind, **e) for X, u, e in ((Z, 1.0, single), (Z * f, f, plain[1])))
                    same("neutral link", a, b, (1, 1, f))
                    if c == 0:
                        for z1 in (150.0, 790.0):
                            if np.isfinite(S[c]).sum() > 1 and np.isfinite(S[c, 0]):
                                a, b = (veronis(z1 * u, S[c], T[c], X[c], p0=z0 * u, p_ref=10.0 * u, dp=7.0 * u, interp=kind, **e) for X, u, e in ((Z, 1.0, full), (Z * f, f, plain[0])))
                                same("Veronis density", [a], [b], (1,), 1e-9)
            if way == "name" and rest[0] == rest[1]:
                # the functions themselves, by every factory; also on scalars and arrays of casts
                for c in range(3):
                    for k in range(S.shape[1]):
                        if np.isnan(S[c, k] + Z[c, k]):
                            continue
                        same("function", make_eos_s_t(q["eos"], g, rho)(S[c, k], T[c, k], Z[c, k]),
                             make_eos_s_t(q["eos"])(S[c, k], T[c, k], Z[c, k] * f), (1, 1), 1e-15)
                        same("function", [make_eos(q["eos"], g, rho)(S[c, k], T[c, k], Z[c, k])], [make_eos(q["eos"])(S[c, k], T[c, k], Z[c, k] * f)], (1,), 1e-15)
                        same("derivative with depth", [make_eos_p(q["eos"], g, rho)(S[c, k], T[c, k], Z[c, k])],
                             [make_eos_p(q["eos"])(S[c, k], T[c, k], Z[c, k] * f) * f], (1,), 1e-16)
            ctx.outcome("%d casts with the surface" % np.isfinite(p).sum() if first is not None else "no ocean")
    ctx.sample(info)
