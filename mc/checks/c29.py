"""Options left out have their documented defaults, in every combination and form of call."""
import contextlib
import io
import itertools

import numpy as np

from mc.interp import NAN

BOUNDS = (
    "every documented option of 18 entry points (surfaces, mixed layer, links, trajectories, labels, errors, stability, synthetic ocean, "
    "grids, graphs, interpolation, helpers): every subset of up to 8 options given with their documented defaults (for omega surfaces, all 128 "
    "subsets of the iteration options and every one, two, all but one or all of its 16 options), on up to 6 oceans, and every split into positional and keyword "
    "arguments where the order is part of the interface; grids without distances; what is printed.  Evidence lists for each option whether another value "
    "of it changes the result on these inputs.  states = (input, options given), transitions = calls, validated = results compared."
)
ASSUMES = []
P = np.array([0.0, 100.0, 300.0, 800.0, 1500.0])
S0 = np.array([34.0, 34.4, 34.9, 35.3, 35.6])
T0 = np.array([20.0, 15.0, 9.0, 5.0, 2.0])
A, B = np.array([0, 0, 1, 0, 3, 4, 1, 2]), np.array([1, 2, 2, 3, 4, 5, 5, 4])
GRID = dict(edges=(A, B), dist=np.array([1.0, 2, 0.5, 1, 3, 1, 0.25, 1]), distperp=np.array([1.0, 2, 3, 4, 1, 2, 1, 0.5]))
# Top salinities and temperatures of 6 casts, and mixed layers: with these, a cast leaves and joins the surface in every iteration.
OCEANS = [
    ([34.1, 33.77, 34.1, 34.2, 34.27, 34.34], [17.7, 19.2, 18.6, 19.9, 18.8, 20.5], [0.0, 20, 30, 360, 320, 120]),
    ([34.49, 34.08, 33.89, 33.87, 34.16, 34.29], [20.1, 21.4, 18.2, 19.2, 19.0, 18.7], [0.0, 180, 390, 280, 780, 40]),
    ([34.17, 33.71, 33.9, 34.42, 34.13, 34.2], [16.8, 20.0, 23.8, 19.6, 20.1, 17.9], [0.0, 200, 310, 600, 590, 190]),
]
KINDS = ("omega", "isopycnal", "mixed layer", "link", "trajectory", "veronis", "errors", "stability", "synthetic", "grids", "arrays")


def tasks(tier):
    t = [("omega ocean %d %s" % (o, m), dict(k="omega", o=o, m=m)) for o in range(len(OCEANS)) for m in ("plain", "mixed layer", "from pin")]
    t += [("isopycnal %s ocean %d" % (f, o), dict(k="isopycnal", o=o, f=f)) for f in ("potential", "anomaly") for o in range(3)]
    return t + [(k, dict(k=k)) for k in KINDS[2:]]


def warm(ctx, tier):
    import neutralocean.surface  # noqa


def ocean(o, missing=True):
    S = S0 + (np.array(OCEANS[o][0]) - 34.0)[:, None]
    T = T0 + (np.array(OCEANS[o][1]) - 20.0)[:, None]
    if missing:
        S[5, 4] = T[5, 4] = NAN
    return S, T


def leaves(r, path=""):
    if isinstance(r, dict):
        for k in sorted(r):
            if "timer" not in k:
                yield from leaves(r[k], path + "/" + k)
    elif isinstance(r, (tuple, list)):
        for i, x in enumerate(r):
            yield from leaves(x, path + "/%d" % i)
    elif hasattr(r, "toarray"):
        yield path, r.toarray()
    else:
        yield path, np.asarray(r)


def differ(a, b):
    a, b = list(leaves(a)), list(leaves(b))
    if [k for k, _ in a] != [k for k, _ in b]:
        return "other fields"
    for (k, x), (_, y) in zip(a, b):
        if x.dtype.kind in "US" or y.dtype.kind in "US":
            if x != y:
                return k
        elif x.shape != y.shape or not np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True):
            return k
    return None


def subsets(names, most=8):
    if len(names) <= most:
        return [c for n in range(len(names) + 1) for c in itertools.combinations(names, n)]
    return [c for n in (1, 2, len(names) - 1, len(names)) for c in itertools.combinations(names, n)]


def explore(ctx, what, call, defaults, others=None, extra=(), info=None):
    """call(**given) is the same for every choice of documented defaults given."""
    info = dict(info or {}, function=what)
    ctx.tick(info)
    base = call()
    for given in subsets(list(defaults)) + list(extra):
        ctx.tick(dict(info, given=given))
        r = call(**{k: defaults[k] for k in given})
        k = differ(base, r)
        if k is not None:
            ctx.fail("giving the documented default of an option changes the result", given={k: str(defaults[k])[:80] for k in given}, field=k,
                     got=dict(leaves(r)).get(k), without=dict(leaves(base)).get(k), **info)
        ctx.count(states=1, transitions=1, validated=1)
    for k, v in (others or {}).items():
        try:
            d = differ(base, call(**{k: v}))
        except Exception:
            d = "refused"
        ctx.outcome("%s: %s=%s %s" % (what, k, str(v)[:20], "has no effect here" if d is None else "matters"))
    return base


def positional(ctx, what, fn, first, order, defaults, values):
    """Options may be given by position, in the order of the signature."""
    full = {k: values[k] if k in values else defaults[k] for k in order}
    want = fn(*first, **full)
    for n in range(len(order) + 1):
        ctx.tick(dict(function=what, positional=order[:n]))
        r = fn(*first, *(full[k] for k in order[:n]), **{k: full[k] for k in order[n:]})
        ctx.check(differ(want, r) is None, "arguments by position and by keyword differ", function=what, positional=order[:n], got=r, want=want)
        ctx.count(states=1, transitions=1, validated=1)


def run(ctx, q):
    globals()[q["k"].replace(" ", "_")](ctx, q)
    ctx.sample(q)


PLAIN = dict(eos="gsw", grav=None, rho_c=None, interp="linear")
OTHER = dict(eos="jmd95", interp="pchip")
SURF = dict(PLAIN, vert_dim=-1, diags=True, output=True, TOL_P_SOLVER=1e-4)


def attempt(f):
    """The result, or that there is none (the pin is within the mixed layer)."""
    try:
        return f()
    except (RuntimeError, IndexError):
        return "refused"


def quiet(f):
    """The call, and what it prints, without its times."""

    def g(**kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = f(**kw)
        lines = out.getvalue().splitlines()
        return dict(result=r, lines=len(lines), printed=bool(out.getvalue()))

    return g


def omega(ctx, q):
    from neutralocean.surface import omega_surf

    S, T = ocean(q["o"])
    ml = np.array(OCEANS[q["o"]][2])
    more = dict(p_ml=ml) if q["m"] == "mixed layer" else {}
    init = 300.0 if q["m"] == "from pin" else np.full(6, 300.0)
    if q["m"] == "plain":
        init[[2, 5]] = NAN
    it = dict(ITER_MIN=1, ITER_MAX=10, ITER_START_WETTING=1, ITER_STOP_WETTING=5, TOL_LRPD_MAV=1e-7, TOL_P_CHANGE_RMS=0.0, OMEGA_FORMULATION="poisson")
    defaults = dict(it, **SURF)
    if not more:
        defaults["p_ml"] = None
    others = dict(OTHER, ITER_MIN=2, ITER_MAX=11, ITER_START_WETTING=2, ITER_STOP_WETTING=6, TOL_LRPD_MAV=1e-6, TOL_P_CHANGE_RMS=0.01,
                  OMEGA_FORMULATION="gradient", TOL_P_SOLVER=1.1e-4, diags=False, output=False, p_ml=ml + 200.0, grav=9.81)
    others.pop("p_ml") if more else None
    # also with one option changed, so that others matter
    for change in ({}, dict(TOL_LRPD_MAV=0.0), dict(ITER_MIN=9), dict(diags=False), dict(output=False), dict(OMEGA_FORMULATION="gradient")):
        c = dict(more, **change)
        d = {k: v for k, v in defaults.items() if k not in c}
        sub = [k for k in it if k in d]
        explore(ctx, "omega_surf", quiet(lambda **kw: omega_surf(S, T, P, GRID, (0,), init, **c, **kw)), d,
                {k: v for k, v in others.items() if k not in c}, subsets(sub) if not change else (), dict(q, with_=change))
    # options of the mixed layer, given in its place
    if q["m"] == "mixed layer":
        from neutralocean.mixed_layer import mixed_layer

        ml_def = dict(pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, interp="linear")
        surf = lambda p_ml: omega_surf(S, T, P, GRID, (0,), init, output=False, p_ml=p_ml)
        base = explore(ctx, "omega_surf, p_ml", lambda **kw: surf(kw), ml_def, dict(pot_dens_diff=0.3, ref_p=300.0, bottle_index=0, interp="pchip"))
        S[:, 1], T[:, 1] = S[:, 0] + 0.01, T[:, 0] - 0.4
        for interp, own in itertools.product(("linear", "pchip"), repeat=2):
            for d, (r, b) in itertools.product(np.arange(1, 40) * 0.1, ((100.0, 1), (0.0, 0))):
                o = dict(pot_dens_diff=d, ref_p=r, bottle_index=b)
                for opt in (o, dict(o, interp=own)) if own == "linear" else (dict(o, interp=own),):
                    ctx.tick(dict(q, interp=interp, p_ml=opt))
                    x, y = (attempt(lambda: omega_surf(S, T, P, GRID, (0,), 300.0, output=False, ITER_MAX=2, interp=interp, p_ml=m)) for m in (dict(opt), mixed_layer(S, T, P, **opt)))
                    k = differ(x, y)
                    ctx.check(k is None, "options of the mixed layer given to the surface have another effect than the mixed layer itself", field=k, interp=interp, p_ml=opt, got=x, want=y, **q)
                    ctx.count(states=1, transitions=2, validated=1)
        S, T = ocean(q["o"])
    # distances left out are 1
    E = len(A)
    one = np.ones(E)
    for keep in ((), ("dist",), ("distperp",)):
        g = dict(edges=(A, B), **{k: GRID[k] for k in keep})
        base = omega_surf(S, T, P, g, (0,), init, output=False, **more)
        for u in (1.0, one):
            r = omega_surf(S, T, P, dict(dict(dist=u, distperp=u), **g), (0,), init, output=False, **more)
            k = differ(base, r)
            ctx.check(k in (None,) or all(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True) for (_, x), (_, y) in zip(leaves(base), leaves(r))),
                      "distances left out are not 1", kept=keep, field=k, **q)
            ctx.count(states=1, transitions=2, validated=1)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        omega_surf(S, T, P, GRID, (0,), init, output=False, **more)
    ctx.check(out.getvalue() == "", "prints although told not to", got=out.getvalue(), **q)


def isopycnal(ctx, q):
    from neutralocean import surface

    fn = getattr(surface, q["f"] + "_surf")
    S, T = ocean(q["o"])
    pin = dict(pin_cast=(0,), pin_p=300.0)
    others = dict(OTHER, vert_dim=0, diags=False, output=False, TOL_P_SOLVER=1.1e-4, ref=1000.0 if q["f"] == "potential" else (35.0, 5.0))
    for change in ({}, dict(diags=False), dict(output=False), dict(interp="pchip")):
        d = {k: v for k, v in dict(SURF, ref=None, isoval=None).items() if k not in change}
        explore(ctx, q["f"] + "_surf", quiet(lambda **kw: fn(S, T, P, grid=GRID, **pin, **change, **kw)), d,
                {k: v for k, v in others.items() if k not in change}, subsets(list(SURF)) if not change else (), dict(q, with_=change))
    # through a reference and an isovalue, with and without a pin; through a reference and a pin
    d = dict(SURF)
    for ref in (1000.0, 300.0) if q["f"] == "potential" else ((35.0, 5.0), (34.5, 10.0)):
        iso = fn(S, T, P, grid=GRID, ref=ref, output=False, **pin)[3]["isoval"]
        for how in (dict(isoval=iso), dict(isoval=iso, **pin), pin):
            explore(ctx, q["f"] + "_surf", quiet(lambda **kw: fn(S, T, P, grid=GRID, ref=ref, **how, **kw)), d, others=dict(output=False, diags=False), info=dict(q, ref=ref, how=sorted(how)))
    for keep in ((), ("dist",), ("distperp",)):
        g = dict(edges=(A, B), **{k: GRID[k] for k in keep})
        base = fn(S, T, P, grid=g, output=False, **pin)
        for u in (1.0, np.ones(len(A))):
            r = fn(S, T, P, grid=dict(dict(dist=u, distperp=u), **g), output=False, **pin)
            ctx.check(all(np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True) for (_, x), (_, y) in zip(leaves(base), leaves(r))), "distances left out are not 1", kept=keep, **q)
            ctx.count(states=1, transitions=2, validated=1)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(S, T, P, grid=GRID, output=False, **pin)
        fn(S, T, P, diags=False, **pin)
    ctx.check(out.getvalue() == "", "prints although told not to", got=out.getvalue(), **q)


def mixed_layer(ctx, q):
    from neutralocean.mixed_layer import mixed_layer as ml

    d = dict(PLAIN, pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, vert_dim=-1)
    for o in range(3):
        S, T = ocean(o)
        S[:, 1], T[:, 1] = S[:, 0] + 0.01, T[:, 0]  # some mixed water
        explore(ctx, "mixed_layer", lambda **kw: ml(S, T, P, **kw), d, dict(OTHER, pot_dens_diff=0.031, ref_p=101.0, bottle_index=0))
        order = ["eos", "grav", "rho_c", "pot_dens_diff", "ref_p", "bottle_index", "interp", "vert_dim"]
        positional(ctx, "mixed_layer", ml, (S, T, P), order, d, dict(eos="jmd95", grav=9.81, rho_c=1030.0, pot_dens_diff=0.1, ref_p=0.0, bottle_index=0))


def link(ctx, q):
    from neutralocean.traj import ntp_bottle_to_cast

    d = dict(PLAIN, tol_p=1e-4)
    for o in range(3):
        S, T = ocean(o)
        for c in range(6):
            for b in ((34.5, 12.0, 200.0), (34.9, 7.0, 500.0)):
                explore(ctx, "ntp_bottle_to_cast", lambda **kw: ntp_bottle_to_cast(*b, S[c], T[c], P, **kw), d, dict(OTHER, tol_p=1.1e-4) if c == 0 else {})
                if c < 2:
                    positional(ctx, "ntp_bottle_to_cast", ntp_bottle_to_cast, (*b, S[c], T[c], P), ["tol_p", "interp", "eos", "grav", "rho_c"], d,
                               dict(tol_p=1e-2, interp="pchip", eos="jmd95", grav=9.81, rho_c=1030.0))


def trajectory(ctx, q):
    from neutralocean.traj import neutral_trajectory

    d = dict(PLAIN, tol_p=1e-4, vert_dim=-1)
    for o in range(3):
        S, T = ocean(o)
        for p0 in (150.0, 400.0):
            explore(ctx, "neutral_trajectory", lambda **kw: neutral_trajectory(S, T, P, p0, **kw), d, dict(OTHER, tol_p=1.1e-4) if p0 < 200 else {})
            positional(ctx, "neutral_trajectory", neutral_trajectory, (S, T, P, p0), ["vert_dim", "tol_p", "interp", "eos", "grav", "rho_c"], d,
                       dict(tol_p=1e-2, interp="pchip", eos="jmd95", grav=9.81, rho_c=1030.0))


def veronis(ctx, q):
    from neutralocean.label import veronis as ver

    for o in range(3):
        S, T = ocean(o, False)
        X = P + 5.0
        d = dict(PLAIN, p0=X[0], p_ref=0.0, b=1.0, dp=1.0)
        for p1 in (5.0, 250.0, 1505.0):
            explore(ctx, "veronis", lambda **kw: ver(p1, S[0], T[0], X, **kw), d, dict(OTHER, p0=6.0, p_ref=1.0, b=1.1, dp=1.5) if p1 == 250 else {})
            positional(ctx, "veronis", ver, (p1, S[0], T[0], X), ["p0", "p_ref", "b", "dp", "interp", "eos", "grav", "rho_c"], d,
                       dict(p0=20.0, p_ref=9.0, b=2.0, dp=30.0, interp="pchip", eos="jmd95", grav=9.81, rho_c=1030.0))
        base = ver(250.0, S[0], T[0], X)
        ctx.check(base == ver(250.0, S[0], T[0], X, p0=None), "p0=None is not the top", got=base)


def errors(ctx, q):
    from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms

    d = dict(eos_s_t="gsw", grav=None, rho_c=None)
    for o in range(3):
        S, T = ocean(o)
        s, t, p = S[:, 3], T[:, 3], np.full(6, 800.0)
        s[4] = t[4] = p[4] = NAN
        for keep in ((), ("dist",), ("distperp",), ("dist", "distperp")):
            g = dict(edges=(A, B), **{k: GRID[k] for k in keep})
            for fn in (ntp_epsilon_errors, ntp_epsilon_errors_norms):
                base = explore(ctx, fn.__name__, lambda **kw: fn(s, t, p, g, **kw), d, dict(eos_s_t="jmd95"))
                positional(ctx, fn.__name__, fn, (s, t, p, g), ["eos_s_t", "grav", "rho_c"], d, dict(eos_s_t="jmd95", grav=9.81, rho_c=1030.0))
                for u in (1.0, np.ones(len(A))):
                    r = fn(s, t, p, dict(dict(dist=u, distperp=u), **g))
                    ctx.check(np.allclose(r, base, rtol=1e-12, atol=0, equal_nan=True), "distances left out are not 1", function=fn.__name__, kept=keep, got=r, want=base)
        r = ntp_epsilon_errors(s, t, p, (A, B))
        ctx.check(np.allclose(r, ntp_epsilon_errors(s, t, p, dict(edges=(A, B))), rtol=1e-12, atol=0, equal_nan=True), "a tuple of edges has other distances than 1", got=r)


def stability(ctx, q):
    from neutralocean.eos import make_eos
    from neutralocean.eos.tools import vectorize_eos
    from neutralocean.stability import count_unstable, stabilize_ST

    eos = vectorize_eos(make_eos("jmd95"))
    n = 5
    for o in range(2):
        S, T = ocean(o, False)
        S, T = S[:3].copy(), T[:3].copy()
        S[0, [1, 2]] = S[0, [2, 1]]
        T[0, [1, 2]] = T[0, [2, 1]]
        T[1, 3] = T[1, 1]
        explore(ctx, "count_unstable", lambda **kw: count_unstable(S, T, P, eos=eos, **kw), dict(interp_two=None, vert_dim=-1))

        def stab(**kw):
            s, t = S.copy(), T.copy()
            stabilize_ST(s, t, P, eos, **kw)
            return s, t

        d = dict(min_dLRPDdp=1e-6, weight=10.0, vert_dim=-1, tol=1e-10, method="SLSQP", options={"maxiter": 1000}, verbose=True)
        explore(ctx, "stabilize_ST", quiet(stab), d, dict(min_dLRPDdp=1.1e-6, weight=10.1, tol=1e-4, options={"maxiter": 1}, verbose=False))
        r = [stab(verbose=False, min_dLRPDdp=np.full(n - 1, 1e-6)), stab(verbose=False)]
        ctx.check(differ(*r) is None, "one minimum for all and an array of it differ", got=r)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            stab(verbose=False)
        ctx.check(out.getvalue() == "", "prints although told not to", got=out.getvalue())


def synthetic(ctx, q):
    from neutralocean.synthocean import synthocean

    for shape in ((3, 4, 5), (6, 2, 3), (2, 2, 2)):
        d = dict(pbot=4000.0, SSSSa=0.3, zonally_uniform=False, wrap=(False, False))
        f = lambda **kw: synthocean(shape, **kw)
        explore(ctx, "synthocean", f, d, dict(pbot=4001.0, SSSSa=0.31, zonally_uniform=True, wrap=(True, False)))
        positional(ctx, "synthocean", synthocean, (shape,), list(d), d, dict(pbot=3000.0, SSSSa=-1.0, zonally_uniform=True, wrap=(True, False)))


def grids(ctx, q):
    from neutralocean.grid import graph, rectilinear, tripolar, xgcm
    from neutralocean.grid.tools import divergence

    one = np.ones((3, 4))
    for per in itertools.product((False, True), repeat=2):
        d = dict(dxC=1.0, dyC=1.0, dyG=1.0, dxG=1.0)
        explore(ctx, "rectilinear.build_grid", lambda **kw: rectilinear.build_grid((3, 4), per, **kw), d, dict(dxC=2.0, dyC=2.0, dyG=2.0, dxG=2.0))
        explore(ctx, "rectilinear.build_grid", lambda **kw: rectilinear.build_grid((3, 4), per, **kw), {k: one for k in d})
        positional(ctx, "rectilinear.build_grid", rectilinear.build_grid, ((3, 4), per), list(d), d, dict(dxC=2.0, dyC=3.0, dyG=4.0, dxG=5.0))
    d = dict(e1u=1.0, e2v=1.0, e2u=1.0, e1v=1.0)
    explore(ctx, "tripolar.build_grid", lambda **kw: tripolar.build_grid((3, 4), **kw), d, dict(e1u=2.0, e2v=2.0, e2u=2.0, e1v=2.0))
    positional(ctx, "tripolar.build_grid", tripolar.build_grid, ((3, 4),), list(d), d, dict(e1u=2.0, e2v=3.0, e2u=4.0, e1v=5.0))
    fc = {"tile": {0: {"X": (None, (1, "X", False)), "Y": (None, None)}, 1: {"X": ((0, "X", False), None), "Y": (None, None)}}}
    d = dict(dxC=1.0, dyC=1.0, dyG=1.0, dxG=1.0)
    first = (2, fc, ("tile", "j", "i"), "left", "left")
    explore(ctx, "xgcm.build_grid", lambda **kw: xgcm.build_grid(*first, **kw), d, dict(dxC=2.0, dyC=2.0, dyG=2.0, dxG=2.0))
    positional(ctx, "xgcm.build_grid", xgcm.build_grid, first, list(d), d, dict(dxC=2.0, dyC=3.0, dyG=4.0, dxG=5.0))
    for a, b in (([0, 1], [1, 2]), ([2, 0, 0], [0, 1, 2]), ([3], [1])):
        e = (np.array(a), np.array(b))
        n = max(a + b) + 1
        for N in (-1, n):
            explore(ctx, "edges_to_graph", lambda **kw: graph.edges_to_graph(e, **kw), dict(N=N, weights=None), dict(N=n + 1))
            explore(ctx, "edges_to_csr", lambda **kw: graph.edges_to_csr(e, **kw), dict(N=N), dict(N=n + 1))
        explore(ctx, "edges_to_graph", lambda **kw: graph.edges_to_graph(e, **kw), dict(weights=np.ones(len(a))), dict(weights=np.full(len(a), 2.0)))
        v = np.arange(1.0, len(a) + 1)
        explore(ctx, "divergence", lambda **kw: divergence(v, e, **kw), dict(distperp=1.0, area=1.0), dict(distperp=2.0, area=2.0))
        explore(ctx, "divergence", lambda **kw: divergence(v, e, **kw), dict(distperp=np.ones(len(a)), area=np.ones(n)))
        positional(ctx, "divergence", divergence, (v, e), ["distperp", "area"], {}, dict(distperp=v + 1.0, area=np.arange(n) + 2.0))


def arrays(ctx, q):
    from neutralocean import ppinterp as pp
    from neutralocean.eos.tools import make_eos, make_eos_p, make_eos_s_t
    from neutralocean.lib import find_first_nan, take_fill
    from neutralocean.ppinterp import make_pp

    a = np.arange(24.0).reshape(2, 3, 4)
    a[0, :, 2:] = a[1, 1] = a[:, 2, 3] = NAN
    explore(ctx, "find_first_nan", lambda **kw: find_first_nan(a, **kw), dict(axis=-1), dict(axis=0))
    explore(ctx, "take_fill", lambda **kw: take_fill(a, np.array([0, -1, 5]), **kw), dict(fillval=np.nan), dict(fillval=0.0))
    S, T = ocean(0)
    f = make_pp()
    ctx.check(f is make_pp("linear", "u", "coeffs", True, 1), "interpolation factory: defaults")
    for kw in ({}, dict(interpolant="linear"), dict(kind="u"), dict(out="coeffs"), dict(nans=True), dict(num_dep_vars=1)):
        C = make_pp(**kw)(P, S)
        ctx.check(differ(C, f(P, S)) is None, "interpolation factory: defaults", given=kw)
        ctx.count(states=1, transitions=1, validated=1)
    for k in ("linear", "pchip"):
        C, D = (make_pp(k)(P, X) for X in (S, T))
        one, two = make_pp(k, out="interp"), make_pp(k, out="interp", num_dep_vars=2)
        s1, s2 = (make_pp(k, kind="1", out="interp", num_dep_vars=n) for n in (1, 2))
        for x in (0.0, 50.0, 300.0, 1499.0, 1600.0):
            for nm, g in (("ppval", lambda **kw: pp.ppval(x, P, C, kw["d"]) if kw else pp.ppval(x, P, C, 0)),
                          ("interpolation of one", lambda **kw: s1(x, P, S[0], **kw)), ("interpolation of two", lambda **kw: s2(x, P, S[0], T[0], **kw)),
                          ("ppval_1", lambda **kw: pp.ppval_1(x, P, C[0], **kw)), ("ppval_1_two", lambda **kw: pp.ppval_1_two(x, P, C[0], D[0], **kw)),
                          ("ppval_1_nonan_two", lambda **kw: pp.ppval_1_nonan_two(x, P, C[0], D[0], **kw))):
                explore(ctx, nm, g, dict(d=0), dict(d=1) if x == 50 else {})
    for mk in (make_eos, make_eos_s_t, make_eos_p):
        for e in ("gsw", "jmd95", "jmdfwg06"):
            explore(ctx, mk.__name__, lambda **kw: mk(e, **kw)(35.0, 5.0, 1000.0), dict(grav=None, rho_c=None))
            ctx.check(differ(mk(e, 9.81, 1030.0)(35.0, 5.0, 1000.0), mk(e, rho_c=1030.0, grav=9.81)(35.0, 5.0, 1000.0)) is None,
                      "arguments by position and by keyword differ", function=mk.__name__)
