"""Degenerate but well-formed input, with bounds checking compiled in and a watchdog."""
import itertools

import numpy as np

from mc.interp import NAN, block
from mc.ocean import CUSTOM

BOUNDS = (
    "every assignment of cast kinds (land, one bottle, full, top missing, bottom missing, gap, isolated bottles) to every grid of up to 2x2 casts (1x3, 3x1 thorough too) with 1-4 levels, "
    "levels in 1D or per cast (levels themselves missing on land), x every pinning cast x pins above, at the top, within, at the bottom, below, NaN, for potential, "
    "anomaly and omega surfaces (scalar and array first guess, both solvers, with and without diagnostics, mixed layer below everything), both interpolants; neutral "
    "links and trajectories, Veronis density, mixed layer, instability, neutrality errors, interpolation and breadth-first searches on the same data.  "
    "states = inputs, transitions = calls, validated = results judged."
)
ASSUMES = ["S and T share their pattern of missing levels"]
NEVER = (IndexError, SystemError, MemoryError, AssertionError, RecursionError, KeyError, AttributeError, UnboundLocalError, ZeroDivisionError)
LEV = np.array([0.0, 50.0, 200.0, 700.0])
PROFILE = ([34.0, 34.4, 34.8, 35.1], [15.0, 9.0, 5.0, 2.0])


def kinds(n):
    """Distinct patterns of valid levels."""
    out = []
    for m in (
        [0] * n, [1] + [0] * (n - 1), [1] * n, [0] + [1] * (n - 1), [1] * (n - 1) + [0], [0] * (n - 1) + [1],
        [1, 0, 1, 1][:n], [1, 1, 0, 1][:n], [1, 0, 1, 0][:n],
    ):
        if m not in out:
            out.append(m)
    return out


def shapes(tier):
    return [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3), (3, 1)] if tier == "thorough" else [])


def oceans(shape, n, few=None):
    """Every assignment of kinds to casts: S, T, validity."""
    N = int(np.prod(shape))
    ks = kinds(n)
    if N > 2:
        ks = [[0] * n, [1] + [0] * (n - 1), [1] * n] + ([[0] + [1] * (n - 1)] if few is None else [])
        ks = [k for i, k in enumerate(ks) if k not in ks[:i]]
    s, t = (np.array(x[:n]) for x in PROFILE)
    for combo in itertools.product(ks, repeat=N):
        ok = np.array(combo, bool).reshape(tuple(shape) + (n,))
        d = 0.05 * np.arange(N).reshape(tuple(shape) + (1,))
        yield np.where(ok, s + d, NAN), np.where(ok, t - 2 * d, NAN), ok


def tasks(tier):
    t = []
    for n in (1, 2, 3, 4):
        for shape in shapes(tier):
            for kind in ("linear", "pchip"):
                t.append(("isopycnals %s %d %s" % (shape, n, kind), dict(k="iso", shape=shape, n=n, interp=kind)))
                t.append(("omega %s %d %s" % (shape, n, kind), dict(k="omega", shape=shape, n=n, interp=kind)))
        for kind in ("linear", "pchip"):
            t.append(("casts %d %s" % (n, kind), dict(k="casts", n=n, interp=kind)))
            t.append(("interpolation %d %s" % (n, kind), dict(k="interp", n=n, interp=kind)))
    t += [("errors", dict(k="errors")), ("search", dict(k="bfs"))]
    return t


def warm(ctx, tier):
    g = globals()
    from neutralocean import bfs, label, mixed_layer, ntp, ppinterp, stability, surface, traj
    from neutralocean.grid import graph, rectilinear
    from neutralocean.ppinterp import linear, pchip

    g.update(bfs=bfs, label=label, mixed_layer=mixed_layer.mixed_layer, ntp=ntp, ppinterp=ppinterp, stability=stability, surface=surface, traj=traj, graph=graph, rect=rectilinear, pp=dict(linear=linear, pchip=pchip))
    S, T = (np.array(x)[None, None] for x in PROFILE)
    grid = rectilinear.build_grid((1, 1), (False, False))
    for kind in ("linear", "pchip"):
        ctx.tick(kind)
        kw = dict(eos=CUSTOM["lin"], interp=kind, diags=False, output=False)
        surface.potential_surf(S, T, LEV, ref=0.0, isoval=1027.0, **kw)
        surface.anomaly_surf(S, T, LEV, ref=(34.5, 6.0), isoval=0.01, **kw)
        ctx.tick(kind)
        surface.omega_surf(S, T, LEV, grid, (0, 0), 100.0, **kw)
        ctx.tick(kind)
        traj.neutral_trajectory(S[0], T[0], LEV, 100.0, interp=kind, eos=CUSTOM["lin"][0])
        traj.ntp_bottle_to_cast(34.5, 6.0, 100.0, S[0, 0], T[0, 0], LEV, interp=kind, eos=CUSTOM["lin"][0])


def attempt(ctx, f, must, info):
    """f(), or None if it raised an exception it may raise."""
    ctx.tick(info)
    ctx.count(states=1, transitions=1)
    try:
        r = f()
    except NEVER as e:
        ctx.fail("%s: %s" % (type(e).__name__, str(e)[:200]), **info)
    except Exception as e:
        if must:
            ctx.fail("%s on input for which a result is defined: %s" % (type(e).__name__, str(e)[:200]), **info)
        ctx.outcome(type(e).__name__)
        return None
    ctx.count(validated=1)
    return r


def levels(n, shape, ok):
    """1D levels; and per cast, missing where the data are all missing."""
    P = LEV[:n]
    P3 = np.broadcast_to(P, tuple(shape) + (n,)).copy()
    P3[~ok.any(-1)] = NAN
    return (("1D", P), ("3D", P3))


def judge(ctx, r, ok, P, info):
    s, t, p = (np.asarray(x) for x in r[:3])
    ctx.check(s.shape == t.shape == p.shape == ok.shape[:-1], "shape of the surface", got=[s.shape, t.shape, p.shape], **info)
    ctx.check(np.array_equal(np.isnan(s), np.isnan(p)) and np.array_equal(np.isnan(t), np.isnan(p)), "s, t and p are missing in different places", s=s, t=t, p=p, **info)
    for c in np.ndindex(p.shape):
        k, K = block(list(ok[c]), list(ok[c]))
        if K - k < 2:
            ctx.check(np.isnan(p[c]), "a surface where none is defined", p=p, **info)
        elif not np.isnan(p[c]):
            ctx.check(LEV[k] <= p[c] <= LEV[K - 1], "the surface is outside the data", p=p, **info)
    ctx.outcome("%d of %d casts" % (np.isfinite(p).sum(), p.size))


def pins(ok):
    """(pin_p, whether it is strictly within the cast's data)."""
    k, K = block(list(ok), list(ok))
    out = [(-5.0, False), (9999.0, False), (NAN, False)]
    for i in range(len(ok)):
        out.append((float(LEV[i]), False))
    for i in range(len(ok) - 1):
        out.append((0.4 * LEV[i] + 0.6 * LEV[i + 1], k <= i and i + 1 < K))
    return out


def run(ctx, q):
    globals()["do_" + q["k"]](ctx, q)


def do_iso(ctx, q):
    shape, n, kind = tuple(q["shape"]), q["n"], q["interp"]
    grid = rect.build_grid(shape, (False, False))
    for num, (S, T, ok) in enumerate(oceans(shape, n)):
        for form, P in levels(n, shape, ok):
            for diags in (False, True):
                kw = dict(eos=CUSTOM["lin"], interp=kind, diags=diags, output=False, grid=grid)
                base = dict(S=S, T=T, P=P, interp=kind, diags=diags)
                for iso in (1025.0, 1026.9, 1030.0, NAN):
                    info = dict(base, function="potential_surf", isoval=iso)
                    r = attempt(ctx, lambda: surface.potential_surf(S, T, P, ref=0.0, isoval=iso, **kw), True, info)
                    judge(ctx, r, ok, P, info)
                    info = dict(base, function="anomaly_surf", isoval=iso)
                    r = attempt(ctx, lambda: surface.anomaly_surf(S, T, P, ref=(34.5, 6.0), isoval=iso - 1027.0, **kw), True, info)
                    judge(ctx, r, ok, P, info)
                if diags and num % 4:
                    continue
                for c in np.ndindex(shape):
                    for pin_p, inside in pins(ok[c]):
                        for ref in (False, True):
                            info = dict(base, function="potential_surf", pin_cast=c, pin_p=pin_p, ref=ref)
                            r = attempt(ctx, lambda: surface.potential_surf(S, T, P, pin_cast=c, pin_p=pin_p, **(dict(ref=500.0) if ref else {}), **kw), inside, info)
                            if r is not None:
                                judge(ctx, r, ok, P, info)
                                if inside:
                                    ctx.check(r[2][c] == pin_p, "the surface is not at its pin", p=r[2], **info)
                            info = dict(base, function="anomaly_surf", pin_cast=c, pin_p=pin_p, ref=ref)
                            r = attempt(ctx, lambda: surface.anomaly_surf(S, T, P, pin_cast=c, pin_p=pin_p, **(dict(ref=(34.5, 6.0)) if ref else {}), **kw), inside, info)
                            if r is not None:
                                judge(ctx, r, ok, P, info)
    ctx.sample(dict(info, ok=ok))


def do_omega(ctx, q):
    shape, n, kind = tuple(q["shape"]), q["n"], q["interp"]
    grids = [rect.build_grid(shape, (False, False)), rect.build_grid(shape, (True, True))]
    N = int(np.prod(shape))
    none = np.zeros(0, int)
    grids.append(dict(edges=(none, none), dist=none.astype(float), distperp=none.astype(float)))
    num = 0
    for S, T, ok in oceans(shape, n, few=N > 2 or None):
        for form, P in levels(n, shape, ok):
            for c in np.ndindex(shape):
                for pin_p, inside in pins(ok[c]):
                    # configurations are dealt round-robin over the inputs, all on those with a defined result
                    configs = list(itertools.product(range(3), ("poisson", "gradient"), (False, True), ("scalar", "array"), (False, True)))
                    chosen = configs if inside and num % 16 == 0 else [configs[num % len(configs)], configs[(7 * num + 5) % len(configs)]]
                    num += 1
                    for g, solver, diags, first, ml in chosen:
                        info = dict(function="omega_surf", S=S, T=T, P=P, interp=kind, pin_cast=c, p_init=pin_p, form=first, grid=g, OMEGA_FORMULATION=solver, diags=diags, mixed_layer=ml)
                        kw = dict(eos=CUSTOM["lin"], interp=kind, diags=diags, output=False, OMEGA_FORMULATION=solver, ITER_MAX=2)
                        if ml:
                            # nothing is below this mixed layer, except at the pinning cast
                            pm = np.full(shape, 9999.0)
                            pm[c] = -1.0
                            kw.update(p_ml=pm)
                        p0 = pin_p if first == "scalar" else np.full(shape, pin_p)
                        r = attempt(ctx, lambda: surface.omega_surf(S, T, P, grids[g], c, p0, **kw), inside, info)
                        if r is not None:
                            judge(ctx, r, ok, P, info)
                            ctx.check(r[2][c] == pin_p, "the surface is not at its pin", p=r[2], **info)
    ctx.sample(info)


def do_casts(ctx, q):
    """Functions of one cast, or of a sequence of casts."""
    n, kind = q["n"], q["interp"]
    P = LEV[:n]
    s, t = (np.array(x[:n]) for x in PROFILE)
    masks = [np.array(m, bool) for m in itertools.product((1, 0), repeat=n)]
    lin = CUSTOM["lin"][0]
    for m in masks:
        S, T = np.where(m, s, NAN), np.where(m, t, NAN)
        k, K = block(list(m), list(m))
        for Pm in (P, np.where(m, P, NAN)):
            base = dict(S=S, T=T, P=Pm, interp=kind)
            for sB, tB, pB in itertools.product((30.0, 34.5, 40.0, NAN), (7.0, NAN), (-10.0, 0.0, 120.0, 5000.0, NAN)):
                info = dict(base, function="ntp_bottle_to_cast", bottle=[sB, tB, pB])
                r = attempt(ctx, lambda: traj.ntp_bottle_to_cast(sB, tB, pB, S, T, Pm, interp=kind, eos=lin), True, info)
                ctx.check(len({bool(np.isnan(x)) for x in r}) == 1, "s, t and p are not missing together", got=r, **info)
                if K - k < 2 or sB != sB or tB != tB or pB != pB:
                    ctx.check(np.isnan(r[2]), "a link where none is defined", got=r, **info)
                elif not np.isnan(r[2]):
                    ctx.check(LEV[k] <= r[2] <= LEV[K - 1], "the link is outside the cast", got=r, **info)
            for p1, p0 in itertools.product((-5.0, 0.0, 30.0, 200.0, 650.0, 5000.0, NAN), (None, -5.0, 0.0, 100.0, 5000.0, NAN)):
                info = dict(base, function="veronis", p1=p1, p0=p0)
                r = attempt(ctx, lambda: label.veronis(p1, S, T, Pm, p0=p0, dp=20.0, interp=kind, eos="jmd95"), False, info)
                bad = [x for x in (p1, p0) if x is not None and not (0.0 <= x <= LEV[n - 1])]
                if r is not None and (bad or not m.any()):
                    ctx.check(np.isnan(r), "a value outside the cast", got=r, **info)
            for b in range(n):
                info = dict(base, function="mixed_layer", bottle_index=b)
                r = attempt(ctx, lambda: mixed_layer(S, T, Pm, bottle_index=b, interp=kind, eos=lin), True, info)
                ctx.check(np.shape(r) == (), "shape of the result", got=r, **info)
                if K - k < 2 or not m[b]:
                    ctx.check(np.isnan(r), "a mixed layer where none is defined", got=r, **info)
            info = dict(base, function="count_unstable")
            r = attempt(ctx, lambda: stability.count_unstable(S, T, Pm, eos=lin), True, info)
            ctx.check(r == 0, "unstable bottles in a stable cast", got=r, **info)
            two = ppinterp.make_pp(kind, kind="u", out="interp", num_dep_vars=2)
            attempt(ctx, lambda: stability.count_unstable(S, T, Pm, interp_two=two, eos_s_t=CUSTOM["lin"][1]), True, dict(info, interp_two=True))
            S1, T1 = S.copy(), T.copy()
            info = dict(base, function="stabilize_ST")
            attempt(ctx, lambda: stability.stabilize_ST(S1, T1, P, lin, verbose=False), True, info)
            ctx.check(np.array_equal(S1, S, equal_nan=True) and np.array_equal(T1, T, equal_nan=True), "a stable cast was changed", **info)
    # sequences of casts
    few = [m for m in masks if list(m.astype(int)) in kinds(n)]
    for N in (1, 2, 3):
        for combo in itertools.product(range(len(few)), repeat=N):
            M = np.array([few[i] for i in combo])
            S, T = np.where(M, s, NAN), np.where(M, t, NAN)
            for p0 in (-5.0, 0.0, 120.0, 5000.0, NAN):
                for P2 in (P, np.where(M, P, NAN)):
                    info = dict(function="neutral_trajectory", S=S, T=T, P=P2, p0=p0, interp=kind)
                    r = attempt(ctx, lambda: traj.neutral_trajectory(S, T, P2, p0, interp=kind, eos=lin), True, info)
                    ctx.check(all(np.shape(x) == (N,) for x in r), "shape of the trajectory", got=r, **info)
                    lost = False
                    for i in range(N):
                        k, K = block(list(M[i]), list(M[i]))
                        lost = lost or K - k < 2
                        if lost:
                            ctx.check(np.isnan(r[0][i]) and np.isnan(r[1][i]) and (i == 0 or np.isnan(r[2][i])), "a trajectory through a cast without data", got=r, **info)
    ctx.sample(info)


def do_interp(ctx, q):
    n, kind = q["n"], q["interp"]
    mod = pp[kind]
    X = LEV[:n]
    y = np.array([3.0, -1.0, 4.0, 1.5])[:n]
    for mx in itertools.product((1, 0), repeat=n):
        for my in itertools.product((1, 0), repeat=n):
            Xm, Ym = np.where(mx, X, NAN), np.where(my, y, NAN)
            k, K = block([bool(a) for a in mx], [bool(a) for a in my])
            sites = [-1.0, 0.0, 25.0, 100.0, 700.0, 800.0, NAN]
            for d in (0, 1):
                for f in ("interp", "interp_1", "interp_two", "interp_1_two", "coeffs", "coeffs_1"):
                    info = dict(function=kind + "_" + f, X=Xm, Y=Ym, d=d)
                    fn = getattr(mod, kind + "_" + f)
                    if "coeffs" in f:
                        if d:
                            continue
                        C = attempt(ctx, lambda: fn(Xm, Ym), True, info)
                        ev = ppinterp.ppval if f == "coeffs" else ppinterp.ppval_1
                        g = lambda x: ev(x, Xm, C, d)
                    elif "two" in f:
                        g = lambda x: fn(x, Xm, Ym, Ym, d)
                    else:
                        g = lambda x: fn(x, Xm, Ym, d)
                    for x in sites:
                        v = np.atleast_1d(attempt(ctx, lambda: g(x), True, dict(info, x=x)))
                        if K - k < 2 or not (X[k] <= x <= X[K - 1]):
                            ctx.check(np.all(np.isnan(v)), "a value outside the data", got=v, x=x, **info)
                        elif all(mx):
                            ctx.check(np.all(np.isfinite(v)), "no value within the data", got=v, x=x, **info)


def do_errors(ctx, q):
    s_t = CUSTOM["lin"][1]
    none = np.zeros(0, int)
    for shape in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
        N = int(np.prod(shape))
        for periodic in itertools.product((False, True), repeat=2):
            grid = rect.build_grid(shape, periodic)
            for g in (grid, dict(edges=(none, none), dist=none * 1.0, distperp=none * 1.0)):
                for m in itertools.product((1, 0), repeat=N):
                    s, t, p = (np.where(np.reshape(m, shape), v + np.arange(N).reshape(shape), NAN) for v in (34.0, 5.0, 100.0))
                    info = dict(s=s, t=t, p=p, periodic=periodic, edges=len(g["edges"][0]))
                    e = attempt(ctx, lambda: ntp.ntp_epsilon_errors(s, t, p, g, s_t), True, dict(info, function="ntp_epsilon_errors"))
                    ctx.check(np.shape(e) == (len(g["edges"][0]),), "one error per edge", got=np.shape(e), **info)
                    r = attempt(ctx, lambda: ntp.ntp_epsilon_errors_norms(s, t, p, g, s_t), True, dict(info, function="ntp_epsilon_errors_norms"))
                    ctx.check(len(r) == 2 and all(np.isnan(x) or x >= 0 for x in r), "norms", got=r, **info)


def do_bfs(ctx, q):
    for N in (1, 2, 3):
        pairs = list(itertools.combinations(range(N), 2))
        for E in itertools.chain.from_iterable(itertools.combinations(pairs, r) for r in range(len(pairs) + 1)):
            edges = tuple(np.array([e[i] for e in E], dtype=int) for i in (0, 1))
            ctx.tick(dict(N=N, edges=E))
            G = graph.edges_to_graph(edges, N)
            indptr, indices = graph.edges_to_csr(edges, N)
            for m in itertools.product((True, False), repeat=N):
                for root in range(N):
                    info = dict(function="bfs_conncomp1", N=N, edges=E, good=m, root=root)
                    good = np.array(m)
                    r = attempt(ctx, lambda: bfs.bfs_conncomp1(indptr, indices, root, good.copy()), False, info)
                    if r is not None and m[root]:
                        ctx.check(len(set(r.tolist())) == len(r) and set(r.tolist()) <= {i for i in range(N) if m[i]}, "nodes found", got=r, **info)
    ctx.sample(info)
