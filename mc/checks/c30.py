"""Numbers of any type - integers, single precision, another byte order - give what the same numbers in double precision give."""
import itertools

import numpy as np

from mc.checks.c29 import leaves
from mc.interp import NAN

BOUNDS = (
    "17 groups of entry points x oceans of whole numbers (81 of three casts of kinds rising, steep, short and land) x each array argument alone, each "
    "pair and all of them x number types (int64, int32, int16, uint16, float32, big-endian integers and floats; floats only where data are missing), plus "
    "numbers in place of options as Python integers and NumPy scalars.  states = (input, argument types), transitions = calls, validated = results compared."
)
ASSUMES = ["the numbers are exact in each type, so that the same result is asked for up to round-off"]
P = np.array([0.0, 100.0, 300.0, 800.0])
S0 = np.array([33.0, 34.0, 35.0, 36.0])
T0 = np.array([20.0, 15.0, 9.0, 4.0])
WHOLE = ("i8", "i4", "i2", "u2", ">i4", ">i2")
FLOAT = ("f4", ">f8", ">f4")
KINDS = ("potential", "anomaly", "omega", "mixed layer", "links", "trajectories", "labels", "errors", "stability", "interpolation",
         "equations", "grids", "helpers", "roots", "scalars")


def tasks(tier):
    t = []
    for k in KINDS:
        n = 3 if k in ("potential", "anomaly", "omega") else 1
        t += [("%s %d" % (k, i), dict(k=k, i=i, n=n)) for i in range(n)]
    return t


def warm(ctx, tier):
    import neutralocean.surface  # noqa


def cast(kind, c):
    S, T = S0.copy(), T0 - c
    if kind == "steep":
        S, T = S + np.array([0.0, 0, 1, 1]), T + np.array([2.0, 0, -1, -1])
    if kind == "short":
        S[3:] = T[3:] = NAN
    if kind == "land":
        S[:] = T[:] = NAN
    return S, T


def oceans(n=3):
    for kinds in itertools.product(("rising", "steep", "short", "land"), repeat=n):
        if kinds[0] != "land":
            S, T = zip(*(cast(k, c) for c, k in enumerate(kinds)))
            yield kinds, np.array(S), np.array(T)


def forms(x):
    x = np.asarray(x)
    if np.isnan(x).any() or (x != np.round(x)).any():
        return FLOAT
    return tuple(f for f in WHOLE if f != "u2" or x.min() >= 0) + FLOAT


def same(a, b, rtol, atol):
    a, b = list(leaves(a)), list(leaves(b))
    if [k for k, _ in a] != [k for k, _ in b]:
        return "other fields"
    for (k, x), (_, y) in zip(a, b):
        if x.shape != y.shape or not np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=rtol, atol=atol, equal_nan=True):
            return k
    return None


def compare(ctx, what, f, args, info, rtol=1e-9, atol=1e-9, most=2, only=None, single=False):
    """f(*args) with the arrays in each type is as in double precision."""
    want = f(*(x.copy() for x in args))
    n = len(args)
    sets = [c for m in range(1, most + 1) for c in itertools.combinations(range(n), m)]
    if n > most:
        sets.append(tuple(range(n)))
    for c in sets:
        for form in only or WHOLE + FLOAT:
            if not all(form in forms(args[i]) for i in c):
                continue
            ctx.tick(dict(info, function=what, arguments=c, type=form))
            try:
                got = f(*(x.astype(form) if i in c else x.copy() for i, x in enumerate(args)))
            except Exception as e:
                ctx.fail("numbers of this type are refused", function=what, arguments=c, type=form, error="%s: %s" % (type(e).__name__, str(e)[:300]), **info)
                continue
            k = same(want, got, max(rtol, 1e-6) if single and "f4" in form else rtol, atol)
            if k is not None:
                ctx.fail("numbers of this type give another result", function=what, arguments=c, type=form, field=k, got=got, want=want, inputs=[x.tolist() for x in args], **info)
            ctx.count(states=1, transitions=1, validated=1)
            ctx.outcome(form)


def run(ctx, q):
    globals()[q["k"].replace(" ", "_")](ctx, q)
    ctx.sample(q)


A, B = np.array([0, 0, 1]), np.array([1, 2, 2])
GRID = dict(edges=(A, B), dist=np.array([2.0, 3, 1]), distperp=np.array([1.0, 4, 2]))


def potential(ctx, q):
    from neutralocean import surface

    fn = getattr(surface, q["k"] + "_surf")
    for j, (kinds, S, T) in enumerate(oceans()):
        if j % q["n"] != q["i"]:
            continue
        for PP in (P, np.tile(P, (3, 1))):
            o = dict(pin_cast=(0,), pin_p=200.0, output=False)
            compare(ctx, q["k"] + "_surf", lambda S, T, P: fn(S, T, P, grid=GRID, **o), (S, T, PP), dict(ocean=kinds), only=None if PP.ndim == 1 else ("i4", "f4", ">f8"))
        compare(ctx, q["k"] + "_surf, distances", lambda d, e: fn(S, T, P, grid=dict(edges=(A, B), dist=d, distperp=e), **o), (GRID["dist"], GRID["distperp"]), dict(ocean=kinds), single=True)
        for form in ("i4", "u2", "i8"):
            ctx.tick(dict(ocean=kinds, edges=form))
            r = fn(S, T, P, grid=dict(GRID, edges=(A.astype(form), B.astype(form))), **o)
            ctx.check(same(r, fn(S, T, P, grid=GRID, **o), 1e-9, 1e-9) is None, "edges of this type give another result", ocean=kinds, type=form, got=r)
            ctx.count(states=1, transitions=1, validated=1)


anomaly = potential


def omega(ctx, q):
    from neutralocean.surface import omega_surf

    for j, (kinds, S, T) in enumerate(oceans()):
        if j % q["n"] != q["i"]:
            continue
        o = dict(output=False, ITER_MAX=3, TOL_P_SOLVER=1e-9, TOL_LRPD_MAV=0.0)
        f = lambda S, T, P, p: omega_surf(S, T, P, GRID, (0,), p, **o)
        p = np.array([200.0, 150.0, 250.0])
        if kinds[1] == "land":
            p[1] = NAN
        compare(ctx, "omega_surf", f, (S, T, P, p), dict(ocean=kinds), atol=1e-7, most=1)
        for form in ("f4", "i4", ">f8"):
            if form in forms(p):
                r = f(S, T, P, p.astype(form))
                ctx.check(r[2].dtype == np.float64 and r[0].dtype == np.float64, "the type of the surface follows that of its first guess", ocean=kinds, type=form, got=str(r[2].dtype))
        ml = np.array([10.0, 120.0, 30.0])
        compare(ctx, "omega_surf, mixed layer", lambda m: omega_surf(S, T, P, GRID, (0,), 200.0, p_ml=m, **o), (ml,), dict(ocean=kinds), atol=1e-7)
        compare(ctx, "omega_surf, distances", lambda d, e: omega_surf(S, T, P, dict(edges=(A, B), dist=d, distperp=e), (0,), 200.0, **o),
                (GRID["dist"], GRID["distperp"]), dict(ocean=kinds), atol=1e-7, most=1, single=True)
        for form in ("i4", "u2", "i8"):
            ctx.tick(dict(ocean=kinds, edges=form))
            for k in ("poisson", "gradient"):
                r, w = (omega_surf(S, T, P, dict(GRID, edges=e), (0,), 200.0, OMEGA_FORMULATION=k, **o) for e in ((A.astype(form), B.astype(form)), (A, B)))
                ctx.check(same(r, w, 1e-9, 1e-7) is None, "edges of this type give another result", ocean=kinds, type=form, got=r, want=w)
                ctx.count(states=1, transitions=1, validated=1)


def mixed_layer(ctx, q):
    from neutralocean.mixed_layer import mixed_layer as ml

    for kinds, S, T in oceans():
        compare(ctx, "mixed_layer", lambda S, T, P: ml(S, T, P, pot_dens_diff=0.5), (S, T, P), dict(ocean=kinds))


def links(ctx, q):
    from neutralocean.traj import ntp_bottle_to_cast as link

    for kinds, S, T in oceans(1):
        for interp in ("linear", "pchip"):
            for e in ("gsw", "jmd95"):
                for b in ((34.0, 14.0, 100.0), (34.0, 11.0, 200.0), (30.0, 11.0, 200.0)):
                    compare(ctx, "ntp_bottle_to_cast", lambda S, T, P: link(*b, S, T, P, interp=interp, eos=e, tol_p=1e-9), (S[0], T[0], P),
                            dict(ocean=kinds, bottle=b), atol=1e-7, most=3)
                    w = link(*b, S[0], T[0], P, interp=interp, eos=e)
                    for t in (int, np.int32, np.float32):
                        r = link(*(t(x) for x in b), S[0], T[0], P, interp=interp, eos=e)
                        ctx.check(same(w, r, 1e-9, 2e-4) is None, "a bottle of numbers of this type has another link", bottle=b, type=str(t), got=r, want=w)
                        ctx.count(states=1, transitions=1, validated=1)


def trajectories(ctx, q):
    from neutralocean.traj import neutral_trajectory as f

    for kinds, S, T in oceans():
        compare(ctx, "neutral_trajectory", lambda S, T, P: f(S, T, P, 200.0, tol_p=1e-9), (S, T, P), dict(ocean=kinds), atol=1e-7)
        w = f(S, T, P, 200.0)
        for t in (int, np.int32, np.float32):
            ctx.check(same(w, f(S, T, P, t(200)), 1e-9, 2e-4) is None, "a start of this type gives another trajectory", ocean=kinds, type=str(t), want=w)
            ctx.count(states=1, transitions=1, validated=1)


def labels(ctx, q):
    from neutralocean.label import veronis as f

    X = P + 5.0
    for kinds, S, T in oceans(1):
        if kinds[0] == "short":
            S, T = S[:, :3], T[:, :3]
        x = X[: S.shape[1]]
        for interp in ("linear", "pchip"):
            for p1, p0 in itertools.product((5.0, 105.0, 200.0, 305.0), repeat=2):
                compare(ctx, "veronis", lambda S, T, P: f(p1, S, T, P, p0=p0, interp=interp, dp=50), (S[0], T[0], x), dict(ocean=kinds, p=(p1, p0)), most=3, rtol=1e-12, atol=0)
                w = f(p1, S[0], T[0], x, p0=p0, interp=interp, dp=50.0, b=2.0, p_ref=1000.0)
                for t in (int, np.int32, np.float32):
                    r = f(t(p1), S[0], T[0], x, p0=t(p0), interp=interp, dp=t(50), b=t(2), p_ref=t(1000))
                    ctx.check(same(w, r, 1e-12, 0) is None, "labels of numbers of this type differ", ocean=kinds, p=(p1, p0), type=str(t), got=r, want=w)
                    ctx.count(states=1, transitions=1, validated=1)


def errors(ctx, q):
    from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms

    for vals in itertools.product((33.0, 35.0, NAN), (9.0, 12.0), (100.0, 300.0), (34.0, 35.0), (10.0, NAN), (200.0, 100.0)):
        s, t, p = np.array([34.0, vals[0], vals[3]]), np.array([11.0, vals[1], vals[4]]), np.array([200.0, vals[2], vals[5]])
        m = np.isnan(s + t + p)
        s[m] = t[m] = p[m] = NAN
        for f in (ntp_epsilon_errors, ntp_epsilon_errors_norms):
            compare(ctx, f.__name__, lambda s, t, p: f(s, t, p, GRID), (s, t, p), dict(surface=vals), rtol=1e-9, atol=0)
        compare(ctx, "ntp_epsilon_errors, distances", lambda d: ntp_epsilon_errors(s, t, p, dict(edges=(A, B), dist=d)), (GRID["dist"],), dict(surface=vals), rtol=1e-9, atol=0, single=True)
        compare(ctx, "ntp_epsilon_errors_norms, distances", lambda d, e: ntp_epsilon_errors_norms(s, t, p, dict(edges=(A, B), dist=d, distperp=e)),
                (GRID["dist"], GRID["distperp"]), dict(surface=vals), rtol=1e-9, atol=0, single=True)


def stability(ctx, q):
    from neutralocean.eos import make_eos
    from neutralocean.eos.tools import vectorize_eos
    from neutralocean.stability import count_unstable, stabilize_ST

    one = make_eos("jmd95")
    eos = vectorize_eos(one)

    def stab(S, T, P):
        s, t = S.astype("f8"), T.astype("f8")
        stabilize_ST(s, t, P, one, verbose=False)
        return s, t

    for perm in itertools.permutations(range(4)):
        for land in (False, True):
            S, T = S0[list(perm)], T0[::-1][list(perm)]
            if land:
                S[3] = T[3] = NAN
            S, T = S[None], T[None]
            compare(ctx, "count_unstable", lambda S, T, P: count_unstable(S, T, P, eos=eos), (S, T, P), dict(order=perm))
        compare(ctx, "stabilize_ST", lambda P: stab(S, T0[None].copy(), P), (P,), dict(order=perm), atol=1e-6)


def interpolation(ctx, q):
    from neutralocean import ppinterp as pp
    from neutralocean.ppinterp import make_pp, valid_range

    for n in (2, 3, 4, 5):
        X = np.array([0.0, 100, 300, 800, 1500])[:n]
        for Y in itertools.product((0.0, 1.0, 7.0, NAN), repeat=n):
            Y = np.array(Y)
            Z = 3.0 - 2.0 * Y
            x = np.array([0.0, 50.0, 100.0, 250.0, 800.0])
            only = None if n < 4 else ("i4", "f4", ">f8")
            for k in ("linear", "pchip"):
                f = make_pp(k)
                info = dict(interp=k, Y=Y.tolist())
                compare(ctx, "coefficients", lambda X, Y: f(X, Y)[:-1], (X, Y), info, only=only)
                C, D = f(X, Y), f(X, Z)
                for d in (0, 1):
                    g, h = make_pp(k, out="interp"), make_pp(k, out="interp", num_dep_vars=2)
                    compare(ctx, "interpolation of one", lambda x, X, Y: g(x, X, Y, d), (x, X, Y), info, only=only)
                    compare(ctx, "interpolation of two", lambda x, X, Y, Z: h(x, X, Y, Z, d), (x, X, Y, Z), info, only=only, most=1)
                    compare(ctx, "ppval", lambda x, X: pp.ppval(x, X, C, d), (x, X), info, only=only)
            compare(ctx, "valid_range", lambda Y: valid_range(Y), (Y,), info)


def equations(ctx, q):
    from neutralocean.eos import make_eos, make_eos_s_t
    from neutralocean.eos.tools import make_eos_p, vectorize_eos

    V = np.array(list(itertools.product((0.0, 1.0, 34.0, 40.0), (-2.0, 0.0, 5.0, 30.0), (0.0, 1.0, 500.0, 10000.0)))).T
    for e in ("gsw", "jmd95", "jmdfwg06"):
        for con in ((), (9.81, 1030.0)):
            for mk in (make_eos, make_eos_s_t, make_eos_p):
                f = mk(e, *con)
                info = dict(eos=e, made=mk.__name__, constants=con)
                for v in V.T:
                    if v[0] <= 0 and mk is make_eos_s_t:
                        continue
                    w = f(*v)
                    for t in (int, np.int64, np.int32, np.float32):
                        for c in ((0,), (1,), (2,), (0, 1, 2)):
                            ctx.tick(dict(info, v=v.tolist(), type=str(t)))
                            r = f(*(t(x) if i in c else float(x) for i, x in enumerate(v)))
                            ctx.check(same(w, r, 1e-12 if t is not np.float32 else 1e-5, 0) is None, "an equation of state depends on the type of its numbers",
                                      v=v.tolist(), type=str(t), args=c, got=r, want=w, **info)
                            ctx.count(states=1, transitions=1, validated=1)
            if mk is not make_eos_s_t:
                compare(ctx, "vectorized " + e, vectorize_eos(make_eos(e, *con)), tuple(V), dict(constants=con), rtol=1e-12, atol=0, only=("i8", "i4", "i2", ">i4", ">f8"))


def ORDERS(rest):
    """The two arrays in every two of the four places of the distances."""
    for i, j in itertools.permutations(range(4), 2):
        k, l = (m for m in range(4) if m not in (i, j))

        def order(a, b, i=i, j=j, k=k, l=l):
            x = [None] * 4
            x[i], x[j], x[k], x[l] = a, b, rest[0], rest[1]
            return x

        yield order


def grids(ctx, q):
    import scipy.sparse as sp

    from neutralocean.grid import graph, rectilinear, tripolar, xgcm

    for nj, ni in ((1, 1), (1, 3), (2, 2), (3, 4)):
        d = np.arange(1.0, nj * ni + 1).reshape(nj, ni)
        half = d * 0.5
        for per in itertools.product((False, True), repeat=2):
            for rest in ((1.0, 2.0), (half, d), (half, 3)):
                for order in ORDERS(rest):
                    compare(ctx, "rectilinear", lambda a, b: rectilinear.build_grid((nj, ni), per, *order(a, b)), (d, d + 1.0), dict(shape=(nj, ni), per=per))
        if ni % 2 == 0:
            for rest in ((1.0, 2.0), (half, d), (half, 3)):
                for order in ORDERS(rest):
                    compare(ctx, "tripolar", lambda a, b: tripolar.build_grid((nj, ni), *order(a, b)), (d, d + 1.0), dict(shape=(nj, ni)))
    fc = {"tile": {0: {"X": (None, (1, "X", False)), "Y": (None, None)}, 1: {"X": ((0, "X", False), None), "Y": (None, None)}}}
    for n in (1, 2, 3):
        d = np.arange(1.0, 2 * n * n + 1).reshape(2, n, n)
        for rest in ((1.0, 2.0), (d * 0.5, d), (d * 0.5, 3)):
            for order in ORDERS(rest):
                compare(ctx, "xgcm", lambda a, b: xgcm.build_grid(n, fc, ("tile", "j", "i"), "left", "left", *order(a, b)), (d, d + 1.0), dict(n=n))
    for m in itertools.product((0.0, 1.0, 3.0), repeat=3):
        M = np.zeros((3, 3))
        M[0, 1], M[0, 2], M[1, 2] = m
        M = M + M.T
        for f in (lambda x: graph.build_grid(sp.csr_matrix(x)), lambda x: graph.build_grid({"dist": sp.csr_matrix(x), "distperp": sp.csr_matrix(x + x)})):
            compare(ctx, "graph", f, (M,), dict(m=m), only=("i8", "i4", "i2", "f4"))


def helpers(ctx, q):
    from neutralocean.grid.graph import edges_to_csr, edges_to_graph
    from neutralocean.grid.tools import divergence
    from neutralocean.lib import find_first_nan, take_fill, val_at

    T = np.arange(24.0).reshape(2, 3, 4)
    for h in range(16):
        X = T.copy()
        X[0, 1, [bool(h >> i & 1) for i in range(4)]] = NAN
        for ax in (-1, 0, 1):
            compare(ctx, "find_first_nan", lambda X: find_first_nan(X, axis=ax), (X,), dict(h=h), only=("f4",))
        compare(ctx, "val_at", lambda X: val_at(X, -1), (X,), dict(h=h), only=FLOAT)
        compare(ctx, "take_fill", lambda X: take_fill(X, np.array([3, -1, 0])), (X,), dict(h=h), only=("f4",))
    k = np.array([[0, -1, 3], [2, 1, 0]])
    for form in ("i4", "i2", "i8", ">i4"):
        ctx.check(np.array_equal(val_at(T, k), val_at(T, k.astype(form)), equal_nan=True), "indices of this type", type=form)
        if form[0] != ">":
            e = (A.astype(form), B.astype(form))
            for f in (lambda e: divergence(np.array([1.0, 2, 3]), e), edges_to_graph, edges_to_csr):
                ctx.check(same(f((A, B)), f(e), 0, 0) is None, "edges of this type", type=form)
    v = np.array([1.0, 2, 3])
    compare(ctx, "divergence", lambda v, d, a: divergence(v, (A, B), d, a), (v, v + 1.0, v + 2.0), {}, most=3, only=("i8", "i4", "i2", "f4"), single=True)
    compare(ctx, "divergence of values alone", lambda v: divergence(v, (A, B)), (v,), {}, only=("i8", "i4", "f4"))


def roots(ctx, q):
    """The types of the ends, the guess and the tolerance do not matter."""
    import numba as nb

    from neutralocean.fzero import brent, guess_to_bounds

    @nb.njit
    def f(x, r):
        return (x - r) * (1.0 + 0.01 * x)

    for r, a, b, g in itertools.product((0.0, 2.5, 7.0, 40.0), (0.0, 2.0), (7.0, 100.0), (2.0, 5.0)):
        want = guess_to_bounds(f, g, a, b, (r,)), brent(f, a, b, 1e-9, (r,)) if f(a, r) * f(b, r) <= 0 else NAN
        for t in (int, np.int32, np.float32, np.float64):
            ctx.tick(dict(r=r, a=a, b=b, g=g, type=str(t)))
            lb, ub = guess_to_bounds(f, t(g), t(a), t(b), (r,))
            ctx.check(same((lb, ub), want[0], 1e-6, 1e-6) is None, "bounds depend on the type of numbers", r=r, a=a, b=b, g=g, type=str(t), got=(lb, ub), want=want)
            if np.isfinite(want[1]):
                x = brent(f, t(a), t(b), 1e-9, (r,))
                ctx.check(abs(x - want[1]) < 2e-5, "the root depends on the type of numbers", r=r, a=a, b=b, type=str(t), got=x, want=want)
            ctx.count(states=1, transitions=2, validated=2)


def scalars(ctx, q):
    """Whole numbers in place of options."""
    from neutralocean.mixed_layer import mixed_layer as ml
    from neutralocean.surface import anomaly_surf, omega_surf, potential_surf
    from neutralocean.synthocean import synthocean

    T3 = (int, np.int32, np.float32, np.float64)
    for kinds, S, T in oceans():
        w = ml(S, T, P, pot_dens_diff=1.0, ref_p=200.0, grav=10.0, rho_c=1000.0, eos="jmd95")
        o = dict(output=False, ITER_MAX=3)
        big = dict(eos="jmd95", output=False)
        u = omega_surf(S, T, P, GRID, (0,), 200.0, **o)
        v = [f(S, T, P, grid=GRID, pin_cast=(0,), pin_p=200.0, **big) for f in (potential_surf, anomaly_surf)]
        b = [f(S, T, P, grid=GRID, pin_cast=(0,), pin_p=200.0, grav=10.0, rho_c=1000.0, **big) for f in (potential_surf, anomaly_surf)]
        for t in T3:
            ctx.tick(dict(ocean=kinds, type=str(t)))
            r = ml(S, T, P, pot_dens_diff=t(1), ref_p=t(200), grav=t(10), rho_c=t(1000), eos="jmd95")
            ctx.check(same(w, r, 1e-5, 1e-5) is None, "options of the mixed layer of this type give another result", ocean=kinds, type=str(t), got=r, want=w)
            r = omega_surf(S, T, P, GRID, (0,), t(200), TOL_P_CHANGE_RMS=t(0), **o)
            ctx.check(same(u, r, 1e-6, 1e-3) is None, "a pressure of this type gives another omega surface", ocean=kinds, type=str(t), got=r, want=u)
            for f, x, y in zip((potential_surf, anomaly_surf), v, b):
                for i in (np.int64(0), 0, [0], (np.int32(0),)):
                    r = f(S, T, P, grid=GRID, pin_cast=i, pin_p=200.0, **big)
                    ctx.check(same(x, r, 1e-12, 0) is None, "a pin of this type gives another surface", ocean=kinds, pin=repr(i), got=r, want=x)
                r = f(S, T, P, grid=GRID, pin_cast=(0,), pin_p=200.0, grav=t(10), rho_c=t(1000), **big)
                ctx.check(same(y, r, 1e-6, 1e-3) is None, "Boussinesq constants of this type give another surface", ocean=kinds, type=str(t), got=r, want=y)
            ctx.count(states=1, transitions=12, validated=12)
    for t in T3:
        w, r = synthocean((3, 4, 5), pbot=4000.0, SSSSa=1.0), synthocean((3, 4, 5), pbot=t(4000), SSSSa=t(1))
        ctx.check(same(w, r, 1e-6, 0) is None, "parameters of this type give another ocean", type=str(t))
        r = synthocean(tuple((np.int32 if t is not int else int)(x) for x in (3, 4, 5)), pbot=4000.0, SSSSa=1.0)
        ctx.check(same(w, r, 0, 0) is None, "sizes of this type give another ocean")
