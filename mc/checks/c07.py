"""Results do not depend on how the same ocean is laid out, and inputs are not changed."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import CUSTOM, eos_kwargs, lin, thermo

BOUNDS = (
    "a 2x3x4 ocean (land, short and partly missing casts) and an 8x15x7 ocean pinned in its interior: every permutation of its axes x vertical "
    "dimension as nonnegative int, negative int or name x numpy / xarray with coordinates / without / "
    "mixed x 1D or full P x C, Fortran, strided, read-only, float32, big-endian arrays; potential, "
    "anomaly and omega surfaces (pinned by number or array), mixed layer, neutral trajectory, "
    "instability count; 9 horizontal shapes of one to four dimensions, x every pin of the small ocean.  states = layouts, "
    "transitions = calls."
)
ASSUMES = ["grid edges are renumbered together with the horizontal dimensions"]
NI, NJ, NK = 2, 3, 4
P1 = SMALL = np.array([0.0, 64.0, 256.0, 1024.0])


def ocean():
    if NI == 8:
        from mc.checks.c24 import big_ocean

        S, T, _ = big_ocean(NI * NJ)
        S, T = (np.round(x.reshape(NI, NJ, NK) * 256) / 256 for x in (S, T))  # exact in single precision
        return S, T, P1 + 2.0 * (np.arange(NI * NJ).reshape(NI, NJ, 1) % 5)
    S = np.array([[[34.0, 34.5, 35.0, 35.5], [34.25, 34.375, 35.25, 35.5], [35.0, 35.25, NAN, NAN]],
                  [[NAN] * 4, [NAN, 34.0, 34.75, 35.75], [34.5, 34.75, 35.25, 36.0]]])
    T = np.array([[[20.0, 12.0, 6.0, 2.0], [18.0, 13.0, 5.0, 3.0], [15.0, 8.0, NAN, NAN]],
                  [[NAN] * 4, [NAN, 9.0, 5.0, 1.0], [25.0, 14.0, 7.0, 4.0]]])
    P = np.broadcast_to(P1, S.shape).copy()
    P[1] += 2.0
    return S, T, P


def setup(large):
    global NI, NJ, NK, P1
    NI, NJ, NK = (8, 15, 7) if large else (2, 3, 4)
    P1 = np.array([0.0, 50.0, 120.0, 250.0, 500.0, 900.0, 1500.0]) if large else SMALL


def edges_of(shape):
    """Edges of the ocean, numbering casts for a horizontal array of this shape."""
    idx = np.arange(NI * NJ).reshape(NI, NJ)
    if shape == (NJ, NI):
        num = np.arange(NI * NJ).reshape(NJ, NI).T
    else:
        num = idx
    a = np.concatenate([num[:, :-1].ravel(), num[:-1].ravel()])
    b = np.concatenate([num[:, 1:].ravel(), num[1:].ravel()])
    return a, b


FUNCS = ("potential", "anomaly", "omega", "omega array", "mixed_layer", "count_unstable")
CONTAINERS = ("numpy", "xarray", "xarray no coords", "xarray ST")
ORDERS = ("C", "F", "strided", "readonly", "f4", "be")


def tasks(tier):
    t = []
    for fn in FUNCS:
        for cont in CONTAINERS:
            t.append(("%s %s" % (fn, cont), dict(fn=fn, cont=cont, tier=tier)))
            t.append(("%s %s large" % (fn, cont), dict(fn=fn, cont=cont, tier=tier, large=True)))
        for large in (False, True):
            t.append(("%s shapes%s" % (fn, large * " large"), dict(fn=fn, cont="shapes", large=large)))
    t.append(("trajectory", dict(fn="trajectory", cont="all")))
    return t


def warm(ctx, tier):
    S, T, P = ocean()
    for fn in FUNCS:
        call(fn, S, T, P, -1, (0, 0), edges_of((NI, NJ)))


def vec(s, t, p):
    return thermo.py_func(s, t, p)


def call(fn, S, T, P, vert_dim, pin, edges, p_init=None):
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.stability import count_unstable
    from neutralocean.surface import anomaly_surf, omega_surf, potential_surf

    kw = eos_kwargs("thermo")
    if fn == "potential":
        return potential_surf(S, T, P, vert_dim=vert_dim, pin_cast=pin, pin_p=100.0, diags=False, **kw)[:3]
    if fn == "anomaly":
        return anomaly_surf(S, T, P, vert_dim=vert_dim, pin_cast=pin, pin_p=100.0, diags=False, **kw)[:3]
    if fn.startswith("omega"):
        return omega_surf(S, T, P, dict(edges=edges), pin, 100.0 if p_init is None else p_init, vert_dim=vert_dim,
                          diags=False, output=False, ITER_MAX=3, **kw)[:3]
    if fn == "mixed_layer":
        return (mixed_layer(S, T, P, eos=thermo, pot_dens_diff=0.5, ref_p=10.0, vert_dim=vert_dim),)
    return (np.array(count_unstable(S, T, P, eos=vec, vert_dim=vert_dim)),)


def store(A, how):
    """The same numbers, stored in another way."""
    if how == "C":
        return np.ascontiguousarray(A)
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.full(tuple(2 * n for n in A.shape), 7.0)
        B[tuple(slice(None, None, 2) for _ in A.shape)] = A
        return B[tuple(slice(None, None, 2) for _ in A.shape)]
    if how == "readonly":
        B = np.array(A)
        B.flags.writeable = False
        return B
    if how == "f4":
        return A.astype(np.float32)
    return A.astype(">f8")


def run(ctx, q):
    import xarray as xr

    fn, cont = q["fn"], q["cont"]
    setup(q.get("large"))
    if fn == "trajectory":
        return trajectory(ctx)
    S0, T0, P0 = ocean()
    names = ("lon", "lat", "z")
    coords = dict(lon=[10.0 * i for i in range(NI)], lat=[-5.0 + 5.0 * i for i in range(NJ)], z=[1.0 + i for i in range(NK)])
    pin0 = (3, 8) if NI == 8 else (0, 0)
    if cont == "shapes":
        if NI == 8:
            shapes, pins = ((120,), (4, 2, 15), (2, 2, 2, 15)), (pin0, (7, 0), (1, 14))
        else:
            shapes, pins = ((6,), (1, 6), (6, 1), (1, 2, 3), (2, 3, 1), (2, 1, 3)), list(itertools.product(range(2), range(3)))
        if fn in ("mixed_layer", "count_unstable"):
            pins = pins[:1]
        for Pmode, p0 in itertools.product(("1D", "ND"), pins):
            P = P1 if Pmode == "1D" else P0
            fl = p0[0] * NJ + p0[1]
            pi = init(fn)
            if pi is not None and np.isnan(pi[p0]):
                continue

            def attempt(S, T, P, pin, pi):
                try:
                    return call(fn, S, T, P, -1, pin, edges_of((NI, NJ)), pi)
                except RuntimeError:
                    return None  # the pin is not on its cast

            want = attempt(S0, T0, P, p0, pi)
            for shp in shapes:
                pin = tuple(int(i) for i in np.unravel_index(fl, shp))
                info = dict(fn=fn, shape=shp, P=Pmode, pin=pin)
                ctx.tick(info)
                r = lambda A: A.reshape(shp + (NK,))
                got = attempt(r(S0), r(T0), P if Pmode == "1D" else r(P0), pin, None if pi is None else pi.reshape(shp))
                if want is None or got is None:
                    ctx.check(want is got, "%s: refused for one horizontal shape only" % fn, **info)
                    ctx.outcome("refused")
                    continue
                for a, b in zip(want, got):
                    if fn != "count_unstable":
                        ctx.check(np.shape(b) == shp, "shape of the result", want=shp, got=np.shape(b))
                    ctx.check(np.allclose(np.ravel(a), np.ravel(b), rtol=0, atol=1e-10, equal_nan=True),
                              "%s: differs for horizontal shape %s" % (fn, shp), want=a, got=b, **info)
                ctx.count(states=1, transitions=1, validated=1)
        return
    for Pmode in ("1D", "ND"):
        Pb = P1 if Pmode == "1D" else P0
        want = call(fn, S0, T0, Pb, -1, pin0, edges_of((NI, NJ)), init(fn))
        ctx.check(NI != 8 or fn == "count_unstable" or np.isfinite(want[-1]).sum() > 60, "most casts of a smooth ocean have no surface", fn=fn, got=want[-1])
        for perm in itertools.permutations(range(3)):
            hor = tuple(a for a in perm if a != 2)
            vd = perm.index(2)
            hshape = tuple((NI, NJ)[a] for a in hor)
            edges = edges_of(hshape) if hor == (1, 0) else edges_of((NI, NJ))
            for order in ORDERS if cont in ("numpy", "xarray") else ("C", "F"):
                S, T = (store(np.transpose(A, perm), order) for A in (S0, T0))
                P = store(np.transpose(P0, perm), order) if Pmode == "ND" else store(P1, order)
                vds = [vd, vd - 3] if cont == "numpy" else [names[2], vd, vd - 3]
                before = [np.array(A, copy=True) for A in (S, T, P)]
                dims = tuple(names[a] for a in perm)
                Sx, Tx, Px = S, T, P
                if cont != "numpy":
                    co = {k: coords[k] for k in dims} if cont != "xarray no coords" else None
                    Sx = xr.DataArray(S, dims=dims, coords=co, name="salt", attrs=dict(units="g/kg"))
                    Tx = xr.DataArray(T, dims=dims, coords=co, name="temp", attrs=dict(units="degC"))
                    if cont != "xarray ST":
                        Px = xr.DataArray(P, dims=dims if Pmode == "ND" else ("z",), name="pres", attrs=dict(units="dbar"),
                                          coords=co if Pmode == "ND" else None)
                for v in vds:
                    info = dict(fn=fn, container=cont, order=order, axes=dims, vert_dim=v, P=Pmode)
                    ctx.tick(info)
                    pin = tuple(pin0[a] for a in hor)
                    pi = init(fn)
                    if pi is not None:
                        pi = np.ascontiguousarray(np.transpose(pi, hor))
                        if cont == "xarray":
                            pi = xr.DataArray(pi, dims=tuple(names[a] for a in hor))
                    pi0 = None if pi is None else np.array(pi)
                    got = call(fn, Sx, Tx, Px, v, pin, edges, pi)
                    for i, (a, b) in enumerate(zip(want, got)):
                        vb = np.asarray(b)
                        w = a if np.ndim(a) < 2 else np.transpose(a, hor)
                        ctx.check(vb.shape == w.shape, "shape of the result", want=w.shape, got=vb.shape, **info)
                        ctx.check(np.allclose(vb, w, rtol=0, atol=1e-9 if order != "f4" else 1e-4, equal_nan=True),
                                  "result depends on the layout of the input", want=w, got=vb, **info)
                        if cont != "numpy" and fn in ("potential", "anomaly") or cont != "numpy" and fn.startswith("omega"):
                            ctx.check(isinstance(b, xr.DataArray), "xarray in, but not out", **info)
                            ctx.check(b.dims == tuple(names[a_] for a_ in hor), "dimensions of the output", got=b.dims, **info)
                            if cont == "xarray":
                                for k in b.dims:
                                    ctx.check(k in b.coords and np.array_equal(b.coords[k].values, coords[k]),
                                              "coordinates of the output", dim=k, **info)
                            ctx.check("z" not in b.coords, "the output keeps the vertical coordinate", **info)
                            if i < 2:
                                ctx.check(b.name == ("salt", "temp")[i] and b.attrs == (Sx, Tx)[i].attrs,
                                          "name or attributes of the output", got=(b.name, b.attrs), **info)
                        elif cont == "numpy" and fn != "count_unstable":
                            ctx.check(isinstance(b, np.ndarray), "numpy in, but not out", got=type(b), **info)
                    for A, B, nm in zip((Sx, Tx, Px), before, "STP"):
                        ctx.check(np.array_equal(np.asarray(A), B, equal_nan=True), "input %s was changed" % nm, **info)
                    if pi is not None:
                        ctx.check(np.array_equal(np.asarray(pi), pi0, equal_nan=True), "input p_init was changed", **info)
                    ctx.count(states=1, transitions=1, validated=1)
                    ctx.outcome("%s %s" % (fn, cont))
    ctx.sample(info)


def init(fn):
    if fn != "omega array":
        return None
    if NI == 8:
        return 150.0 + 10.0 * (np.arange(NI * NJ).reshape(NI, NJ) % 17)
    return np.array([[100.0, 120.0, 30.0], [500.0, 200.0, 2000.0]])


def trajectory(ctx):
    import xarray as xr

    from neutralocean.traj import neutral_trajectory

    S0, T0, P0 = (A.reshape(6, 4)[[0, 1, 5, 4, 1, 0]] for A in ocean())
    for Pmode, eos in itertools.product(("1D", "ND"), (lin, thermo)):
        Pb = P1 if Pmode == "1D" else P0
        want = neutral_trajectory(S0, T0, Pb, 100.0, eos=eos)
        ctx.check(np.isfinite(want[2]).all(), "trajectory stops where it should not", got=want[2])
        for tr, order, cont in itertools.product((False, True), ORDERS, ("numpy", "xarray")):
            f = (lambda A: A.T) if tr else (lambda A: A)
            S, T = (store(f(A), order) for A in (S0, T0))
            P = store(f(P0), order) if Pmode == "ND" else store(P1, order)
            before = [np.array(A, copy=True) for A in (S, T, P)]
            dims = ("z", "c") if tr else ("c", "z")
            for v in ((0, -2) if tr else (1, -1)) + (("z",) if cont == "xarray" else ()):
                Sx, Tx, Px = S, T, P
                if cont == "xarray":
                    Sx, Tx = (xr.DataArray(A, dims=dims) for A in (S, T))
                    Px = xr.DataArray(P, dims=dims) if Pmode == "ND" else P
                info = dict(fn="trajectory", order=order, transposed=tr, vert_dim=v, P=Pmode, container=cont)
                ctx.tick(info)
                got = neutral_trajectory(Sx, Tx, Px, 100.0, vert_dim=v, eos=eos)
                for a, b in zip(want, got):
                    ctx.check(np.allclose(a, np.asarray(b), rtol=0, atol=1e-9 if order != "f4" else 1e-4, equal_nan=True),
                              "result depends on the layout of the input", want=a, got=b, **info)
                for A, B in zip((S, T, P), before):
                    ctx.check(np.array_equal(A, B, equal_nan=True), "an input was changed", **info)
                ctx.count(states=1, transitions=1, validated=1)
                ctx.outcome("trajectory")
