"""How ref, isoval, pin_cast and pin_p select an isopycnal surface."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import at, at_many, eos_fn, eos_kwargs

BOUNDS = (
    "a 2x3 ocean of six different casts (one short, one land, one with surface levels missing); every "
    "pin cast x 7 pin pressures (levels, between, both ends, outside above and below) x ref given or "
    "not x pinning or isovalue or both x potential/anomaly x interpolant x equation of state x "
    "diagnostics on/off; pins as tuple, list, dict (increasing, decreasing, unsorted or no coordinates), int (1D ocean), ocean dimensionality 1-3; oceans of 120 casts pinned at 10 casts; every "
    "subset of the four selectors.  states = selector combinations, transitions = surface calls."
)
ASSUMES = ["pin_p, ref are Python floats, as documented"]
P = np.array([0.0, 50.0, 200.0, 1000.0])
NI, NJ = 2, 3
EOSES = ("lin", "thermo", "gsw")


def ocean():
    S = np.array([[[34.0, 34.5, 35.0, 35.5], [34.2, 34.4, 35.3, 35.4], [35.0, 35.0, NAN, NAN]],
                  [[NAN] * 4, [NAN, 34.0, 34.8, 35.7], [36.0, 35.5, 35.2, 35.9]]])
    T = np.array([[[20.0, 12.0, 6.0, 2.0], [18.0, 13.0, 5.0, 3.0], [15.0, 8.0, NAN, NAN]],
                  [[NAN] * 4, [NAN, 9.0, 5.0, 1.0], [25.0, 14.0, 7.0, 4.0]]])
    return S, T, np.broadcast_to(P, S.shape).copy()


def tasks(tier):
    t = []
    for eos in EOSES:
        for typ in ("potential", "anomaly"):
            for kind in ("linear", "pchip"):
                t.append(("large %s %s %s" % (typ, eos, kind), dict(m="large", eos=eos, typ=typ, kind=kind)))
                t.append(("%s %s %s" % (typ, eos, kind), dict(eos=eos, typ=typ, kind=kind)))
    t.append(("rejected combinations", dict(m="reject")))
    t.append(("pin forms", dict(m="forms")))
    return t


def warm(ctx, tier):
    import neutralocean.surface  # noqa

    for e in EOSES:
        eos_fn(e)(35.0, 10.0, 0.0)


EDGES = (np.array([0, 1, 3, 4, 0, 1, 2]), np.array([1, 2, 4, 5, 3, 4, 5]))


def surf_of(typ):
    from neutralocean.surface import anomaly_surf, potential_surf

    return potential_surf if typ == "potential" else anomaly_surf


def refval(f, typ, ref, s, t, p):
    if typ == "potential":
        return f(s, t, ref + 0.0 * p)
    return f(s, t, p) - f(ref[0] + 0.0 * p, ref[1] + 0.0 * p, p)


def on_isosurface(ctx, f, typ, kind, ref, iso, S, T, Pf, s, t, p, tolp, skip=None, info={}):
    """Every cast is at the isovalue, or the isovalue is not between its ends."""
    for n in np.ndindex(*p.shape):
        if n == skip:
            continue
        ok = np.isfinite(S[n]) & np.isfinite(Pf[n])
        lev = np.flatnonzero(ok)
        ctx.check(np.isfinite(s[n]) == np.isfinite(p[n]) == np.isfinite(t[n]), "s,t,p differ in what is missing",
                  cast=n, **info)
        if lev.size < 2:
            ctx.check(np.isnan(p[n]), "surface in a cast without two levels", cast=n, **info)
            continue
        a, b = Pf[n][lev[0]], Pf[n][lev[-1]]

        def F(x):
            x = np.atleast_1d(np.asarray(x, float))
            return refval(f, typ, ref, at(kind, Pf[n], S[n], x), at(kind, Pf[n], T[n], x), x) - iso

        e = F([a, b])
        if np.isnan(iso):
            ctx.check(np.isnan(p[n]), "a surface exists though the isovalue is NaN", cast=n, **info)
            continue
        if np.isnan(p[n]):
            ctx.check(e[0] * e[1] >= 0, "no surface though the isovalue is between the ends", cast=n, ends=e, **info)
            continue
        x = np.array([p[n], max(a, p[n] - 2.02 * tolp), min(b, p[n] + 2.02 * tolp)])
        v = F(x)
        sc = 1e-13 * max(1.0, abs(iso)) if abs(iso) > 1e-2 else 1e-17
        ctx.check(v.min() <= sc and v.max() >= -sc, "the surface is not at the isovalue", cast=n, p=p[n], values=v, **info)
        ctx.check(abs(at(kind, Pf[n], S[n], p[n])[0] - s[n]) < 1e-9 and abs(at(kind, Pf[n], T[n], p[n])[0] - t[n]) < 1e-8,
                  "s,t on the surface are not those of the cast", cast=n, **info)


def run(ctx, q):
    if q.get("m") == "reject":
        return reject(ctx)
    if q.get("m") == "large":
        return large(ctx, q)
    if q.get("m") == "forms":
        return forms(ctx)
    eos, typ, kind = q["eos"], q["typ"], q["kind"]
    f, surf, kw = eos_fn(eos), surf_of(typ), eos_kwargs(eos)
    S, T, Pf = ocean()
    refs = (None, 500.0) if typ == "potential" else (None, (35.0, 10.0), [34.5, 3.0], (None, None), (35.0, None))
    tolp = 1e-4
    for pin in itertools.product(range(NI), range(NJ)):
        for pin_p in (0.0, 30.0, 50.0, 120.0, 1000.0, 1000.5, -0.1):
            s0, t0 = at(kind, Pf[pin], S[pin], pin_p)[0], at(kind, Pf[pin], T[pin], pin_p)[0]
            for i, ref in enumerate(refs):
                diags = (i % 2 == 0)
                info = dict(pin_cast=pin, pin_p=pin_p, ref=ref, typ=typ, kind=kind, eos=eos)
                ctx.tick(info)
                s, t, p, d = surf(S, T, Pf, ref=ref, pin_cast=pin, pin_p=pin_p, interp=kind, diags=diags,
                                  output=False, grid=dict(edges=EDGES), **kw)
                ctx.check(p.shape == (NI, NJ), "shape of the surface", got=p.shape)
                if typ == "potential":
                    want_ref = pin_p if ref is None else ref
                    want_iso = f(s0, t0, want_ref)
                    ctx.check(d["ref"] == want_ref, "reported reference", got=d["ref"], **info)
                else:
                    none = ref is None or any(v is None for v in ref)
                    want_ref = (s0, t0) if none else tuple(ref)
                    want_iso = f(s0, t0, pin_p) - f(want_ref[0], want_ref[1], pin_p)
                    ctx.check(np.allclose(d["ref"], want_ref, rtol=0, atol=1e-9, equal_nan=True),
                              "reported reference", got=d["ref"], **info)
                scale = 1e-11 * (1000.0 if eos != "gsw" else 1e-3)
                ctx.check(np.isclose(d["isoval"], want_iso, rtol=0, atol=scale, equal_nan=True),
                          "reported isovalue", got=d["isoval"], want=want_iso, **info)
                if np.isnan(s0):
                    ctx.check(np.isnan(p).all() and np.isnan(s).all() and np.isnan(t).all(),
                              "a surface exists though the pin is not in the water", got=p, **info)
                    ctx.outcome("pin outside the water")
                else:
                    ctx.check(p[pin] == pin_p, "the surface misses its pin", got=p[pin], **info)
                    ctx.check(abs(s[pin] - s0) < 1e-9 and abs(t[pin] - t0) < 1e-8, "s,t at the pin", got=(s[pin], t[pin]), **info)
                    on_isosurface(ctx, f, typ, kind, want_ref, want_iso, S, T, Pf, s, t, p, tolp, skip=pin, info=info)
                    ctx.outcome("pinned, %d casts" % np.isfinite(p).sum())
                if diags:
                    ctx.check(d["n_wet"] == np.isfinite(p).sum(), "number of wet casts", got=d["n_wet"])
                    ctx.check({"e_RMS", "e_MAV", "timer"} <= set(d), "diagnostics missing", got=sorted(d))
                ctx.count(states=1, transitions=1, validated=1)
                # ref and isoval together take precedence over pin_cast, pin_p
                full = ref is not None and (typ == "potential" or all(v is not None for v in ref))
                if full:
                    iso = float(refval(f, typ, ref, np.array([34.9]), np.array([7.0]), np.array([100.0]))[0])
                    out = []
                    for kws in (dict(), dict(pin_cast=pin, pin_p=pin_p), dict(pin_cast=pin), dict(pin_p=pin_p)):
                        ctx.tick(dict(info, isoval=iso, also=kws))
                        s, t, p, d = surf(S, T, Pf, ref=ref, isoval=iso, interp=kind, diags=False, **kws, **kw)
                        ctx.check(d["isoval"] == iso and tuple(np.atleast_1d(d["ref"])) == tuple(np.atleast_1d(ref)),
                                  "reported ref, isoval differ from those given", got=d, **info)
                        out.append((s, t, p))
                        ctx.count(states=1, transitions=1, validated=1)
                    on_isosurface(ctx, f, typ, kind, ref, iso, S, T, Pf, *out[0], tolp, info=dict(info, isoval=iso))
                    for o in out[1:]:
                        for a, b in zip(out[0], o):
                            ctx.check(np.array_equal(a, b, equal_nan=True),
                                      "pin_cast, pin_p changed a surface given by ref and isoval", **info)
    ctx.sample(info)


def large(ctx, q):
    """Pins anywhere in an ocean of many casts."""
    from mc.checks.c24 import big_ocean

    eos, typ, kind = q["eos"], q["typ"], q["kind"]
    f, surf, kw = eos_fn(eos), surf_of(typ), eos_kwargs(eos)
    shape = (8, 15)
    S, T, X = big_ocean(120)
    S, T = (x.reshape(shape + (-1,)) for x in (S, T))
    Pf = X + 3.0 * (np.arange(120).reshape(shape + (1,)) % 4)
    for j, pin in enumerate(((0, 0), (0, 14), (7, 0), (7, 14), (3, 8), (1, 1), (6, 13), (2, 9), (5, 3), (4, 12))):
        for pin_p in (40.0, 333.0, 1200.0):
            s0, t0 = at(kind, Pf[pin], S[pin], pin_p)[0], at(kind, Pf[pin], T[pin], pin_p)[0]
            info = dict(pin_cast=pin, pin_p=pin_p, typ=typ, kind=kind, eos=eos)
            ctx.tick(info)
            s, t, p, d = surf(S, T, Pf, pin_cast=pin, pin_p=pin_p, interp=kind, diags=False, **kw)
            ctx.check(p.shape == shape, "shape of the surface", got=p.shape, **info)
            ctx.count(states=1, transitions=1, validated=120)
            if np.isnan(s0):
                ctx.check(np.isnan(p).all(), "a surface exists though the pin is not in the water", got=p, **info)
                ctx.outcome("large, pin outside the water")
                continue
            if typ == "potential":
                ref, iso = pin_p, float(f(s0, t0, pin_p))
            else:
                ref, iso = (s0, t0), 0.0
            ctx.check(p[pin] == pin_p, "the surface misses its pin", got=p[pin], **info)
            ctx.check(abs(s[pin] - s0) < 1e-9 and abs(t[pin] - t0) < 1e-8, "s,t at the pin", got=(s[pin], t[pin]), **info)
            on_isosurface(ctx, f, typ, kind, ref, iso, S, T, Pf, s, t, p, 1e-4, skip=pin, info=info)
            ctx.outcome("large, %d casts" % np.isfinite(p).sum())


def reject(ctx):
    S, T, Pf = ocean()
    kw = eos_kwargs("lin")
    for typ in ("potential", "anomaly"):
        surf = surf_of(typ)
        for r, i, c, pp in itertools.product((0, 1), repeat=4):
            args = {}
            if r:
                args["ref"] = 100.0 if typ == "potential" else (35.0, 10.0)
            if i:
                args["isoval"] = 1027.5 if typ == "potential" else 0.1
            if c:
                args["pin_cast"] = (0, 0)
            if pp:
                args["pin_p"] = 100.0
            legal = (r and i) or (c and pp and not (i and not r))
            if i and not r and c and pp:
                continue  # an isovalue without a reference: not specified
            ctx.tick(dict(typ=typ, args=args))
            ctx.count(states=1, transitions=1, validated=1)
            try:
                surf(S, T, Pf, diags=False, **args, **kw)
                ok = True
            except TypeError:
                ok = False
            ctx.check(ok == bool(legal), "selectors accepted or rejected wrongly", typ=typ, given=sorted(args), accepted=ok)
            ctx.outcome("accepted" if ok else "rejected")
        for args, exc in (
            (dict(ref="x", isoval=1.0), TypeError),
            (dict(ref=(35.0, 10.0, 1.0) if typ == "anomaly" else (35.0, 10.0), isoval=1.0), TypeError),
            (dict(pin_cast=(5, 5), pin_p=100.0), ValueError),
            (dict(pin_cast=(0, 0), pin_p="a"), TypeError),
        ):
            ctx.tick(dict(typ=typ, args=args))
            ctx.count(states=1, transitions=1, validated=1)
            try:
                surf(S, T, Pf, diags=False, **args, **kw)
                ctx.fail("accepted invalid selectors", typ=typ, args=repr(args))
            except (TypeError, ValueError, IndexError):
                pass
        # diagnostics need the grid
        try:
            surf(S, T, Pf, pin_cast=(0, 0), pin_p=100.0, output=False, **kw)
            ctx.fail("diagnostics without a grid were accepted", typ=typ)
        except ValueError:
            pass


def forms(ctx):
    import xarray as xr

    S, T, Pf = ocean()
    kw = eos_kwargs("lin")
    for typ in ("potential", "anomaly"):
        surf = surf_of(typ)
        for pin in itertools.product(range(NI), range(NJ)):
            if np.isnan(S[pin]).all():
                continue
            pin_p = 70.0 if np.isfinite(S[pin][2]) else 20.0
            want = surf(S, T, Pf, pin_cast=pin, pin_p=pin_p, diags=False, **kw)[:3]
            x = ("lon", [10.0, 20.0])
            y = ("lat", [-5.0, 0.0, 5.0])
            Sx = xr.DataArray(S, dims=("lon", "lat", "z"), coords=dict(lon=x[1], lat=y[1]))
            Tx = xr.DataArray(T, dims=("lon", "lat", "z"), coords=dict(lon=x[1], lat=y[1]))
            lo, la = x[1][pin[0]], y[1][pin[1]]
            for form, args in (
                ("list", (S, T, Pf, list(pin))),
                ("numpy ints", (S, T, Pf, tuple(np.array(pin)))),
                ("dict", (Sx, Tx, Pf, dict(lon=lo, lat=la))),
                ("dict reordered", (Sx, Tx, Pf, dict(lat=la, lon=lo))),
                ("tuple on xarray", (Sx, Tx, Pf, pin)),
                ("dict, decreasing coordinate", (Sx.assign_coords(lat=y[1][::-1]), Tx.assign_coords(lat=y[1][::-1]), Pf, dict(lat=-la, lon=lo))),
                ("dict, unsorted coordinate", (Sx.assign_coords(lat=[350.0, 5.0, 20.0]), Tx.assign_coords(lat=[350.0, 5.0, 20.0]), Pf,
                                               dict(lon=lo, lat=[350.0, 5.0, 20.0][pin[1]]))),
                ("dict, dimension without coordinate", (Sx.drop_vars("lat"), Tx.drop_vars("lat"), Pf, dict(lon=lo, lat=pin[1]))),
                ("negative", (S, T, Pf, (pin[0] - NI, pin[1] - NJ))),
            ):
                ctx.tick(dict(typ=typ, form=form, pin=pin))
                got = surf(*args[:3], pin_cast=args[3], pin_p=pin_p, diags=False, **kw)[:3]
                for a, b in zip(want, got):
                    ctx.check(np.array_equal(a, np.asarray(b), equal_nan=True), "pin_cast as %s selects another surface" % form,
                              pin=pin, want=a, got=np.asarray(b))
                ctx.count(states=1, transitions=1, validated=1)
                ctx.outcome(form)
            # 1D ocean with int or 1-tuple; 3D ocean with a 3-tuple
            m = int(np.ravel_multi_index(pin, (NI, NJ)))
            S1, T1, P1 = (a.reshape(-1, 4) for a in (S, T, Pf))
            for pc in (m, (m,), [m]):
                ctx.tick(dict(typ=typ, form="1D", pin=repr(pc)))
                got = surf(S1, T1, P1, pin_cast=pc, pin_p=pin_p, diags=False, **kw)[:3]
                for a, b in zip(want, got):
                    ctx.check(np.array_equal(a.ravel(), b, equal_nan=True), "1D ocean: pin_cast %r" % (pc,), want=a, got=b)
                ctx.count(states=1, transitions=1, validated=1)
            S3, T3, P3 = (a.reshape(1, NI, NJ, 4) for a in (S, T, Pf))
            got = surf(S3, T3, P3, pin_cast=(0,) + pin, pin_p=pin_p, diags=False, **kw)[:3]
            for a, b in zip(want, got):
                ctx.check(np.array_equal(a[None], b, equal_nan=True), "3D horizontal ocean", want=a, got=b)
            ctx.count(states=1, transitions=1, validated=1)
