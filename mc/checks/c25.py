"""Diagnostics of potential density and anomaly surfaces, and ways to name the equation of state."""
import contextlib
import io
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import CUSTOM, GRAV, RHOC, eos_kwargs, eos_s_t_fn
from mc.checks.c15 import forms

BOUNDS = (
    "an ocean of 2x2 casts in 3 versions (all ocean; one short cast and land; two casts without the surface): every graph on "
    "its 4 casts (and every list of up to 2 directed edges, self loops and repeats included), 6 forms of the distances, potential density and anomaly surfaces, pinned (in the middle; on every eighth graph at either end of a cast) or with an "
    "isovalue, 5 equations of state (user supplied pair, specific volume, by name, Boussinesq by name, Boussinesq as functions), "
    "both interpolants; diagnostics and printing on and off; vertical dimension first, in the middle and last; labelled arrays; oceans of 42 and 120 casts; grids missing or without "
    "edges.  states = (ocean, graph, distances, options), transitions = surface calls, validated = diagnostics compared with their definition."
)
ASSUMES = ["distances are positive"]
P = np.array([0.0, 100.0, 300.0, 800.0])
POOL = [
    ([34.0, 34.5, 35.0, 35.5], [20.0, 14.0, 8.0, 3.0]),
    ([34.2, 34.6, 35.1, 35.6], [18.0, 13.0, 8.0, 4.0]),
    ([34.1, 34.7, 35.2, NAN], [19.0, 12.0, 7.0, NAN]),
    ([36.9, 37.0, 37.1, 37.4], [2.0, 2.0, 2.0, 2.0]),
    ([NAN] * 4, [NAN] * 4),
    ([34.1, 34.4, 35.3, 35.4], [22.0, 15.0, 6.0, 2.5]),
]
OCEANS = [(0, 1, 2, 5), (1, 2, 4, 0), (0, 3, 1, 3)]
EOSES = ("thermo", "vol", "gsw", "jmd95-bsq", "gsw-pair")
PR = list(itertools.combinations(range(4), 2))


def tasks(tier):
    t = []
    for o in range(len(OCEANS)):
        for eos in EOSES:
            for typ in ("potential", "anomaly"):
                kinds = ("linear", "pchip") if tier == "thorough" or eos in ("thermo", "gsw") else ("linear",)
                for kind in kinds:
                    t.append(("%s %s %s ocean %d" % (typ, eos, kind, o), dict(o=o, eos=eos, typ=typ, kind=kind)))
                    t.append(("%s %s %s large" % (typ, eos, kind), dict(big=True, eos=eos, typ=typ, kind=kind))) if o == 0 else None
    return t


def kwargs(eos):
    if eos == "gsw-pair":
        from neutralocean.eos import make_eos, make_eos_s_t

        return dict(eos=(make_eos("gsw", GRAV, RHOC), make_eos_s_t("gsw", GRAV, RHOC)))
    return eos_kwargs(eos)


def warm(ctx, tier):
    global pot, ano
    from neutralocean.surface import anomaly_surf as ano, potential_surf as pot

    S, T = (np.array([POOL[k][v] for k in (0, 1)]) for v in (0, 1))
    for e in EOSES:
        ctx.tick(e)
        eos_s_t_fn("gsw-bsq" if e == "gsw-pair" else e)
        for f in (pot, ano):
            f(S, T, P, grid=dict(edges=([0], [1])), pin_cast=(0,), pin_p=200.0, output=False, **kwargs(e))


def big(ctx, q):
    from mc.checks.c24 import big_grid, big_ocean

    f = pot if q["typ"] == "potential" else ano
    fst = eos_s_t_fn("gsw-bsq" if q["eos"] == "gsw-pair" else q["eos"])
    kw = dict(interp=q["kind"], **kwargs(q["eos"]))
    scale = abs(float(np.asarray(fst(np.array([35.0]), np.array([8.0]), np.array([200.0]))[0])[0]))
    for name in ("closed", "periodic", "random", "star", "wide"):
        shape = (8, 15) if name == "wide" else (6, 7)
        n = shape[0] * shape[1]
        S, T, X = big_ocean(n)
        g = big_grid(name, n)
        a, b = g["edges"]
        pin = int(np.flatnonzero(np.isfinite(S[:, :6]).all(1))[n // 5])
        for p0 in (200.0, 520.0):
            info = dict(task=q, grid=name, pin_p=p0)
            ctx.tick(info)
            S3, T3 = (x.reshape(shape + (-1,)) for x in (S, T))
            s, t, p, d = f(S3, T3, X, grid=g, pin_cast=np.unravel_index(pin, shape), pin_p=p0, output=False, **kw)
            r = f(S3, T3, X, diags=False, pin_cast=np.unravel_index(pin, shape), pin_p=p0, **kw)
            ctx.check(s.shape == shape and all(np.array_equal(x, y, equal_nan=True) for x, y in zip((s, t, p), r[:3])), "diagnostics change the surface", **info)
            s, t, p = (x.ravel() for x in (s, t, p))
            m = lambda y: 0.5 * (y[a] + y[b])
            rs, rt = fst(m(s), m(t), m(p))
            e = (rs * (s[b] - s[a]) + rt * (t[b] - t[a])) / g["dist"]
            ok = np.isfinite(e)
            w = (g["dist"] * g["distperp"])[ok]
            rms, mav = (np.sqrt(np.sum(w * e[ok] ** 2) / w.sum()), np.sum(w * abs(e[ok])) / w.sum()) if ok.any() else (0.0, 0.0)
            ctx.check(abs(d["e_RMS"] - rms) <= 1e-8 * rms + 1e-11 * scale and abs(d["e_MAV"] - mav) <= 1e-8 * mav + 1e-11 * scale and d["n_wet"] == np.isfinite(p).sum(),
                      "diagnostics of the surface", got=(d["e_RMS"], d["e_MAV"], d["n_wet"]), want=(rms, mav, np.isfinite(p).sum()), **info)
            ctx.count(states=1, transitions=2, validated=n)
            ctx.outcome("large, %d of %d edges on the surface" % (ok.sum(), len(a)))


def run(ctx, q):
    if "big" in q:
        return big(ctx, q)
    import xarray as xr

    f = pot if q["typ"] == "potential" else ano
    ks = OCEANS[q["o"]]
    S, T = (np.array([POOL[k][v] for k in ks]).reshape(2, 2, 4) for v in (0, 1))
    fst = eos_s_t_fn("gsw-bsq" if q["eos"] == "gsw-pair" else q["eos"])
    kw = dict(interp=q["kind"], **kwargs(q["eos"]))
    lists = []
    for g in range(64):
        es = [PR[i] for i in range(6) if g >> i & 1]
        lists.append([(y, x) if i % 2 else (x, y) for i, (x, y) in enumerate(es)])
    D = list(itertools.product(range(4), repeat=2))
    lists += [[x] for x in D] + [[x, y] for x in D for y in D]
    base = {}
    sels = {"pin": dict(pin_cast=(0, 0), pin_p=240.0), "top": dict(pin_cast=(0, 0), pin_p=0.0), "bottom": dict(pin_cast=(0, 0), pin_p=800.0 if q["o"] != 1 else 300.0)}
    r = f(S, T, P, diags=False, **sels["pin"], **kw)
    ref, iso = r[3]["ref"], r[3]["isoval"]
    sels["isovalue"] = dict(ref=ref, isoval=float(iso) + (1e-9 if q["eos"] in ("vol", "gsw", "gsw-pair") else 1e-3))
    for name, sel in sels.items():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            base[name] = f(S, T, P, diags=False, **sel, **kw)
        ctx.check(out.getvalue() == "", "printing without diagnostics", selector=name, task=q)
        with contextlib.suppress(ValueError, TypeError, KeyError):
            f(S, T, P, diags=True, output=False, **sel, **kw)
            ctx.fail("diagnostics without a grid are not refused", selector=name, task=q)
        with contextlib.suppress(ValueError, TypeError, KeyError):
            f(S, T, P, diags=True, output=False, grid=dict(dist=1.0), **sel, **kw)
            ctx.fail("diagnostics without edges are not refused", selector=name, task=q)
        ctx.count(transitions=3)
    # an equation of state without derivatives is enough without diagnostics
    if isinstance(kw["eos"], tuple):
        k2 = dict(kw, eos=kw["eos"][0])
        r2 = f(S, T, P, diags=False, **sels["pin"], **k2)
        ctx.check(all(np.allclose(x, y, rtol=1e-12, atol=1e-9, equal_nan=True) for x, y in zip(r2, base["pin"][:3])), "the form of the equation of state matters", task=q)
        with contextlib.suppress(ValueError, TypeError, KeyError):
            f(S, T, P, diags=True, output=False, grid=dict(edges=(np.array([0]), np.array([1]))), **sels["pin"], **k2)
            ctx.fail("diagnostics without derivatives of the equation of state are not refused", task=q)
    n = 0
    for nl, es in enumerate(lists):
        E = len(es)
        a, b = np.array([x for x, _ in es], int), np.array([y for _, y in es], int)
        for form, extra, dist, perp in forms(E):
            if form == "lists" and not E:
                continue
            grid = dict(edges=(a.tolist(), b.tolist()) if form == "lists" else (a, b), **extra)
            for name, sel in sels.items():
                if name in ("top", "bottom") and nl % 8:
                    continue  # every eighth graph
                info = dict(task=q, edges=es, distances=form, selector=name)
                ctx.tick(info)
                lay = n % 4
                n += 1
                A, B, X, vd = S, T, P, -1
                if lay == 1:
                    A, B, vd = np.moveaxis(S, -1, 0), np.moveaxis(T, -1, 0), 0
                elif lay == 2:
                    A, B, vd = np.moveaxis(S, -1, 1), np.moveaxis(T, -1, 1), 1
                    X = np.broadcast_to(P[None, :, None], A.shape)
                elif lay == 3:
                    A, B = (xr.DataArray(np.moveaxis(y, -1, 0), dims=("z", "y", "x")) for y in (S, T))
                    X, vd = xr.DataArray(P, dims=("z",)), "z"
                show = n % 3 == 0
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    s, t, p, d = f(A, B, X, grid=grid, vert_dim=vd, output=show, **sel, **kw)
                s, t, p = (np.asarray(x) for x in (s, t, p))
                ctx.check((out.getvalue() != "") == show, "printing is not as asked", printed=out.getvalue(), asked=show, **info)
                ctx.check(s.shape == (2, 2) and all(np.allclose(x, y, rtol=1e-12, atol=1e-9, equal_nan=True) for x, y in zip((s, t, p), base[name][:3])),
                          "diagnostics change the surface", got=(s, t, p), want=base[name][:3], **info)
                s, t, p = (x.ravel() for x in (s, t, p))
                m = lambda y: 0.5 * (y[a] + y[b])
                rs, rt = fst(m(s), m(t), m(p))
                e = (rs * (s[b] - s[a]) + rt * (t[b] - t[a])) / dist
                ok = np.isfinite(e)
                w = (dist * perp)[ok]
                scale = abs(float(np.asarray(fst(np.array([35.0]), np.array([8.0]), np.array([200.0]))[0])[0]))
                rms = np.sqrt(np.sum(w * e[ok] ** 2) / w.sum()) if ok.any() else 0.0
                mav = np.sum(w * abs(e[ok])) / w.sum() if ok.any() else 0.0
                data = dict(got={k: v for k, v in d.items() if k != "timer"}, want=(rms, mav), **info)
                if not (abs(d["e_RMS"] - rms) <= 1e-8 * rms + 1e-11 * scale and abs(d["e_MAV"] - mav) <= 1e-8 * mav + 1e-11 * scale):
                    ctx.fail("norms of the neutrality errors of the surface", **data)
                ctx.check(d["n_wet"] == np.isfinite(p).sum(), "number of wet casts", **data)
                ctx.check(np.isfinite(d["timer"]) and d["timer"] >= 0, "time taken", timer=d["timer"], **info)
                ctx.check(np.allclose(d["ref"], base[name][3]["ref"], rtol=1e-12) and abs(d["isoval"] - base[name][3]["isoval"]) <= 1e-12 * abs(iso) + 1e-14, "reference and isovalue", **data)
                ctx.count(states=1, transitions=1, validated=5)
                ctx.outcome("%d of %d edges on the surface" % (ok.sum(), E))
    ctx.sample(data)
