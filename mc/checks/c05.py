"""Potential density and anomaly surfaces, cast by cast."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import as2d, at_many, eos_fn, eos_kwargs, profiles

BOUNDS = (
    "surfaces through oceans made of every cast of 1-3 levels over 3 salinities x 3 temperatures "
    "(4 levels over 2 x 3), every pattern of missing levels in S,T and in P of 4 levels, casts of 24 and 90 levels, two sets of "
    "levels; 5 isovalues and 2 references each, both interpolants, 6 equations of state (three "
    "user supplied, three built in, one of them Boussinesq), 3 solver tolerances, 1D and 3D P; and "
    "every isovalue that an end bottle has exactly, over casts of 2-3 levels of dyadic data.  "
    "states = casts x surfaces, transitions = surface calls, validated = casts compared with the "
    "reference."
)
ASSUMES = [
    "S and T share their pattern of missing levels",
    "where a cast crosses the isovalue several times any of the crossings is right",
]
PS = {
    1: [np.array([10.0])],
    2: [np.array([0.0, 100.0]), np.array([5.0, 1500.0])],
    3: [np.array([0.0, 100.0, 200.0]), np.array([5.0, 25.0, 1500.0])],
    4: [np.array([0.0, 10.0, 500.0, 2000.0])],
}
EOSES = ("lin", "thermo", "vol", "gsw", "jmd95-bsq", "jmdfwg06")


def tasks(tier):
    t = []
    for eos in EOSES:
        for typ in ("potential", "anomaly"):
            for kind in ("linear", "pchip"):
                t.append(("%s %s %s" % (typ, eos, kind), dict(eos=eos, typ=typ, kind=kind, tier=tier)))
    for typ in ("potential", "anomaly"):
        for kind in ("linear", "pchip"):
            t.append(("%s through end bottles %s" % (typ, kind), dict(eos="dyadic", typ=typ, kind=kind, tier=tier)))
    return t


def warm(ctx, tier):
    import neutralocean.surface  # noqa

    for e in EOSES:
        eos_fn(e)(35.0, 10.0, 0.0)


def oceans(tier, eos):
    if eos == "dyadic":  # data on which all values at bottles are exact
        for n, P in ((2, (0.0, 64.0)), (2, (16.0, 2064.0)), (3, (0.0, 64.0, 128.0)), (3, (16.0, 32.0, 1056.0))):
            S, T = profiles((34.0, 35.0, 37.0), (1.0, 9.0, 21.0), n)
            yield "dyadic n=%d" % n, S, T, np.array(P)
        return
    for n in (1, 2, 3, 4):
        aS, aT = ((34.0, 35.0, 36.5), (1.0, 9.0, 25.0)) if n < 4 else ((34.0, 36.0), (1.0, 9.0, 25.0))
        if n == 4 and tier == "thorough":
            aS = (34.0, 35.0, 36.5)
        S, T = profiles(aS, aT, n)
        for P in PS[n]:
            yield "n=%d" % n, S, T, P
    # every pattern of missing data: levels missing in S,T (1), in P (2)
    P = PS[4][0]
    prof = [((34, 34.5, 35, 36), (25, 15, 9, 1)), ((36, 34, 36, 34), (9, 9, 9, 9)), ((35, 35, 34.5, 36), (20, 1, 20, 1))]
    Ss, Ts, Ps = [], [], []
    for pat in itertools.product(range(3), repeat=4):
        for s, t in prof:
            ok = np.array([q != 1 for q in pat])
            Ss.append(np.where(ok, s, NAN))
            Ts.append(np.where(ok, t, NAN))
            Ps.append(np.where([q != 2 for q in pat], P, NAN))
    yield "missing levels", np.array(Ss), np.array(Ts), np.array(Ps)
    # long casts
    yield long(24, 17)
    yield long(90, 61)


def long(n, m):
    z = np.linspace(0, 1, n)
    S = np.array([34 + z, 36 - z, 35 + 0.3 * np.sin(6 * z), 35 + 0 * z])
    T = np.array([20 * np.exp(-3 * z), 15 - 14 * z, 5 + 5 * np.cos(4 * z), 25 - 24.5 * z])
    S, T = np.repeat(S, 4, axis=0), np.tile(T, (4, 1))
    S2, T2 = S.copy(), T.copy()
    S2[:, m:] = NAN
    T2[:, m:] = NAN
    return "long %d" % n, np.concatenate([S, S2]), np.concatenate([T, T2]), 4000 * z**2


def run(ctx, p):
    from neutralocean.surface import anomaly_surf, potential_surf

    eos, typ, kind = p["eos"], p["typ"], p["kind"]
    f = eos_fn(eos)
    surf = potential_surf if typ == "potential" else anomaly_surf
    kw = eos_kwargs(eos)
    refs = (0.0, 800.0) if typ == "potential" else ((35.0, 10.0), (34.5, 2.0))
    for name, S, T, P in oceans(p["tier"], eos):
        N = len(S)
        Pn = np.broadcast_to(P, S.shape)
        ok = np.isfinite(S) & np.isfinite(T) & np.isfinite(Pn)
        first = np.where(ok.any(1), ok.argmax(1), 0)
        run_len = np.zeros(N, int)
        for c in range(N):
            k = first[c]
            while k < S.shape[1] and ok[c, k]:
                k += 1
            run_len[c] = k - first[c]
        r = np.arange(N)
        top = Pn[r, first]
        bot = Pn[r, np.maximum(first + run_len - 1, 0)]
        Pm = np.where(ok, Pn, NAN)
        Sm, Tm = np.where(ok, S, NAN), np.where(ok, T, NAN)

        def F(x, ref):
            s, t = at_many(kind, Pn, Sm, x), at_many(kind, Pn, Tm, x)
            if typ == "potential":
                return f(s, t, np.full_like(s, ref))
            return f(s, t, x) - f(np.full_like(s, ref[0]), np.full_like(s, ref[1]), x)

        for ref in refs:
            # isovalues: around the data of the ocean, including values attained exactly
            with np.errstate(invalid="ignore"):
                v = F(np.stack([top, bot, 0.5 * (top + bot)], 1), ref)
            vf = np.sort(v[np.isfinite(v)])
            if vf.size == 0:
                vf = np.array([1027.0]) if eos != "vol" else np.array([1e-3])
            spread = vf[-1] - vf[0] + 1e-9 * abs(vf[0])
            isos = [vf[0] - spread, vf[vf.size // 5] + 0.013 * spread, vf[vf.size // 2], 0.5 * (vf[0] + vf[-1]),
                    vf[-vf.size // 10] - 0.011 * spread]
            exact = None
            if eos == "dyadic":  # every value of an end bottle
                if typ == "anomaly":
                    ref = (35.0, 9.0)
                exact = F(np.stack([top, bot], 1), ref)
                if kind == "pchip":  # its bottom value is subject to rounding
                    exact[:, 1] = NAN
                isos = np.unique(exact[np.isfinite(exact)])
            for j, iso in enumerate(isos):
                iso = float(iso)
                tolp = (1e-4, 1e-2, 1e-7)[j % 3]
                ctx.tick(dict(ocean=name, eos=eos, kind=kind, ref=ref, isoval=iso, tol=tolp))
                width = 7
                extra = {} if j % 3 == 0 else dict(TOL_P_SOLVER=tolp)
                Pin = P if (np.ndim(P) == 1 and j % 2 == 0) else as2d(np.array(Pn), width)
                s, t, pp, d = surf(as2d(S, width), as2d(T, width), Pin, ref=ref, isoval=iso, interp=kind,
                                   diags=False, output=False, **extra, **kw)
                s, t, pp = (np.asarray(a).reshape(-1)[:N] for a in (s, t, pp))
                judge(ctx, kind, S, T, Pn, Sm, Tm, F, ref, iso, tolp, run_len, top, bot, s, t, pp, spread)
                if exact is not None:
                    w = (exact == iso).any(1) & ~np.isfinite(pp)
                    if w.any():
                        c = int(np.argmax(w))
                        ctx.fail("no surface though an end bottle has the isovalue", S=S[c], T=T[c], P=Pn[c], ref=ref, isoval=iso)
                    ctx.outcome("isovalue of an end bottle", (exact == iso).any(1).sum())
                ctx.count(states=N, transitions=1, validated=N)
                ctx.outcome("found", np.isfinite(pp).sum())
                ctx.outcome("no crossing", np.isnan(pp).sum())
    ctx.sample(dict(task=p, cast_S=S[0], cast_T=T[0], p=pp[0]))


def judge(ctx, kind, S, T, P, Sm, Tm, F, ref, iso, tolp, run_len, top, bot, s, t, pp, spread):
    def bad(mask, what):
        if mask.any():
            c = int(np.argwhere(mask)[0][0])
            ctx.fail(what, S=S[c], T=T[c], P=P[c], ref=ref, isoval=iso, got=dict(s=s[c], t=t[c], p=pp[c]))

    fin = np.isfinite(pp)
    bad(np.isnan(s) == fin, "salinity is missing where the surface exists, or the reverse")
    bad(np.isnan(t) == fin, "temperature is missing where the surface exists, or the reverse")
    bad(fin & (run_len < 2), "surface in a cast without two valid levels")
    tiny = 1e-9 * spread + 4e-16 * abs(iso)
    with np.errstate(invalid="ignore"):
        ends = F(np.stack([top, bot], 1), ref) - iso
        differ = (run_len >= 2) & (np.abs(ends) > tiny).all(1) & (ends[:, 0] * ends[:, 1] < 0)
        bad(differ & ~fin, "no surface though the isovalue lies between the ends of the cast")
        bad(fin & ((pp < top) | (pp > bot)), "surface outside the valid part of the cast")
        tol = 2.02 * (tolp + 5e-16 * np.abs(pp))
        xs = np.stack([pp, np.maximum(pp - tol, top), np.minimum(pp + tol, bot)], 1)
        v = F(xs, ref) - iso
        change = (np.nanmin(v, 1, initial=np.inf) <= tiny) & (np.nanmax(v, 1, initial=-np.inf) >= -tiny)
        bad(fin & ~change, "the surface is not at the isovalue (within the tolerance)")
        rs, rt = at_many(kind, P, Sm, pp[:, None])[:, 0], at_many(kind, P, Tm, pp[:, None])[:, 0]
        bad(fin & ~(np.abs(rs - s) <= 1e-8), "salinity on the surface is not that of the cast there")
        bad(fin & ~(np.abs(rt - t) <= 1e-7), "temperature on the surface is not that of the cast there")
