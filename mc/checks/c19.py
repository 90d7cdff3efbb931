"""Equations of state against published coefficient tables, differentiated exactly."""
import itertools

import numpy as np

from mc import eosref as R

BOUNDS = (
    "every point of an 11 x 11 x 11 lattice (21^3 thorough; more points per axis than the degree of any "
    "polynomial involved) covering salinity 0-50, temperature -4-45 and pressure 0-12000, plus negative salinity for gsw, plus NaN in every "
    "subset of arguments; every public function of the modules gsw, jmd95, jmdfwg06, gswc, as scalar, with arrays and vectorised; every "
    "factory with every combination of 3 gravities and 3 reference densities (and one of them missing); make_bsq with 0-3 derivatives.  "
    "states = points, transitions = calls, validated = values compared with the reference."
)
ASSUMES = ["salinity is not negative (other than for gsw, which documents clamping by its library)"]
S0 = [0.0, 0.03, 1.0, 5.0, 13.0, 24.0, 33.0, 35.0, 36.5, 41.0, 50.0]
T0 = [-4.0, -1.8, -0.3, 0.0, 1.5, 4.0, 9.0, 16.0, 25.0, 33.0, 45.0]
P0 = [0.0, 1.0, 30.0, 250.0, 999.0, 2000.0, 3700.0, 5000.0, 7100.0, 9500.0, 12000.0]
SECOND = ("ss", "st", "tt", "sp", "tp", "pp")
THIRD = ("sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp", "ppp")
FIRST7 = ("s", "t", "ss", "st", "tt", "sp", "tp")
FUNCS = {
    ("gsw", "specvol"): ("",),
    ("gsw", "specvol_first_derivs"): ("s", "t", "p"),
    ("gsw", "specvol_second_derivs"): SECOND,
    ("gsw", "specvol_third_derivs"): THIRD,
    ("gsw", "specvol_s_t"): ("s", "t"),
    ("gsw", "specvol_p"): ("p",),
    ("gsw", "specvol_s_t_ss_st_tt_sp_tp"): FIRST7,
    ("gsw", "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp"): FIRST7 + THIRD[:-1],
    ("jmd95", "rho"): ("",),
    ("jmd95", "rho_s_t"): ("s", "t"),
    ("jmd95", "rho_p"): ("p",),
    ("jmdfwg06", "rho"): ("",),
    ("jmdfwg06", "rho_s_t"): ("s", "t"),
    ("jmdfwg06", "rho_p"): ("p",),
    ("gswc", "rho"): ("",),
    ("gswc", "rho_s_t"): ("s", "t"),
    ("gswc", "rho_p"): ("p",),
}
SINGLE = [k for k, v in FUNCS.items() if len(v) == 1]
REL = 1e-11


def tasks(tier):
    t = [("%s.%s" % k, dict(k="lattice", m=k[0], f=k[1])) for k in FUNCS]
    t += [("factories %s" % e, dict(k="factory", e=e)) for e in ("gsw", "jmd95", "jmdfwg06")]
    t += [("make_bsq", dict(k="bsq")), ("errors", dict(k="errors")), ("check values", dict(k="cv"))]
    return t


def warm(ctx, tier):
    import importlib

    global MOD, tools
    MOD = {}
    for m in ("gsw", "jmd95", "jmdfwg06", "gswc", "tools"):
        ctx.tick(m)
        MOD[m] = importlib.import_module("neutralocean.eos." + m)
    tools = MOD["tools"]


def lattice(tier):
    def refine(a):
        a = np.array(a)
        return a if tier == "quick" else np.sort(np.concatenate([a, 0.37 * a[1:] + 0.63 * a[:-1]]))

    return [refine(a) for a in (S0, T0, P0)]


def want(m, by, s, t, p):
    return getattr(R, m)(s, t, p, by)


def aslist(v, n):
    return (v,) if n == 1 else v


def compare(ctx, got, m, derivs, s, t, p, factor=1.0, pz=None, **info):
    """Compare a function's value(s) at arrays s, t, p (p the pressure) with the reference."""
    ctx.check(len(derivs) == 1 or (isinstance(got, tuple) and len(got) == len(derivs)), "number of values returned", got=got, **info)
    for g, by in zip(aslist(got, len(derivs)), derivs):
        w, mag = want(m, by, s, t, p)
        w, mag = w * factor, np.abs(mag * factor)
        ctx.check(np.shape(g) == np.shape(w), "shape of the result", got=np.shape(g), want=np.shape(w), derivative=by, **info)
        with np.errstate(invalid="ignore"):
            bad = ~((np.abs(g - w) <= REL * mag) | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            i = np.argwhere(bad)[0]
            at = [np.broadcast_to(a, np.shape(w))[tuple(i)] for a in (s, t, p)]
            ctx.fail("value of derivative '%s'" % by, at=at, got=np.asarray(g)[tuple(i)], want=np.asarray(w)[tuple(i)], **info)
        ctx.count(validated=np.size(w))


def run(ctx, q):
    if q["k"] == "cv":
        for m, s, t, p, v, e in R.CHECK_VALUES:
            ctx.check(abs(getattr(R, m)(s, t, p)[0] - v) <= e, "the reference itself misses a published check value", m=m)
            f = getattr(MOD[m], "specvol" if m == "gsw" else "rho")
            ctx.tick(m)
            ctx.check(abs(f(s, t, p) - v) <= e, "published check value", got=f(s, t, p), want=v, module=m)
            ctx.count(1, 1, 1)
        import gsw

        s, t, p = np.meshgrid(*lattice("quick"), indexing="ij")
        ctx.check(np.max(np.abs(gsw.specvol(s, t, p) / R.gsw(s, t, p)[0] - 1)) < 1e-14, "the reference disagrees with the GSW library")
        ctx.count(s.size, 1, s.size)
    elif q["k"] == "lattice":
        m, name = q["m"], q["f"]
        derivs = FUNCS[m, name]
        f = getattr(MOD[m], name)
        info = dict(function="%s.%s" % (m, name))
        S, T, P = lattice(ctx.tier)
        # scalar calls, at every point
        for s in S:
            ctx.tick(dict(info, s=s))
            G = np.empty((len(T), len(P), len(derivs)))
            for (i, t), (j, p) in itertools.product(enumerate(T), enumerate(P)):
                v = aslist(f(float(s), float(t), float(p)), len(derivs))
                ctx.check(len(v) == len(derivs), "number of values returned", got=v, **info)
                G[i, j] = v
            got = tuple(G[..., k] for k in range(len(derivs)))
            compare(ctx, got if len(derivs) > 1 else got[0], m, derivs, s + 0 * T[:, None] + 0 * P, T[:, None] + 0 * P, P + 0 * T[:, None], form="scalar", **info)
            ctx.count(states=G[..., 0].size, transitions=G[..., 0].size)
        ctx.sample(dict(info, at=[s, t, p], value=v))
        # integer arguments
        if m in ("gsw", "jmd95", "jmdfwg06"):
            compare(ctx, f(35, 25, 2000), m, derivs, 35.0, 25.0, 2000.0, form="integers", **info)
        # arrays, as the library itself calls these
        s, t, p = np.meshgrid(S, T, P, indexing="ij")
        if name.endswith("_s_t") or (m == "gswc" and name == "rho_p"):
            ctx.tick(dict(info, form="arrays"))
            compare(ctx, f(s, t, p), m, derivs, s, t, p, form="arrays", **info)
            compare(ctx, f(s, t, 1500.0), m, derivs, s, t, 1500.0 + 0 * s, form="arrays and scalar", **info)
            ctx.count(transitions=2)
        # vectorised, with broadcasting
        if len(derivs) == 1 and not (m == "gswc" and name != "rho"):
            ctx.tick(dict(info, form="vectorised"))
            v = tools.vectorize_eos(f)
            compare(ctx, v(s, t, p), m, derivs, s, t, p, form="vectorised", **info)
            compare(ctx, v(S[:, None, None], T[:, None], P), m, derivs, s, t, p, form="vectorised, broadcast", **info)
            compare(ctx, v(s, t, 1500.0), m, derivs, s, t, 1500.0 + 0 * s, form="vectorised, scalar", **info)
            compare(ctx, v(s[::2, ::-1], t[::2, ::-1], p[::2, ::-1]), m, derivs, s[::2, ::-1], t[::2, ::-1], p[::2, ::-1], form="vectorised, strided", **info)
            ctx.count(transitions=4)
        # missing data
        for mask in itertools.product((0, 1), repeat=3):
            if not any(mask):
                continue
            a = [np.nan if k else x for k, x in zip(mask, (35.0, 3.0, 900.0))]
            ctx.tick(dict(info, at=a))
            v = aslist(f(*a), len(derivs))
            for g, by in zip(v, derivs):
                # a derivative may not depend on every argument
                w = want(m, by, *a)[0]
                ctx.check(np.isnan(g) == np.isnan(w), "NaN in an argument", got=g, at=a, derivative=by, **info)
            ctx.count(1, 1, 1)
        if m == "gsw" and name == "specvol":
            for sneg, tt, pp in itertools.product((-1e-3, -1.0, -20.0), T, P):
                g, w = f(sneg, tt, pp), R.gsw(0.0, tt, pp)[0]
                ctx.check(abs(g - w) <= 1e-14 * abs(w), "negative salinity", got=g, want=w, at=[sneg, tt, pp])
                ctx.count(1, 1, 1)
    elif q["k"] == "factory":
        e = q["e"]
        S, T, P = (a[::2] for a in lattice("quick"))
        s, t, p = np.meshgrid(S, T, P, indexing="ij")
        base = MOD[e]
        stem = "specvol" if e == "gsw" else "rho"
        for make, suffix, derivs, n in ((tools.make_eos, "", ("",), 0), (tools.make_eos_s_t, "_s_t", ("s", "t"), 0), (tools.make_eos_p, "_p", ("p",), 1)):
            for src in (e, getattr(base, stem + suffix)):
                for g, r in itertools.product((None, 9.81, 9.7963, 3.7), (None, 1027.5, 1035.0, 1000.0)):
                    info = dict(factory=make.__name__, eos=e, by_name=isinstance(src, str), grav=g, rho_c=r)
                    ctx.tick(info)
                    f = make(src, g, r)
                    z = 1e-4 * g * r if g is not None and r is not None else 1.0
                    G = np.array([aslist(f(*map(float, a)), len(derivs)) for a in zip(s.flat, t.flat, p.flat)]).T.reshape((len(derivs),) + s.shape)
                    compare(ctx, tuple(G) if len(derivs) > 1 else G[0], e, derivs, s, t, p * z, factor=z**n, **info)
                    if len(derivs) == 1:
                        compare(ctx, tools.vectorize_eos(f)(s, t, p), e, derivs, s, t, p * z, factor=z**n, form="vectorised", **info)
                    f2 = make(src, grav=g, rho_c=r)
                    ctx.check(aslist(f2(34.0, 3.0, 700.0), len(derivs)) == aslist(f(34.0, 3.0, 700.0), len(derivs)), "keyword arguments", **info)
                    ctx.count(s.size, s.size + 3)
        ctx.sample(info)
    elif q["k"] == "bsq":
        import numba as nb

        gs = MOD["gsw"]
        cases = [(gs.specvol, "", 0), (gs.specvol_p, "p", 1)]

        @nb.njit
        def pp(s, t, p):
            return gs_second(s, t, p)[5]

        @nb.njit
        def ppp(s, t, p):
            return gs_third(s, t, p)[9]

        @nb.njit
        def sp(s, t, p):
            return gs_second(s, t, p)[3]

        gs_second, gs_third = gs.specvol_second_derivs, gs.specvol_third_derivs
        cases += [(sp, "sp", 1), (pp, "pp", 2), (ppp, "ppp", 3)]
        S, T, P = (a[::2] for a in lattice("quick"))
        for fn, by, n in cases:
            for g, r in itertools.product((9.81, 9.7963, 3.7), (1027.5, 1035.0, 1000.0)):
                info = dict(of=by, num_p_derivs=n, grav=g, rho_c=r)
                ctx.tick(info)
                f = tools.make_bsq(fn, g, r, n)
                z = 1e-4 * g * r
                for a in itertools.product(S, T, P):
                    compare(ctx, f(*map(float, a)), "gsw", (by,), a[0], a[1], a[2] * z, factor=z**n, **info)
                if n == 0:
                    f = tools.make_bsq(fn, g, r)
                    compare(ctx, f(34.0, 3.0, 900.0), "gsw", (by,), 34.0, 3.0, 900.0 * z, default=True, **info)
                ctx.count(S.size * T.size * P.size, S.size * T.size * P.size)
        ctx.sample(info)
    else:
        for make in (tools.make_eos, tools.make_eos_s_t, tools.make_eos_p):
            for bad, exc in (("nonsense", ValueError), ("", ValueError), ("GSW", ValueError), (3.0, TypeError), (None, TypeError)):
                ctx.tick(dict(factory=make.__name__, eos=bad))
                for kw in ({}, dict(grav=9.81, rho_c=1027.5)):
                    try:
                        make(bad, **kw)
                    except exc:
                        ctx.count(1, 1, 1)
                    else:
                        ctx.fail("an unknown equation of state was accepted", factory=make.__name__, eos=bad)
