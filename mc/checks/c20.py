"""Results do not depend on the history of calls: factories and whole surface calculations."""
import itertools
import os
import pickle
import signal

import numpy as np

from mc import eosref as R
from mc.interp import NAN, reference

BOUNDS = (
    "factories: one history per task (in its own process) in which every word of length 3 over an alphabet of 12 calls, every word of length 2 over an "
    "alphabet of 33 calls, and repeated cycles through 13 and 33 calls (more than any cache holds, forwards and backwards) "
    "occur; each function returned is evaluated at once and again after each of the next two calls.  Surfaces: every word of length 2 over 5 alphabets of 4-6 calls of "
    "potential_surf, anomaly_surf, omega_surf, mixed_layer, ntp errors and neutral_trajectory (equal names, differing gravity, reference density, "
    "interpolant, equation of state, units), and a cycle through 11 and back; oracle: the same call alone in a fresh process.  "
    "Thorough: length 3 over alphabets of 18 calls and all surface words of length 3.  states = positions in the histories (distinct preceding words), "
    "transitions = calls, validated = results compared."
)
ASSUMES = []
PROBES = [(34.2, 3.5, 1200.0), (36.0, 11.0, 40.0)]
X = np.array([0.0, 10.0, 40.0, 100.0, 200.0])
Y = np.array([1.0, 3.0, 3.5, 2.0, -1.0])
Z = np.array([0.0, 5.0, -1.0, -1.5, 4.0])
SITES = (0.0, 5.0, 33.0, 100.0, 160.0)


def user(a):
    """Equations of state that share a name and code and differ in a captured constant."""
    import numba as nb

    @nb.njit
    def eos(s, t, p):
        return 1000.0 + a * s - 0.15 * t + 4e-3 * p - 1e-5 * t * p

    return eos


def user_s_t(a):
    import numba as nb

    @nb.njit
    def eos_s_t(s, t, p):
        return a + 0.0 * s, -0.15 - 1e-5 * p

    return eos_s_t


def ref_user(a, s, t, p):
    return 1000.0 + a * s - 0.15 * t + 4e-3 * p - 1e-5 * t * p


OPT = {"": (None, None), "a": (9.81, 1027.5), "b": (9.81, 1035.0), "c": (9.7, 1027.5)}
DER = {"make_eos": ("",), "make_eos_s_t": ("s", "t"), "make_eos_p": ("p",)}
# (what, equation of state, options)
FACT = (
    [("make_eos", e, o) for e in ("gsw", "jmd95", "A", "B") for o in ("", "a", "b", "c")]
    + [("make_eos", "jmdfwg06", "a"), ("make_eos_s_t", "gsw", ""), ("make_eos_s_t", "gsw", "a"), ("make_eos_s_t", "jmd95", "a")]
    + [("make_eos_p", "gsw", ""), ("make_eos_p", "gsw", "a"), ("make_eos_p", "gsw", "b"), ("make_eos_p", "jmd95", "c")]
    + [("make_bsq", n, o) for n, o in ((0, "a"), (1, "a"), (2, "a"), (1, "b"))]
    + [("vectorize_eos", e, o) for e, o in (("A", ""), ("B", ""), ("gsw", ""), ("gsw", "a"))]
    + [("make_pp", k, o) for k, o in (("linear", "interp"), ("linear", "coeffs"), ("pchip", "interp"), ("pchip", "coeffs"))]
    + [("make_pp", k, "two") for k in ("linear", "pchip")]
)
SMALL = [
    ("make_eos", "gsw", ""), ("make_eos", "gsw", "a"), ("make_eos", "gsw", "b"), ("make_eos", "gsw", "c"), ("make_eos", "A", ""), ("make_eos", "B", ""),
    ("make_eos", "A", "a"), ("make_eos", "B", "a"), ("make_eos_s_t", "gsw", "a"), ("make_eos_p", "gsw", "a"), ("make_bsq", 0, "a"), ("make_bsq", 1, "a"),
]
SMALL2 = [
    ("make_eos", "jmd95", ""), ("make_eos", "jmd95", "a"), ("make_eos", "jmdfwg06", "a"), ("make_eos_p", "gsw", ""), ("make_eos_p", "gsw", "b"), ("make_bsq", 2, "a"),
    ("vectorize_eos", "A", ""), ("vectorize_eos", "B", ""), ("vectorize_eos", "gsw", "a"), ("make_pp", "linear", "interp"), ("make_pp", "pchip", "interp"), ("make_pp", "pchip", "coeffs"),
]
UV = {"A": 0.8, "B": 0.6}


def debruijn(n, k):
    """A cyclic sequence over range(n) with every word of length k (Fredricksen-Kessler-Maiorana)."""
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: k - 1]


def make(call, env):
    from neutralocean.eos import tools
    from neutralocean.eos import gsw
    from neutralocean.ppinterp import make_pp

    w, e, o = call
    if w.startswith("make_eos"):
        return getattr(tools, w)(env.get(e, e), *OPT[o])
    if w == "make_bsq":
        return tools.make_bsq(gsw.specvol_p, OPT[o][0], OPT[o][1], e)
    if w == "vectorize_eos":
        return tools.vectorize_eos(env[e] if e in env else tools.make_eos(e, *OPT[o]))
    if o == "two":
        return make_pp(e, kind="u", out="interp", num_dep_vars=2)
    return make_pp(e, kind="u", out=o)


def wanted(call):
    """Reference values of the function a call returns, at the probes."""
    w, e, o = call
    if w == "make_pp":
        y = reference(e, X, np.array([Y, Z]), np.array(SITES), 0).tolist()
        return y if o == "two" else y[0]
    g, r = OPT[o]
    z = 1.0 if g is None else 1e-4 * g * r
    out = []
    for s, t, p in PROBES:
        if e in UV:
            out.append(ref_user(UV[e], s, t, p * z))
        elif w == "make_bsq":
            out.append(R.gsw(s, t, p * z, "p")[0] * z**e)
        elif w in DER:
            n = 1 if w == "make_eos_p" else 0
            out.append([getattr(R, e)(s, t, p * z, by)[0] * z**n for by in DER[w]])
        else:
            out.append(getattr(R, e)(s, t, p * z)[0])
    return out


def values(call, f):
    from neutralocean.ppinterp import ppval

    w, e, o = call
    if w == "make_pp":
        if o == "coeffs":
            c = f(X, Y)
            return [float(ppval(x, X, c, 0)) for x in SITES]
        if o == "two":
            v = [f(x, X, Y, Z, 0) for x in SITES]
            return [[float(a[r]) for a in v] for r in (0, 1)]
        return [float(f(x, X, Y, 0)) for x in SITES]
    if w == "vectorize_eos":
        return f(*np.array(PROBES).T)
    return [f(*p) for p in PROBES]


def agree(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-11 * (np.abs(b) + 1e-300)))


def agree_pp(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-10) | (np.isnan(a) & np.isnan(b))))


def history(calls):
    """Make the calls one after the other; None, or a description of the first wrong result."""
    from neutralocean.eos import tools  # noqa

    env = {"A": user(0.8), "B": user(0.6)}
    want = {c: wanted(c) for c in set(calls)}
    recent, checked = [], 0
    for i, c in enumerate(calls):
        f = make(c, env)
        recent = [(c, f)] + recent[:2]
        for age, (d, g) in enumerate(recent):
            v = values(d, g)
            checked += 1
            if not (agree_pp if d[0] == "make_pp" else agree)(v, want[d]):
                return checked, dict(position=i, call=d, evaluated_after=age, got=np.asarray(v).tolist(), want=want[d], history=calls[max(0, i - 15) : i + 1])
    return checked, None


def isolated(fn, *args, limit=170):
    """Result of fn(*args) in a fresh child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(limit)
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Exception as e:  # noqa
                out = ("exception", type(e).__name__ + ": " + str(e)[:300])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    if not data:
        return "ended", "process ended with status %d" % status
    return pickle.loads(data)


# ---- surfaces -------------------------------------------------------------------------------

def ocean():
    i, j = np.meshgrid(np.arange(3), np.arange(2), indexing="ij")
    P = np.array([0.0, 50.0, 200.0, 700.0, 1500.0])
    k = np.arange(5)
    S = 34.0 + 0.25 * k + 0.03 * (i + 2 * j)[..., None]
    T = 14.0 - 2.5 * k - 0.4 * (i - j)[..., None] + 0.1 * (i[..., None] * k)
    return S, T, P


def surf(kind, eos, opt, interp, **extra):
    return (kind, eos, opt, interp, tuple(sorted(extra.items())))


def surface(call):
    """Arrays that a surface call yields."""
    from neutralocean.grid.rectilinear import build_grid
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.ntp import ntp_epsilon_errors
    from neutralocean.surface import anomaly_surf, omega_surf, potential_surf
    from neutralocean.traj import neutral_trajectory

    kind, eos, opt, interp, extra = call
    extra = dict(extra)
    S, T, P = ocean()
    g, r = OPT[opt]
    env = ENV
    e = (env[eos], env[eos + "_s_t"]) if eos in UV else eos
    kw = dict(eos=e, interp=interp, diags=False, output=False)
    if g is not None:
        kw.update(grav=g, rho_c=r)
    grid = build_grid((3, 2), (False, False), 2e4, 3e4, 1e4, 5e4)
    if kind == "potential":
        s, t, p, _ = potential_surf(S, T, P, ref=extra.get("ref", 500.0), pin_p=300.0, pin_cast=(1, 1), **kw)
        return [s, t, p]
    if kind == "anomaly":
        s, t, p, _ = anomaly_surf(S, T, P, ref=(34.5, 8.0), pin_p=300.0, pin_cast=(1, 1), **kw)
        return [s, t, p]
    if kind == "omega":
        s, t, p, _ = omega_surf(S, T, P, grid, pin_cast=(1, 1), p_init=np.full((3, 2), 300.0), ITER_MAX=3, **kw)
        return [s, t, p]
    if kind == "mixed_layer":
        kw.pop("diags"), kw.pop("output")
        kw["eos"] = env[eos] if eos in UV else eos
        return [mixed_layer(S, T, P, **kw)]
    if kind == "trajectory":
        kw.pop("diags"), kw.pop("output")
        kw["eos"] = env[eos] if eos in UV else eos
        return list(neutral_trajectory(S[:, 0], T[:, 0], P, p0=300.0, **kw))
    if kind == "errors":
        kw = {k: v for k, v in kw.items() if k in ("grav", "rho_c")}
        s, t, p = S[..., 2], T[..., 2], 190.0 + 7.0 * np.arange(6.0).reshape(3, 2)
        return [np.asarray(ntp_epsilon_errors(s, t, p, grid, env[eos + "_s_t"] if eos in UV else eos, **kw))]
    raise KeyError(kind)


def surfaces(calls):
    global ENV
    ENV = {"A": user(0.8), "B": user(0.6), "A_s_t": user_s_t(0.8), "B_s_t": user_s_t(0.6)}
    return [surface(c) for c in calls]


WORDS = {
    "kinds": [surf(k, "gsw", "", "linear") for k in ("potential", "anomaly", "omega", "mixed_layer", "errors", "trajectory")],
    "boussinesq": [surf("potential", "gsw", o, "linear") for o in ("", "a", "b", "c")] + [surf("errors", "gsw", o, "linear") for o in ("a", "c")],
    "same name": [surf(k, u, o, "linear") for k in ("potential", "omega") for u, o in (("A", ""), ("B", ""), ("A", "a"))],
    "interpolants": [surf(k, "jmd95", "a", i) for k in ("potential", "omega", "trajectory") for i in ("linear", "pchip")],
    "references": [surf("potential", "jmdfwg06", o, "linear", ref=r) for r in (0.0, 2000.0) for o in ("a", "b")],
}
CYCLE = [surf("potential", e, o, i) for e in ("gsw", "jmd95", "A") for o in ("a", "b") for i in ("linear", "pchip")][:11]


def tasks(tier):
    deep = tier == "thorough"
    t = [("surfaces: cycle", dict(k="surf", al=CYCLE, n=0))]
    for n, al in sorted(WORDS.items()):
        t.append(("surfaces: %s" % n, dict(k="surf", al=al, n=3 if deep else 2)))
    for n, al in (("A", SMALL), ("B", SMALL2)):
        t.append(("words of 3 %s" % n, dict(k="fact", al=al, n=3)))
    t += [("words of 2", dict(k="fact", al=FACT, n=2)), ("cycles of 13", dict(k="cycle", al=SMALL + SMALL2[:1])), ("cycles of all", dict(k="cycle", al=FACT))]
    if deep:
        for a, b, c in itertools.combinations(range(4), 3):
            al = [FACT[i] for i in range(len(FACT)) if (i % 4) in (a, b, c)][:18]
            t.append(("words of 3 in thirds %d%d%d" % (a, b, c), dict(k="fact", al=al, n=3)))
    return t


def warm(ctx, tier):
    # imports only: every call is made in a child process
    import neutralocean.eos.jmd95  # noqa
    import neutralocean.eos.jmdfwg06  # noqa
    import neutralocean.eos.tools  # noqa
    import neutralocean.grid.rectilinear  # noqa
    import neutralocean.mixed_layer  # noqa
    import neutralocean.ntp  # noqa
    import neutralocean.surface  # noqa
    import neutralocean.traj  # noqa


def run(ctx, q):
    al = [tuple(c) if not isinstance(c[-1], list) else tuple(c[:-1]) + (tuple(map(tuple, c[-1])),) for c in q["al"]]
    if q["k"] == "surf":
        alone = []
        for c in al:
            ctx.tick(dict(alone=c))
            st, v = isolated(surfaces, [c])
            ctx.check(st == "ok", "a call on its own failed", got=v, call=c)
            ctx.check(any(np.any(np.isfinite(a)) for a in v[0]), "nothing but NaN", call=c)
            alone.append(v[0])
        order = debruijn(len(al), q["n"]) if q["n"] else list(range(len(al))) + [0, 1, len(al) - 1, 0]
        ctx.tick(dict(history=[al[i] for i in order]))
        st, v = isolated(surfaces, [al[i] for i in order])
        ctx.check(st == "ok", "a history of calls failed", got=v, history=[al[i] for i in order])
        for n, i in enumerate(order):
            for a, b in zip(v[n], alone[i]):
                same = np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-13, atol=1e-13, equal_nan=True)
                ctx.check(same, "the result of a call depends on the calls before it", got=a, want=b, call=al[i], history=[al[j] for j in order[max(0, n - 12) : n + 1]])
            ctx.count(1, 1, 1)
        ctx.sample(dict(history=[al[i] for i in order[:4]], last=[a.ravel()[:3] for a in v[3]]))
        return
    if q["k"] == "fact":
        order = debruijn(len(al), q["n"])
        # pieces that overlap, each in its own process
        m, o = (450, q["n"] - 1)
        pieces = [order[i : i + m + o] for i in range(0, len(order), m)]
    else:
        n = list(range(len(al)))
        pieces = [n * 3, n[::-1] * 2 + n, n + n[::2] + n + n[::-3]]
    for piece in pieces:
        calls = [al[i] for i in piece]
        ctx.tick(dict(history=calls))
        st, v = isolated(history, calls)
        ctx.check(st == "ok", "a history of calls failed", got=v, history=calls)
        ctx.check(v[1] is None, "the result of a call depends on the calls before it", **(v[1] or {}))
        ctx.count(len(calls), len(calls), v[0])
    ctx.sample(dict(history=calls[:4]))
