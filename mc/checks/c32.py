"""A call that is interrupted, or refuses its input, leaves nothing behind: every line of every call is a point of failure."""
import itertools

import numpy as np

from mc import ops
from mc.checks.c29 import differ, leaves
from mc.interp import NAN

BOUNDS = (
    "22 calls (all entry points) x 2 inputs x every executed line of the package at which an interrupt from the keyboard, running out of memory or a floating-point error "
    "strikes; afterwards the inputs are as before to the bit, the state of the process (error handling, random numbers, warnings, output, directory, environment, threads) is as "
    "before, and the call itself and all other calls give what they give in a fresh start; two interruptions in a row, at every pair of lines, of the short calls; requests "
    "to the factories interrupted at every line and repeated; every call x documented refusals and failures.  states = points of failure, transitions = calls, validated = results and inputs compared."
)
ASSUMES = ["failures strike between lines of the package, not within NumPy, SciPy or compiled code", "stabilize_ST works in place: what it leaves of the salinity and temperature is not specified"]
from mc.checks.c31 import FACT, LONG, OPS


class Interrupt(KeyboardInterrupt):
    pass


class Memory(MemoryError):
    pass


class Float(FloatingPointError):
    pass


KINDS = (Interrupt, Memory, Float)
PAIRS = {"quick": 2200, "thorough": 30000}


def tasks(tier):
    t = [("%s, inputs %d" % (a, v), dict(k="lines", a=a, v=v)) for a in OPS for v in (0, 1)]
    t += [("%s twice" % a, dict(k="twice", a=a)) for a in OPS]
    return t + [("factory %s" % f, dict(k="factory", a=f)) for f in FACT] + [("refusals", dict(k="refusals"))]


def warm(ctx, tier):
    global RUN, IN, WANT, LINES, MAKE, CONST
    RUN, IN, WANT, LINES = ops.operations(), {v: ops.inputs(v) for v in (0, 1)}, {}, {}
    for k in OPS:
        for v in (0, 1):
            ctx.tick(dict(call=k, variant=v))
            WANT[k, v] = RUN[k](IN[v])
    for k in OPS:  # also a check that no call disturbs the process when it succeeds
        for v in (0, 1):
            ctx.tick(dict(call=k, variant=v))
            before, state = ops.snapshot(IN[v]), ops.surroundings()
            s = ops.Steps()
            r = s.run(lambda: RUN[k](IN[v]))
            LINES[k, v] = s.n
            settled(ctx, dict(call=k, failed="not at all"), before, IN[v], state)
            ctx.check(differ(r, WANT[k, v]) is None, "the same call twice gives different results", call=k, variant=v)
    MAKE, CONST = ops.factories()


def settled(ctx, info, before, x, state):
    after = ops.snapshot(x)
    if after != before:
        ctx.fail("a call that fails changes its inputs", inputs=[k for k in before if before[k] != after.get(k)], **info)
    now = ops.surroundings()
    if now != state:
        k = [k for k in state if state[k] != now[k]]
        ctx.fail("a call that fails leaves the process changed", what=k, before=[str(state[i])[:300] for i in k], after=[str(now[i])[:300] for i in k], **info)


def fails(f, n, kind):
    """f, failing at its n-th line; where that is, and what became of it."""
    def act():
        raise kind("at line %d" % n)

    s = ops.Steps(n, act, skip=True)
    try:
        s.run(f)
        return s.where, "goes on"
    except BaseException as e:
        return s.where, type(e).__name__


def others(ctx, a, info, few=()):
    for b, v in itertools.product(few or OPS, (0, 1)):
        if LINES[b, v] > LONG and a != b and b not in few:
            continue
        try:
            r = RUN[b](IN[v])
        except Exception as e:
            ctx.fail("after a call failed, another one does", other=b, variant=v, error=repr(e)[:500], **info)
        k = differ(r, WANT[b, v])
        if k is not None:
            ctx.fail("after a call failed, another one gives another result", other=b, variant=v, field=k, got=dict(leaves(r)).get(k), want=dict(leaves(WANT[b, v])).get(k), **info)
        ctx.count(transitions=1, validated=1)


def run(ctx, q):
    globals()[q["k"]](ctx, q)
    ctx.sample(q)


def lines(ctx, q):
    a, v = q["a"], q["v"]
    before, state = ops.snapshot(IN[v]), ops.surroundings()
    for n in range(1, LINES[a, v] + 1):
        for kind in KINDS:
            info = dict(call=a, variant=v, line=n, failure=kind.__base__.__name__)
            ctx.tick(info)
            where, how = fails(lambda: RUN[a](IN[v]), n, kind)
            info["failed"] = where
            settled(ctx, info, before, IN[v], state)
            long = LINES[a, v] > LONG
            others(ctx, a, info, ("count_unstable", "errors", a) if long and n % 16 == 0 else ("count_unstable",) if long else () if kind is Interrupt else (a,))
            settled(ctx, info, before, IN[v], state)
            ctx.count(states=1, transitions=1, validated=2)
            ctx.outcome("%s: %s" % (kind.__base__.__name__, how))


def twice(ctx, q):
    """Fail, and fail again, at other inputs."""
    a = q["a"]
    n0, n1 = LINES[a, 0], LINES[a, 1]
    if n0 * n1 > PAIRS[ctx.tier]:
        ctx.outcome("too long to fail twice")
        return
    before, state = [ops.snapshot(IN[v]) for v in (0, 1)], ops.surroundings()
    for i, j in itertools.product(range(1, n0 + 1), range(1, n1 + 1)):
        info = dict(call=a, lines=(i, j))
        ctx.tick(info)
        info["failed"] = [fails(lambda: RUN[a](IN[v]), n, Interrupt)[0] for v, n in ((0, i), (1, j))]
        for v in (0, 1):
            settled(ctx, info, before[v], IN[v], state)
        others(ctx, a, info, (a,))
        ctx.count(states=1, transitions=2, validated=2)


def factory(ctx, q):
    X = (34.6, 7.0, 900.0)
    s = ops.Steps()
    s.run(MAKE[q["a"]](*CONST())[0])
    for n, kind, times in itertools.product(range(1, s.n + 1), KINDS, (1, 2)):
        c = CONST()
        call, want = MAKE[q["a"]](*c)
        info = dict(factory=q["a"], line=n, constants=c, failure=kind.__base__.__name__, times=times)
        ctx.tick(info)
        for _ in range(times):
            info["failed"], how = fails(call, n, kind)
        for again in (call, call, MAKE[q["a"]](*c)[0]):
            got = again()(*X)
            ctx.check(np.isclose(got, want(*X), rtol=1e-12, atol=0), "a request repeated after it failed gives another function", got=got, want=want(*X), **info)
        ctx.count(states=1, transitions=times + 3, validated=3)
        ctx.outcome("%s: %s" % (kind.__base__.__name__, how))


def refusals(ctx, q):
    from neutralocean import surface
    from neutralocean.eos import make_eos
    from neutralocean.grid import rectilinear, tripolar, xgcm
    from neutralocean.label import veronis
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.ntp import ntp_epsilon_errors
    from neutralocean.ppinterp import make_pp
    from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast

    om, pot, ano = surface.omega_surf, surface.potential_surf, surface.anomaly_surf
    o = dict(output=False)
    for v in (0, 1):
        x = IN[v]
        g, S, T, P, p = x["grid"], x["S"], x["T"], x["P"], x["p"]
        land = p.copy()
        land[0] = NAN
        bad = {
            "omega, unknown interpolant": lambda: om(S, T, P, g, (0,), p, interp="cubic", **o),
            "omega, unknown equation of state": lambda: om(S, T, P, g, (0,), p, eos="eos80", **o),
            "omega, unknown solver": lambda: om(S, T, P, g, (0,), p, OMEGA_FORMULATION="biharmonic", **o),
            "omega, pinned to a cast off the surface": lambda: om(S, T, P, g, (0,), land, **o),
            "omega, pinned in the mixed layer": lambda: om(S, T, P, g, (0,), p, p_ml=p + 1.0, **o),
            "omega, pinned nowhere": lambda: om(S, T, P, g, (9,), p, **o),
            "omega, shapes": lambda: om(S, T[:, :3], P, g, (0,), p, **o),
            "omega, surface of another shape": lambda: om(S, T, P, g, (0,), p[:3], **o),
            "omega, no such dimension": lambda: om(x["Sx"], x["Tx"], x["Px"], g, (0, 0), 200.0, vert_dim="depth", **o),
            "potential, nothing given": lambda: pot(S, T, P, grid=g, **o),
            "potential, unknown interpolant": lambda: pot(S, T, P, grid=g, pin_cast=(0,), pin_p=200.0, interp="cubic", **o),
            "potential, pinned nowhere": lambda: pot(S, T, P, grid=g, pin_cast=(9,), pin_p=200.0, **o),
            "potential, pinned below the bottom": lambda: pot(S, T, P, grid=g, pin_cast=(0,), pin_p=1e5, **o),
            "anomaly, nothing given": lambda: ano(S, T, P, grid=g, **o),
            "anomaly, isovalue without reference": lambda: ano(S, T, P, grid=g, isoval=0.0, **o),
            "mixed layer, unknown interpolant": lambda: mixed_layer(S, T, P, interp="cubic"),
            "mixed layer, no such bottle": lambda: mixed_layer(S, T, P, bottle_index=17),
            "mixed layer, shapes": lambda: mixed_layer(S, T[:, :3], P),
            "trajectory, unknown interpolant": lambda: neutral_trajectory(S, T, P, 200.0, interp="cubic"),
            "trajectory from outside": lambda: neutral_trajectory(S, T, P, -200.0),
            "link, unknown equation of state": lambda: ntp_bottle_to_cast(34.6, 12.0, 200.0, S[1], T[1], P, eos="eos80"),
            "link from nothing": lambda: ntp_bottle_to_cast(NAN, 12.0, 200.0, S[1], T[1], P),
            "veronis, unknown interpolant": lambda: veronis(200.0, S[1], T[1], P, interp="cubic"),
            "veronis, outside": lambda: veronis(1e5, S[1], T[1], P),
            "errors, unknown equation of state": lambda: ntp_epsilon_errors(x["s"], x["t"], p, g, eos_s_t="eos80"),
            "errors, no grid": lambda: ntp_epsilon_errors(x["s"], x["t"], p, dict()),
            "equation of state, unknown": lambda: make_eos("eos80"),
            "equation of state, not a function": lambda: make_eos(17),
            "interpolant, unknown": lambda: make_pp("cubic"),
            "interpolant, kind unknown": lambda: make_pp("linear", kind="2"),
            "interpolant, two dependent variables, coefficients": lambda: make_pp("linear", out="coeffs", num_dep_vars=2),
            "rectilinear, distances of another shape": lambda: rectilinear.build_grid((3, 4), (False, False), dxC=np.ones((7, 7))),
            "tripolar, distances of another shape": lambda: tripolar.build_grid((3, 4), np.ones((7, 7))),
            "tiles, positions unknown": lambda: xgcm.build_grid(3, x["fc"], ("tile", "j", "i"), "middle", "left"),
            "tiles, connections of nothing": lambda: xgcm.build_grid(3, {"tile": {0: {"X": (None, (5, "X", False)), "Y": (None, None)}}}, ("tile", "j", "i"), "left", "left"),
        }
        before, state = ops.snapshot(x), ops.surroundings()
        for k, f in bad.items():
            ctx.tick(dict(refused=k, variant=v))
            first = None
            for again in range(2):
                try:
                    f()
                    how = "is not refused"
                except Exception as e:
                    how = "%s: %s" % (type(e).__name__, str(e)[:200])
                settled(ctx, dict(call=k, variant=v), before, x, state)
                ctx.check(first in (None, how), "a call is refused otherwise when it is repeated", call=k, first=first, then=how)
                first = how
                others(ctx, k, dict(call=k, variant=v, refused=how))
                ctx.count(states=1, transitions=1, validated=2)
            ctx.outcome(("refused: " if first != "is not refused" else "accepted: ") + k)
