"""Calls in several threads do not disturb each other: all interleavings of two calls with one or two switches."""
import numpy as np

from mc import ops
from mc.checks.c29 import differ, leaves

BOUNDS = (
    "real threads under a controlled scheduler that switches between two calls at executed lines of the package: every ordered pair of 22 calls (all entry "
    "points) - on the same inputs, and on different ones - and every line of the first at which the second runs from its start to its end (one preemption); every "
    "line of the first and line of the second, the first ending before the second goes on (two preemptions), for all pairs of calls with at most 1500 such "
    "schedules (thorough: 30000), and for all pairs of requests to the factories for functions not asked for before, equal and different.  Oracle: the calls one after "
    "the other.  states = schedules, transitions = calls, validated = results and inputs compared."
)
ASSUMES = ["a call into compiled code is one step (it holds the lock of the interpreter)", "switches are between lines of the package, not within NumPy or SciPy"]
OPS = ("omega", "omega_gradient", "omega_pin", "potential", "potential_xarray", "anomaly", "anomaly_pchip", "mixed_layer", "mixed_layer_xarray", "link", "trajectory",
       "veronis", "errors", "norms", "count_unstable", "stabilize_ST", "interpolate", "rectilinear", "tripolar", "xgcm", "graph", "synthocean")
FACT = ("make_A", "make_B", "bsq0", "bsq1", "vectorize")
LIMIT = {"quick": 1500, "thorough": 30000}
LONG = 1000  # calls of more lines than this are paired with a few others only
HEAVY = ("xgcm", "stabilize_ST", "omega", "omega_gradient", "omega_pin")
FEW = ("count_unstable", "stabilize_ST")


def tasks(tier):
    order = [(a, b) for a in HEAVY for b in HEAVY] + [(a, b) for a in OPS for b in OPS if not (a in HEAVY and b in HEAVY)]
    return [("factories %s %s" % (a, b), dict(k="factory", a=a, b=b)) for a in FACT for b in FACT] + [("%s %s" % p, dict(k="calls", a=p[0], b=p[1])) for p in order]


def warm(ctx, tier):
    global RUN, IN, WANT, LINES, MAKE, CONST
    RUN, IN, WANT, LINES = ops.operations(), {v: ops.inputs(v) for v in (0, 1)}, {}, {}
    for k in OPS:
        for v in (0, 1):
            ctx.tick(dict(call=k, variant=v))
            WANT[k, v] = RUN[k](IN[v])
            s = ops.Steps()
            k2 = differ(s.run(lambda: RUN[k](IN[v])), WANT[k, v])
            ctx.check(k2 is None, "the same call twice gives different results", call=k, variant=v, field=k2)
            LINES[k, v] = s.n
    MAKE, CONST = ops.factories()


def run(ctx, q):
    (factory if q["k"] == "factory" else calls)(ctx, q)
    ctx.sample(q)


def judge(ctx, r, want, info, which):
    how, x = r
    if how != "ok":
        ctx.fail("a call fails or hangs when another runs in between", call=which, error=repr(x)[:500], **info)
    k = differ(x, want)
    if k is not None:
        ctx.fail("a call has another result when another runs in between", call=which, field=k, got=dict(leaves(x)).get(k), want=dict(leaves(want)).get(k), **info)


def calls(ctx, q):
    a, b = q["a"], q["b"]
    before = {v: ops.snapshot(IN[v]) for v in (0, 1)}
    for vb in (0, 1):
        na, nb = LINES[a, 0], LINES[b, vb]
        if (na > LONG and b not in FEW) or (nb > LONG and a not in FEW):
            ctx.outcome("pair left out (long)")
            continue
        fa, fb = (lambda: RUN[a](IN[0])), (lambda: RUN[b](IN[vb]))
        share = "shared" if vb == 0 else "different"
        two = na * nb <= LIMIT[ctx.tier]
        for i in range(1, na + 1):
            ctx.tick(dict(first=a, second=b, inputs=share, line=i))
            for j in [None] + (list(range(1, nb + 1)) if two else []):
                ra, rb, where = ops.interleave(fa, fb, i, j)
                info = dict(first=a, second=b, inputs=share, switches=where, lines=(i, j))
                judge(ctx, ra, WANT[a, 0], info, a)
                judge(ctx, rb, WANT[b, vb], info, b)
            n = 1 + nb * two
            ctx.count(states=n, transitions=2 * n, validated=2 * n)
        for v in (0, 1):
            ctx.check(ops.snapshot(IN[v]) == before[v], "inputs are changed", first=a, second=b, variant=v)
        ctx.outcome("one switch, " + share, na)
        if two:
            ctx.outcome("two switches, " + share, na * nb)


def factory(ctx, q):
    X = (34.6, 7.0, 900.0)

    def ask(k, c):
        call, want = MAKE[k](*c)
        return call, want(*X)

    def value(r, info):
        how, f = r
        if how != "ok":
            ctx.fail("a factory fails or hangs when another request runs in between", error=repr(f)[:500], **info)
        return at(f)

    def at(f):  # without compiling it
        return getattr(f, "py_func", f)(*X)

    def one(i, j, ca, cb):
        (fa, wa), (fb, wb) = ask(q["a"], ca), ask(q["b"], cb)
        info = dict(first=q["a"], second=q["b"], constants=(ca, cb), lines=(i, j))
        ctx.tick(info)
        ra, rb, where = ops.interleave(fa, fb, i, j)
        info["switches"] = where
        for n, (r, w, f) in enumerate(((ra, wa, fa), (rb, wb, fb))):
            got = value(r, info)
            ctx.check(np.isclose(got, w, rtol=1e-12, atol=0), "a factory gives another function when another request runs in between", which=n, got=got, want=w, **info)
            again = at(f())
            ctx.check(np.isclose(again, w, rtol=1e-12, atol=0), "a request repeated gives another function after two at the same time", which=n, got=again, want=w, **info)
        ctx.count(states=1, transitions=4, validated=4)
        ctx.outcome("factories, " + ("equal constants" if ca == cb else "different"))

    n = []
    for k in (q["a"], q["b"]):
        s = ops.Steps()
        s.run(ask(k, CONST())[0])
        n.append(s.n)
    for same in (False, True):
        for i in range(1, n[0] + 1):
            for j in [None] + list(range(1, n[1] + 1)):
                ca = CONST()
                one(i, j, ca, ca if same else CONST())
