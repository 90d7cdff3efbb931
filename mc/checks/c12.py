"""Wetting: every small graph of wet and dry casts, against a reference model."""
import itertools

import numpy as np

from mc.interp import NAN
from mc.ocean import CUSTOM, at

BOUNDS = (
    "every graph on 2-3 nodes x 12 kinds of cast per node (wet at three densities, dry: reachable, "
    "partly reachable, missing levels, land, one level, three mixed layers) x every root, and every graph on 4 nodes "
    "x 6 kinds (8 in thorough) x 2 roots; search wetting, and perimeter wetting with 0, 1, 2 and unlimited "
    "passes; chains of 5-6 casts over 5 kinds; 5 graphs of 64-120 casts (chain, ring, star, grids) over 8 patterns of kinds; linear equation of state (closed-form links), and up to 3 "
    "nodes a nonlinear one with PCHIP (links by the library's bottle-to-cast function, itself decided "
    "by C16).  states = (graph, casts, root), transitions = wetting calls, validated = casts compared."
)
ASSUMES = [
    "casts are stably stratified, so links are unique",
    "links are at least 1 dbar away from the mixed-layer base (decisions are not at round-off)",
]

P4 = np.array([0.0, 100.0, 200.0, 400.0])
INF = np.inf


def cast(b, dT, dP=0.0):
    """A cast with buoyancy variable b = 0.8 (S-35) - 0.2 (T-10) at its levels."""
    b = np.array(b, float)
    T = 10.0 + dT * np.arange(4)
    S = 35.0 + (b + 0.2 * (T - 10.0)) / 0.8
    T[np.isnan(b)] = NAN
    return S, T, P4 + dP


WIDE = cast([0.0, 1.0, 2.0, 3.0], -1.0)
WID2 = cast([0.2, 0.8, 2.3, 3.5], -0.5, 8.0)
LIGHT = cast([-2.0, -1.0, 0.0, 0.5], 0.5)
DENSE = cast([1.5, 2.0, 2.5, 4.0], 0.0, 3.0)
GAPPY = cast([NAN, 0.9, 2.1, NAN], -1.0)
LAND = cast([NAN] * 4, 0.0)
ONE = cast([1.0, NAN, NAN, NAN], 0.0)
# (cast, wet pressure or None, mixed layer base)
KINDS = [
    (WIDE, 80.0, -INF),        # 0 wet, b = .8
    (WIDE, 233.0, -INF),       # 1 wet, b = 2.165
    (LIGHT, 300.0, 10.0),      # 2 wet, b = .25
    (WID2, None, -INF),        # 3 dry, any density
    (WID2, None, 150.0),       # 4 dry, reachable only by dense water
    (LIGHT, None, -INF),       # 5 dry, reachable only by light water
    (DENSE, None, -INF),       # 6 dry, reachable only by dense water
    (LAND, None, -INF),        # 7
    (GAPPY, None, -INF),       # 8 dry, reachable by middling water, missing levels
    (ONE, None, -INF),         # 9
    (WIDE, None, 1000.0),      # 10 dry, all mixed layer
    (DENSE, 40.0, 60.0),       # 11 wet, above its own mixed layer base
]
FEW = {"quick": [0, 1, 3, 4, 5, 6], "thorough": [0, 1, 2, 3, 4, 5, 6, 8]}


def _big():
    from mc.checks.c11 import edges_of_grid

    return {
        "chain": (120, [(i, i + 1) for i in range(119)]),
        "ring": (90, [(i, (i + 1) % 90) for i in range(90)][::-1]),
        "star": (80, [(40, i) for i in range(80) if i != 40]),
        "grid": (72, edges_of_grid(8, 9)),
        "periodic grid": (64, edges_of_grid(8, 8, (True, True))),
    }


BIG = _big()
# kinds of casts along the numbering, repeated
PATTERNS = [(3,), (3, 6), (3, 3, 3, 8), (3, 8, 6, 3, 3), (3, 3, 3, 3, 3, 3, 3, 7), (1, 3, 3, 6, 3), (4, 3, 3), (0, 3, 3, 5, 10, 3, 8)]


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def tasks(tier):
    t = []
    for n in (2, 3):
        for first in range(len(KINDS)):
            t.append(("%d nodes, first cast kind %d" % (n, first), dict(n=n, first=(first,), kinds=list(range(12)), eos="lin", roots=list(range(n)))))
    for first in range(len(KINDS)):
        for n in (2, 3):
            t.append(("nonlinear, %d nodes, first cast kind %d" % (n, first), dict(n=n, first=(first,), kinds=[0, 1, 2, 3, 4, 5, 6, 8], eos="thermo", roots=[0])))
    for name in BIG:
        for eos in ("lin", "thermo"):
            t.append(("large, %s, %s" % (name, eos), dict(big=name, eos=eos)))
    for n in (5, 6):
        for first in (0, 1, 3, 5, 6):
            t.append(("chain of %d, first cast kind %d" % (n, first), dict(n=n, first=(first,), kinds=[0, 1, 3, 5, 6], eos="lin", roots=[0, n // 2], chain=True)))
    for f in itertools.product(FEW[tier], repeat=2):
        t.append(("4 nodes, first casts %s" % (f,), dict(n=4, first=f, kinds=FEW[tier], eos="lin", roots=[0, 3])))
    return t


def warm(ctx, tier):
    global wet, perim, ppc, link_fn
    from neutralocean.bfs import bfs_conncomp1_wet as wet, bfs_conncomp1_wet_perim as perim
    from neutralocean.ppinterp import make_pp
    from neutralocean.traj import ntp_bottle_to_cast as link_fn

    ppc = {k: make_pp(k, kind="1", out="coeffs", nans=False) for k in ("linear", "pchip")}
    ctx.tick("compile")
    for e in ("lin", "thermo"):
        run_one(ctx, 2, [(0, 1)], (0, 3), 0, e, {})


TOL = 1e-6
BB = {}


def profile(c):
    k = id(c)
    if k not in BB:
        S, T, P = c
        b = 0.8 * (S - 35.0) - 0.2 * (T - 10.0)
        ok = np.isfinite(b)
        BB[k] = (b[ok], P[ok])
    return BB[k]


def link(kind, bottle, eos, memo):
    """Pressure on a cast of this kind neutrally linked to the bottle, or NaN."""
    s, t, p = bottle
    if eos == "lin":
        b, P = profile(KINDS[kind][0])
        x = 0.8 * (s - 35.0) - 0.2 * (t - 10.0)
        if len(b) < 2 or x < b[0] or x > b[-1]:
            return NAN
        return float(np.interp(x, b, P))
    key = (kind, round(p, 9), round(s, 9), round(t, 9))
    if key not in memo:
        memo[key] = float(link_fn(s, t, p, *KINDS[kind][0], tol_p=TOL, interp="pchip", eos=CUSTOM["thermo"][0])[2])
    return memo[key]


def props(kind, p, interp):
    S, T, P = KINDS[kind][0]
    if interp == "linear":
        return float(np.interp(p, P[np.isfinite(S)], S[np.isfinite(S)])), float(np.interp(p, P[np.isfinite(S)], T[np.isfinite(S)]))
    return float(at(interp, P, S, p)[0]), float(at(interp, P, T, p)[0])


_wet0 = {}


def wet_bottle(kind, interp):
    k = (kind, interp)
    if k not in _wet0:
        p = KINDS[kind][1]
        _wet0[k] = (*props(kind, p, interp), p)
    return _wet0[k]


def run_one(ctx, n, es, kinds, root, eosname, memo):
    interp = "linear" if eosname == "lin" else "pchip"
    eos = CUSTOM[eosname][0]
    adj = [[] for _ in range(n)]
    for x, y in es:
        adj[x].append(y)
        adj[y].append(x)
    ptr = np.zeros(n + 1, int)
    ptr[1:] = np.cumsum([len(x) for x in adj])
    ind = np.array([y for x in adj for y in x], dtype=int)
    S, T, P = (np.array([KINDS[k][0][v] for k in kinds]) for v in range(3))
    pml = np.array([KINDS[k][2] for k in kinds])
    s0, t0, p0 = np.full(n, NAN), np.full(n, NAN), np.full(n, NAN)
    for m, k in enumerate(kinds):
        if KINDS[k][1] is not None:
            s0[m], t0[m], p0[m] = wet_bottle(k, interp)
    was = np.isfinite(p0)
    info = dict(nodes=n, edges=es, kinds=kinds, root=root, eos=eosname, interp=interp)

    def near(x, y):
        return abs(x - y) <= 1e-4 * 1.0 + 4 * TOL

    def ok(m, src):
        """Link from the bottle at src (s, t, p) to dry cast m, or None."""
        q = link(kinds[m], src, eosname, memo)
        return q if q > pml[m] else None

    # ---- wetting while searching
    s, t, p = s0.copy(), t0.copy(), p0.copy()
    qu, count = wet(s, t, p, ptr, ind, root, S, T, P, TOL, eos, ppc[interp], pml)
    qu = [int(x) for x in qu]
    now = np.isfinite(p)
    new = [m for m in range(n) if now[m] and not was[m]]
    data = dict(order=qu, count=int(count), p=p, before=p0)
    ctx.check(int(count) == len(new), "wrong number of newly wet casts", **data, **info)
    ctx.check(np.array_equal(p[was], p0[was]) and np.array_equal(s[was], s0[was]) and np.array_equal(t[was], t0[was]),
              "wetting changed casts of the surface", **data, **info)
    ctx.check(len(set(qu)) == len(qu), "a cast is listed twice", **data, **info)
    if not was[root]:
        ctx.check(not qu and not new, "nothing can be wet from a dry root", **data, **info)
    else:
        ctx.check(qu[0] == root, "root is not first", **data, **info)
        # region of the final surface connected to the root
        reach, todo = {root}, [root]
        while todo:
            m = todo.pop()
            for x in adj[m]:
                if now[x] and x not in reach:
                    reach.add(x)
                    todo.append(x)
        ctx.check(set(qu) == reach, "casts listed are not the region connected to the root", region=sorted(reach), **data, **info)
        pos = {m: i for i, m in enumerate(qu)}
        for m in new:
            ctx.check(m in pos, "a cast away from the root was wet", cast=m, **data, **info)
            cand = [ok(m, (s[x], t[x], p[x])) for x in adj[m] if x in pos and pos[x] < pos[m]]
            ctx.check(any(c is not None and near(c, p[m]) for c in cand), "a cast was wet without a neutral link below its mixed layer",
                      cast=m, links=cand, **data, **info)
            ws, wt = props(kinds[m], p[m], interp)
            ctx.check(abs(ws - s[m]) < 1e-8 and abs(wt - t[m]) < 1e-8, "properties of a newly wet cast", cast=m, got=(s[m], t[m]), want=(ws, wt), **info)
        for m in range(n):
            if not now[m]:
                ctx.check(np.isnan(s[m]) and np.isnan(t[m]), "a dry cast has properties", cast=m, **data, **info)
                for x in adj[m]:
                    if x in pos:
                        ctx.check(ok(m, (s[x], t[x], p[x])) is None, "a reachable cast was left dry", cast=m, source=x, **data, **info)
    ctx.count(transitions=1, validated=n)

    # ---- perimeter wetting
    comp = set()
    if was[root]:
        comp, todo = {root}, [root]
        while todo:
            m = todo.pop()
            for x in adj[m]:
                if was[x] and x not in comp:
                    comp.add(x)
                    todo.append(x)
    model = {m: (s0[m], t0[m], p0[m]) for m in comp}
    stages = [(dict(model), 0)]
    added = 0
    while True:
        fresh = {}
        for m in range(n):
            if m not in model:
                got = [ok(m, model[x]) for x in adj[m] if x in model]
                got = [g for g in got if g is not None]
                if got:
                    q = sum(got) / len(got)
                    fresh[m] = (*props(kinds[m], q, interp), q)
        if not fresh:
            break
        model = {**model, **fresh}
        added += len(fresh)
        stages.append((dict(model), added))
    reps = (0, 1, 2, np.iinfo(np.int64).max) if n < 10 else (0, 1, 3, 10, 50, np.iinfo(np.int64).max)
    for rep in reps:
        want, cnt = stages[min(rep, len(stages) - 1)]
        s, t, p = s0.copy(), t0.copy(), p0.copy()
        count = perim(s, t, p, ptr, ind, root, S, T, P, TOL, eos, ppc[interp], pml, rep)
        ctx.check(int(count) == cnt, "perimeter wetting: wrong number of newly wet casts", got=int(count), want=cnt, passes=rep, p=p, before=p0, model=want, **info)
        for m in range(n):
            if m in want:
                ws, wt, wp = want[m]
                if m in comp:
                    good = (s[m], t[m], p[m]) == (ws, wt, wp)
                else:
                    good = near(p[m], wp) and abs(s[m] - ws) < 1e-5 and abs(t[m] - wt) < 1e-5
                if not good:
                    ctx.fail("perimeter wetting: wrong properties of a cast", cast=m, got=(s[m], t[m], p[m]), want=want[m], passes=rep, before=p0, **info)
            else:
                ctx.check(np.isnan(p[m]), "perimeter wetting: a cast is wet that should not be", cast=m, p=p, before=p0, passes=rep, **info)
        ctx.count(transitions=1, validated=n)
    ctx.count(states=1)
    return len(new), len(stages) - 1


def big(ctx, q):
    n, es = BIG[q["big"]]
    memo = {}
    for pat in PATTERNS:
        for root, kind in ((0, 0), (n // 2, 1), (n - 1, 0), (1, 2)):
            kinds = [pat[i % len(pat)] for i in range(n)]
            kinds[root] = kind
            ctx.tick(dict(graph=q["big"], pattern=pat, root=root))
            r = run_one(ctx, n, es, tuple(kinds), root, q["eos"], memo)
            ctx.outcome("%d casts wet by search, %d perimeter passes" % r)
    ctx.sample(dict(graph=q["big"], pattern=pat, root=root))


def run(ctx, q):
    if "big" in q:
        return big(ctx, q)
    n = q["n"]
    P = pairs(n)
    graphs = range(1 << len(P)) if not q.get("chain") else [None]
    memo = {}
    out = {}
    for g in graphs:
        es = [(i, i + 1) for i in range(n - 1)] if g is None else [P[i] for i in range(len(P)) if g >> i & 1]
        if g is not None and g % 2:
            es = es[::-1]
        for rest in itertools.product(q["kinds"], repeat=n - len(q["first"])):
            kinds = tuple(q["first"]) + rest
            for root in q["roots"]:
                ctx.tick(dict(edges=es, kinds=kinds, root=root))
                r = run_one(ctx, n, es, kinds, root, q["eos"], memo)
                out[r] = out.get(r, 0) + 1
    for r, c in out.items():
        ctx.outcome("%d casts wet by search, %d perimeter passes" % r, c)
    ctx.sample(dict(edges=es, kinds=kinds, root=root))
