"""Rectilinear and tripolar grids: adjacency and distances, against the definition."""
import itertools
from collections import Counter

import numpy as np

BOUNDS = (
    "rectilinear: every size from 1x1 to 5x5 (7x7 thorough) x 4 periodicities x every assignment of "
    "{scalar, 1D, column, 2D, list} to the four distances up to 3x3, 5 assignments beyond, and arrays stored column-major, strided, in single precision and read-only; tripolar: "
    "every size 1x1 to 5x6 (7x8) x {scalar, 2D, padded 2D} for each of the four distances, and the same storage layouts; maps of "
    "edge data for every size; and 6 large sizes (1x300, 300x1, 37x53, 64x64, 130x6, 5x257).  states = grids, transitions = library calls, validated = edges "
    "compared with the definition."
)
ASSUMES = []


def tasks(tier):
    m = 7 if tier == "thorough" else 5
    t = []
    for ni in range(1, m + 1):
        for nj in range(1, m + 1):
            t.append(("rectilinear %dx%d" % (ni, nj), dict(k="r", ni=ni, nj=nj)))
    for nj in range(1, m + 1):
        for ni in range(1, m + 2):
            t.append(("tripolar %dx%d" % (nj, ni), dict(k="t", ni=ni, nj=nj)))
    for ni, nj in ((1, 300), (300, 1), (37, 53), (64, 64), (130, 6), (5, 257)):
        t.append(("rectilinear %dx%d" % (ni, nj), dict(k="r", ni=ni, nj=nj)))
        t.append(("tripolar %dx%d" % (nj, ni), dict(k="t", ni=ni, nj=nj)))
    t.sort(key=lambda x: x[1]["ni"] * x[1]["nj"])
    return t


def warm(ctx, tier):
    from neutralocean.grid import rectilinear, tripolar  # noqa


FORMS = ("scalar", "1D", "column", "2D", "list")


def dist_of(form, ni, nj, base):
    """(argument, full 2D array) with recognisable values."""
    i, j = np.meshgrid(np.arange(ni), np.arange(nj), indexing="ij")
    if form == "scalar":
        return base + 0.5, np.full((ni, nj), base + 0.5)
    if form == "1D":
        return base + np.arange(nj) / 16.0, base + j / 16.0
    if form == "column":
        return base + np.arange(ni)[:, None] / 8.0, base + i / 8.0
    full = base + i / 8.0 + j / 256.0
    return (full.tolist() if form == "list" else in_memory(form, full)), full


MEMORY = ("column-major", "strided", "float32", "read-only")


def in_memory(form, full):
    """The same values, laid out or stored differently."""
    if form == "column-major":
        return np.asfortranarray(full)
    if form == "strided":
        w = np.full((2 * full.shape[0] + 1, 3 * full.shape[1] + 2), -7.0)
        w[1::2, 2::3] = full
        return w[1::2, 2::3]
    if form == "float32":
        return full.astype(np.float32)  # the values are exact in single precision
    if form == "read-only":
        full = full.copy()
        full.flags.writeable = False
    return full


def multiset(edges, dist, perp):
    a, b = (np.asarray(x) for x in edges)
    d, p = np.asarray(dist), np.asarray(perp)
    assert a.ndim == 1 and a.shape == b.shape
    return Counter((min(x, y), max(x, y), float(u), float(v)) for x, y, u, v in zip(a.tolist(), b.tolist(), d, p))


def compare(ctx, grid, want, info, N):
    ctx.check({"edges", "dist", "distperp"} <= set(grid), "missing entries", got=sorted(grid), **info)
    a, b = grid["edges"]
    E = sum(want.values())
    for nm, x in (("edges[0]", a), ("edges[1]", b), ("dist", grid["dist"]), ("distperp", grid["distperp"])):
        ctx.check(np.ndim(x) == 1 and len(x) == E, "%s: wrong number of edges" % nm, got=np.shape(x), want=E, **info)
    ctx.check(np.issubdtype(np.asarray(a).dtype, np.integer) and np.issubdtype(np.asarray(b).dtype, np.integer),
              "edges are not integers", **info)
    ctx.check(E == 0 or (min(min(a), min(b)) >= 0 and max(max(a), max(b)) < N), "edges outside the grid", **info)
    got = multiset(grid["edges"], grid["dist"], grid["distperp"])
    if got != want:
        ctx.fail("edges or their distances are wrong", missing=list((want - got).items())[:5],
                 extra=list((got - want).items())[:5], **info)
    ctx.count(states=1, transitions=1, validated=E)


def run(ctx, q):
    (rect if q["k"] == "r" else tri)(ctx, q["ni"], q["nj"])


def rect(ctx, ni, nj):
    from neutralocean.grid.rectilinear import build_grid, edgedata_to_maps

    if ni <= 3 and nj <= 3:
        combos = list(itertools.product(FORMS, repeat=4))
    else:
        combos = [(f,) * 4 for f in FORMS] + [("scalar", "1D", "column", "2D"), ("2D", "column", "1D", "scalar")]
    combos += [(f,) * 4 for f in MEMORY] + [MEMORY, MEMORY[::-1]]
    for per in itertools.product((False, True), repeat=2):
        for forms in combos:
            args, full = zip(*(dist_of(f, ni, nj, 10.0 * (k + 1)) for k, f in enumerate(forms)))
            xC, yC, yG, xG = full
            info = dict(dims=(ni, nj), periodic=per, forms=forms)
            ctx.tick(info)
            want = Counter()
            for i, j in itertools.product(range(ni), range(nj)):
                if i > 0 or per[0]:
                    m, n = i * nj + j, ((i - 1) % ni) * nj + j
                    want[(min(m, n), max(m, n), xC[i, j], yG[i, j])] += 1
                if j > 0 or per[1]:
                    m, n = i * nj + j, i * nj + (j - 1) % nj
                    want[(min(m, n), max(m, n), yC[i, j], xG[i, j])] += 1
            g = build_grid((ni, nj), per, *args)
            compare(ctx, g, want, info, ni * nj)
            # maps of edge data: the distances come back where they live
            for key, (fx, fy) in (("dist", (xC, yC)), ("distperp", (yG, xG))):
                Fi, Fj = edgedata_to_maps(g[key], (ni, nj), per)
                wi, wj = fx.astype(float), fy.astype(float)
                if not per[0]:
                    wi = wi.copy()
                    wi[0] = np.nan
                if not per[1]:
                    wj = wj.copy()
                    wj[:, 0] = np.nan
                ctx.check(np.array_equal(Fi, wi, equal_nan=True) and np.array_equal(Fj, wj, equal_nan=True),
                          "maps of edge data misplace values", got=(Fi, Fj), want=(wi, wj), **info)
                ctx.count(transitions=1, validated=1)
            ctx.outcome("rectilinear, periodic %s" % (per,))
        # keyword form and defaults
        g = build_grid((ni, nj), list(per))
        ctx.check(np.all(np.asarray(g["dist"]) == 1.0) and np.all(np.asarray(g["distperp"]) == 1.0), "default distances", **info)
        g2 = build_grid(dims=(ni, nj), periodic=per, dxG=args[3], dyG=args[2], dyC=args[1], dxC=args[0])
        compare(ctx, g2, want, info, ni * nj)
    ctx.sample(dict(info, edges=[np.asarray(x) for x in g["edges"]]))


def tri(ctx, ni, nj):
    from neutralocean.grid.tripolar import build_grid, edgedata_to_maps

    forms = ("scalar", "2D", "padded")
    combos = itertools.product(forms, repeat=4)
    if ni * nj > 100:
        combos = [(f,) * 4 for f in forms] + [("2D", "scalar", "padded", "2D")]
    combos = list(combos) + [(f,) * 4 for f in MEMORY] + [MEMORY, MEMORY[::-1], ("padded column-major",) * 4]
    for combo in combos:
        args, full = [], []
        for k, f in enumerate(combo):
            base = 10.0 * (k + 1)
            j, i = np.meshgrid(np.arange(nj), np.arange(ni), indexing="ij")
            v = base + j / 8.0 + i / 256.0
            if f == "scalar":
                args.append(base)
                full.append(np.full((nj, ni), base))
            elif f == "2D" or f in MEMORY:
                args.append(in_memory(f, v))
                full.append(v)
            else:
                w = np.full((nj + 1, ni + 2), -7.0)
                w[:-1, 1:-1] = v
                args.append(np.asfortranarray(w) if f != "padded" else w)
                full.append(v)
        e1u, e2v, e2u, e1v = full
        info = dict(dims=(nj, ni), forms=combo)
        ctx.tick(info)
        want = Counter()
        for j, i in itertools.product(range(nj), range(ni)):
            m = j * ni + i
            n = (j + 1) * ni + i if j < nj - 1 else (nj - 1) * ni + (ni - 1 - i)
            want[(min(m, n), max(m, n), e2v[j, i], e1v[j, i])] += 1
            n = j * ni + (i + 1) % ni
            want[(min(m, n), max(m, n), e1u[j, i], e2u[j, i])] += 1
        g = build_grid((nj, ni), *args)
        compare(ctx, g, want, info, ni * nj)
        for key, (fv, fu) in (("dist", (e2v, e1u)), ("distperp", (e1v, e2u))):
            v, u = edgedata_to_maps(g[key], (nj, ni))
            ctx.check(np.array_equal(v, fv) and np.array_equal(u, fu), "maps of edge data misplace values", got=(v, u), **info)
            ctx.count(transitions=1, validated=1)
        ctx.outcome("tripolar")
    g = build_grid((nj, ni))
    ctx.check(np.all(np.asarray(g["dist"]) == 1.0) and np.all(np.asarray(g["distperp"]) == 1.0), "default distances", **info)
    g2 = build_grid(dims=(nj, ni), e1v=args[3], e2u=args[2], e2v=args[1], e1u=args[0])
    compare(ctx, g2, want, info, ni * nj)
    ctx.sample(dict(info, edges=[np.asarray(x) for x in g["edges"]]))
