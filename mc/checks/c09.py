"""Tiled grids: every small arrangement of tiles, against geometry."""
import itertools

import numpy as np

BOUNDS = (
    "1 and 2 square tiles (3 in thorough) of side 2 and 3: every partial matching of their high sides with "
    "low sides (same axis or rotated; tiles may connect to themselves) x every order of the three "
    "dimensions x 4 staggerings; distances as arrays with a distinct value per cell, and for one "
    "staggering and order also scalars, defaults, labelled arrays, mixtures, and arrays stored column-major, "
    "strided or in single precision; the 13 tiles of the ECCO grid with sides 2, 3, 4 and 9, and 2 of the arrangements of 1 and 2 tiles "
    "with sides 4, 5, 8 and 17 (2 orders of the dimensions); maps of edge data.  "
    "states = (arrangement, order, staggering), transitions = library calls, validated = edges "
    "compared with the model."
)
ASSUMES = [
    "connections join a high side with a low side without reversal, as in cubed-sphere and lat-lon-cap grids",
    "a cell's neighbour across its high/low side in each dimension is the modelled edge, also if two such coincide",
]
AX = "XY"


def matchings(nt):
    sides = [(t, a) for t in range(nt) for a in AX]
    for k in range(2 * nt + 1):
        for R in itertools.combinations(sides, k):
            for L in itertools.permutations(sides, k):
                yield dict(zip(R, L))


def tasks(tier):
    t = []
    for nt in (1, 2) + ((3,) if tier == "thorough" else ()):
        M = list(matchings(nt))
        for n in (2, 3) if nt < 3 else (2,):
            step = 8
            for s in range(0, len(M), step):
                t.append(("%d tiles of %d, arrangements %d-" % (nt, n, s), dict(nt=nt, n=n, s=s, e=s + step)))
    for n in (2, 3, 4, 9):
        t.append(("13 tiles of %d" % n, dict(nt=13, n=n)))
    for n in (4, 5, 8, 17):
        for nt in (1, 2):
            t.append(("%d tiles of %d" % (nt, n), dict(nt=nt, n=n, s=0, e=None)))
    return t


# High side of a tile -> low side of another: the lat-lon-cap grid of ECCO
ECCO = {(0, "X"): (3, "X"), (0, "Y"): (1, "Y"), (1, "X"): (4, "X"), (1, "Y"): (2, "Y"), (2, "X"): (5, "X"),
        (2, "Y"): (6, "X"), (3, "X"): (9, "Y"), (3, "Y"): (4, "Y"), (4, "X"): (8, "Y"), (4, "Y"): (5, "Y"),
        (5, "X"): (7, "Y"), (5, "Y"): (6, "Y"), (6, "X"): (7, "X"), (6, "Y"): (10, "X"), (7, "X"): (8, "X"),
        (7, "Y"): (10, "Y"), (8, "X"): (9, "X"), (8, "Y"): (11, "Y"), (9, "Y"): (12, "Y"), (10, "X"): (11, "X"),
        (10, "Y"): (2, "X"), (11, "X"): (12, "X"), (11, "Y"): (1, "X"), (12, "Y"): (0, "X")}


def stored(form, x):
    """The same values, laid out or stored differently."""
    if form == "column-major":
        return np.asfortranarray(x)
    if form == "float32":
        return x.astype(np.float32)  # the values are exact in single precision
    w = np.full(tuple(2 * m + 1 for m in x.shape), -7.0)
    w[1::2, 1::2, 1::2] = x
    return w[1::2, 1::2, 1::2]


def warm(ctx, tier):
    import neutralocean.grid.xgcm  # noqa


def connections(nt, match):
    c = {t: {a: [None, None] for a in AX} for t in range(nt)}
    for (t, a), (u, b) in match.items():
        c[t][a][1] = (u, b, False)
        c[u][b][0] = (t, a, False)
    return {"tile": {t: {a: tuple(v) for a, v in d.items()} for t, d in c.items()}}


def neighbour(n, match, t, i, j, axis, high):
    """The cell across the high (or low) side in this axis, or None."""
    pos = dict(X=i, Y=j)
    if high and pos[axis] < n - 1 or not high and pos[axis] > 0:
        pos[axis] += 1 if high else -1
        return t, pos["X"], pos["Y"]
    along = pos["Y" if axis == "X" else "X"]
    if high:
        other = match.get((t, axis))
        end = 0
    else:
        back = [k for k, v in match.items() if v == (t, axis)]
        other = back[0] if back else None
        end = n - 1
    if other is None:
        return None
    u, b = other
    q = {b: end, ("Y" if b == "X" else "X"): along if b == axis else n - 1 - along}
    return u, q["X"], q["Y"]


def run(ctx, q):
    import xarray as xr
    from neutralocean.grid.xgcm import build_grid, edgedata_to_maps

    nt, n = q["nt"], q["n"]
    if nt == 13:
        M = [ECCO]
    else:
        M = list(itertools.islice(matchings(nt), q["s"], q["e"]))
        if q["e"] is None:
            M = [M[len(M) * 2 // 3], M[-1]]
    orders = list(itertools.permutations(("tile", "j", "i")))
    for match in M:
        fc = connections(nt, match)
        for o, dims in enumerate(orders):
            if nt == 3 and o % 2 or n > 3 and o not in (0, 3):
                continue
            shape = tuple(nt if d == "tile" else n for d in dims)
            N = nt * n * n
            num = np.arange(N).reshape(shape)

            def node(c):
                v = dict(tile=c[0], i=c[1], j=c[2])
                return int(num[tuple(v[d] for d in dims)])

            cells = [(t, i, j) for t in range(nt) for i in range(n) for j in range(n)]
            full = [10.0 * (k + 1) + num / 64.0 for k in range(4)]
            for xsh, ysh in itertools.product(("left", "right"), repeat=2):
                info = dict(tiles=nt, n=n, connections=fc["tile"], dims=dims, shifts=(xsh, ysh))
                ctx.tick(info)
                want = {}
                ends = {}
                for k, (axis, sh) in enumerate((("X", xsh), ("Y", ysh))):
                    for c in cells:
                        d = neighbour(n, match, *c, axis, sh == "right")
                        if d is not None:
                            ends[(k, node(c))] = node(d)
                forms = [("array", full, full)]
                if o in (0, 3) and (xsh, ysh) in (("left", "left"), ("left", "right")):
                    sc = [1.5, 2.5, 3.5, 4.5]
                    scf = [np.full(shape, v) for v in sc]
                    forms.append(("scalar", sc, scf))
                    forms.append(("mixed", [sc[0], full[1], full[2], sc[3]], [scf[0], full[1], full[2], scf[3]]))
                    da = [xr.DataArray(f, dims=dims) for f in full]
                    forms.append(("labelled", da, full))
                    for f in ("column-major", "strided", "float32"):
                        forms.append((f, [stored(f, x) for x in full], full))
                    forms.append(("default", [], [np.ones(shape)] * 4))
                for form, args, (dxC, dyC, dyG, dxG) in forms:
                    g = build_grid(n, fc, dims, xsh, ysh, *args)
                    a, b = (np.asarray(x) for x in g["edges"])
                    ctx.check(a.shape == b.shape == (len(ends),) == np.shape(g["dist"]) == np.shape(g["distperp"]),
                              "wrong number of edges", got=(a.shape, b.shape, np.shape(g["dist"])), want=len(ends), form=form, **info)
                    want = sorted(
                        (min(m, v), max(m, v), float((dyC if k else dxC).flat[m]), float((dxG if k else dyG).flat[m]))
                        for (k, m), v in ends.items())
                    got = sorted(zip(np.minimum(a, b).tolist(), np.maximum(a, b).tolist(),
                                     np.asarray(g["dist"], float).tolist(), np.asarray(g["distperp"], float).tolist()))
                    if got != want:
                        ctx.fail("edges or distances of a tiled grid are wrong", form=form,
                                 missing=[x for x in want if x not in got][:4], extra=[x for x in got if x not in want][:4], **info)
                    ctx.count(transitions=1, validated=len(ends))
                    for key, (fi, fj) in (("dist", (dxC, dyC)), ("distperp", (dyG, dxG))):
                        if form != "array":
                            break
                        Fi, Fj = edgedata_to_maps(g[key], n, fc, dims, xsh, ysh)
                        for k, (F, f) in enumerate(((Fi, fi), (Fj, fj))):
                            w = np.full(N, np.nan)
                            has = [m for (kk, m) in ends if kk == k]
                            w[has] = f.ravel()[has]
                            ctx.check(np.shape(F) == shape and np.array_equal(np.ravel(F), w, equal_nan=True),
                                      "maps of edge data misplace values", got=F, want=w.reshape(shape), which=(key, "ij"[k]), **info)
                        ctx.count(transitions=1)
                        if nt > 1:
                            break
                ctx.count(states=1)
                ctx.outcome("%d edges" % len(ends))
    if match:
        ctx.sample(dict(info, edges=(a, b)))
