"""Graph conversions and edge operators, on every small graph."""
import itertools
from collections import Counter

import numba as nb
import numpy as np

BOUNDS = (
    "every ordered list of up to 4 directed edges (5 in thorough) over 3 nodes, self loops and repeats "
    "included; every simple graph on up to 5 nodes (6 in thorough) in 3 edge orders, every orientation up to 4 nodes; "
    "node values with NaN; weights, widths and areas distinct per edge and node; edges as tuple, 2D "
    "array, int32/int64; matrices dense, CSR, COO, CSC, symmetric, upper, lower or mixed; 7 large graphs (path, star, complete, tree, grids up to 37x53) in 3 orders and directions of the edges.  states = "
    "edge lists or matrices, transitions = library calls, validated = values compared."
)
ASSUMES = ["edge weights are nonzero and positive", "in a non-symmetric matrix each edge is given once, as documented"]


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def large():
    from mc.checks.c11 import LARGE, edges_of_grid

    out = {k: v for k, v in LARGE.items() if k in ("path", "star", "complete", "tree", "grid 30x40 periodic", "two grids")}
    out["grid 37x53"] = (37 * 53, edges_of_grid(37, 53))
    return out


def tasks(tier):
    L = 5 if tier == "thorough" else 4
    t = []
    for l in range(1, L + 1):
        if l < 3:
            t.append(("edge lists of %d" % l, dict(m="seq", l=l, first=None)))
        else:
            for f in range(9):
                t.append(("edge lists of %d, first %d" % (l, f), dict(m="seq", l=l, first=f)))
    for name in large():
        t.append(("large %s" % name, dict(m="large", name=name)))
    for n in range(1, (6 if tier == "thorough" else 5) + 1):
        G = 1 << len(pairs(n))
        step = 64 if n < 6 else 512
        for s in range(0, G, step):
            t.append(("graphs on %d nodes from %d" % (n, s), dict(m="graph", n=n, s=s, e=min(G, s + step))))
    return t


@nb.njit
def diff(x, y):
    return y - x


@nb.njit
def mix(x, y):
    return 2.0 * x + 3.0 * y * y


def warm(ctx, tier):
    global G, divergence
    from neutralocean.grid import graph as G
    from neutralocean.grid.tools import divergence

    e = (np.array([0, 1]), np.array([1, 2]))
    G.edges_to_csr(e), G.edges_to_csr(e, 3), G.graph_binary_fcn(e, np.ones(3), diff)


def adjacency(a, b, N):
    """Neighbour lists in the order of the edges."""
    out = [[] for _ in range(N)]
    for x, y in zip(a, b):
        out[x].append(y)
        out[y].append(x)
    return out


def csr(ctx, edges, N, info, explicit):
    a, b = edges
    indptr, indices = G.edges_to_csr(edges, N) if explicit else G.edges_to_csr(edges)
    want = adjacency(list(map(int, a)), list(map(int, b)), N)
    got = [list(map(int, indices[indptr[m]:indptr[m + 1]])) for m in range(N)]
    ctx.check(len(indptr) == N + 1 and len(indices) == 2 * len(a), "compressed graph has wrong size",
              got=(indptr, indices), **info)
    ctx.check(got == want, "neighbour lists are wrong or out of order", got=got, want=want, **info)
    ctx.count(transitions=1, validated=2 * len(a))


def operators(ctx, a, b, N, info):
    e = (np.array(a), np.array(b))
    E = len(a)
    vals = np.array([0.5, -1.25, 3.0, 7.5, 11.0, 20.0])[:N] if N <= 6 else 0.5 + np.arange(N) ** 2 % 97 / 8.0
    for k in range(min(N, 2) + 1):
        v = vals.copy()
        if k:
            v[k - 1] = np.nan
        for f in (diff, mix):
            got = G.graph_binary_fcn(e, v, f)
            want = np.array([f.py_func(v[x], v[y]) for x, y in zip(a, b)])
            ctx.check(np.shape(got) == (E,) and np.allclose(got, want, rtol=1e-13, atol=0, equal_nan=True),
                      "function of the two ends of edges", got=got, want=want, values=v, fcn=f.__name__, **info)
        ctx.count(transitions=2, validated=2 * E)
    if N == 4:
        got = G.graph_binary_fcn(e, vals.reshape(2, 2), diff)
        ctx.check(np.allclose(got, [vals[y] - vals[x] for x, y in zip(a, b)]), "node values in 2D", got=got, **info)
    # divergence
    nd = max(max(a), max(b)) + 1
    vec = 1.0 + np.arange(E) ** 2 / 3.0
    perp = 2.0 + np.arange(E) / 7.0
    area = 3.0 + np.arange(nd) / 5.0
    for p_, A_ in ((None, None), (perp, None), (1.75, 2.5), (perp, area)):
        kw = {}
        if p_ is not None:
            kw["distperp"] = p_
        if A_ is not None:
            kw["area"] = A_
        got = divergence(vec, e, **kw)
        want = np.zeros(nd)
        for k, (x, y) in enumerate(zip(a, b)):
            flux = vec[k] * (1.0 if p_ is None else p_[k] if np.ndim(p_) else p_)
            want[x] += flux
            want[y] -= flux
        want /= 1.0 if A_ is None else A_
        ctx.check(np.shape(got) == (nd,) and np.allclose(got, want, rtol=1e-12, atol=1e-12), "divergence",
                  got=got, want=want, args=sorted(kw), **info)
        ctx.count(transitions=1, validated=nd)


def run(ctx, q):
    if q["m"] == "seq":
        D = list(itertools.product(range(3), repeat=2))
        heads = [None] if q["first"] is None else [D[q["first"]]]
        rest = q["l"] - (heads[0] is not None)
        for tail in itertools.product(D, repeat=rest):
            es = ([heads[0]] if heads[0] else []) + list(tail)
            a, b = [x[0] for x in es], [x[1] for x in es]
            info = dict(edges=es)
            ctx.tick(info)
            top = max(max(a), max(b)) + 1
            csr(ctx, (np.array(a), np.array(b)), top, info, False)
            csr(ctx, (np.array(a), np.array(b)), top + 2, info, True)
            operators(ctx, a, b, 3, info)
            ctx.count(states=1)
            ctx.outcome("edge list of %d, %d nodes, %s" % (len(es), top, "loop" if any(x == y for x, y in es) else "no loop"))
        ctx.sample(info)
        return
    if q["m"] == "large":
        return big(ctx, q["name"])
    n, P = q["n"], pairs(q["n"])
    for g in range(q["s"], q["e"]):
        es = [P[i] for i in range(len(P)) if g >> i & 1]
        info = dict(nodes=n, edges=es)
        ctx.tick(info)
        ctx.count(states=1)
        ctx.outcome("graph on %d nodes with %d edges" % (n, len(es)))
        matrices(ctx, n, es, info)
        if not es:
            z = np.zeros(0, int)
            csr(ctx, (z, z), n, info, True)
            ctx.check(G.edges_to_graph((z, z), n).nnz == 0, "graph without edges", **info)
            continue
        orders = [es, es[::-1], es[1:] + es[:1]]
        for o, ord_ in enumerate(orders):
            for flip in range(1 << len(es)) if n <= 4 and o == 0 else (0, (1 << len(es)) - 1, 0x2A5 & ((1 << len(es)) - 1)):
                de = [(y, x) if flip >> i & 1 else (x, y) for i, (x, y) in enumerate(ord_)]
                a, b = [x[0] for x in de], [x[1] for x in de]
                info = dict(nodes=n, edges=de)
                csr(ctx, (np.array(a), np.array(b)), n, info, True)
                w = 1.5 + np.arange(len(de)) / 4.0
                for ww in (None, w):
                    M = G.edges_to_graph((np.array(a), np.array(b)), n, **({} if ww is None else dict(weights=ww)))
                    want = np.zeros((n, n))
                    for k, (x, y) in enumerate(de):
                        want[x, y] = want[y, x] = 1 if ww is None else ww[k]
                    ctx.check(M.shape == (n, n) and np.array_equal(M.toarray(), want), "sparse graph of edges", got=M.toarray(), want=want, **info)
                top = max(max(a), max(b)) + 1
                M = G.edges_to_graph((np.array(a), np.array(b)))
                ctx.check(M.shape == (top, top), "default number of nodes", got=M.shape, **info)
                ctx.count(transitions=3, validated=2 * n * n)
                operators(ctx, a, b, n, info)
        for dt in (np.int32, np.int64):
            csr(ctx, np.array([a, b], dt), n, info, True)
    ctx.sample(info)


def big(ctx, name):
    import scipy.sparse as sp

    n, es = large()[name]
    E = len(es)
    i = np.arange(E)
    for o, perm in enumerate((i, i[::-1], (i * 7919) % E if np.gcd(7919, E) == 1 else np.argsort(i * i % 1009, kind="stable"))):
        de = [es[k][:: -1 if o and k % (o + 1) == 0 else 1] for k in perm]
        a, b = [x[0] for x in de], [x[1] for x in de]
        info = dict(graph=name, order=o)
        ctx.tick(info)
        e = (np.array(a), np.array(b))
        csr(ctx, e, n, info, True)
        csr(ctx, e, n, info, False)
        csr(ctx, np.array([a, b], np.int32), n + 5, info, True)
        operators(ctx, a, b, n, info)
        w = 1.5 + i / 4.0
        for ww in (None, w):
            M = G.edges_to_graph(e, n, **({} if ww is None else dict(weights=ww))).tocoo()
            got = sorted(zip(M.row.tolist(), M.col.tolist(), M.data.tolist()))
            v = np.ones(E) if ww is None else ww
            want = sorted(list(zip(a, b, v.tolist())) + list(zip(b, a, v.tolist())))
            ctx.check(M.shape == (n, n) and got == want, "sparse graph of edges", **info)
        d = 2.0 + i / 8.0
        u = 50.0 + i / 16.0
        want = Counter((min(x, y), max(x, y), float(p), float(q)) for x, y, p, q in zip(a, b, d, u))
        for how in ("sym", "upper", "lower", "mixed"):
            if how == "sym":
                r, c, dd, uu = a + b, b + a, np.r_[d, d], np.r_[u, u]
            elif how == "mixed":
                r, c, dd, uu = a, b, d, u
            else:
                r, c = np.minimum(a, b), np.maximum(a, b)
                r, c = (r, c) if how == "upper" else (c, r)
                dd, uu = d, u
            A, B = (sp.coo_matrix((z, (r, c)), shape=(n, n)) for z in (dd, uu))
            for wrap in (sp.csr_matrix, sp.coo_matrix) + ((lambda z: z.toarray(),) if n <= 1023 and o == 0 else ()):
                ctx.tick(info)
                g = G.build_grid(dict(dist=wrap(A), distperp=wrap(B)))
                got = Counter((min(x, y), max(x, y), float(p), float(q)) for x, y, p, q in zip(*(list(map(int, z)) for z in g["edges"]), g["dist"], g["distperp"]))
                ctx.check(got == want, "grid of a pair of matrices", missing=list((want - got).items())[:3], extra=list((got - want).items())[:3], how=how, **info)
                ctx.count(transitions=1, validated=E)
        ctx.count(states=1)
    ctx.outcome("large graph of %d nodes" % n)


def matrices(ctx, n, es, info):
    import scipy.sparse as sp

    d = {e: 2.0 + i / 8.0 for i, e in enumerate(es)}
    w = {e: 50.0 + i / 16.0 for i, e in enumerate(es)}

    def fill(vals, how):
        M = np.zeros((n, n))
        for i, ((x, y), v) in enumerate(vals.items()):
            up = how == "upper" or how == "mixed" and i % 2
            if how == "sym" or up:
                M[x, y] = v
            if how == "sym" or not up:
                M[y, x] = v
        return M

    for how in ("sym", "upper", "lower", "mixed"):
        A, B = fill(d, how), fill(w, how)
        for wrap in (np.asarray, sp.csr_matrix, sp.coo_matrix, sp.csc_matrix):
            g = G.build_grid(wrap(A))
            got = Counter((min(x, y), max(x, y)) for x, y in zip(*(list(map(int, v)) for v in g["edges"])))
            ctx.check(got == Counter(es), "grid of a matrix has wrong edges", got=sorted(got), how=how, form=wrap.__name__, **info)
            ctx.check(np.array_equal(g["dist"], np.ones(len(es))) and np.array_equal(g["distperp"], np.ones(len(es))),
                      "distances of a bare matrix are one", how=how, **info)
            if es:  # a symmetric structure with unsymmetric numbers is still one edge per pair
                pass
            g = G.build_grid(dict(dist=wrap(A), distperp=wrap(B)))
            got = Counter((min(x, y), max(x, y), float(u), float(v)) for x, y, u, v in
                          zip(*(list(map(int, v)) for v in g["edges"]), g["dist"], g["distperp"]))
            want = Counter((*e, d[e], w[e]) for e in es)
            ctx.check(got == want, "grid of a pair of matrices", got=sorted(got), want=sorted(want), how=how, form=wrap.__name__, **info)
            ctx.count(transitions=2, validated=2 * len(es))
    if es:
        # structurally symmetric, numerically not
        A = fill(d, "sym")
        A[np.tril_indices(n)] *= 3.0
        for wrap in (np.asarray, sp.csr_matrix):
            g = G.build_grid(wrap(A))
            got = Counter((min(x, y), max(x, y)) for x, y in zip(*(list(map(int, v)) for v in g["edges"])))
            ctx.check(got == Counter(es), "symmetric structure counted twice", got=sorted(got), **info)
        # different structures are refused
        B = fill(w, "sym")
        x, y = es[0]
        B[x, y] = B[y, x] = 0.0
        for wrap in (np.asarray, sp.csr_matrix):
            for bad in (dict(dist=wrap(fill(d, "sym")), distperp=wrap(B)), dict(dist=wrap(A))):
                try:
                    G.build_grid(bad)
                except ValueError:
                    continue
                ctx.fail("unusable matrices accepted", keys=sorted(bad), **info)
        # ... also when only the rows, or only the columns, differ: one edge moved
        have = set(es)
        for i, (x, y) in enumerate(es):
            for z in range(n):
                for other in ((x, z), (z, y)):
                    if other[0] < other[1] and other not in have:
                        keep = [e for e in es if e != (x, y)] + [other]
                        for how in ("sym", "upper", "lower"):
                            for wrap in (np.asarray, sp.csr_matrix):
                                try:
                                    G.build_grid(dict(dist=wrap(fill(d, how)), distperp=wrap(fill({e: 1.0 for e in keep}, how))))
                                except ValueError:
                                    continue
                                ctx.fail("matrices of different structure accepted", moved=((x, y), other), how=how, form=wrap.__name__, **info)
                        ctx.count(transitions=6)
        for A in (fill(d, "sym"), fill(d, "upper"), fill(d, "lower"), fill(d, "mixed")):
            want = bool(np.array_equal(A != 0, A.T != 0))
            for wrap in (np.asarray, sp.csr_matrix):
                ctx.check(bool(G.sym_structure(wrap(A))) == want, "symmetry of a structure", matrix=A, want=want, **info)
                if n > 1:
                    ctx.check(not G.sym_structure(wrap(A[:-1])) and not G.sym_structure(wrap(A[:, :-1])), "a matrix that is not square is symmetric", **info)
        ctx.count(transitions=30)
