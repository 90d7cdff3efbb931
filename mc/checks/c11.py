"""Breadth-first search on every small graph, mask and root."""
import itertools

import numpy as np

BOUNDS = (
    "every graph on 1-5 nodes (6 in thorough) x every subset of valid nodes x every root, neighbour "
    "lists in ascending and descending order (5+ nodes: ascending), and for up to 3 nodes every multigraph with "
    "self loops and double edges; grids of 2x3, 3x3 casts (periodic or not) with every land mask, two roots; 9 large graphs (path, ring, star, complete, tree, grids up to 41x43) x 8 masks x 5 roots.  states = "
    "(graph, mask, root), transitions = searches executed, validated = nodes compared."
)
ASSUMES = ["neighbour lists are symmetric"]


def tasks(tier):
    t = [("multigraphs", dict(m="multi"))]
    for name in LARGE:
        t.append(("large %s" % name, dict(m="large", name=name)))
    for n in range(1, (6 if tier == "thorough" else 5) + 1):
        G = 1 << (n * (n - 1) // 2)
        step = 32 if n < 6 else 256
        for s in range(0, G, step):
            t.append(("graphs on %d nodes from %d" % (n, s), dict(m="g", n=n, s=s, e=min(G, s + step))))
    for dims in ((2, 3), (3, 3)):
        for per in itertools.product((False, True), repeat=2):
            t.append(("grid %s periodic %s" % (dims, per), dict(m="grid", dims=dims, per=per)))
    return t


def edges_of_grid(ni, nj, per=(False, False)):
    es = []
    for i in range(ni):
        for j in range(nj):
            if i + 1 < ni or per[0]:
                es.append((i * nj + j, (i + 1) % ni * nj + j))
            if j + 1 < nj or per[1]:
                es.append((i * nj + j, i * nj + (j + 1) % nj))
    return es


# name: (number of nodes, edges)
LARGE = {
    "path": (1500, [(i, i + 1) for i in range(1499)]),
    "ring, edges from the end": (700, [(i, (i + 1) % 700) for i in range(700)][::-1]),
    "star": (600, [(300, i) for i in range(600) if i != 300]),
    "complete": (48, list(itertools.combinations(range(48), 2))),
    "tree": (1023, [((i - 1) // 2, i) for i in range(1, 1023)]),
    "grid 41x43": (41 * 43, edges_of_grid(41, 43)),
    "grid 30x40 periodic": (1200, edges_of_grid(30, 40, (True, True))),
    "grid 3x400 periodic": (1200, edges_of_grid(3, 400, (False, True))),
    "two grids": (800, edges_of_grid(20, 20) + [(x + 400, y + 400) for x, y in edges_of_grid(20, 20)]),
}


def large_masks(n):
    i = np.arange(n)
    yield i >= 0
    yield i < 0
    yield i % 2 == 0
    yield i % 7 != 3
    yield (i * i) % 11 < 8
    yield (i // 41) % 4 != 1
    yield ((i % 40) % 4 != 1) | (((i // 40) % 2 == 0) & (i % 40 > 30))
    yield i != n // 2


def warm(ctx, tier):
    global bfs
    from neutralocean.bfs import bfs_conncomp1 as bfs

    bfs(np.array([0, 1, 2]), np.array([1, 0]), 0, np.array([True, True]))


def pack(adj):
    ptr = np.zeros(len(adj) + 1, int)
    ptr[1:] = np.cumsum([len(x) for x in adj])
    return ptr, np.array([y for x in adj for y in x], dtype=int)


def reference(adj, root, good):
    if not good[root]:
        return [], {}
    dist = {root: 0}
    qu = [root]
    for m in qu:
        for n in adj[m]:
            if good[n] and n not in dist:
                dist[n] = dist[m] + 1
                qu.append(n)
    return qu, dist


def one(ctx, adj, packed, root, mask, info):
    ptr, ind = packed
    good = np.array(mask)
    got = [int(x) for x in bfs(ptr, ind, root, good)]
    want, dist = reference(adj, root, mask)
    if sorted(got) != sorted(want):
        ctx.fail("the region found is not the connected region of the root", got=got, want=want, root=root, valid=mask, **info)
    if got != want:
        ctx.check(got[0] == root, "root is not first", got=got, root=root, **info)
        d = [dist[x] for x in got]
        ctx.check(d == sorted(d), "not in order of distance from the root", got=got, distances=d, root=root, valid=mask, **info)
        ctx.fail("not in order of discovery", got=got, want=want, root=root, valid=mask, **info)
    ctx.count(states=1, transitions=1, validated=len(want))
    return len(want)


def run(ctx, q):
    if q["m"] == "g":
        n = q["n"]
        P = list(itertools.combinations(range(n), 2))
        masks = list(itertools.product((True, False), repeat=n))
        for g in range(q["s"], q["e"]):
            es = [P[i] for i in range(len(P)) if g >> i & 1]
            for rev in (False, True) if n < 5 else (False,):
                adj = [[] for _ in range(n)]
                for x, y in es[::-1] if rev else es:
                    adj[x].append(y)
                    adj[y].append(x)
                pk = pack(adj)
                info = dict(nodes=n, edges=es, reversed_order=rev)
                ctx.tick(info)
                sizes = {}
                for mask in masks:
                    for root in range(n):
                        k = one(ctx, adj, pk, root, mask, info)
                        sizes[k] = sizes.get(k, 0) + 1
                for k, v in sizes.items():
                    ctx.outcome("%d nodes, region of %d" % (n, k), v)
        ctx.sample(dict(info, root=root, valid=mask))
    elif q["m"] == "large":
        n, es = LARGE[q["name"]]
        adj = [[] for _ in range(n)]
        for x, y in es:
            adj[x].append(y)
            adj[y].append(x)
        pk = pack(adj)
        for k, mask in enumerate(large_masks(n)):
            for root in (0, 1, n // 2, n // 3, n - 1):
                ctx.tick(dict(graph=q["name"], mask=k, root=root))
                r = one(ctx, adj, pk, root, [bool(x) for x in mask], dict(graph=q["name"], mask=k))
                ctx.outcome("%s, region of %d" % (q["name"], r))
    elif q["m"] == "multi":
        for n in (1, 2, 3):
            D = [(x, y) for x in range(n) for y in range(x, n)]
            for l in range(0, 5):
                for es in itertools.product(D, repeat=l):
                    adj = [[] for _ in range(n)]
                    for x, y in es:
                        adj[x].append(y)
                        adj[y].append(x)
                    pk = pack(adj)
                    info = dict(nodes=n, edges=es)
                    ctx.tick(info)
                    for mask in itertools.product((True, False), repeat=n):
                        for root in range(n):
                            one(ctx, adj, pk, root, mask, info)
        ctx.outcome("multigraphs")
    else:
        from neutralocean.grid.graph import edges_to_csr, edges_to_graph
        from neutralocean.grid.rectilinear import build_grid

        N = q["dims"][0] * q["dims"][1]
        e = build_grid(q["dims"], q["per"])["edges"]
        ptr, ind = edges_to_csr(e, N)
        M = edges_to_graph(e, N)
        for a, b in ((ptr, ind), (M.indptr, M.indices)):
            adj = [[int(x) for x in b[a[m]:a[m + 1]]] for m in range(N)]
            for mask in itertools.product((True, False), repeat=N):
                info = dict(grid=q["dims"], periodic=q["per"])
                ctx.tick(info)
                for root in (0, N - 1):
                    one(ctx, adj, (a, b), root, mask, info)
        ctx.outcome("grid")
