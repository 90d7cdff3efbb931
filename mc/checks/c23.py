"""Array helpers against their definitions."""
import itertools

import numpy as np

from mc.interp import NAN

BOUNDS = (
    "find_first_nan: every NaN pattern of every 1D-4D shape with up to 9 (12 thorough) elements and dimensions 0-4, every axis (positive and negative), three memory layouts; "
    "valid_range, valid_range_1, valid_range_1_two: every pattern of length 0-7 (9), pairs of patterns of length 0-4 (5), and every stack of two patterns; "
    "take_fill: every index vector of length 0-4 over -2..size-1 for arrays of up to 6 elements in 1D-3D; aggsum: every label vector of length 0-5 (6) over "
    "-2..n-1 with n up to 4; val_at: every index array over -2..n-1 for every 1D-3D shape with up to 4 casts and 1-4 levels, every int; all of these on long inputs (17 to 1000 elements).  "
    "states = inputs, transitions = calls, validated = results compared with the definition."
)
ASSUMES = ["indices are below the size of the array", "values are finite or NaN"]


def tasks(tier):
    deep = tier == "thorough"
    cap = 12 if deep else 9
    t = []
    for nd in (1, 2, 3, 4):
        for shape in itertools.product(range(0, 5), repeat=nd):
            n = int(np.prod(shape))
            if n <= cap and (n > 0 or max(shape) <= 2):
                t.append(("first NaN %s" % (shape,), dict(k="ffn", shape=shape)))
    t.append(("valid ranges", dict(k="vr", n=9 if deep else 7, m=5 if deep else 4)))
    for shape in ((1,), (2,), (3,), (6,), (2, 3), (3, 2), (2, 1, 2), (1, 1)):
        t.append(("take_fill %s" % (shape,), dict(k="take", shape=shape)))
    for n in range(0, 5):
        t.append(("aggsum %d" % n, dict(k="agg", n=n, m=6 if deep else 5)))
    for h in ((), (1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (2, 1, 2)):
        for n in (1, 2, 3, 4):
            t.append(("val_at %s %d" % (h, n), dict(k="val", h=h, n=n)))
    t.append(("long inputs", dict(k="long")))
    t.append(("differences", dict(k="diff")))
    return t


def warm(ctx, tier):
    global find_first_nan, take_fill, aggsum, val_at, valid_range, valid_range_1, valid_range_1_two, diff_1d_samesize
    from neutralocean.lib import aggsum, find_first_nan, take_fill, val_at
    from neutralocean.ppinterp import valid_range, valid_range_1, valid_range_1_two
    from neutralocean.ppinterp.lib import diff_1d_samesize

    a, i = np.arange(3.0), np.arange(3)
    take_fill(a, i), take_fill(a.reshape(1, 3), i, -1.0), aggsum(a, i, 3), aggsum(i, i, 3), valid_range_1(a), valid_range_1_two(a, a), diff_1d_samesize(a)
    find_first_nan(a), find_first_nan(np.asfortranarray(np.ones((2, 2))), 0)


def first_nan(v):
    for j, x in enumerate(v):
        if x != x:
            return j
    return len(v)


def vrange(ok):
    k = next((i for i, o in enumerate(ok) if o), len(ok))
    K = next((i for i in range(k + 1, len(ok)) if not ok[i]), len(ok))
    return k, K


def run(ctx, q):
    globals()["do_" + q["k"]](ctx, q)


def do_ffn(ctx, q):
    shape = q["shape"]
    n = int(np.prod(shape))
    if n == 0:
        patterns = [()]
    else:
        patterns = itertools.product((False, True), repeat=n)
    for c, pat in enumerate(patterns):
        if c % 64 == 0:
            ctx.tick(dict(shape=shape, nan=pat))
        a = np.where(np.array(pat, bool), NAN, np.arange(n) - 3.0).reshape(shape)
        for axis in range(len(shape)):
            want = np.empty(shape[:axis] + shape[axis + 1 :], int)
            for ix in np.ndindex(want.shape):
                want[ix] = first_nan(a[ix[:axis] + (slice(None),) + ix[axis:]].tolist())
            for ax in (axis, axis - len(shape)):
                for lay in ((a, np.asfortranarray(a), a[::-1][::-1]) if c % 16 == 0 else (a,)):
                    got = find_first_nan(lay, ax)
                    ctx.check(np.shape(got) == want.shape and np.array_equal(got, want), "index of the first NaN", got=got, want=want, a=a, axis=ax)
                    ctx.count(1, 1, 1)
        got = find_first_nan(a)
        ctx.check(np.array_equal(got, want), "index of the first NaN, default axis", got=got, want=want, a=a)


def do_vr(ctx, q):
    for n in range(0, q["n"] + 1):
        ctx.tick(dict(length=n))
        base = np.array([5.0, -1.0, 0.0, 2.0, 1e300, -7.0, 3.0, 4.0, 9.0])[:n]
        rows, want = [], []
        for ok in itertools.product((True, False), repeat=n):
            x = np.where(ok, base, NAN) if n else base
            w = vrange(ok)
            got = valid_range_1(x)
            ctx.check(tuple(map(int, got)) == w, "valid range", got=got, want=w, X=x)
            rows.append(x)
            want.append(w)
            ctx.count(1, 1, 1)
        k, K = valid_range(np.array(rows).reshape(len(rows), n)) if n else (np.zeros(1), np.zeros(1))
        ctx.check([(int(a), int(b)) for a, b in zip(k, K)] == want, "valid ranges of many arrays", length=n)
        if 1 <= n <= 4:
            for a, b in itertools.product(range(len(rows)), repeat=2):
                X = np.stack([rows[a], rows[b]])
                for Y in (X[None], np.asfortranarray(X)[None]):
                    k, K = valid_range(Y)
                    ctx.check(k.shape == (1, 2) and [(int(u), int(v)) for u, v in zip(k[0], K[0])] == [want[a], want[b]], "valid ranges of stacked arrays", X=X, got=[k, K])
                    ctx.count(1, 1, 1)
    for n in range(0, q["m"] + 1):
        for a in itertools.product((True, False), repeat=n):
            ctx.tick(dict(length=n, X=a))
            for b in itertools.product((True, False), repeat=n):
                x = np.where(np.array(a, bool), 1.0 + np.arange(n), NAN)
                y = np.where(np.array(b, bool), -1.0 * np.arange(n), NAN)
                w = vrange([i and j for i, j in zip(a, b)])
                got = valid_range_1_two(x, y)
                ctx.check(tuple(map(int, got)) == w, "valid range of two arrays", got=got, want=w, X=x, Y=y)
                ctx.count(1, 1, 1)


def do_take(ctx, q):
    shape = q["shape"]
    a = 10.0 + np.arange(float(np.prod(shape))).reshape(shape)
    flat = a.ravel().tolist()
    for m in range(0, 5 if a.size <= 4 else 4):
        ctx.tick(dict(shape=shape, length=m))
        for idx in itertools.product(range(-2, a.size), repeat=m):
            i = np.array(idx, dtype=np.int64)
            for fill in (None, -99.0):
                got = take_fill(a, i) if fill is None else take_fill(a, i, fill)
                f = NAN if fill is None else fill
                want = np.array([flat[j] if j >= 0 else f for j in idx])
                ctx.check(np.shape(got) == (m,) and np.array_equal(got, want, equal_nan=True), "gathered values", got=got, want=want, idx=idx, shape=shape)
                ctx.count(1, 1, 1)


def do_agg(ctx, q):
    n = q["n"]
    for m in range(0, q["m"] + 1):
        ctx.tick(dict(n=n, length=m))
        a = np.array([1.0, 2.0, 4.0, 8.0, 16.0, 32.0])[:m]
        for idx in itertools.product(range(-2, n), repeat=m):
            want = np.zeros(n)
            for v, g in zip(a, idx):
                if g >= 0:
                    want[g] += v
            i = np.array(idx, dtype=np.int64)
            for data in (a, a.astype(int)):
                got = aggsum(data, i, n)
                ctx.check(np.shape(got) == (n,) and np.array_equal(got, want) and got.dtype == data.dtype, "sums of groups", got=got, want=want, idx=idx, a=data)
                ctx.count(1, 1, 1)


def do_long(ctx, q):
    for n in (17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000):
        ctx.tick(dict(length=n))
        base = 1.0 + np.arange(n) ** 2 % 101
        # one NaN, or all from / up to an index
        for j in sorted({0, 1, 2, n // 3, 15, 16, n // 2, n - 2, n - 1}):
            for sel in (slice(j, j + 1), slice(j, None), slice(0, j + 1), slice(j, None, 3)):
                x = base.copy()
                x[sel] = NAN
                ok = [v == v for v in x]
                got, w = find_first_nan(x), first_nan(x.tolist())
                ctx.check(int(got) == w, "index of the first NaN", got=got, want=w, length=n, nan=(j, str(sel)))
                two = np.stack([base, x, x[::-1]])
                for a, ax in ((two, 1), (two.T, 0), (np.asfortranarray(two), -1)):
                    got = find_first_nan(a, ax)
                    ww = [n, w, first_nan(x[::-1].tolist())]
                    ctx.check([int(v) for v in got] == ww, "index of the first NaN", got=got, want=ww, length=n, axis=ax)
                got, w = valid_range_1(x), vrange(ok)
                ctx.check(tuple(map(int, got)) == w, "valid range", got=got, want=w, length=n, nan=(j, str(sel)))
                k, K = valid_range(two)
                ctx.check((int(k[1]), int(K[1])) == w and (int(k[0]), int(K[0])) == (0, n), "valid ranges of many arrays", got=[k, K], want=w, length=n)
                y = base[::-1].copy()
                y[n // 4] = NAN
                w = vrange([a and b == b for a, b in zip(ok, y)])
                got = valid_range_1_two(x, y)
                ctx.check(tuple(map(int, got)) == w, "valid range of two arrays", got=got, want=w, length=n)
                got = diff_1d_samesize(x)
                ctx.check(np.array_equal(got, np.r_[x[1:] - x[:-1], NAN], equal_nan=True), "differences", length=n)
                ctx.count(1, 8, 8)
        i = (np.arange(n) * 7 + 3) % (n + 2) - 2
        for m in (n, 2 * n + 1, 5):
            idx = np.resize(i, m).astype(np.int64)
            want = np.array([base[k] if k >= 0 else -99.0 for k in idx])
            ctx.check(np.array_equal(take_fill(base, idx, -99.0), want), "gathered values", length=n, m=m)
            if n % 2 == 0:
                ctx.check(np.array_equal(take_fill(base.reshape(2, -1), idx, -99.0), want), "gathered values", length=n, m=m)
            a = 1.0 + np.arange(m)
            want = np.zeros(n)
            np.add.at(want, idx[idx >= 0], a[idx >= 0])
            ctx.check(np.array_equal(aggsum(a, idx, n), want), "sums of groups", length=n, m=m)
            ctx.count(1, 2, 2)
        T = base.reshape(1, n) + 1000.0 * np.arange(n)[:, None]
        k = (np.arange(n) * 5) % (n + 1) - 1
        want = np.array([NAN if b < 0 else T[a, b] for a, b in enumerate(k)])
        ctx.check(np.array_equal(val_at(T, k), want, equal_nan=True), "values at indices", length=n)
        ctx.check(np.array_equal(val_at(T, n - 1), T[:, -1]), "values at one index", length=n)
        ctx.count(1, 2, 2)
        ctx.outcome("long")


def do_val(ctx, q):
    h, n = tuple(q["h"]), q["n"]
    T = 1.0 + np.arange(float(np.prod(h) * n)).reshape(h + (n,))
    keep = T.copy()
    for k in range(-n, n):
        ctx.tick(dict(shape=T.shape, k=k))
        for arr in (T, np.asfortranarray(T)):
            got = val_at(arr, k)
            want = T[..., k] if k >= 0 else np.full(h, NAN)
            ctx.check(np.shape(got) == h and np.array_equal(got, want, equal_nan=True), "values at one index", got=got, want=want, shape=T.shape, k=k)
            ctx.check(np.array_equal(arr, keep), "the input was modified", shape=T.shape, k=k)
            ctx.count(1, 1, 1)
    shapes = [h] if h else [(2,), (1, 2), (2, 2), (1, 1), (3, 1)]
    for ks in shapes:
        size = int(np.prod(ks))
        values = range(-1, n) if size > 3 else range(-min(2, n), n)
        for c, idx in enumerate(itertools.product(values, repeat=size)):
            if c % 64 == 0:
                ctx.tick(dict(shape=T.shape, k=idx))
            k = np.array(idx).reshape(ks)
            want = np.empty(ks)
            for ix in np.ndindex(ks):
                want[ix] = NAN if k[ix] < 0 else (T[ix + (k[ix],)] if h else T[k[ix]])
            got = val_at(T, k)
            ctx.check(np.shape(got) == ks and np.array_equal(got, want, equal_nan=True), "values at indices", got=got, want=want, shape=T.shape, k=k)
            ctx.check(np.array_equal(T, keep), "the input was modified", shape=T.shape, k=k)
            ctx.count(1, 1, 1)
    if len(h) == 2:
        for bad in (np.zeros(h[:1], int), np.zeros(h + (1,), int)):
            try:
                val_at(T, bad)
            except ValueError:
                ctx.count(1, 1, 1)
            else:
                ctx.fail("mismatched dimensions were accepted", shape=T.shape, k=bad)


def do_diff(ctx, q):
    for n in range(0, 6):
        for v in itertools.product((-1.0, 0.0, 2.5, NAN), repeat=n):
            x = np.array(v)
            got = diff_1d_samesize(x)
            want = np.array([x[i + 1] - x[i] for i in range(n - 1)] + [NAN][: min(n, 1)])
            ctx.check(np.shape(got) == (n,) and np.array_equal(got, want, equal_nan=True), "differences", got=got, want=want, x=x)
            ctx.count(1, 1, 1)
