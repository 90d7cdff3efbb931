"""Root finding: the real solvers against every bounded sequence of answers of f."""
import itertools

import numba as nb
import numpy as np

BOUNDS = (
    "(a) f chosen by an adversary: every sequence of 8 answers (9 in thorough) from "
    "{-1,-1e-3,0,1e-3,1} to the points the solver asks about, then a consistent continuation, for "
    "the bracketing solver, the bracket search and their composition, 3 ranges x 4 tolerances (one below the spacing of numbers) x 6 "
    "guesses; (b) every piecewise-linear f with 5 equally spaced nodes and values from "
    "{-2,-0.1,0,0.5,3}, guesses at/between/outside nodes; (c) every single-crossing f on a fine set of "
    "crossings and guesses; NaN and reversed ranges.  states = (f, range, guess, tolerance) "
    "combinations, transitions = evaluations of f asked by the code."
)
ASSUMES = ["f is real valued on the whole range; tolerance > 0"]
ANS = np.array([1.0, -1.0, 0.0, 1e-3, -1e-3])
RANGES = ((0.0, 1.0), (-5.0, 2000.0), (1000.0, 1000.5))
TOLS = (1e-18, 1e-9, 1e-4, 0.25)
EPS = np.finfo(float).eps
CAP = 4000


def tasks(tier):
    depth = 9 if tier == "thorough" else 8
    t = [("bad ranges", dict(m="bad"))]
    for r in range(3):
        t.append(("piecewise linear, range %d" % r, dict(m="pl", r=r)))
        t.append(("single crossings, range %d" % r, dict(m="one", r=r)))
        for a0, a1 in itertools.product(range(5), repeat=2):
            t.append(("adversary, range %d, answers %d %d" % (r, a0, a1), dict(m="adv", r=r, a=(a0, a1), depth=depth)))
    return t


@nb.njit
def f_log(x, lx, ly, cnt, ans, given):
    """Answer from the log, then from the list, then by a rule any continuous f allows."""
    n = cnt[0]
    for i in range(n):
        if lx[i] == x:
            cnt[1] += 1
            return ly[i]
    if n < given:
        y = ans[n]
    else:
        # between the nearest points asked before: halfway, kept on the side of the larger
        lo, hi = -1, -1
        for i in range(n):
            if lx[i] < x and (lo < 0 or lx[i] > lx[lo]):
                lo = i
            if lx[i] > x and (hi < 0 or lx[i] < lx[hi]):
                hi = i
        if lo < 0 and hi < 0:
            y = 1.0
        elif lo < 0:
            y = ly[hi]
        elif hi < 0:
            y = ly[lo]
        else:
            w = (x - lx[lo]) / (lx[hi] - lx[lo])
            y = (1 - w) * ly[lo] + w * ly[hi]
            if ly[lo] * ly[hi] < 0:  # lean so that secants mislead
                y = 0.9 * ly[lo] if cnt[2] == 0 else (0.9 * ly[hi] if cnt[2] == 1 else y)
    if n >= lx.size:
        raise ValueError("no end")
    lx[n] = x
    ly[n] = y
    cnt[0] = n + 1
    return y


@nb.njit
def f_pl(x, xs, ys, cnt):
    """Piecewise linear; counts its evaluations."""
    cnt[0] += 1
    if cnt[0] > 100000:
        raise ValueError("no end")
    if x <= xs[0]:
        return ys[0]
    for i in range(xs.size - 1):
        if x <= xs[i + 1]:
            if x == xs[i + 1]:
                return ys[i + 1]
            w = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] + w * (ys[i + 1] - ys[i])
    return ys[-1]


def warm(ctx, tier):
    global brent, g2b, bg
    from neutralocean.fzero import brent, brent_guess as bg, guess_to_bounds as g2b

    z = np.zeros(3, np.int64)
    a = (np.zeros(CAP), np.zeros(CAP), z, ANS, 2)
    brent(f_log, 0.0, 1.0, 0.1, a)
    z[:] = 0
    g2b(f_log, 0.5, 0.0, 1.0, a)
    z[:] = 0
    bg(f_log, 0.5, 0.0, 1.0, 0.1, a)
    a = (np.array([0.0, 1]), np.array([-1.0, 1]), z)
    brent(f_pl, 0.0, 1.0, 0.1, a), g2b(f_pl, 0.5, 0.0, 1.0, a), bg(f_pl, 0.5, 0.0, 1.0, 0.1, a)

    global drive_brent, drive_g2b, drive_bg

    # Drivers that enumerate the answer sequences in compiled code and judge each
    # execution from its log.  Codes: 0 fine, else the kind of failure.
    @nb.njit
    def near_change(r, t, lx, ly, n):
        """r was asked, and f is zero there or has the other sign within 2 tol."""
        tol = 2.0 * (2.0 * 2.220446049250313e-16 * abs(r) + t) * (1 + 1e-9)
        yr = np.nan
        for i in range(n):
            if lx[i] == r:
                yr = ly[i]
        if np.isnan(yr):
            return False
        if yr == 0:
            return True
        for i in range(n):
            if abs(lx[i] - r) <= tol and yr * ly[i] <= 0:
                return True
        return False

    @nb.njit
    def drive_brent(ans0, depth, A, B, t, lean, out):
        na = ANS.size
        free = depth - 2
        lx, ly = np.zeros(CAP), np.zeros(CAP)
        cnt = np.zeros(3, np.int64)
        ans = np.zeros(depth)
        total = na**free
        for code in range(total):
            ans[0], ans[1] = ANS[ans0[0]], ANS[ans0[1]]
            c = code
            for j in range(free):
                ans[2 + j] = ANS[c % na]
                c //= na
            cnt[0] = 0
            cnt[2] = lean
            out[3] = code
            r = brent(f_log, A, B, t, (lx, ly, cnt, ans, depth))
            n = cnt[0]
            out[0] += 1
            out[1] += n
            out[2] = max(out[2], n)
            fA, fB = ans[0], ans[1]
            if np.isnan(r):
                out[4] += 1
                if not fA * fB > 0:
                    return 1
            else:
                if fA * fB > 0:
                    return 2
                if r < A or r > B:
                    return 3
                if not near_change(r, t, lx, ly, n):
                    return 4
            if n < depth:
                out[5] += 1
        return 0

    @nb.njit
    def drive_g2b(ans0, depth, x, A, B, lean, out):
        na = ANS.size
        free = depth - 2
        lx, ly = np.zeros(CAP), np.zeros(CAP)
        cnt = np.zeros(3, np.int64)
        ans = np.zeros(depth)
        for code in range(na**free):
            ans[0], ans[1] = ANS[ans0[0]], ANS[ans0[1]]
            c = code
            for j in range(free):
                ans[2 + j] = ANS[c % na]
                c //= na
            cnt[0] = 0
            cnt[2] = lean
            out[3] = code
            a, b = g2b(f_log, x, A, B, (lx, ly, cnt, ans, depth))
            n = cnt[0]
            out[0] += 1
            out[1] += n
            out[2] = max(out[2], n)
            fA, fB, fa, fb = np.nan, np.nan, np.nan, np.nan
            for i in range(n):
                if lx[i] == A:
                    fA = ly[i]
                if lx[i] == B:
                    fB = ly[i]
                if lx[i] == a:
                    fa = ly[i]
                if lx[i] == b:
                    fb = ly[i]
            if np.isnan(a) or np.isnan(b):
                out[4] += 1
                if np.isnan(a) != np.isnan(b):
                    return 5
                if not fA * fB > 0:
                    return 1
            else:
                if not (A <= a and a <= b and b <= B):
                    return 3
                if not fa * fb <= 0:
                    return 4
                if a == b and fa != 0:
                    return 4
                if fA != 0 and fB != 0 and not (a <= min(max(x, A), B) and min(max(x, A), B) <= b):
                    return 6
        return 0

    @nb.njit
    def drive_bg(ans0, depth, x, A, B, t, lean, out):
        na = ANS.size
        free = depth - 2
        lx, ly = np.zeros(CAP), np.zeros(CAP)
        cnt = np.zeros(3, np.int64)
        ans = np.zeros(depth)
        for code in range(na**free):
            ans[0], ans[1] = ANS[ans0[0]], ANS[ans0[1]]
            c = code
            for j in range(free):
                ans[2 + j] = ANS[c % na]
                c //= na
            cnt[0] = 0
            cnt[2] = lean
            out[3] = code
            r = bg(f_log, x, A, B, t, (lx, ly, cnt, ans, depth))
            n = cnt[0]
            out[0] += 1
            out[1] += n
            out[2] = max(out[2], n)
            fA, fB = np.nan, np.nan
            for i in range(n):
                if lx[i] == A:
                    fA = ly[i]
                if lx[i] == B:
                    fB = ly[i]
            if np.isnan(r):
                out[4] += 1
                if not fA * fB > 0:
                    return 1
            else:
                if r < A or r > B:
                    return 3
                if not near_change(r, t, lx, ly, n):
                    return 4
        return 0


WHY = {
    1: "gave up though the function changes sign between the ends",
    2: "returned a root though the ends have the same sign",
    3: "returned a point outside the range",
    4: "returned a point where the function does not change sign (within tolerance)",
    5: "returned half a bracket",
    6: "returned a bracket without the guess",
}


def zeros(xs, ys):
    """Closed intervals of zeros of a piecewise-linear function."""
    z = []
    for i in range(len(xs) - 1):
        a, b = ys[i], ys[i + 1]
        if a == 0:
            z.append((xs[i], xs[i]))
        if a == 0 and b == 0:
            z.append((xs[i], xs[i + 1]))
        if a * b < 0:
            r = xs[i] + (xs[i + 1] - xs[i]) * (a / (a - b))
            z.append((r, r))
    if ys[-1] == 0:
        z.append((xs[-1], xs[-1]))
    return z


def dist(r, z):
    return min((0.0 if a <= r <= b else min(abs(r - a), abs(r - b)) for a, b in z), default=np.inf)


def run(ctx, p):
    if p["m"] == "bad":
        return bad(ctx)
    A, B = RANGES[p["r"]]
    if p["m"] == "adv":
        d = p["depth"]
        a0 = np.array(p["a"])

        def go(name, fn, *args):
            out = np.zeros(6, np.int64)
            for lean in (0, 1, 2):
                ctx.tick(dict(solver=name, args=args, first_answers=ANS[a0], lean=lean))
                try:
                    code = fn(a0, args[0], *args[1:], lean, out)
                except ValueError:
                    ctx.fail("%s did not end after %d evaluations" % (name, CAP),
                             args=args, answers=seq(a0, int(out[3]), args[0]), lean=lean)
                if code:
                    ctx.fail("%s %s" % (name, WHY[code]), args=args,
                             answers=seq(a0, int(out[3]), args[0]), lean=lean)
            # the worst case of Brent's method is quadratic in the number of halvings
            ctx.check(out[2] < 2500, "%s took %d evaluations" % (name, out[2]), args=args)
            ctx.count(states=out[0], transitions=out[1], validated=out[0])
            ctx.outcome("%s: NaN" % name, out[4])
            ctx.outcome("%s: found" % name, out[0] - out[4])

        for t in TOLS:
            go("bracketing solver", drive_brent, d, A, B, t * max(1.0, (B - A) / 100))
        for x in (A + 0.3 * (B - A), A, B, A - 1.0, B + 1.0, A + 0.5 * (B - A)):
            go("bracket search", drive_g2b, d - 1, x, A, B)
            go("guess solver", drive_bg, d - 1, x, A, B, 1e-6 * (B - A))
        ctx.sample(dict(range=(A, B), first_answers=ANS[a0], depth=d))
    elif p["m"] == "pl":
        xs = A + (B - A) * np.arange(5) / 4
        cnt = np.zeros(1, np.int64)
        for ys in itertools.product((-2.0, -0.1, 0.0, 0.5, 3.0), repeat=5):
            ys = np.array(ys)
            z = zeros(xs, ys)
            end = ys[0] * ys[-1]
            for t in (1e-6 * (B - A), 1e-2 * (B - A)):
                ctx.tick(dict(f=ys, range=(A, B), t=t))
                cnt[0] = 0
                r = brent(f_pl, A, B, t, (xs, ys, cnt))
                ctx.check(np.isnan(r) == (end > 0), "bracketing solver: NaN iff the ends agree in sign",
                          f=ys, range=(A, B), got=r)
                if not np.isnan(r):
                    ctx.check(A <= r <= B and dist(r, z) <= 2.001 * (t + 2 * EPS * abs(r)) + 4 * EPS * abs(B),
                              "bracketing solver: not at a root", f=ys, range=(A, B), got=r, roots=z)
                ctx.count(states=1, transitions=cnt[0], validated=1)
                for x in (A, A + 0.1 * (B - A), A + 0.25 * (B - A), A + 0.6 * (B - A), B, B + 5.0):
                    cnt[0] = 0
                    r = bg(f_pl, x, A, B, t, (xs, ys, cnt))
                    if np.isnan(r):
                        ctx.check(end > 0, "guess solver gave up though the ends differ in sign",
                                  f=ys, range=(A, B), guess=x)
                    else:
                        ctx.check(A <= r <= B and dist(r, z) <= 2.001 * (t + 2 * EPS * abs(r)) + 4 * EPS * abs(B),
                                  "guess solver: not at a root", f=ys, range=(A, B), guess=x, got=r, roots=z)
                    ctx.outcome("NaN" if np.isnan(r) else "root")
                    ctx.count(states=1, transitions=cnt[0], validated=1)
        ctx.sample(dict(nodes=xs, f=ys))
    elif p["m"] == "one":
        # one crossing at c: the bracket found from guess x is geometrically tight
        cnt = np.zeros(1, np.int64)
        L = B - A
        grid = [0.0, 0.003, 0.01, 0.03, 0.1, 0.25, 0.4, 0.5, 0.55, 0.7, 0.9, 0.97, 0.99, 1.0]
        for cu, xu, sg in itertools.product(grid[1:-1], [g for g in grid], (1.0, -1.0)):
            c, x = A + cu * L, A + xu * L
            xs, ys = np.array([A, c, B]), sg * np.array([-1.0, 0.0, 1.0])
            ctx.tick(dict(crossing=c, guess=x, range=(A, B)))
            cnt[0] = 0
            a, b = g2b(f_pl, x, A, B, (xs, ys, cnt))
            ctx.check(A <= a <= x <= b <= B and a <= c <= b, "bracket search: bracket without the crossing",
                      crossing=c, guess=x, got=(a, b))
            side = (B - x) if c > x else (x - A)
            need = max(abs(c - x) / side if side > 0 else 0.0, 0.02)
            ctx.check(b - x <= 2.1 * need * (B - x) + 1e-12 * L and x - a <= 2.1 * need * (x - A) + 1e-12 * L,
                      "bracket search: the bracket is not close around guess and crossing",
                      crossing=c, guess=x, range=(A, B), got=(a, b))
            ctx.count(states=1, transitions=cnt[0], validated=1)
            for t in (1e-9 * L, 1e-5 * L):
                cnt[0] = 0
                r = bg(f_pl, x, A, B, t, (xs, ys, cnt))
                ctx.check(abs(r - c) <= 2.001 * (t + 2 * EPS * abs(r)) + 8 * EPS * max(abs(A), abs(B)),
                          "guess solver missed the crossing", crossing=c, guess=x, got=r)
                ctx.count(states=1, transitions=cnt[0], validated=1)
            # exact zeros at the ends are returned as they are
        for xu in grid:
            x = A + xu * L
            for ys, want in (((0.0, 1.0), A), ((1.0, 0.0), B), ((0.0, -1.0), A), ((-2.0, 0.0), B)):
                cnt[0] = 0
                ctx.tick(dict(ends=ys, guess=x))
                got = g2b(f_pl, x, A, B, (np.array([A, B]), np.array(ys), cnt))
                ctx.check(tuple(got) == (want, want), "bracket search: zero at an end not returned", got=got, ends=ys)
                r = bg(f_pl, x, A, B, 1e-6, (np.array([A, B]), np.array(ys), cnt))
                ctx.check(r == want, "guess solver: zero at an end not returned", got=r, ends=ys)
                ctx.count(states=2, transitions=cnt[0], validated=2)


def seq(a0, code, depth):
    s = [float(ANS[a0[0]]), float(ANS[a0[1]])]
    for _ in range(depth - 2):
        s.append(float(ANS[code % 5]))
        code //= 5
    return s


def bad(ctx):
    nan = np.nan
    xs, ys = np.array([0.0, 1.0]), np.array([-1.0, 1.0])
    for A, B, x in itertools.product((0.0, 1.0, nan), (0.0, 1.0, nan), (0.5, 0.0, nan)):
        cnt = np.zeros(1, np.int64)
        ctx.tick(dict(A=A, B=B, x=x))
        if not (np.isnan(A) or np.isnan(B)) and A > B:
            r = brent(f_pl, A, B, 1e-3, (xs, ys, cnt))
            ctx.check(np.isnan(r), "reversed range gave a root", got=r)
        elif np.isnan(A) or np.isnan(B):
            r = brent(f_pl, A, B, 1e-3, (xs, ys, cnt))
            ctx.check(np.isnan(r), "NaN range gave a root", got=r)
        else:
            r = brent(f_pl, A, B, 1e-3, (xs, ys, cnt))
            want_nan = A == B
            ctx.check(np.isnan(r) == want_nan, "range [%r, %r] of x - 1/2" % (A, B), got=r)
        if np.isnan(A + B + x):
            a, b = g2b(f_pl, x, A, B, (xs, ys, cnt))
            r = bg(f_pl, x, A, B, 1e-3, (xs, ys, cnt))
            ctx.check(np.isnan(a) and np.isnan(b) and np.isnan(r), "NaN input gave a bracket or root", got=(a, b, r))
            ctx.outcome("NaN input")
        ctx.count(states=1, transitions=max(1, int(cnt[0])), validated=2)
    # univariate functions, no extra arguments
    from neutralocean.fzero import brent as br, brent_guess as bgs

    @nb.njit
    def cubic(x):
        return x * x * x - 2.0

    for lo, hi in ((0.0, 2.0), (-10.0, 10.0), (1.0, 1.5)):
        for r in (br(cubic, lo, hi, 1e-12), bgs(cubic, 1.2, lo, hi, 1e-12)):
            ctx.check(abs(r - 2.0 ** (1 / 3)) < 1e-11, "root of x^3 - 2", got=r)
            ctx.count(states=1, transitions=1, validated=1)
