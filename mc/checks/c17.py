"""Veronis density, against quadrature on the reference interpolants."""
import itertools

import numba as nb
import numpy as np

from mc.interp import NAN, block, reference
from mc.ocean import CUSTOM, eos_fn, eos_kwargs, eos_s_t_fn, profiles

BOUNDS = (
    "every cast of 2-3 levels over 2-3 salinities x 3 temperatures (4 levels over 2 x 2), two sets of levels, every "
    "pattern of missing levels of 4-level casts; casts of 45 levels, full and short; every start and end among the levels, points between, just outside and NaN; steps 1000, "
    "60, 7 (and 1 in thorough); references 0, 500; factors 1, 0.5, -2; both interpolants; 5 equations of state (linear: "
    "closed form; one with tight error bound).  states = (cast, start, end), transitions = labels computed, validated = "
    "labels compared."
)
ASSUMES = ["P increasing; S and T share their pattern of missing levels"]


@nb.njit
def cubic(s, t, p):
    return 1027.0 + 0.8 * (s - 35.0) - 0.05 * t - 0.002 * t * t * t + 0.004 * p


@nb.njit
def cubic_s_t(s, t, p):
    return 0.8 + 0.0 * s, -0.05 - 0.006 * t * t


CUSTOM = dict(CUSTOM, cubic=(cubic, cubic_s_t))
EOSES = ("lin", "thermo", "cubic", "gsw", "jmd95-bsq")
LV = {2: [np.array([0.0, 150.0])], 3: [np.array([0.0, 100.0, 250.0]), np.array([5.0, 40.0, 400.0])], 4: [np.array([0.0, 60.0, 130.0, 400.0])]}


def tasks(tier):
    t = []
    for eos in EOSES:
        for kind in ("linear", "pchip"):
            for n in (2, 3, 4):
                for l in range(len(LV[n])):
                    t.append(("%s %s %d levels, set %d" % (eos, kind, n, l), dict(m="all", eos=eos, kind=kind, n=n, l=l, tier=tier)))
            for v in range(3):
                t.append(("%s %s long %d" % (eos, kind, v), dict(m="long", eos=eos, kind=kind, v=v, tier=tier)))
            t.append(("%s %s missing levels" % (eos, kind), dict(m="nan", eos=eos, kind=kind, tier=tier)))
    t.append(("defaults", dict(m="def")))
    return t


def fns(eos):
    if eos == "cubic":
        return cubic.py_func, lambda s, t, p: tuple(x + 0 * (s + t + p) for x in cubic_s_t.py_func(s, t, p))
    return eos_fn(eos), eos_s_t_fn(eos)


def arg(eos):
    return dict(eos=CUSTOM[eos]) if eos in CUSTOM else eos_kwargs(eos)


def warm(ctx, tier):
    global veronis
    from neutralocean.label import veronis

    for eos in EOSES:
        ctx.tick(eos)
        fns(eos)
        for kind in ("linear", "pchip"):
            a = np.array([34.0, 35.0, 35.5])
            veronis(15.0, a, a, np.array([0.0, 10.0, 20.0]), 5.0, 0.0, 1.0, 1.0, kind, **arg(eos))


GX, GW = np.polynomial.legendre.leggauss(10)


class Cast:
    def __init__(self, eos, kind, X, S, T):
        self.f, self.fst = fns(eos)
        self.kind = kind
        k, K = block(list(np.isfinite(X)), list(np.isfinite(S)))
        self.X, self.Y = X[k:K], np.stack([S, T])[:, k:K]

    def st(self, x, d):
        return reference(self.kind, self.X, self.Y, np.asarray(x, float), d)

    def grad(self, x, left=None):
        """Integrand at points inside one interval."""
        (s, t), (ds, dt) = self.st(x, 0), self.st(x, 1)
        rs, rt = self.fst(s, t, x)
        return rs * ds + rt * dt

    def inside(self, p):
        return self.X.size > 1 and self.X[0] <= p <= self.X[-1]

    def piece(self, a, b):
        """Integral over [a, b] inside one interval, by Gauss quadrature."""
        m, h = 0.5 * (a + b), 0.5 * (b - a)
        return float(np.sum(GW * self.grad(m + h * GX)) * h) if b > a else 0.0

    def table(self):
        """Cumulative integral at knots and curvature bound of each interval."""
        X = self.X
        self.C = np.concatenate(([0.0], np.cumsum([self.piece(X[k], X[k + 1]) for k in range(X.size - 1)])))
        self.curv = np.zeros(X.size - 1)
        for k in range(X.size - 1):
            h = (X[k + 1] - X[k]) / 40.0
            x = X[k] + h * (np.arange(39) + 1.0)
            y = self.grad(x)
            self.curv[k] = np.max(abs(np.diff(y, 2))) / h**2

    def upto(self, p):
        k = int(np.clip(np.searchsorted(self.X, p) - 1, 0, self.X.size - 2))
        return self.C[k] + self.piece(self.X[k], p), k

    def integral(self, p0, p1, dp):
        (a, k), (b, l) = self.upto(p0), self.upto(p1)
        if p0 > p1:
            k, l = l, k
            lo, hi = p1, p0
        else:
            lo, hi = p0, p1
        # trapezoidal error bound over the pieces that may be integrated
        err = 0.0
        for i in range(k, l + 1):
            x0, x1 = self.X[i], self.X[i + 1]
            length = (x1 - (lo if i == k else x0)) + (x1 - hi if i == l else 0.0)
            h = min(dp, x1 - x0)
            err += length * h * h / 12.0 * self.curv[i]
        return b - a, err


def judge(ctx, eos, kind, X, S, T, steps, refs, facs, every=1):
    c = Cast(eos, kind, X, S, T)
    full = X[np.isfinite(X)]
    mids = (full[1:] + full[:-1]) / 2 + 3.1
    if every > 1:
        full, mids = np.r_[full[::every], full[-1]], mids[every // 2 :: every]
    sites = np.concatenate([full, mids, [full[0] - 1.0, full[-1] + 1.0, NAN]])
    if c.X.size > 1:
        c.table()
    scale = abs(float(c.f(35.0, 5.0, 0.0)))
    n = 0
    for p0, p1 in itertools.product(sites, repeat=2):
        for dp in steps:
            for ref, b in ((refs[0], facs[0]),) if n % 3 else itertools.product(refs, facs):
                info = dict(eos=eos, interp=kind, P=X, S=S, T=T, p0=p0, p1=p1, dp=dp, p_ref=ref, b=b)
                ctx.tick(info)
                got = veronis(p1, S, T, X, p0, ref, b, dp, kind, **arg(eos))
                ctx.count(transitions=1, validated=1)
                if not (c.inside(p0) and c.inside(p1)):
                    ctx.check(np.isnan(got), "a label is given outside the cast", got=got, **info)
                    ctx.outcome("outside")
                    continue
                I, err = c.integral(p0, p1, dp)
                s0, t0 = c.st([p0], 0)[:, 0]
                want = float(c.f(s0, t0, ref)) + b * I
                tol = abs(b) * err * (1.03 if eos != "cubic" or kind != "linear" else 1.0001) + 2e-13 * scale + 1e-9 * abs(b * I)
                if not abs(got - want) <= tol:
                    ctx.fail("the label is not the integral of the density gradient", got=got, want=want, tolerance=tol, **info)
                ctx.outcome("up" if p1 < p0 else "down" if p1 > p0 else "same")
            if c.inside(p0) and c.inside(p1) and p0 < p1 and dp == steps[0]:
                a, z = (veronis(y, S, T, X, x, 0.0, 1.0, dp, kind, **arg(eos)) - veronis(x, S, T, X, x, 0.0, 1.0, dp, kind, **arg(eos)) for x, y in ((p0, p1), (p1, p0)))
                ctx.check(abs(a + z) <= 1e-12 * scale, "the integral does not change sign when reversed", forward=a, backward=z, **info)
                ctx.count(transitions=4, validated=1)
        n += 1
        ctx.count(states=1)
    ctx.sample(info)


def run(ctx, q):
    if q["m"] == "def":
        X = np.array([0.0, 60.0, 130.0, 400.0])
        S, T = np.array([34.0, 34.4, 34.9, 35.3]), np.array([15.0, 10.0, 6.0, 2.0])
        a = veronis(200.0, S, T, X)
        b = veronis(200.0, S, T, X, X[0], 0.0, 1.0, 1.0, "linear", "gsw")
        ctx.check(a == b, "default arguments", got=a, want=b)
        x = veronis(2000.0, np.linspace(34, 35.5, 20), np.linspace(18, 0, 20), np.linspace(0, 4000, 20), eos="jmd95")
        ctx.check(abs(x - 1027.098197160422) < 1e-9, "documented example", got=x)
        ctx.count(states=2, transitions=3, validated=2)
        return
    steps = (1000.0, 60.0, 7.0) if q["tier"] == "quick" else (1000.0, 60.0, 7.0, 1.0)
    if q["m"] == "long":
        from mc.checks.c16 import long_casts

        S, T, X = long_casts(45)
        i = 8 * q["v"] + (0, 4, 2)[q["v"]]
        judge(ctx, q["eos"], q["kind"], X, S[i], T[i], (50.0,), (0.0,), (1.0,), 4)
        return
    if q["m"] == "nan":
        X = LV[4][0]
        for m in itertools.product((True, False), repeat=4):
            S = np.where(m, [34.0, 34.4, 34.9, 35.3], NAN)
            T = np.where(m, [15.0, 10.0, 6.0, 2.0], NAN)
            judge(ctx, q["eos"], q["kind"], X, S, T, steps[1:2], (0.0,), (1.0,))
        return
    n = q["n"]
    al = {2: ((34.0, 35.2), (14.0, 8.0, 3.0)), 3: ((34.0, 35.2), (14.0, 8.0, 3.0)), 4: ((34.0, 35.2), (12.0, 3.0))}[n]
    S, T = profiles(*al, n)
    for i in range(len(S)):
        if n == 2:
            refs, facs, st = (0.0, 500.0), (1.0, 0.5, -2.0), steps
        else:
            refs, facs, st = ((0.0,), (1.0,), steps[i % len(steps):][:1]) if i % 4 else ((500.0,), (-2.0,), steps[1:2])
        judge(ctx, q["eos"], q["kind"], LV[n][q["l"]], S[i], T[i], st, refs, facs)
