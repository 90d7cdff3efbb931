"""The synthetic ocean has the documented shape, walls, levels, parameters and geometry."""
import itertools

import numpy as np

BOUNDS = (
    "every shape of 1-7 x 2-7 x 2-6 points (1-12 x 2-12 x 2-8 thorough) x 4 periodicities x 2 zonal structures x 3 bottom pressures x 4 southern salinity "
    "anomalies.  states = oceans made, transitions = calls, validated = laws checked per ocean."
)
ASSUMES = ["at least two points in latitude and depth"]
R = 6370000.0


def tasks(tier):
    n = 12 if tier == "thorough" else 7
    return [("%d longitudes, %d latitudes" % (i, j), dict(ni=i, nj=j, nk=8 if tier == "thorough" else 6)) for i in range(1, n + 1) for j in range(2, n + 1)]


def warm(ctx, tier):
    global make
    from neutralocean.synthocean import synthocean as make


def run(ctx, q):
    ni, nj = q["ni"], q["nj"]
    for nk in range(2, q["nk"] + 1):
        for zu in (False, True):
            if ni == 1 and not zu and nj == 1:
                continue
            for pbot, ssss in itertools.product((4000.0, 100.0, 7000.0), (0.3, 0.0, 2.0, -0.7)):
                free = None
                for wrap in ((True, True), (True, False), (False, True), (False, False)):
                    info = dict(shape=(ni, nj, nk), pbot=pbot, SSSSa=ssss, zonally_uniform=zu, wrap=wrap)
                    ctx.tick(info)
                    S, T, P, g = make((ni, nj, nk), pbot=pbot, SSSSa=ssss, zonally_uniform=zu, wrap=wrap)
                    ctx.check(S.shape == T.shape == (ni, nj, nk) and P.shape == (nk,), "shape", got=(S.shape, T.shape, P.shape), **info)
                    ctx.check(P[0] == 0 and abs(P[-1] - pbot) <= 1e-9 * pbot and np.all(np.diff(P) > 0), "levels", P=P, **info)
                    wall = np.zeros((ni, nj), bool)
                    if not wrap[0]:
                        wall[0] = True
                    if not wrap[1]:
                        wall[:, 0] = True
                    for nm, A in (("S", S), ("T", T)):
                        ctx.check(np.array_equal(np.isnan(A), np.broadcast_to(wall[:, :, None], A.shape)), "walls are where the ocean is not periodic, and nowhere else", variable=nm, got=A, **info)
                    if free is None:
                        free = S, T
                        if zu:
                            ctx.check(np.allclose(S, S[:1], rtol=0, atol=1e-10) and np.allclose(T, T[:1], rtol=0, atol=1e-10), "zonally uniform", S=S, T=T, **info)
                        elif ni > 1:
                            ctx.check(np.all(np.ptp(S[:, :, 0], axis=0) > 1e-3) and np.all(np.ptp(T[:, :, 0], axis=0) > 1e-3), "zonal structure", S=S[:, :, 0], **info)
                        S0 = make((ni, nj, nk), pbot=pbot, SSSSa=0.0, zonally_uniform=zu, wrap=wrap)[0]
                        want = ssss * np.linspace(1, 0, nj)
                        ctx.check(np.allclose((S - S0)[:, :, 0], want[None], rtol=0, atol=1e-9), "southern salinity anomaly", got=(S - S0)[:, :, 0], want=want, **info)
                        ctx.check(np.allclose((S - S0)[:, :, -1], 0, rtol=0, atol=1e-9), "the anomaly is of the surface only", got=(S - S0)[:, :, -1], **info)
                        ctx.check(np.all((S > 20) & (S < 45)) and np.all((T > -3) & (T < 35)), "oceanic values", S=S, T=T, **info)
                    else:
                        ok = ~wall
                        ctx.check(np.array_equal(S[ok], free[0][ok]) and np.array_equal(T[ok], free[1][ok]), "walls change the rest of the ocean", **info)
                    geometry(ctx, g, ni, nj, nk, info)
                    ctx.count(states=1, transitions=2, validated=12)
                ctx.outcome("uniform" if zu else "zonal structure")
    # defaults
    a, b = make((ni, nj, 3)), make((ni, nj, 3), pbot=4000.0, SSSSa=0.3, zonally_uniform=False, wrap=(False, False))
    ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[:3], b[:3])), "defaults", shape=(ni, nj, 3))
    ctx.sample(dict(info, P=P))


def geometry(ctx, g, ni, nj, nk, info):
    def near(k, want, **kw):
        got = np.asarray(g[k], float)
        want = np.asarray(want, float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9 * np.max(np.abs(want), initial=1e-9)):
            ctx.fail("geometry of the grid", item=k, got=got, want=want, **info)

    dx, dy = 360.0 / ni, 140.0 / nj
    XG, YG = np.arange(ni) * dx, -80.0 + np.arange(nj) * dy
    rad = np.pi / 180
    near("nx", ni), near("ny", nj), near("nz", nk)
    near("XGvec", XG), near("YGvec", YG), near("XCvec", XG + dx / 2), near("YCvec", YG + dy / 2)
    near("DXGvec", R * np.cos(YG * rad) * dx * rad)
    near("DXCvec", R * np.cos((YG + dy / 2) * rad) * dx * rad)
    near("DYGsc", R * dy * rad), near("DYCsc", R * dy * rad)
    area = lambda south: R**2 * dx * rad * np.abs(np.sin((south + dy) * rad) - np.sin(south * rad))
    near("RACvec", area(YG)), near("RAWvec", area(YG))
    near("RASvec", area(YG - dy / 2)), near("RAZvec", area(YG - dy / 2))
