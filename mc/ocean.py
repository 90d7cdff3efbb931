"""Small oceans: equations of state, casts, and reference evaluations."""
import itertools

import numba as nb
import numpy as np

from mc.interp import NAN, block, reference

# ---------------------------------------------------------------- equations of state


@nb.njit
def lin(s, t, p):
    return 1027.0 + 0.8 * (s - 35.0) - 0.2 * (t - 10.0) + 0.004 * p


@nb.njit
def lin_s_t(s, t, p):
    return 0.8 + 0.0 * s, -0.2 + 0.0 * t


@nb.njit
def thermo(s, t, p):
    """Nonlinear in t (cabbeling) and in t * p (thermobaricity)."""
    return 1027.0 + 0.8 * (s - 35.0) - t * (0.05 + 0.006 * t + 2.0e-5 * p) + 0.004 * p


@nb.njit
def thermo_s_t(s, t, p):
    return 0.8 + 0.0 * s, -(0.05 + 0.012 * t + 2.0e-5 * p)


@nb.njit
def vol(s, t, p):
    """A specific volume: falls with s and p."""
    return 1.0e-3 - 7.5e-7 * (s - 35.0) + 1.0e-7 * t * (1.5 + 0.05 * t) - 4.0e-9 * p + 2e-12 * p * t


@nb.njit
def vol_s_t(s, t, p):
    return -7.5e-7 + 0.0 * s, 1.0e-7 * (1.5 + 0.1 * t) + 2e-12 * p


@nb.njit
def dyadic(s, t, p):
    """Exact, in any order of evaluation, on small multiples of powers of two."""
    return 1024.0 + s - 0.25 * t + 0.0009765625 * p


@nb.njit
def dyadic_s_t(s, t, p):
    return 1.0 + 0.0 * s, -0.25 + 0.0 * t


CUSTOM = dict(dyadic=(dyadic, dyadic_s_t), lin=(lin, lin_s_t), thermo=(thermo, thermo_s_t), vol=(vol, vol_s_t))
GRAV, RHOC = 9.81, 1030.0


def eos_kwargs(name):
    """Arguments selecting an equation of state, for the functions under test."""
    if name in CUSTOM:
        return dict(eos=CUSTOM[name])
    if name.endswith("-bsq"):
        return dict(eos=name[:-4], grav=GRAV, rho_c=RHOC)
    return dict(eos=name)


_vec = {}


def eos_fn(name):
    """Array function of the same equation of state, for the oracle."""
    if name not in _vec:
        if name in CUSTOM:
            _vec[name] = CUSTOM[name][0].py_func
        else:
            from neutralocean.eos.tools import make_eos

            base = name[:-4] if name.endswith("-bsq") else name
            f = make_eos(base)

            @nb.vectorize(["f8(f8,f8,f8)"])
            def v(s, t, p):
                return f(s, t, p)

            if name.endswith("-bsq"):
                _vec[name] = lambda s, t, z: v(s, t, 1e-4 * GRAV * RHOC * z)
            else:
                _vec[name] = v
    return _vec[name]


_vec_st = {}


def eos_s_t_fn(name):
    if name not in _vec_st:
        if name in CUSTOM:
            f = CUSTOM[name][1].py_func

            def g(s, t, p):
                a, b = f(s, t, p)
                return a + 0.0 * (s + t + p), b + 0.0 * (s + t + p)

            _vec_st[name] = g
        else:
            from neutralocean.eos.tools import make_eos_s_t

            base = name[:-4] if name.endswith("-bsq") else name
            f = make_eos_s_t(base)

            @nb.vectorize(["f8(f8,f8,f8)"])
            def v0(s, t, p):
                return f(s, t, p)[0]

            @nb.vectorize(["f8(f8,f8,f8)"])
            def v1(s, t, p):
                return f(s, t, p)[1]

            c = 1e-4 * GRAV * RHOC if name.endswith("-bsq") else 1.0
            _vec_st[name] = lambda s, t, p: (v0(s, t, c * p), v1(s, t, c * p))
    return _vec_st[name]


# ---------------------------------------------------------------- casts


def at(kind, P, Y, x):
    """Value at x of the interpolant of one cast (NaN outside its valid block)."""
    P, Y = np.asarray(P, float), np.asarray(Y, float)
    k, K = block(list(np.isfinite(P)), list(np.isfinite(Y)))
    return reference(kind, P[k:K], Y[None, k:K], np.atleast_1d(np.asarray(x, float)), 0)[0]


def at_many(kind, P, Y, x):
    """Values at x[c, j] of the interpolant of cast c of Y (N, n) on P (n,) or (N, n)."""
    N = len(Y)
    out = np.full(x.shape, NAN)
    P = np.broadcast_to(P, Y.shape)
    # group casts that share levels and validity
    groups = {}
    for c in range(N):
        key = (P[c].tobytes(), np.isfinite(Y[c]).tobytes())
        groups.setdefault(key, []).append(c)
    for idx in groups.values():
        idx = np.array(idx)
        Pc = P[idx[0]]
        k, K = block(list(np.isfinite(Pc)), list(np.isfinite(Y[idx[0]])))
        if K - k < 2:
            continue
        out[idx] = _rows(kind, Pc[k:K], Y[idx, k:K], x[idx])
    return out


def _rows(kind, X, Y, x):
    """As mc.interp.reference but each row has its own sites (values only)."""
    from mc.interp import slopes

    n = X.size
    i = np.clip(np.searchsorted(X, x, side="left") - 1, 0, n - 2)
    h = np.diff(X)
    dl = np.diff(Y, axis=1) / h
    r = np.arange(len(Y))[:, None]
    s = x - X[i]
    if kind == "linear":
        y = Y[r, i] + s * dl[r, i]
    else:
        D = slopes(X, Y)
        d0, d1, d = D[r, i], D[r, i + 1], dl[r, i]
        hi = h[i]
        y = Y[r, i] + s * (d0 + s * ((3 * d - 2 * d0 - d1) / hi + s * (d0 + d1 - 2 * d) / hi**2))
    with np.errstate(invalid="ignore"):
        return np.where((x >= X[0]) & (x <= X[-1]), y, NAN)


def profiles(alphaS, alphaT, n):
    """Every cast of n levels over the product alphabet: S, T of shape (N, n)."""
    S = np.array(list(itertools.product(alphaS, repeat=n)), float)
    T = np.array(list(itertools.product(alphaT, repeat=n)), float)
    i, j = np.meshgrid(np.arange(len(S)), np.arange(len(T)), indexing="ij")
    return S[i.ravel()], T[j.ravel()]


def as2d(A, width):
    """Lay N casts out on a 2D horizontal grid (padding with copies of the last)."""
    N = len(A)
    rows = -(-N // width)
    pad = rows * width - N
    if pad:
        A = np.concatenate([A, np.repeat(A[-1:], pad, axis=0)])
    return np.ascontiguousarray(A.reshape((rows, width) + A.shape[1:]))
