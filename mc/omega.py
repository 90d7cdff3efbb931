"""Reference model of omega surfaces: one iteration as a transition on (s, t, p).

Everything here is written from the documentation: least squares for the density
perturbation, bisection on reference interpolants for the vertical update, and
synchronous passes for the wetting of the perimeter.
"""
import numba as nb
import numpy as np

from mc.interp import NAN, block, slopes
from mc.ocean import CUSTOM


@nb.njit
def _ev(X, C, x):
    """Value of a piecewise cubic (coefficients in local coordinates)."""
    n = X.size
    i = 0
    while i < n - 2 and x > X[i + 1]:
        i += 1
    h = x - X[i]
    return C[i, 0] + h * (C[i, 1] + h * (C[i, 2] + h * C[i, 3]))


@nb.njit
def _solve(eos, X, CS, CT, pref, mid, pB, target, sB, tB):
    """Pressure on the cast where eos(S, T, pref) == target (mid: where it equals the
    bottle's, both at the mid pressure).  Unique root of a monotone cast, or NaN."""

    lo, hi = X[0], X[-1]
    flo, fhi = 0.0, 0.0
    for k in range(2):
        x = lo if k == 0 else hi
        if mid:
            r = 0.5 * (pB + x)
            f = eos(_ev(X, CS, x), _ev(X, CT, x), r) - eos(sB, tB, r)
        else:
            f = eos(_ev(X, CS, x), _ev(X, CT, x), pref) - target
        if k == 0:
            flo = f
        else:
            fhi = f
    if flo == 0.0:
        return lo
    if fhi == 0.0:
        return hi
    if (flo > 0) == (fhi > 0):
        return np.nan
    for _ in range(80):
        x = 0.5 * (lo + hi)
        if mid:
            r = 0.5 * (pB + x)
            f = eos(_ev(X, CS, x), _ev(X, CT, x), r) - eos(sB, tB, r)
        else:
            f = eos(_ev(X, CS, x), _ev(X, CT, x), pref) - target
        if (f > 0) == (flo > 0):
            lo = x
        else:
            hi = x
    return 0.5 * (lo + hi)


def coefficients(kind, X, Y):
    """Local cubic coefficients (n-1, 4) of the reference interpolant."""
    h = np.diff(X)
    d = np.diff(Y) / h
    z = np.zeros_like(d)
    if kind == "linear":
        return np.ascontiguousarray(np.stack([Y[:-1], d, z, z], axis=1))
    D = slopes(X, Y[None])[0]
    d0, d1 = D[:-1], D[1:]
    return np.ascontiguousarray(np.stack([Y[:-1], d0, (3 * d - 2 * d0 - d1) / h, (d0 + d1 - 2 * d) / h**2], axis=1))


class Ocean:
    """N casts (N, n) with an equation of state (njit pair) and an interpolant."""

    def __init__(self, S, T, P, eosname, kind, eos=None):
        self.S, self.T, self.P = S, T, np.broadcast_to(P, S.shape).astype(float).copy()
        self.eos, self.eos_s_t = eos or CUSTOM[eosname]
        self.kind = kind
        self.N = len(S)
        self.casts = []
        for c in range(self.N):
            k, K = block(list(np.isfinite(self.P[c])), list(np.isfinite(S[c])))
            if K - k < 2:
                self.casts.append(None)
            else:
                X = self.P[c][k:K].copy()
                self.casts.append((X, coefficients(kind, X, S[c][k:K]), coefficients(kind, X, T[c][k:K])))

    def at(self, c, p):
        """(s, t) on cast c at p."""
        q = self.casts[c]
        if q is None or not (q[0][0] <= p <= q[0][-1]):
            return NAN, NAN
        return float(_ev(q[0], q[1], p)), float(_ev(q[0], q[2], p))

    def link(self, c, bottle):
        s, t, p = bottle
        q = self.casts[c]
        if q is None or np.isnan(p):
            return NAN
        return float(_solve(self.eos, q[0], q[1], q[2], 0.0, True, p, 0.0, s, t))

    def heave(self, c, s, t, p, phi):
        """Pressure on cast c where density referenced to p has changed by phi."""
        q = self.casts[c]
        if q is None:
            return NAN
        return float(_solve(self.eos, q[0], q[1], q[2], p, False, 0.0, float(self.eos(s, t, p)) + phi, 0.0, 0.0))

    def margin(self, c, s, t, p, phi):
        """How far the wanted density is from the ends of the cast (to recognise ties)."""
        q = self.casts[c]
        w = float(self.eos(s, t, p)) + phi
        a = float(self.eos(_ev(q[0], q[1], q[0][0]), _ev(q[0], q[2], q[0][0]), p))
        b = float(self.eos(_ev(q[0], q[1], q[0][-1]), _ev(q[0], q[2], q[0][-1]), p))
        return min(abs(w - a), abs(w - b)) / max(abs(b - a), 1e-300)


def neighbours(edges, N):
    adj = [[] for _ in range(N)]
    for x, y in zip(*edges):
        adj[int(x)].append(int(y))
        adj[int(y)].append(int(x))
    return adj


def component(adj, root, wet):
    if not wet[root]:
        return []
    seen, todo = {root}, [root]
    while todo:
        m = todo.pop()
        for x in adj[m]:
            if wet[x] and x not in seen:
                seen.add(x)
                todo.append(x)
    return sorted(seen)


def wet_perimeter(oc, adj, root, s, t, p, p_ml, n_rep=10**9):
    """Returns new s, t, p, number newly wet."""
    comp = component(adj, root, np.isfinite(p))
    keep = {m: (s[m], t[m], p[m]) for m in comp}
    added = 0
    rep = 0
    while rep < n_rep:
        rep += 1
        fresh = {}
        for m in range(oc.N):
            if m in keep or oc.casts[m] is None:
                continue
            q = [oc.link(m, keep[x]) for x in adj[m] if x in keep]
            q = [v for v in q if v > p_ml[m]]
            if q:
                pm = sum(q) / len(q)
                fresh[m] = (*oc.at(m, pm), pm)
        if not fresh:
            break
        keep.update(fresh)
        added += len(fresh)
    s, t, p = s.copy(), t.copy(), p.copy()
    for m in range(oc.N):
        if m in keep:
            s[m], t[m], p[m] = keep[m]
        else:
            p[m] = NAN
    return s, t, p, added


def errors(oc, edges, s, t, p):
    """Neutrality error of each edge, unit distance."""
    out = []
    for x, y in zip(*edges):
        rs, rt = oc.eos_s_t(0.5 * (s[x] + s[y]), 0.5 * (t[x] + t[y]), 0.5 * (p[x] + p[y]))
        out.append(rs * (s[y] - s[x]) + rt * (t[y] - t[x]))
    return np.array(out)


def norms(oc, edges, dist, perp, s, t, p):
    E = len(edges[0])
    if E == 0:
        return 0.0, 0.0
    e = errors(oc, edges, s, t, p) / dist
    ok = np.isfinite(e)
    w = (np.broadcast_to(dist, E) * np.broadcast_to(perp, E))[ok]
    if not ok.any():
        return 0.0, 0.0
    return float(np.sqrt(np.sum(w * e[ok] ** 2) / w.sum())), float(np.sum(w * abs(e[ok])) / w.sum())


def perturbation(oc, edges, ratio, pin, comp, s, t, p):
    """Density perturbation of each cast of the region, zero at the pin: dense least squares."""
    phi = np.full(oc.N, NAN)
    if len(comp) == 1:
        phi[comp[0]] = 0.0
        return phi
    pos = {m: i for i, m in enumerate(comp)}
    keep = [i for i, (x, y) in enumerate(zip(*edges)) if int(x) in pos and int(y) in pos]
    sub = (np.asarray(edges[0])[keep], np.asarray(edges[1])[keep])
    e = errors(oc, sub, s, t, p)
    w = np.sqrt(np.broadcast_to(ratio, len(edges[0]))[keep])
    A = np.zeros((len(keep), len(comp)))
    for i, (x, y) in enumerate(zip(*sub)):
        A[i, pos[int(y)]] += w[i]
        A[i, pos[int(x)]] -= w[i]
    free = [i for i, m in enumerate(comp) if m != pin]
    sol = np.zeros(len(comp))
    sol[free] = np.linalg.lstsq(A[:, free], -w * e, rcond=None)[0]
    phi[comp] = sol
    return phi


def step(oc, edges, adj, ratio, pin, pin_p, s, t, p, first, wetting, p_ml, n_rep=10**9):
    """One iteration.  Returns dict(s, t, p, phi, p_old, new, tie)."""
    s, t, p = s.copy(), t.copy(), p.copy()
    if not first:
        with np.errstate(invalid="ignore"):
            p[p < p_ml] = NAN
    if wetting:
        s, t, p, new = wet_perimeter(oc, adj, pin, s, t, p, p_ml, n_rep)
        comp = [m for m in range(oc.N) if np.isfinite(p[m])]
    else:
        comp = component(adj, pin, np.isfinite(p))
        new = 0
    phi = perturbation(oc, edges, ratio, pin, comp, s, t, p)
    p_old = p.copy()
    tie = False
    for m in range(oc.N):
        if m == pin:
            continue
        if np.isnan(phi[m]):
            s[m] = t[m] = p[m] = NAN
        else:
            if oc.margin(m, s[m], t[m], p[m], phi[m]) < 1e-9:
                tie = True
            q = oc.heave(m, s[m], t[m], p[m], phi[m])
            s[m], t[m] = oc.at(m, q)
            p[m] = q
    p[pin] = pin_p
    return dict(s=s, t=t, p=p, phi=phi, p_old=p_old, new=new, tie=tie)
