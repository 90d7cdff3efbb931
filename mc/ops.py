"""Calls of every part of the interface on small oceans, and an explorer of their interruptions and interleavings.

An operation takes the inputs of one of two variants and returns a result; all operations share the inputs.  `Steps`
counts the executed lines of functions of the package in a thread and acts at a chosen one.
"""
import ast
import os
import sys
import threading

import numpy as np

from mc.interp import NAN

P = np.array([0.0, 100.0, 300.0, 800.0, 1500.0])
S0 = np.array([34.0, 34.4, 34.9, 35.3, 35.6])
T0 = np.array([20.0, 15.0, 9.0, 5.0, 2.0])
FC = {"tile": {0: {"X": (None, (1, "X", False)), "Y": (None, None)}, 1: {"X": ((0, "X", False), None), "Y": (None, None)}}}


def inputs(v):
    """All that the operations of variant v use; both variants have the same shapes."""
    import xarray as xr

    a = np.array([[0.0, 0.1, -0.2, 0.3], [0.1, -0.1, 0.2, 0.05]][v])
    b = np.array([[0.0, -1.0, 0.8, 1.5], [0.5, 1.2, -0.9, 0.0]][v])
    S, T = S0 + a[:, None], T0 + b[:, None]
    S[3, 4] = T[3, 4] = NAN
    E = np.array([0, 0, 1, 2]), np.array([1, 2, 3, 3])
    x = dict(S=S, T=T, P=P + 5.0 * v, grid=dict(edges=E, dist=np.array([1.0, 2, 0.5, 1 + v]), distperp=np.array([1.0, 2 + v, 3, 1])))
    x.update(p=np.array([250.0, 200.0, 300.0, 280.0]) + 20 * v, ml=np.array([0.0, 20.0, 260.0, 10.0]), deep=dict(grav=9.81 + 0.1 * v, rho_c=1027.5))
    x["p_bottle"], x["eos"] = 200.0 + 10 * v, ("gsw", "jmd95")[v]
    x.update(s=S[:, 2].copy(), t=T[:, 2].copy())
    x["Sx"], x["Tx"] = (xr.DataArray(np.ascontiguousarray(y.T.reshape(5, 2, 2)), dims=("z", "y", "x"), coords=dict(z=x["P"])) for y in (S, T))
    x["Px"] = xr.DataArray(x["P"], dims="z")
    x["unstable"] = np.array([0, 2, 1, 3, 4])
    x["d34"] = 1.0 + v + np.arange(12.0).reshape(3, 4)
    x["d33"] = 1.0 + v + np.arange(18.0).reshape(2, 3, 3)
    x["Y"] = np.array([[1.0, 3, 3.5, 2, -1], [0, 5, -1, NAN, NAN], [NAN, 0, 1, 2, 4], [3, 1, 1, 0, 2]]) + v
    x["sites"] = np.array([5.0, 50.0, 300.0, 700.0]) + v
    x["fc"] = FC
    return x


def operations():
    from neutralocean import surface
    from neutralocean.eos import make_eos
    from neutralocean.eos.tools import vectorize_eos
    from neutralocean.grid import graph, rectilinear, tripolar, xgcm
    from neutralocean.grid.tools import divergence
    from neutralocean.label import veronis
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
    from neutralocean.ppinterp import make_pp
    from neutralocean.stability import count_unstable, stabilize_ST
    from neutralocean.synthocean import synthocean
    from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast

    vec = vectorize_eos(make_eos("gsw"))
    it = dict(output=False, ITER_MAX=2, TOL_LRPD_MAV=0.0)
    om, pot, ano = surface.omega_surf, surface.potential_surf, surface.anomaly_surf

    def stab(x):
        k = x["unstable"][:3]
        S, T = x["S"][:1, k], x["T"][:1, k]
        stabilize_ST(S, T, x["P"][:3], vec, verbose=False, tol=1e-4)
        return S, T

    def arrays(x):
        r = []
        for k, nd in (("linear", 1), ("pchip", 1), ("linear", 2)):
            f = make_pp(k, kind="u", out="interp", num_dep_vars=nd)
            r.append(f(x["sites"][:, None], x["P"], *(x["Y"],) * nd, 0))
        return r

    def graphs(x):
        e, n = x["grid"]["edges"], 4
        return graph.edges_to_graph(e, n, x["grid"]["dist"]).toarray(), graph.edges_to_csr(e, n), divergence(x["grid"]["dist"], e, x["grid"]["distperp"], x["p"])

    xd = dict(vert_dim="z", output=False)

    def gridx():
        return rectilinear.build_grid((2, 2), (False, False))

    return dict(
        omega=lambda x: om(x["S"], x["T"], x["P"], x["grid"], (0,), x["p"], eos=x["eos"], **it),
        omega_gradient=lambda x: om(x["S"], x["T"], x["P"], x["grid"], (0,), x["p"], p_ml=x["ml"], OMEGA_FORMULATION="gradient", interp="pchip", **it),
        omega_pin=lambda x: om(x["S"], x["T"], x["P"], x["grid"], (0,), 210.0, p_ml=dict(bottle_index=0), diags=False, **it),
        potential=lambda x: pot(x["S"], x["T"], x["P"], grid=x["grid"], pin_cast=(0,), pin_p=210.0, eos=x["eos"], output=False),
        potential_xarray=lambda x: pot(x["Sx"], x["Tx"], x["Px"], grid=gridx(), pin_cast=(0, 0), pin_p=210.0, ref=500.0, **xd),
        anomaly=lambda x: ano(x["S"], x["T"], x["P"], ref=(34.9, 9.0), isoval=0.0, output=False, diags=False, **(x["deep"] if x["eos"] == "gsw" else {})),
        anomaly_pchip=lambda x: ano(x["S"], x["T"], x["P"], grid=x["grid"], pin_cast=(1,), pin_p=210.0, interp="pchip", output=False),
        mixed_layer=lambda x: mixed_layer(x["S"], x["T"], x["P"], eos=x["eos"]),
        mixed_layer_xarray=lambda x: mixed_layer(x["Sx"], x["Tx"], x["Px"], vert_dim="z"),
        link=lambda x: ntp_bottle_to_cast(34.6, 12.0, x["p_bottle"], x["S"][1], x["T"][1], x["P"], eos=x["eos"]),
        trajectory=lambda x: neutral_trajectory(x["S"], x["T"], x["P"], x["p_bottle"], eos=x["eos"]),
        veronis=lambda x: veronis(x["p_bottle"], x["S"][1], x["T"][1], x["P"], dp=50.0),
        errors=lambda x: ntp_epsilon_errors(x["s"], x["t"], x["p"], x["grid"]),
        norms=lambda x: ntp_epsilon_errors_norms(x["s"], x["t"], x["p"], x["grid"]),
        count_unstable=lambda x: count_unstable(x["S"][:, x["unstable"]], x["T"], x["P"], eos=vec),
        stabilize_ST=stab,
        interpolate=arrays,
        rectilinear=lambda x: rectilinear.build_grid((3, 4), (True, False), dxC=x["d34"], dyC=2.0, dyG=x["d34"]),
        tripolar=lambda x: tripolar.build_grid((3, 4), x["d34"], x["d34"]),
        xgcm=lambda x: xgcm.build_grid(3, x["fc"], ("tile", "j", "i"), "left", "left", dxC=x["d33"]),
        graph=graphs,
        synthocean=lambda x: synthocean((3, 2, 4), SSSSa=0.3 + 0.1 * (x["eos"] == "gsw")),
    )


# Nothing here computes: they ask a factory for a function that no one has asked for before.
FRESH = [0]


def user(a):
    import numba as nb

    @nb.njit
    def eos(s, t, p):
        return 1000.0 + a * s - 0.15 * t + 4e-3 * p - 1e-5 * t * p

    return eos


def factories():
    """Name -> maker of (call of a factory with arguments never used before, what its result gives at (s, t, p))."""
    from neutralocean.eos import tools

    EOS = {"gsw": tools.make_eos("gsw"), "A": user(0.8), "B": user(0.6)}
    EOS_P = tools.make_eos_p("gsw")

    def const():
        FRESH[0] += 1
        return 9.0 + 1e-3 * FRESH[0], 1027.5

    def make(e):
        def mk(g, r):
            f = EOS[e]
            return (lambda: tools.make_eos(f, g, r)), (lambda s, t, z: f(s, t, z * 1e-4 * g * r))
        return mk

    def bsq(n):
        def mk(g, r):
            f, c = EOS["B"], 1e-4 * g * r
            return (lambda: tools.make_bsq(f, g, r, n)), (lambda s, t, z: f(s, t, z * c) * c**n)
        return mk

    def vectorized(e):
        def mk(g, r):
            f = user(g)
            return (lambda: tools.vectorize_eos(f)), (lambda s, t, z: f(s, t, z))
        return mk

    return dict(make_A=make("A"), make_B=make("B"), bsq0=bsq(0), bsq1=bsq(1), vectorize=vectorized("A")), const


PACKAGE = os.path.join(os.path.realpath(os.environ.get("MC_REPO", "/repo")), "neutralocean") + os.sep


OURS, ACTIVE, GUARDED = {}, {}, {}
mon = sys.monitoring
TOOL = 3


def ours(name):
    if name not in OURS:
        OURS[name] = os.path.realpath(name).startswith(PACKAGE)
    return OURS[name]


def on_line(code, line):
    if not ours(code.co_filename):
        return mon.DISABLE
    s = ACTIVE.get(threading.get_ident())
    if s is not None and code.co_name != "<module>":
        s.line(code, line)


def guarded(code, line):
    """Is this the edge of a `with` or `try`, or within what cleans up?  A failure right there defeats any code."""
    f = code.co_filename
    if f not in GUARDED:
        lines = GUARDED[f] = set()
        with open(f) as fh:
            tree = ast.parse(fh.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                lines.update(range(n.lineno, n.body[0].lineno))
            if isinstance(n, ast.Try):
                lines.add(n.lineno)
                for m in n.finalbody + n.handlers:
                    lines.update(range(m.lineno, m.end_lineno + 1))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__enter__", "__exit__", "__del__"):
                lines.update(range(n.lineno, n.end_lineno + 1))
    return line in GUARDED[f]


class Steps:
    """Counts the lines executed in functions of the package in one thread; `act` is called before line number `at`."""

    def __init__(self, at=None, act=None, skip=False):
        self.n, self.at, self.act, self.where, self.skip = 0, at, act, None, skip

    def line(self, code, line):
        self.n += 1
        if self.n == self.at and not (self.skip and guarded(code, line)):
            self.where = (os.path.basename(code.co_filename), code.co_name, line)
            self.act()

    def run(self, f):
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "mc")
            mon.register_callback(TOOL, mon.events.LINE, on_line)
            mon.set_events(TOOL, mon.events.LINE)
        ACTIVE[threading.get_ident()] = self
        try:
            return f()
        finally:
            del ACTIVE[threading.get_ident()]


def interleave(fa, fb, i, j=None, wait=4.0):
    """fa runs up to its i-th line; fb runs - to its end, or up to its j-th line until fa ends.  Returns both results and where."""
    handed, resume = threading.Event(), threading.Event()
    res = {}
    b = Steps(j, lambda: (handed.set(), resume.wait(wait))) if j else None

    def other():
        try:
            res["b"] = ("ok", b.run(fb) if b else fb())
        except BaseException as e:
            res["b"] = ("raised", e)
        handed.set()

    th = threading.Thread(target=other)

    def switch():
        th.start()
        handed.wait(wait)  # a lock of the library may hold the other back: then both run on

    a = Steps(i, switch)
    try:
        res["a"] = ("ok", a.run(fa))
    except Exception as e:
        res["a"] = ("raised", e)
    if th.ident is None:
        th.start()
    resume.set()
    th.join(150.0)
    return res["a"], res.get("b", ("hung", None)), (a.where, b.where if b else None)


def snapshot(x):
    """Everything of the inputs, to the bit."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [snapshot(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes()
    if hasattr(x, "dims"):
        return x.name, tuple(x.dims), snapshot(np.asarray(x.values)), {k: snapshot(np.asarray(v)) for k, v in x.coords.items()}, repr(x.attrs)
    return repr(x)


def surroundings():
    """State of the process that no calculation should change."""
    import random
    import signal
    import warnings

    return dict(
        errors=np.geterr(), print_options=repr(np.get_printoptions()), random=repr(np.random.get_state()), random_python=hash(random.getstate()),
        warnings=repr(warnings.filters), directory=os.getcwd(), files=sorted(os.listdir(".")), environment=dict(os.environ),
        stdout=id(sys.stdout), stderr=id(sys.stderr), recursion=sys.getrecursionlimit(), interrupt=repr(signal.getsignal(signal.SIGINT)), threads=threading.active_count(),
        path=list(sys.path),
    )
