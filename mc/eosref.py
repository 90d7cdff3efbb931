"""Reference equations of state.

The published polynomials as tables of coefficients, with generic evaluation and exact
symbolic differentiation of the tables.  Nothing here is imported from the code under test.
A polynomial is {(i, j, k): c} for sum c x^i y^j z^k; x may have negative powers."""
import numpy as np

# Roquet et al. (2015), 75-term specific volume; x = sqrt(sfac*SA + offset), y = CT/40, z = p/1e4
GSW_V = {
    (0, 0, 0): 1.0769995862e-3, (0, 0, 1): -6.0799143809e-5, (0, 0, 2): 9.9856169219e-6, (0, 0, 3): -1.1309361437e-6,
    (0, 0, 4): 1.0531153080e-7, (0, 0, 5): -1.2647261286e-8, (0, 0, 6): 1.9613503930e-9, (0, 1, 0): -1.5649734675e-5,
    (0, 1, 1): 1.8505765429e-5, (0, 1, 2): -1.1736386731e-6, (0, 1, 3): -3.6527006553e-7, (0, 1, 4): 3.1454099902e-7,
    (0, 2, 0): 2.7762106484e-5, (0, 2, 1): -1.1716606853e-5, (0, 2, 2): 2.1305028740e-6, (0, 2, 3): 2.8695905159e-7,
    (0, 3, 0): -1.6521159259e-5, (0, 3, 1): 7.9279656173e-6, (0, 3, 2): -4.6132540037e-7, (0, 4, 0): 6.9111322702e-6,
    (0, 4, 1): -3.4102187482e-6, (0, 4, 2): -6.3352916514e-8, (0, 5, 0): -8.0539615540e-7, (0, 5, 1): 5.0736766814e-7,
    (0, 6, 0): 2.0543094268e-7, (1, 0, 0): -3.1038981976e-4, (1, 0, 1): 2.4262468747e-5, (1, 0, 2): -5.8484432984e-7,
    (1, 0, 3): 3.6310188515e-7, (1, 0, 4): -1.1147125423e-7, (1, 1, 0): 3.5009599764e-5, (1, 1, 1): -9.5677088156e-6,
    (1, 1, 2): -5.5699154557e-6, (1, 1, 3): -2.7295696237e-7, (1, 2, 0): -3.7435842344e-5, (1, 2, 1): -2.3678308361e-7,
    (1, 2, 2): 3.9137387080e-7, (1, 3, 0): 2.4141479483e-5, (1, 3, 1): -3.4558773655e-6, (1, 3, 2): 7.7618888092e-9,
    (1, 4, 0): -8.7595873154e-6, (1, 4, 1): 1.2956717783e-6, (1, 5, 0): -3.3052758900e-7, (2, 0, 0): 6.6928067038e-4,
    (2, 0, 1): -3.4792460974e-5, (2, 0, 2): -4.8122251597e-6, (2, 0, 3): 1.6746303780e-8, (2, 1, 0): -4.3592678561e-5,
    (2, 1, 1): 1.1100834765e-5, (2, 1, 2): 5.4620748834e-6, (2, 2, 0): 3.5907822760e-5, (2, 2, 1): 2.9283346295e-6,
    (2, 2, 2): -6.5731104067e-7, (2, 3, 0): -1.4353633048e-5, (2, 3, 1): 3.1655306078e-7, (2, 4, 0): 4.3703680598e-6,
    (3, 0, 0): -8.5047933937e-4, (3, 0, 1): 3.7470777305e-5, (3, 0, 2): 4.9263106998e-6, (3, 1, 0): 3.4532461828e-5,
    (3, 1, 1): -9.8447117844e-6, (3, 1, 2): -1.3544185627e-6, (3, 2, 0): -1.8698584187e-5, (3, 2, 1): -4.8826139200e-7,
    (3, 3, 0): 2.2863324556e-6, (4, 0, 0): 5.8086069943e-4, (4, 0, 1): -1.7322218612e-5, (4, 0, 2): -1.7811974727e-6,
    (4, 1, 0): -1.1959409788e-5, (4, 1, 1): 2.5909225260e-6, (4, 2, 0): 3.8595339244e-6, (5, 0, 0): -2.1092370507e-4,
    (5, 0, 1): 3.0927427253e-6, (5, 1, 0): 1.3864594581e-6, (6, 0, 0): 3.1932457305e-5,
}
SFAC, OFFSET, TFAC, PFAC = 0.0248826675584615, 5.971840214030754e-1, 0.025, 1e-4

# Jackett and McDougall (1995): rho = R0 / (1 - p/K); x = sqrt(S), y = theta, z = p [dbar]
JMD95_R0 = {
    (0, 0, 0): 999.842594, (0, 1, 0): 6.793952e-2, (0, 2, 0): -9.095290e-3, (0, 3, 0): 1.001685e-4,
    (0, 4, 0): -1.120083e-6, (0, 5, 0): 6.536332e-9,
    (2, 0, 0): 8.244930e-1, (2, 1, 0): -4.0899e-3, (2, 2, 0): 7.6438e-5, (2, 3, 0): -8.2467e-7, (2, 4, 0): 5.3875e-9,
    (3, 0, 0): -5.72466e-3, (3, 1, 0): 1.0227e-4, (3, 2, 0): -1.6546e-6, (4, 0, 0): 4.8314e-4,
}
JMD95_K = {
    (0, 0, 0): 1.965933e5, (0, 1, 0): 1.444304e3, (0, 2, 0): -1.706103e1, (0, 3, 0): 9.648704e-2, (0, 4, 0): -4.190253e-4,
    (2, 0, 0): 5.284855e2, (2, 1, 0): -3.101089, (2, 2, 0): 6.283263e-2, (2, 3, 0): -5.084188e-4,
    (3, 0, 0): 3.88664, (3, 1, 0): 9.085835e-2, (3, 2, 0): -4.619924e-3,
    (0, 0, 1): 3.186519, (0, 1, 1): 2.212276e-2, (0, 2, 1): -2.984642e-4, (0, 3, 1): 1.956415e-6,
    (2, 0, 1): 6.704388e-3, (2, 1, 1): -1.847318e-4, (2, 2, 1): 2.059331e-7, (3, 0, 1): 1.480266e-4,
    (0, 0, 2): 2.102898e-5, (0, 1, 2): -1.202016e-6, (0, 2, 2): 1.394680e-8,
    (2, 0, 2): -2.040237e-7, (2, 1, 2): 6.128773e-9, (2, 2, 2): 6.207323e-11,
}

# Jackett et al. (2006): rho = N / D; x = sqrt(S), y = theta, z = p [dbar]
JMDFWG06_N = {
    (0, 0, 0): 9.9984085444849347e2, (0, 1, 0): 7.3471625860981584, (0, 2, 0): -5.3211231792841769e-2,
    (0, 3, 0): 3.6492439109814549e-4, (2, 0, 0): 2.5880571023991390, (2, 1, 0): -6.7168282786692355e-3,
    (4, 0, 0): 1.9203202055760151e-3, (0, 0, 1): 1.1798263740430364e-2, (0, 2, 1): 9.8920219266399117e-8,
    (2, 0, 1): 4.6996642771754730e-6, (0, 0, 2): -2.5862187075154352e-8, (0, 2, 2): -3.2921414007960662e-12,
}
JMDFWG06_D = {
    (0, 0, 0): 1.0, (0, 1, 0): 7.2815210113327091e-3, (0, 2, 0): -4.4787265461983921e-5, (0, 3, 0): 3.3851002965802430e-7,
    (0, 4, 0): 1.3651202389758572e-10, (2, 0, 0): 1.7632126669040377e-3, (2, 1, 0): -8.8066583251206474e-6,
    (2, 3, 0): -1.8832689434804897e-10, (3, 0, 0): 5.7463776745432097e-6, (3, 2, 0): 1.4716275472242334e-9,
    (0, 0, 1): 6.7103246285651894e-6, (0, 3, 2): -2.4461698007024582e-17, (0, 1, 3): -9.1534417604289062e-18,
}


def evaluate(poly, x, y, z):
    """Value and the sum of magnitudes of the terms (the scale of rounding errors)."""
    v, m = 0.0, 0.0
    for (i, j, k), c in poly.items():
        term = c * x**i * y**j * z**k
        v, m = v + term, m + abs(term)
    return v, m


def diff(poly, by):
    """Exact derivative of a table with respect to s (where x^2 is affine in s with unit slope), y or z."""
    out = {}
    for (i, j, k), c in poly.items():
        if by == "s" and i:
            out[i - 2, j, k] = out.get((i - 2, j, k), 0.0) + c * i / 2
        elif by == "t" and j:
            out[i, j - 1, k] = out.get((i, j - 1, k), 0.0) + c * j
        elif by == "p" and k:
            out[i, j, k - 1] = out.get((i, j, k - 1), 0.0) + c * k
    return out


def gsw(s, t, p, by=""):
    """Partial derivative `by` (such as "sstp" in any order) of TEOS-10 specific volume."""
    poly, f = GSW_V, 1.0
    for b in by:
        poly, f = diff(poly, b), f * {"s": SFAC, "t": TFAC, "p": PFAC}[b]
    v, m = evaluate(poly, np.sqrt(SFAC * np.maximum(s, 0) + OFFSET), t * TFAC, p * PFAC)
    return v * f, m * f


def quotient(N, D, x, y, z, by):
    """First-order partial derivative `by` of N/D (or its value, by="")."""
    n, nm = evaluate(N, x, y, z)
    d, dm = evaluate(D, x, y, z)
    if not by:
        return n / d, nm / d
    nb, nbm = evaluate(diff(N, by), x, y, z)
    db, dbm = evaluate(diff(D, by), x, y, z)
    return (nb - n * db / d) / d, (nbm + nm * dbm / d) / d


def product(A, B):
    out = {}
    for (a, b, c), u in A.items():
        for (i, j, k), v in B.items():
            e = (a + i, b + j, c + k)
            out[e] = out.get(e, 0.0) + u * v
    return out


_JN = product(JMD95_R0, JMD95_K)
_JD = dict(JMD95_K)
_JD[0, 0, 1] = _JD[0, 0, 1] - 1.0


def jmd95(s, t, p, by=""):
    return quotient(_JN, _JD, np.sqrt(s), t, p, by)


def jmdfwg06(s, t, p, by=""):
    return quotient(JMDFWG06_N, JMDFWG06_D, np.sqrt(s), t, p, by)


def gswc(s, t, p, by=""):
    """Density, as the reciprocal of specific volume."""
    v, m = gsw(s, t, p)
    if not by:
        return 1.0 / v, m / v**2
    d, dm = gsw(s, t, p, by)
    return -d / v**2, dm / v**2


# (function, s, t, p, value): the check values published with each equation of state
CHECK_VALUES = (
    ("jmd95", 35.5, 3.0, 3000.0, 1041.83267, 5e-6),
    ("jmdfwg06", 35.0, 25.0, 2000.0, 1031.65056056576, 5e-9),
    ("jmdfwg06", 20.0, 20.0, 1000.0, 1017.72886801964, 5e-9),
    ("jmdfwg06", 40.0, 12.0, 8000.0, 1062.95279820631, 5e-9),
    ("gsw", 35.0, 25.0, 2000.0, 0.000969429311180351, 1e-17),
)
