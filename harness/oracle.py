"""
Independent oracles.  Nothing here imports the library under test.
Angular momenta are passed doubled (integers).
"""
from fractions import Fraction
from functools import lru_cache
from math import factorial, isqrt, sqrt

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'
H_PLANCK = 6.62607015e-34
C_LIGHT = 299792458.0
E_CHARGE = 1.602176634e-19
MU_B_HZ_PER_G = 1.39962449361e6


def frac(t):
    """doubled number -> 'n' or 'n/2'"""
    return str(t // 2) if t % 2 == 0 else f'{t}/2'


def tri(a, b, c):
    """doubled triangle rule"""
    return abs(a - b) <= c <= a + b and (a + b + c) % 2 == 0


def trange(a, b):
    return range(abs(a - b), a + b + 1, 2)


def _f(t):
    assert t % 2 == 0
    return factorial(t // 2)


def _delta(a, b, c):
    return Fraction(_f(a + b - c) * _f(a - b + c) * _f(-a + b + c), _f(a + b + c + 2))


def fsqrt(q):
    """float sqrt of a Fraction, correct to a few ulp even for huge terms"""
    n, d = q.numerator, q.denominator
    shift = 2 * max(0, 64 - (n.bit_length() - d.bit_length()) // 2)
    return isqrt((n << shift) // d) / float(1 << (shift // 2)) if n else 0.0


def _val(sum_, rad):
    if sum_ == 0:
        return 0.0
    return (1 if sum_ > 0 else -1) * fsqrt(sum_ * sum_ * rad)


@lru_cache(maxsize=None)
def w3j(j1, j2, j3, m1, m2, m3):
    """doubled arguments; exact Racah formula"""
    if min(j1, j2, j3) < 0 or m1 + m2 + m3 != 0 or not tri(j1, j2, j3):
        return 0.0
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        if abs(m) > j or (j - m) % 2:
            return 0.0
    s = Fraction(0)
    for k in range(0, (j1 + j2 - j3) // 2 + 1):
        t = [2 * k, j1 + j2 - j3 - 2 * k, j1 - m1 - 2 * k, j2 + m2 - 2 * k, j3 - j2 + m1 + 2 * k, j3 - j1 - m2 + 2 * k]
        if min(t) < 0:
            continue
        d = 1
        for x in t:
            d *= _f(x)
        s += Fraction((-1) ** k, d)
    rad = _delta(j1, j2, j3) * _f(j1 + m1) * _f(j1 - m1) * _f(j2 + m2) * _f(j2 - m2) * _f(j3 + m3) * _f(j3 - m3)
    return (-1) ** ((j1 - j2 - m3) // 2) * _val(s, rad)


@lru_cache(maxsize=None)
def w6j_parts(a, b, c, d, e, f):
    if min(a, b, c, d, e, f) < 0 or not (tri(a, b, c) and tri(a, e, f) and tri(d, b, f) and tri(d, e, c)):
        return Fraction(0), Fraction(1)
    s = Fraction(0)
    lo = max(a + b + c, a + e + f, d + b + f, d + e + c)
    hi = min(a + b + d + e, b + c + e + f, a + c + d + f)
    for t in range(lo, hi + 1, 2):
        den = 1
        for x in (t - a - b - c, t - a - e - f, t - d - b - f, t - d - e - c,
                  a + b + d + e - t, b + c + e + f - t, a + c + d + f - t):
            den *= _f(x)
        s += Fraction((-1) ** (t // 2) * _f(t + 2), den)
    return s, _delta(a, b, c) * _delta(a, e, f) * _delta(d, b, f) * _delta(d, e, c)


@lru_cache(maxsize=None)
def w6j(a, b, c, d, e, f):
    return _val(*w6j_parts(a, b, c, d, e, f))


@lru_cache(maxsize=None)
def w6j_sq(a, b, c, d, e, f):
    s, r = w6j_parts(a, b, c, d, e, f)
    return s * s * r                     # exact Fraction


@lru_cache(maxsize=None)
def w9j(a, b, c, d, e, f, g, h, i):
    rows = ((a, b, c), (d, e, f), (g, h, i), (a, d, g), (b, e, h), (c, f, i))
    if min(a, b, c, d, e, f, g, h, i) < 0 or not all(tri(*r) for r in rows):
        return 0.0
    tot = 0.0
    lo = max(abs(a - i), abs(d - h), abs(b - f))
    hi = min(a + i, d + h, b + f)
    for x in range(lo, hi + 1, 2):
        tot += (-1) ** x * (x + 1) * w6j(a, b, c, f, i, x) * w6j(d, e, f, b, x, h) * w6j(g, h, i, x, a, d)
    return tot


def tri_float(a, b, c):
    return abs(a - b) <= c <= a + b


# --- transitions -----------------------------------------------------------------------------------------------------

def kinds(J0, p0, J1, p1, same=False):
    """(E1, M1, E2) for doubled J"""
    d, s = abs(J0 - J1), J0 + J1
    if (J0 - J1) % 2:
        return (False,) * 3
    return (d <= 2 <= s and p0 != p1, d <= 2 <= s and p0 == p1, d <= 4 <= s and p0 == p1 and not same)


def rank(kd):
    """rank of the leading multipole"""
    return 1 if kd[0] or kd[1] else 2 if kd[2] else 0


def ranks(kd):
    return ([1] if kd[0] or kd[1] else []) + ([2] if kd[2] else [])


def hf_allowed(k, I, J0, F0, J1, F1):
    return w6j_parts(J0, J1, 2 * k, F1, F0, I)[0] != 0


def hf_strength(k, I, J0, F0, J1, F1):
    return float((F0 + 1) * (F1 + 1) * w6j_sq(J0, J1, 2 * k, F1, F0, I))


def z_allowed(k, F0, m0, F1, m1):
    return w3j(F1, 2 * k, F0, -m1, m1 - m0, m0) != 0.0


def z_strength(k, F0, m0, F1, m1):
    return w3j(F1, 2 * k, F0, -m1, m1 - m0, m0) ** 2


# --- energies --------------------------------------------------------------------------------------------------------

@lru_cache(maxsize=None)
def hf_coeffs(I, J, F):
    """
    coefficients of A, B, C (doubled arguments), from the tensor form: the rank-k term of the hyperfine interaction is
    proportional to (-1)^(I+J+F) {I J F; J I k}, and by definition A, B, C give the stretched state I*J*A + B/4 + C
    """
    out = []
    for k, stretched in ((1, I * J / 4), (2, 0.25), (3, 1.0)):
        if I < k or J < k:
            out.append(0.0)
        else:
            out.append(stretched * (-1) ** ((F - I - J) // 2)
                       * w6j(I, J, F, J, I, 2 * k) / w6j(I, J, I + J, J, I, 2 * k))
    return tuple(out)


def g_F(gJ, I, J, F):
    if F == 0:
        return 0.0
    I, J, F = Fraction(I, 2), Fraction(J, 2), Fraction(F, 2)
    return gJ * float((F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1)))


def g_LS(L, S, J):
    """doubled arguments"""
    L, S, J = Fraction(L, 2), Fraction(S, 2), Fraction(J, 2)
    return 1 + 1.0023 * float((J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1)))


# --- recoupling (doubled arguments) ----------------------------------------------------------------------------------

def jj_ls(J, jc, jo, lc, sc, lo, so):
    return {(L, S): w9j(lc, sc, jc, lo, so, jo, L, S, J) * sqrt((jc + 1) * (jo + 1) * (L + 1) * (S + 1))
            for L in trange(lc, lo) for S in trange(sc, so)}


def jk_ls(J, jc, K, lc, sc, lo, so):
    # |((lc sc)jc, lo)K, so; J>  ->  |(lc lo)L, (sc so)S; J>   (magnitudes; overall phases are a convention)
    return {(L, S): sqrt((jc + 1) * (L + 1) * (K + 1) * (S + 1)) * w6j(sc, lc, jc, lo, K, L) * w6j(L, sc, K, so, J, S)
            for L in trange(lc, lo) for S in trange(sc, so)}


def lk_ls(J, L, K, sc, so):
    return {(L, S): sqrt((K + 1) * (S + 1)) * w6j(L, sc, K, so, J, S) for S in trange(sc, so)}
