"""Reference lineshapes in plain numpy (complex).  Form factors from the closed form of the
spherical Hankel modulus (Abramowitz & Stegun 10.1.27), not from AmpForm."""
from __future__ import annotations

from math import factorial

import numpy as np


def csqrt(x):
    x = np.asarray(x, dtype=complex)
    return np.sqrt(np.where(x.imag == 0, x.real + 0j, x))


def hankel_modulus(L, z):
    """z^{L+1}|h_L(sqrt z)|^2 as a polynomial in z."""
    z = np.asarray(z, dtype=complex)
    out = 0j
    for k in range(L + 1):
        c = factorial(2 * L - k) * factorial(2 * L - 2 * k) / (factorial(k) * factorial(L - k) ** 2)
        out = out + c * 4.0 ** (k - L) * z**k
    return out


def blatt_weisskopf_sq(L, z):
    z = np.asarray(z, dtype=complex)
    return hankel_modulus(L, 1.0) * z**L / hankel_modulus(L, z)


def q2(s, m1, m2):
    return (s - (m1 + m2) ** 2) * (s - (m1 - m2) ** 2) / (4 * s)


def q(s, m1, m2):
    return csqrt(s - (m1 + m2) ** 2) * csqrt(s - (m1 - m2) ** 2) / (2 * csqrt(s))


def rho(s, m1, m2):
    return csqrt(s - (m1 + m2) ** 2) * csqrt(s - (m1 - m2) ** 2) / s


def rho_abs(s, m1, m2):
    return 2 * np.sqrt(np.abs(q2(s, m1, m2))) / np.sqrt(s)


def rho_swave(s, m1, m2):
    qc = q(s, m1, m2)
    rs = np.sqrt(s)
    left = 2 * qc / rs * np.log((m1**2 + m2**2 - s + 2 * rs * qc) / (2 * m1 * m2) + 0j)
    right = (m1**2 - m2**2) * (1 / s - 1 / (m1 + m2) ** 2) * np.log(m1 / m2)
    return -1j * (left - right) / np.pi


def form_factor(s, m1, m2, L, R):
    return csqrt(blatt_weisskopf_sq(L, q2(s, m1, m2) * R**2))


def width(s, m0, g0, m1, m2, L, R, phsp=rho):
    ff = form_factor(s, m1, m2, L, R) / form_factor(m0**2, m1, m2, L, R)
    return g0 * ff**2 * phsp(s, m1, m2) / phsp(m0**2, m1, m2)


def relativistic(s, m0, g0, m1, m2, L, R, phsp=rho):
    return m0 * g0 / (m0**2 - s - 1j * m0 * width(s, m0, g0, m1, m2, L, R, phsp))


def simple(s, m0, g0):
    return 1 / (m0**2 - s - 1j * m0 * g0)


def breit_wigner(s, m0, g0, m1, m2, L, R, phsp=rho):
    if L == 0 and m1 == 0 and m2 == 0:
        return simple(s, m0, g0)
    return simple(s, m0, width(s, m0, g0, m1, m2, L, R, phsp))


def min_l(s, mtop, mspec, m0, g0, m2, m1, ldec, lprod, rdec, rprod, phsp=rho):
    prod = form_factor(mtop**2, csqrt(s), mspec, lprod, rprod) / form_factor(mtop**2, m0, mspec, lprod, rprod)
    dec = form_factor(s, m1, m2, ldec, rdec) / form_factor(m0**2, m1, m2, ldec, rdec)
    return prod * dec / (m0**2 - s - 1j * m0 * width(s, m0, g0, m1, m2, ldec, rdec, phsp))


def bugg(s, m0, g0, m1, m2, gamma):
    sa = m1**2 - m2**2 / 2
    return 1 / (m0**2 - s - 1j * (s - sa) / (m0**2 - sa) * m0 * g0 * np.exp(-gamma * s))


def flatte(s, m0, widths, masses1, masses2):
    """Both channel momenta are normalised to the second channel's momentum at the pole."""
    p, qq = q(s, *masses1), q(s, *masses2)
    q0 = q(m0**2, *masses2)
    g = (widths[0] * p / q0 + widths[1] * qq / q0) * m0 / np.sqrt(s)
    return 1 / (m0**2 - s - 1j * m0 * g)


def channel(s, m0, g, m1, m2, L, R):
    return g * m0 / np.sqrt(s) * form_factor(s, m1, m2, L, R) ** 2


def multichannel(s, m0, channels):
    return simple(s, m0, sum(channel(s, m0, *c) for c in channels))
