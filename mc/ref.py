"""Reference model of the DPD amplitude: plain numpy/fractions, no SymPy, no AmpForm.

A *spec* describes a decay independently of the data classes of the code under test:

spec = dict(spins=(J0, J1, J2, J3), masses=(m0..m3), chains=[chain, ...])
chain = dict(name, k (spectator), J, mass, width, prod=(L, S)|None, dec=(L, S)|None,
             flip_prod=bool, flip_dec=bool)      # child order in the description
"""
from __future__ import annotations

import functools
import itertools
from fractions import Fraction as F
from math import factorial, sqrt

import numpy as np

from mc import kin

PAIR = kin.PAIR


def projections(j):
    j = F(j)
    return [-j + n for n in range(int(2 * j) + 1)]


@functools.lru_cache(maxsize=None)
def cg(j1, m1, j2, m2, J, M):
    """<j1 m1 j2 m2 | J M> (Racah's formula)."""
    j1, m1, j2, m2, J, M = map(F, (j1, m1, j2, m2, J, M))
    if m1 + m2 != M or not abs(j1 - j2) <= J <= j1 + j2 or (j1 + j2 - J).denominator != 1:
        return 0.0
    for j, m in ((j1, m1), (j2, m2), (J, M)):
        if abs(m) > j or (j - m).denominator != 1:
            return 0.0

    def f(x):
        assert x.denominator == 1
        return factorial(int(x))

    pre = (2 * J + 1) * F(
        f(J + j1 - j2) * f(J - j1 + j2) * f(j1 + j2 - J), f(j1 + j2 + J + 1)
    )
    pre *= f(J + M) * f(J - M) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
    total = F(0)
    for k in range(0, 60):
        args = [F(k), j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k]
        if any(a < 0 for a in args):
            continue
        den = 1
        for a in args:
            den *= f(a)
        total += F((-1) ** k, den)
    return float(total) * sqrt(pre)


def wigner_d(j, m, mp, beta):
    """d^j_{m,m'}(beta), Wigner's sum (same convention as Varshalovich 4.3.1)."""
    j, m, mp = F(j), F(m), F(mp)
    beta = np.asarray(beta, dtype=float)
    if abs(m) > j or abs(mp) > j:
        return np.zeros_like(beta)
    c, s = np.cos(beta / 2), np.sin(beta / 2)
    norm = sqrt(
        factorial(int(j + m)) * factorial(int(j - m)) * factorial(int(j + mp)) * factorial(int(j - mp))
    )
    out = np.zeros_like(beta)
    for k in range(0, int(2 * j) + 1):
        a = [int(j + mp) - k, k, int(m - mp) + k, int(j - m) - k]
        if min(a) < 0:
            continue
        den = 1
        for x in a:
            den *= factorial(x)
        out = out + (-1.0) ** (int(m - mp) + k) / den * c ** int(2 * j + mp - m - 2 * k) * s ** int(
            m - mp + 2 * k
        )
    return norm * out


def sign(x):
    x = F(x)
    assert x.denominator == 1
    return -1.0 if x % 2 else 1.0


def recoupling(j, L, S, j1, m1, j2, m2):
    """LS expansion of the helicity coupling j -> (j1 m1)(j2 m2), second particle with
    opposite projection."""
    return (
        sqrt((2 * L + 1) / (2 * float(j) + 1))
        * cg(j1, m1, j2, -F(m2), S, F(m1) - F(m2))
        * cg(L, 0, S, F(m1) - F(m2), j, F(m1) - F(m2))
    )


def ls_allowed(j, j1, j2, max_l=6):
    out = []
    j, j1, j2 = F(j), F(j1), F(j2)
    if (j + j1 + j2).denominator != 1:
        return out
    s = abs(j1 - j2)
    while s <= j1 + j2:
        for L in range(max_l + 1):
            if abs(L - s) <= j <= L + s:
                out.append((L, s))
        s += 1
    return sorted(out)


class Point:
    """Angles of all chains at an array of Dalitz points, from four-momenta."""

    def __init__(self, masses, sigmas):
        self.masses, self.sigmas = masses, sigmas
        self.P = [kin.momenta(masses, pt) for pt in zip(*sigmas)]
        self._cache = {}

    def theta(self, i, j):
        return self._get(("t", i, j), lambda P: abs(kin.scattering_angle(P, self.masses, i, j)))

    def theta_hat(self, k, ref):
        return self._get(("h", k, ref), lambda P: kin.theta_hat(P, k, ref))

    def zeta(self, state, k, ref):
        if state == 0:
            return self.theta_hat(k, ref)
        return self._get(
            ("z", state, k, ref), lambda P: kin.wigner_angle(P, self.masses, state, k, ref)
        )

    def _get(self, key, func):
        if key not in self._cache:
            self._cache[key] = np.array([func(P) for P in self.P])
        return self._cache[key]


def chain_amplitude(spec, chain, lam, point, h_prod, h_dec, dynamics=1.0):
    """A^k_{lam} of one chain; h_prod(lamR, lamk), h_dec(lami, lamj) are numbers."""
    k = chain["k"]
    i, j = PAIR[k]
    J = spec["spins"]
    lamR = F(lam[0]) + F(lam[k])
    if lamR not in projections(chain["J"]):
        return 0.0
    return (
        sign(F(J[k]) - lam[k])
        * sign(F(J[j]) - lam[j])
        * h_prod(lamR, lam[k])
        * h_dec(lam[i], lam[j])
        * wigner_d(chain["J"], lamR, lam[i] - lam[j], point.theta(i, j))
        * dynamics
    )


def ls_prod(spec, chain):
    """Factor multiplying the LS coupling of the production vertex."""
    L, S = chain["prod"]
    J0, Jk = spec["spins"][0], spec["spins"][chain["k"]]

    def factor(lamR, lamk):
        if chain.get("flip_prod"):
            return recoupling(J0, L, S, Jk, lamk, chain["J"], lamR)
        return recoupling(J0, L, S, chain["J"], lamR, Jk, lamk)

    return factor


def ls_dec(spec, chain):
    L, S = chain["dec"]
    i, j = PAIR[chain["k"]]
    Ji, Jj = spec["spins"][i], spec["spins"][j]

    def factor(lami, lamj):
        if chain.get("flip_dec"):
            return recoupling(chain["J"], L, S, Jj, lamj, Ji, lami)
        return recoupling(chain["J"], L, S, Ji, lami, Jj, lamj)

    return factor


def intensity(spec, point, ref, couplings, dynamics=None, chain_sign=None):
    """couplings(chain_index, chain) -> (h_prod, h_dec) functions of helicities."""
    J = spec["spins"]
    ranges = [projections(x) for x in J]
    amp = {}
    ks = sorted({c["k"] for c in spec["chains"]})
    for lam in itertools.product(*ranges):
        for n, c in enumerate(spec["chains"]):
            h_prod, h_dec = couplings(n, c)
            x = 1.0 if dynamics is None else dynamics(n, c)
            if chain_sign:
                x = x * chain_sign.get(c["k"], 1)
            a = chain_amplitude(spec, c, lam, point, h_prod, h_dec, x)
            key = (c["k"], lam)
            amp[key] = amp.get(key, 0) + a
    return aligned_intensity(J, amp, ks, point, ref)


def aligned_intensity(J, amp, ks, point, ref):
    """Aligned coherent sum of the subsystem amplitudes amp[k, helicities], squared and
    summed over the outer helicities."""
    ranges = [projections(x) for x in J]
    # alignment rotations applied one index at a time
    shape = tuple(len(r) for r in ranges)
    npts = len(point.sigmas[0])
    total = np.zeros((*shape, npts), dtype=complex)
    for k in ks:
        T = np.zeros((*shape, npts), dtype=complex)
        for idx in itertools.product(*map(range, shape)):
            T[idx] = amp[k, tuple(r[n] for r, n in zip(ranges, idx))]
        for axis in range(4):
            d = np.array(
                [
                    [
                        wigner_d(J[axis], a, b, point.zeta(axis, k, ref))
                        if axis == 0
                        else wigner_d(J[axis], b, a, point.zeta(axis, k, ref))
                        for b in ranges[axis]
                    ]
                    for a in ranges[axis]
                ]
            )  # d[final, primed, point]
            T = np.moveaxis(T, axis, 0)
            T = np.einsum("abn,b...n->a...n", d, T)
            T = np.moveaxis(T, 0, axis)
        total += T
    return np.sum(np.abs(total) ** 2, axis=(0, 1, 2, 3))
