"""Independent three-body kinematics: momenta, Dalitz lattices, SL(2,R) rotations.

Everything is built from explicit four-momenta in the decay plane.  A frame is a chain of
boosts along z and rotations about y, represented both by 4x4 Lorentz matrices (to find
directions) and by real 2x2 spin-1/2 matrices (to extract Wigner angles).  No formula is
shared with the code under test.
"""
from __future__ import annotations

import numpy as np

PAIR = {1: (2, 3), 2: (3, 1), 3: (1, 2)}

MASSES = {
    "distinct": (3.1, 0.5, 0.7, 0.94),
    "heavy-first": (4.0, 1.3, 0.2, 0.6),
    "two-equal": (2.3, 0.5, 0.5, 0.94),
    "all-equal": (2.0, 0.3, 0.3, 0.3),
    "massless-1": (1.8, 0.0, 0.4, 0.6),
    "massless-3": (1.8, 0.4, 0.6, 0.0),
    "massless-12": (1.7, 0.0, 0.0, 0.5),
}


def kallen(x, y, z):
    return x * x + y * y + z * z - 2 * x * y - 2 * y * z - 2 * z * x


def sigma_sum(masses):
    return sum(m * m for m in masses)


def lattice(masses, n=3, cos=(-0.83, -0.21, 0.47)):
    """Interior Dalitz points: n values of sigma3 times a few helicity cosines."""
    m0, m1, m2, m3 = masses
    lo, hi = m1 + m2, m0 - m3
    s1, s2, s3 = [], [], []
    for a in range(n):
        m12 = lo + (hi - lo) * (a + 0.6) / (n + 0.2)
        x3 = m12**2
        e1 = (x3 + m1**2 - m2**2) / (2 * m12)
        e3 = (m0**2 - x3 - m3**2) / (2 * m12)
        q = np.sqrt(max(e1**2 - m1**2, 0.0))
        p = np.sqrt(max(e3**2 - m3**2, 0.0))
        for c in cos:
            x2 = m1**2 + m3**2 + 2 * (e1 * e3 - q * p * c)
            s3.append(x3)
            s2.append(x2)
            s1.append(sigma_sum(masses) - x2 - x3)
    return tuple(np.array(v) for v in (s1, s2, s3))


def momenta(masses, point):
    """Four-momenta (E, x, z) of particles 1, 2, 3 in the rest frame of 0, planar."""
    m0, *m = masses
    energies = [(m0**2 + m[i] ** 2 - point[i]) / (2 * m0) for i in range(3)]
    mags = [np.sqrt(max(e * e - mm * mm, 0.0)) for e, mm in zip(energies, m)]
    # orientation: 1 along +z, then 2 such that 1 -> 2 -> 3 turns with negative x for 2;
    # fixed once for all so that every helicity angle theta_(12), (23), (31) is in (0, pi)
    p1 = np.array([energies[0], 0.0, mags[0]])
    c12 = (mags[2] ** 2 - mags[0] ** 2 - mags[1] ** 2) / (2 * mags[0] * mags[1])
    s12 = np.sqrt(max(1 - c12**2, 0.0))
    p2 = np.array([energies[1], ORIENTATION * mags[1] * s12, mags[1] * c12])
    p3 = np.array([energies[2], -p2[1], -mags[0] - p2[2]])
    return {1: p1, 2: p2, 3: p3}


ORIENTATION = -1.0


def rot(angle):
    c, s = np.cos(angle), np.sin(angle)
    # (E, x, z): active rotation about y: z -> x
    lorentz = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    h = angle / 2
    spin = np.array([[np.cos(h), -np.sin(h)], [np.sin(h), np.cos(h)]])
    return lorentz, spin


def boost_z(eta):
    ch, sh = np.cosh(eta), np.sinh(eta)
    lorentz = np.array([[ch, 0, sh], [0, 1, 0], [sh, 0, ch]])
    spin = np.diag([np.exp(eta / 2), np.exp(-eta / 2)])
    return lorentz, spin


def mul(a, b):
    return a[0] @ b[0], a[1] @ b[1]


def inv(a):
    return np.linalg.inv(a[0]), np.linalg.inv(a[1])


IDENTITY = (np.eye(3), np.eye(2))


def helicity_frame(p, mass):
    """R_y(phi) B_z(eta) that takes the rest frame momentum to p; phi signed."""
    phi = np.arctan2(p[1], p[2])
    mag = np.hypot(p[1], p[2])
    eta = np.arcsinh(mag / mass)
    return mul(rot(phi), boost_z(eta))


def wrap(angle):
    return (angle + np.pi) % (2 * np.pi) - np.pi


def direction(p):
    return np.arctan2(p[1], p[2])


def isobar_direction(P, k):
    return direction(-P[k])


def scattering_angle(P, masses, i, j):
    """Signed angle from the isobar (ij) flight direction to particle i, in its frame."""
    k = 6 - i - j
    p_iso = P[i] + P[j]
    m_iso = np.sqrt(p_iso[0] ** 2 - p_iso[1] ** 2 - p_iso[2] ** 2)
    frame = helicity_frame(p_iso, m_iso)
    q = inv(frame)[0] @ P[i]
    return wrap(np.arctan2(q[1], q[2]))


def theta_hat(P, i, ref):
    """Signed rotation angle taking the direction of isobar ``ref`` to that of ``i``."""
    return wrap(isobar_direction(P, i) - isobar_direction(P, ref))


def rest_frame(P, masses, state, chain):
    """Transformation from the rest frame of ``state`` to the rest frame of 0, reached
    through decay chain ``chain`` (helicity frames); chain == state or 0: direct."""
    if chain in (0, state):
        return helicity_frame(P[state], masses[state])
    i, j = PAIR[chain]
    p_iso = P[i] + P[j]
    m_iso = np.sqrt(p_iso[0] ** 2 - p_iso[1] ** 2 - p_iso[2] ** 2)
    first = helicity_frame(p_iso, m_iso)
    q = inv(first)[0] @ P[state]
    return mul(first, helicity_frame(q, masses[state]))


def wigner_angle(P, masses, state, chain, ref):
    """Rotation about y from the helicity frame of ``state`` reached via ``chain`` to the
    one reached via ``ref``, modulo 2 pi; massless states keep their helicity."""
    if masses[state] == 0:
        return 0.0
    a = rest_frame(P, masses, state, chain)
    b = rest_frame(P, masses, state, ref)
    spin = np.linalg.inv(a[1]) @ b[1]
    angle = 2 * np.arctan2(spin[1, 0], spin[0, 0])
    assert abs(spin[0, 0] - spin[1, 1]) < 1e-6, spin
    return wrap(angle)
