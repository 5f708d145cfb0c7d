"""P01: every angle equals the one constructed from four-momenta."""
import itertools

import numpy as np
import sympy as sp

from ampform_dpd.angles import (
    formulate_scattering_angle,
    formulate_theta_hat_angle,
    formulate_zeta_angle,
)
from mc import kin, ref
from mc.core import Fail, expect_error
from mc.interp import Interpreter

ASSUMPTIONS = [
    "numerical comparison at interior Dalitz-lattice points, absolute tolerance 1e-6",
    "angles compared modulo 2 pi, scattering angles for reversed pairs as polar angles",
]
_points = {}


def point(mass_key, n):
    if (mass_key, n) not in _points:
        m = kin.MASSES[mass_key]
        _points[mass_key, n] = ref.Point(m, kin.lattice(m, n))
    return _points[mass_key, n]


def evaluate(expr, pt):
    values = {sp.Symbol(f"m{i}", nonnegative=True): pt.masses[i] for i in range(4)}
    for i in range(3):
        values[sp.Symbol(f"sigma{i + 1}", nonnegative=True)] = pt.sigmas[i]
    with np.errstate(all="ignore"):
        out = Interpreter(values)(sp.sympify(expr))
    return np.broadcast_to(np.real(np.where(np.abs(np.imag(out)) > 1e-9, np.nan, out)),
                           pt.sigmas[0].shape)


def compare(expr, expected, pt, what, key=None):
    got = evaluate(expr, pt)
    bad = ~(np.abs(kin.wrap(got - expected)) < 1e-6)
    # massless states: cos = +-1 exactly; the angle is then known to about 1e-8
    if bad.any():
        n = int(np.argmax(bad))
        return [Fail(f"{what} at sigma={[s[n] for s in pt.sigmas]}: got {got[n]}, "
                     f"from momenta {expected[n]}", key)]
    return []


def run(check):
    n = 6 if check.thorough else 3
    masses = list(kin.MASSES)

    def body_theta(ch):
        return "theta", ch.choose("i", [1, 2, 3]), ch.choose("j", [1, 2, 3]), 0, ch.choose("m", masses)

    def body_hat(ch):
        return "hat", ch.choose("i", [1, 2, 3]), ch.choose("ref", [1, 2, 3]), 0, ch.choose("m", masses)

    def body_zeta(ch):
        s = ch.choose("state", [0, 1, 2, 3])
        a = ch.choose("aligned", [1, 2, 3])
        r = ch.choose("ref", [1, 2, 3] if s == 0 else [0, 1, 2, 3])
        return "zeta", s, a, r, ch.choose("m", masses)

    def execute(cfg):
        kind, a, b, c, mkey = cfg
        pt = point(mkey, n)
        if kind == "theta":
            if a == b:
                f = expect_error(formulate_scattering_angle, a, b)
                return [f] if f else []
            _, e = formulate_scattering_angle(a, b)
            return compare(e, pt.theta(a, b), pt, f"theta_{a}{b}")
        if kind == "hat":
            sym, e = formulate_theta_hat_angle(a, b)
            out = compare(e, pt.theta_hat(a, b), pt, f"theta-hat_{a}({b})")
            _, back = formulate_theta_hat_angle(b, a)
            out += compare(e + back, 0 * pt.sigmas[0], pt, f"theta-hat antisymmetry {a},{b}")
            return out
        sym, e = formulate_zeta_angle(a, b, c)
        out = compare(e, pt.zeta(a, b, c), pt, f"zeta^{a}_{b}({c})")
        if c:
            _, back = formulate_zeta_angle(a, c, b)
            out += compare(e + back, 0 * pt.sigmas[0], pt, f"zeta^{a} antisymmetry {b},{c}")
            if b == c and not np.all(evaluate(e, pt) == 0):
                out.append(Fail(f"zeta^{a}_{b}({c}) is not exactly zero"))
        return out

    check.explore("scattering", body_theta, execute)
    check.explore("theta-hat", body_hat, execute)
    check.explore("zeta", body_zeta, execute)

    # symbols must identify the angle: different requests never share a symbol
    def body_symbols(ch):
        kind = ch.choose("kind", ["theta", "hat", "zeta"])
        return kind

    def execute_symbols(kind):
        ids = (1, 2, 3)
        if kind == "theta":
            reqs = [(i, j) for i in ids for j in ids if i != j]
            f = formulate_scattering_angle
        elif kind == "hat":
            reqs = [(i, j) for i in ids for j in ids]
            f = formulate_theta_hat_angle
        else:
            reqs = [(s, i, j) for s in range(4) for i in ids for j in ids]
            f = formulate_zeta_angle
        seen = {}
        for r in reqs:
            sym, e = f(*r)
            if sym in seen:
                return [Fail(f"{kind}: requests {seen[sym]} and {r} share the symbol {sym}")]
            seen[sym] = r
            if f(*r) != (sym, e):
                return [Fail(f"{kind}{r} is not deterministic")]
        return []

    check.explore("symbols", body_symbols, execute_symbols)

    def body_bad(ch):
        kind = ch.choose("kind", ["theta", "hat", "zeta"])
        pool = [-1, 0, 1, 2, 3, 4] if kind != "zeta" else [0, 1, 2, 3, 4]
        return kind, tuple(ch.choose(f"id{n}", pool) for n in range(3 if kind == "zeta" else 2))

    def execute_bad(cfg):
        kind, ids = cfg
        ok = {1, 2, 3}
        if kind == "theta":
            valid = set(ids) <= ok and ids[0] != ids[1]
            f = formulate_scattering_angle
        elif kind == "hat":
            valid = set(ids) <= ok
            f = formulate_theta_hat_angle
        else:
            s, a, r = ids
            valid = s in {0, 1, 2, 3} and a in ok and r in (ok if s == 0 else ok | {0})
            # a chain "aligned with itself" is trivially zero whatever its ID
            if not valid and a == r:
                return []
            if s not in {0, 1, 2, 3} and r == 0:
                return []  # zeta^s_{a(0)} is an alias; covered by its target
            f = formulate_zeta_angle
        if valid:
            f(*ids)
            return []
        fail = expect_error(f, *ids)
        return [fail] if fail else []

    check.explore("rejection", body_bad, execute_bad)

    # group law: alignment angles compose, zeta_{a(b)} + zeta_{b(c)} = zeta_{a(c)} mod 2 pi
    def body_sum(ch):
        s = ch.choose("state", [0, 1, 2, 3])
        return s, tuple(ch.choose(x, [1, 2, 3]) for x in "abc"), ch.choose("m", masses)

    def execute_sum(cfg):
        s, (a, b, c), mkey = cfg
        pt = point(mkey, n)
        e = sum(formulate_zeta_angle(s, *x)[1] for x in ((a, b), (b, c), (c, a)))
        return compare(e, 0 * pt.sigmas[0], pt, f"cocycle zeta^{s} {a}{b}{c}")

    check.explore("composition", body_sum, execute_sum)
