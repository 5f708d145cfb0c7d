"""P12: spin ranges and LS couplings are exactly the allowed ones."""
import itertools
from fractions import Fraction as F

import sympy as sp

from ampform_dpd.spin import create_rational_range, create_spin_range, filter_parity_violating_ls, generate_ls_couplings
from mc.core import Fail

ASSUMPTIONS = ["spins up to the stated maximum in steps of 1/2, L up to the stated maximum"]
FORMS = {
    "float": float,
    "rational": lambda x: sp.Rational(x.numerator, x.denominator),
    "int if possible": lambda x: int(x) if x.denominator == 1 else float(x),
    "Fraction": lambda x: x,
}


def oracle(j, j1, j2, max_l):
    """Angular-momentum addition by counting weights: S in j1 x j2, j in L x S."""
    def content(a, b):
        """spins in the product of a and b, from the multiplicities of the projections"""
        weights = {}
        for m in range(int(2 * a) + 1):
            for n in range(int(2 * b) + 1):
                w = -a - b + m + n
                weights[w] = weights.get(w, 0) + 1
        out = []
        while any(weights.values()):
            top = max(w for w, n in weights.items() if n)
            out.append(top)
            x = -top
            while x <= top:
                weights[x] -= 1
                x += 1
        return out

    return sorted((L, S) for S in content(j1, j2) for L in range(max_l + 1) if j in content(F(L), S))


def as_pairs(result):
    return [(int(L), F(int(sp.Rational(S).p), int(sp.Rational(S).q))) for L, S in result]


def spoil(result):
    if isinstance(result, list):
        result.reverse()
        result.append("spoiled")


def run(check):
    T = check.thorough
    spins = [F(n, 2) for n in range(10 if T else 8)]

    def body_ls(ch):
        j = ch.choose("J", spins)
        j1 = ch.choose("j1", spins)
        j2 = ch.choose("j2", spins)
        form = ch.choose("form", list(FORMS) if T else ["float", "rational"])
        return j, j1, j2, form

    def execute_ls(cfg):
        j, j1, j2, form = cfg
        f = FORMS[form]
        out = []
        full = None
        n = 0
        for max_l in [None, 0, 1, 2, 3, 4, 5, 7]:
            kw = {} if max_l is None else {"max_L": max_l}
            got = generate_ls_couplings(f(j), f(j1), f(j2), **kw)
            n += 1
            want = oracle(j, j1, j2, 3 if max_l is None else max_l)
            if as_pairs(got) != want:
                out.append(Fail(f"LS couplings of {j} -> {j1} {j2} up to L={max_l}: {got}, allowed {want}"))
            if any(not isinstance(L, int) or not isinstance(S, sp.Rational) for L, S in got):
                out.append(Fail(f"LS couplings have unexpected types: {got}"))
            full = list(got)
            spoil(got)  # the result belongs to the caller: the next call must not see this
            if as_pairs(generate_ls_couplings(f(j), f(j1), f(j2), **kw)) != want:
                out.append(Fail(f"LS couplings of {j} -> {j1} {j2} up to L={max_l} change when an earlier result is modified"))
        for p in itertools.product([1, -1], repeat=3):
            n += 1
            before = list(full)
            kept = filter_parity_violating_ls(full, *p)
            want = [x for x in before if p[0] == p[1] * p[2] * (1 if x[0] % 2 == 0 else -1)]
            if list(kept) != want or full != before:
                out.append(Fail(f"parity filter {p} of {before}: {kept}, expected {want}"))
            if list(filter_parity_violating_ls(kept, *[sp.Integer(x) for x in p])) != want:
                out.append(Fail(f"parity filter {p} is not idempotent"))
        return out, n

    check.explore("LS couplings", body_ls, execute_ls)

    def body_range(ch):
        return ch.choose("J", [F(n, 2) for n in range(40 if T else 24)]), ch.choose("form", list(FORMS))

    def execute_range(cfg):
        j, form = cfg
        got = create_spin_range(FORMS[form](j))
        want = [sp.Rational(int(2 * (-j + n)), 2) for n in range(int(2 * j) + 1)]
        if got != want or any(not isinstance(x, sp.Rational) for x in got):
            return [Fail(f"spin projections of {j} ({form}): {got}, expected {want}")]
        spoil(got)
        for again in FORMS.values():
            if list(create_spin_range(again(j))) != want:
                return [Fail(f"spin projections of {j} change when an earlier result is modified")]
        return []

    check.explore("spin projections", body_range, execute_range)

    def body_rational(ch):
        lo = ch.choose("from", [F(n, 2) for n in range(-8, 9)])
        n = ch.choose("steps", list(range(0, 9)))
        return lo, n

    def execute_rational(cfg):
        lo, n = cfg
        got = create_rational_range(float(lo), float(lo + n))
        want = [sp.Rational(int(2 * (lo + m)), 2) for m in range(n + 1)]
        if got != want:
            return [Fail(f"range {lo}..{lo + n}: {got}, expected {want}")]
        spoil(got)
        if list(create_rational_range(float(lo), float(lo + n))) != want:
            return [Fail(f"range {lo}..{lo + n} changes when an earlier result is modified")]
        return []

    check.explore("rational ranges", body_rational, execute_rational)
