"""P08: relabelling the final state relabels the model and nothing else."""
import itertools

import numpy as np
import sympy as sp

from mc import build, kin, ref, space
from mc.core import Fail, Prune
from mc.space import F, H

ASSUMPTIONS = [
    "generic couplings (seeded); interior Dalitz points; rel. tolerance 1e-9",
    "spins, chains and mass patterns bounded as listed in the parts",
]
CYC = {1: {0: 0, 1: 2, 2: 3, 3: 1}, 2: {0: 0, 1: 3, 2: 1, 3: 2}}


def relabel(spec, n):
    pi = CYC[n]
    inv = {v: k for k, v in pi.items()}
    return dict(
        spec,
        spins=tuple(spec["spins"][inv[i]] for i in range(4)),
        masses=tuple(spec["masses"][inv[i]] for i in range(4)),
        names=tuple(build.STATE_NAMES[inv[i]] for i in range(4)),
        chains=[dict(c, k=pi[c["k"]]) for c in spec["chains"]],
    )


class PermutedPoint:
    def __init__(self, pt, n):
        pi = CYC[n]
        inv = {v: k for k, v in pi.items()}
        self.sigmas = tuple(pt.sigmas[inv[i] - 1] for i in (1, 2, 3))


def run(check):
    T = check.thorough
    spins_list = space.spin_assignments(27 if T else 9)
    small = space.spin_assignments(16 if T else 9)

    def with_ls(ch, spec, limit):
        for c in spec["chains"]:
            for v in ("prod", "dec"):
                opts = space.ls_options(spec["spins"], c["k"], c["J"], v, limit)
                c[v] = ch.choose(f"{v}_{c['name']}", opts) if opts else None

    def intensity(spec, r, basis, coef, pt, factor=None, **kw):
        model = space.formulate(spec, r, basis, use_coefficients=coef, **kw)
        pars, meanings = space.parameter_values(model, spec)
        for p, m in meanings.items():
            if factor:
                pars[p] *= factor(m)
        return space.model_intensity(model, spec, pt, pars)[0], set(meanings.values())

    # ---- cyclic relabelling
    def body_cyclic(ch):
        spins = ch.choose("spins", spins_list)
        ks = ch.choose("ks", [(1, 2, 3), (1,), (2, 3)] if T else [(1, 2, 3), (2, 3)])
        spec = space.choose_spec(ch, spins, ks, 2 if T else 1,
                                 ch.choose("masses", ["distinct", "two-equal"] if T else ["distinct"]))
        with_ls(ch, spec, 1)
        bases = [(True, True)]
        if all(c["prod"] and c["dec"] for c in spec["chains"]):
            bases += [(False, False), (False, True), (True, False)] if T else [(False, True)]
        basis = ch.choose("basis", bases)
        r = ch.choose("ref", [1, 2, 3])
        return spec, basis, ch.flag("coef") if T else False, r, ch.choose("cycle", [1, 2])

    def execute_cyclic(cfg):
        spec, basis, coef, r, n = cfg
        pt = space.point(spec["mkey"])
        want, m0 = intensity(spec, r, basis, coef, pt)
        got, m1 = intensity(relabel(spec, n), CYC[n][r], basis, coef, PermutedPoint(pt, n))
        out = []
        if not space.close(got, want):
            out.append(Fail(f"relabelling {CYC[n]} changes {space.describe(spec)} ref={r} basis={basis}: "
                            f"{want[:3]} -> {got[:3]}"))
        if m0 != m1:
            out.append(Fail(f"relabelling changes the set of couplings: {sorted(map(str, m0 ^ m1))[:4]}"))
        return out, 2

    check.explore("cyclic relabelling", body_cyclic, execute_cyclic)

    def body_high(ch):
        spec = space.high_spin_spec(ch, T, 2, offsets=range(7) if T else (5,))
        r = ch.choose("ref", [1, 2, 3]) if T else 1
        return spec, ch.choose("basis", [(True, True), (False, False)]), False, r, ch.choose("cycle", [1, 2])

    check.explore("cyclic relabelling, high spins", body_high, execute_cyclic)

    # ---- exchange of the children of a vertex
    def sign_of(spec, c, which):
        s = 1.0
        if "prod" in which:
            L, S = c["prod"]
            s *= ref.sign(F(L) + F(S) - spec["spins"][0])
        if "dec" in which:
            L, S = c["dec"]
            s *= ref.sign(F(L) + F(S) - c["J"])
        return s

    def body_swap(ch):
        spins = ch.choose("spins", small)
        ks = ch.choose("ks", [(1, 2), (2, 3), (3, 1), (1, 1), (2, 2), (3, 3)] if T else [(1, 2), (3, 1), (2, 2)])
        spec = space.choose_spec(ch, spins, ks, 1)
        spec["chains"][0]["J"] = ch.choose("J", space.resonance_spins(spins, ks[0], 2))
        with_ls(ch, dict(spec, chains=spec["chains"][:1]), 4 if T else 3)
        with_ls(ch, dict(spec, chains=spec["chains"][1:]), 1)
        which = ch.choose("swap", ["prod", "dec", "prod+dec"])
        bases = [(True, True)]
        if all(c["prod"] and c["dec"] for c in spec["chains"]):
            bases += [(False, False), (False, True), (True, False)]
        basis = ch.choose("basis", bases)
        coef = ch.flag("coef") if T else False
        return spec, which, basis, coef

    def execute_swap(cfg):
        spec, which, basis, coef = cfg
        pt = space.point(spec["mkey"])
        c0 = spec["chains"][0]
        eff = [w for w, hel in zip(("prod", "dec"), basis) if w in which and not hel]
        s = sign_of(spec, c0, eff) if eff else 1.0

        def factor(m):
            kind, name, _ = m
            if name != c0["name"]:
                return 1.0
            if kind == "coef" or (kind == "prod" if len(eff) != 1 else kind == eff[0]):
                return s
            return 1.0

        r = c0["k"]
        want, m0 = intensity(spec, r, basis, coef, pt, factor)
        flipped = dict(spec, chains=[dict(c0, flip_prod="prod" in which, flip_dec="dec" in which),
                                     *spec["chains"][1:]])
        got, m1 = intensity(flipped, r, basis, coef, pt)
        out = []
        if not space.close(got, want):
            out.append(Fail(f"exchanging the children of {which} of {c0['name']} changes "
                            f"{space.describe(spec)} basis={basis} by more than the sign {s}: "
                            f"{want[:3]} -> {got[:3]}"))
        if m0 != m1:
            out.append(Fail(f"exchanging children changes the set of couplings: {sorted(map(str, m0 ^ m1))[:4]}"))
        return out, 2

    check.explore("child exchange", body_swap, execute_swap)

    def body_swap_high(ch):
        spec = space.high_spin_spec(ch, T, 3 if T else 2, offsets=range(7) if T else (5,))
        which = ch.choose("swap", ["prod", "dec", "prod+dec"])
        return spec, which, ch.choose("basis", [(True, True), (False, False)]), False

    check.explore("child exchange, high spins", body_swap_high, execute_swap)
