"""P07: presentation options and ordering never change the physics."""
import itertools

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum

from mc import kin, ref, space
from mc.core import Fail
from mc.interp import evaluate_model, indexed_key
from mc.space import F, H

ASSUMPTIONS = ["generic couplings (seeded); interior Dalitz points; rel. tolerance 1e-9"]


def single_pools(expr):
    return [
        (sym, vals)
        for node in sp.preorder_traversal(expr)
        if isinstance(node, PoolSum)
        for sym, vals in node.indices
        if len(vals) == 1
    ]


def run(check):
    T = check.thorough
    spins_list = space.spin_assignments(16 if T else 9)
    small = space.spin_assignments(9 if T else 4)

    def value_of(spec, r, basis, coef=False, **kw):
        model = space.formulate(spec, r, basis, use_coefficients=coef, **kw)
        pars, meanings = space.parameter_values(model, spec)
        return space.model_intensity(model, spec, space.point(spec["mkey"]), pars)[0], model, meanings

    def execute_options(cfg):
        spec, basis, coef, r, cleanup, allsub = cfg
        want, base, m0 = value_of(spec, r, basis, coef)
        got, model, m1 = value_of(spec, r, basis, coef, cleanup_summations=cleanup, all_subsystems=allsub)
        out = []
        if not space.close(got, want):
            out.append(Fail(f"options cleanup={cleanup} all_subsystems={allsub} change the intensity of "
                            f"{space.describe(spec)} ref={r}: {want[:2]} -> {got[:2]}"))
        if set(m0.values()) != set(m1.values()):
            out.append(Fail("options change the set of couplings"))
        if cleanup:
            left = single_pools(model.intensity)
            if left:
                out.append(Fail(f"clean-up leaves trivial summations {left} for {space.describe(spec)}"))
        n = len(list(itertools.product(*map(ref.projections, spec["spins"]))))
        ks = {1, 2, 3} if allsub else {c["k"] for c in spec["chains"]}
        per = {}
        for a in model.amplitudes:
            base_label, idx = indexed_key(a)
            per.setdefault(base_label, set()).add(idx)
        if len(per) != len(ks) or any(len(v) != n for v in per.values()):
            out.append(Fail(f"amplitudes defined for {len(per)} subsystems, expected {len(ks)}; "
                            f"helicities per subsystem {[len(v) for v in per.values()]}, expected {n}"))
        if allsub:
            zero = 0
            _, it = evaluate_model(model, space.point(spec["mkey"]).sigmas, pars_of(model, spec))
            byk = {}
            for a in model.amplitudes:
                v = np.max(np.abs(it(a)))
                byk.setdefault(indexed_key(a)[0], []).append(v)
            zero = sum(max(v) == 0 for v in byk.values())
            absent = 3 - len({c["k"] for c in spec["chains"]})
            if zero < absent:
                out.append(Fail(f"{absent} subsystems have no chains but only {zero} are zero"))
        return out, 2

    def pars_of(model, spec):
        return space.parameter_values(model, spec)[0]

    def body_options(ch):
        spins = ch.choose("spins", spins_list)
        ks = ch.choose("ks", [(1,), (2,), (3,), (1, 3), (2, 3), (1, 2), (1, 2, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        for c in spec["chains"]:
            for v in ("prod", "dec"):
                opts = space.ls_options(spins, c["k"], c["J"], v, 1)
                c[v] = opts[0] if opts else None
        bases = [(True, True)]
        if all(c["prod"] and c["dec"] for c in spec["chains"]):
            bases.append((False, False))
        basis = ch.choose("basis", bases)
        coef = ch.flag("coef")
        r = ch.choose("ref", [1, 2, 3] if T else [1, 2])
        cleanup, allsub = ch.choose("opts", [(True, False), (False, True), (True, True)])
        return spec, basis, coef, r, cleanup, allsub

    check.explore("options", body_options, execute_options)

    def body_order(ch):
        spins = ch.choose("spins", small)
        ks = ch.choose("ks", [(1, 2, 3), (1, 1, 2), (2, 3, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        order = ch.choose("order", list(itertools.permutations(range(3)))[1:])
        so = ch.choose("state_order", [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)])
        return spec, order, so

    def execute_order(cfg):
        spec, order, so = cfg
        out = []
        for r in (1, 2, 3):
            want, _, m0 = value_of(spec, r, (True, True))
            got, _, m1 = value_of(spec, r, (True, True), order=order, state_order=so)
            if not space.close(got, want):
                out.append(Fail(f"chain order {order}, state order {so} change {space.describe(spec)}"))
            if set(m0.values()) != set(m1.values()):
                out.append(Fail("order changes the set of couplings"))
        return out, 6

    check.explore("orders", body_order, execute_order)
