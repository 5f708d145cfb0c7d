"""P05: LS, mixed and single-coefficient bases equal the formula."""
import warnings

import ampform_dpd as dpd
from mc import build, kin, ref, space
from mc.core import Fail, Prune, expect_error
from mc.space import F, H

ASSUMPTIONS = [
    "one generic complex value per coupling (seeded); 4 interior Dalitz points; rel. tolerance 1e-9",
]
BASES = [(True, True), (False, False), (True, False), (False, True)]


def run(check):
    T = check.thorough
    one = space.spin_assignments(27 if T else 12)
    same = space.spin_assignments(12 if T else 4)
    two = space.spin_assignments(12 if T else 4)

    def choose_ls(ch, spec, limit):
        for n, c in enumerate(spec["chains"]):
            for v in ("prod", "dec"):
                opts = space.ls_options(spec["spins"], c["k"], c["J"], v, limit)
                c[v] = ch.choose(f"{v}_{n}", opts)
        return spec

    def execute(cfg):
        spec, bases, coefs, refs = cfg
        fails, steps = [], 0
        pt = space.point(spec["mkey"])
        for basis in bases:
            for coef in coefs:
                for r in refs:
                    f, model, meanings = space.check_model(spec, r, basis, pt, coef)
                    fails += f + space.check_meanings(meanings, spec, basis, coef)
                    steps += 1
                    if fails:
                        return fails, steps
        return fails, steps

    def body_one(ch):
        spins = ch.choose("spins", one)
        k = ch.choose("k", [1, 2, 3])
        spec = space.choose_spec(ch, spins, [k], 3 if T else 2)
        choose_ls(ch, spec, 4 if T else 3)
        c = spec["chains"][0]
        c["flip_prod"], c["flip_dec"] = ch.choose("flips", [(0, 0), (1, 1), (1, 0), (0, 1)][: 4 if T else 2])
        return spec, BASES[1:], [False], [k % 3 + 1]

    def body_coef(ch):
        spins = ch.choose("spins", one)
        k = ch.choose("k", [1, 2, 3])
        spec = space.choose_spec(ch, spins, [k], 2)
        choose_ls(ch, spec, 2)
        return spec, BASES, [True], [k]

    def body_two(ch):
        spins = ch.choose("spins", two)
        ks = ch.choose("ks", [(1, 2), (2, 3), (1, 3), (1, 1), (2, 2), (3, 3)])
        spec = space.choose_spec(ch, spins, ks, 2 if T else 1)
        choose_ls(ch, spec, 2)
        spec["chains"][1]["flip_dec"] = ch.flag("flip_dec_1")
        return spec, BASES, [False, True], [ks[0]]

    def body_same(ch):
        """The same resonance with two LS combinations, i.e. two chains of one name."""
        spins = ch.choose("spins", same)
        k = ch.choose("k", [1, 2, 3])
        J = ch.choose("J", space.resonance_spins(spins, k, 3 if T else 2))
        prods = space.ls_options(spins, k, J, "prod")
        decs = space.ls_options(spins, k, J, "dec")
        combis = [(p, d) for p in prods for d in decs]
        if len(combis) < 2:
            raise Prune
        a = ch.choose("first", combis[: 6 if T else 3])
        b = ch.choose("second", [c for c in combis[: 8 if T else 3] if c != a])
        basis = ch.choose("basis", BASES[1:])
        coef = ch.flag("coefficients")
        # couplings shared between both chains are allowed only if they mean the same thing
        chains = [dict(name="QA", k=k, J=J, prod=p, dec=d) for p, d in (a, b)]
        spec = dict(spins=spins, masses=kin.MASSES["distinct"], mkey="distinct", chains=chains)
        return spec, [basis], [coef], [k]

    def execute_same(cfg):
        spec, (basis,), (coef,), (r,) = cfg
        f, model, meanings = space.check_model(spec, r, basis, None, coef)
        return f + space.check_meanings(meanings, spec, basis, coef)

    def body_missing(ch):
        spins = ch.choose("spins", [(F(0),) * 4, (H, H, F(0), F(0)), (F(1), F(0), H, H)])
        k = ch.choose("k", [1, 2, 3])
        spec = space.choose_spec(ch, spins, [k], 2)
        c = spec["chains"][0]
        for v in ("prod", "dec"):
            has = ch.flag(f"has_{v}")
            c[v] = space.ls_options(spins, k, c["J"], v)[0] if has else None
        return spec, ch.choose("basis", BASES), ch.flag("coef"), ch.flag("as_tuple")

    def execute_missing(cfg):
        spec, basis, coef, as_tuple = cfg
        c = spec["chains"][0]
        ok = (basis[0] or c["prod"]) and (basis[1] or c["dec"])
        if as_tuple or basis[0] != basis[1]:
            kw = {"as_bool": False}
        else:
            kw = {}
        if ok:
            f, _, meanings = space.check_model(spec, c["k"], basis, None, coef, **kw)
            return f + space.check_meanings(meanings, spec, basis, coef)
        fail = expect_error(space.formulate, spec, c["k"], basis, use_coefficients=coef, **kw)
        return [fail] if fail else []

    def body_config(ch):
        return ch.choose("min_ls", [True, False, (True, True), (True, False), (False, True), (False, False),
                                    (True,), (True, False, True), "True", None, 3])

    def execute_config(v):
        spec = dict(spins=(F(0),) * 4, masses=kin.MASSES["distinct"], mkey="distinct",
                    chains=[dict(name="QA", k=1, J=F(0), prod=(0, F(0)), dec=(0, F(0)))])
        decay = build.make_decay(spec)
        valid = isinstance(v, bool) or (isinstance(v, tuple) and len(v) == 2)
        if not valid:
            fail = expect_error(dpd.DalitzPlotDecompositionBuilder, decay, min_ls=v)
            return [fail] if fail else []
        b = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=v)
        m = b.formulate(1)
        want = v if isinstance(v, tuple) else (v, v)
        _, meanings = space.parameter_values(m, spec)
        return space.check_meanings(meanings, spec, want, False)

    def body_high(ch):
        spec = space.high_spin_spec(ch, T, 3 if T else 2, offsets=range(7) if T else (2, 5))
        return spec, BASES[1:] if T else [(False, False)], [ch.flag("coefficients")], [spec["chains"][0]["k"]]

    check.explore("high spins", body_high, execute)
    check.explore("one chain, child orders", body_one, execute)
    check.explore("coefficients", body_coef, execute)
    check.explore("two chains", body_two, execute)
    check.explore("one resonance, two LS chains", body_same, execute_same)
    check.explore("missing LS", body_missing, execute_missing)
    check.explore("basis argument", body_config, execute_config)
