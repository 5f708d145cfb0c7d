"""P06: reference-subsystem independence."""
import warnings

import numpy as np

import ampform_dpd as dpd
from mc import build, kin, ref, space
from mc.core import Fail, value
from mc.space import F, H

ASSUMPTIONS = [
    "generic couplings and lineshape values (seeded); interior Dalitz points; rel. tolerance 1e-9",
    "half-integer initial spin: changing the reference r -> r+1 (cyclic) flips the sign of all "
    "chains in subsystem r+2, whose orientation angle jumps by 2 pi (DPD paper convention)",
]


def wrapped(r, q):
    """Subsystems whose sign flips (half-integer J0) when the reference goes r -> q."""
    if r == q:
        return set()
    third = 6 - r - q
    return {third}


def run(check):
    T = check.thorough
    one = space.spin_assignments(27 if T else 12)
    three = space.spin_assignments(16 if T else 9)
    bases = [(True, True), (False, False)]

    def evaluate(spec, r, basis, coef, flip=()):
        pt = space.point(spec["mkey"])
        model = space.formulate(spec, r, basis, use_coefficients=coef)
        pars, meanings = space.parameter_values(model, spec)
        for p, (kind, name, _) in meanings.items():
            if kind in {"prod", "coef"} and space.chain_by_name(spec, name)["k"] in flip:
                pars[p] = -pars[p]
        return space.model_intensity(model, spec, pt, pars)[0]

    def execute(cfg):
        spec, basis, coef = cfg
        out = []
        base = {r: evaluate(spec, r, basis, coef) for r in (1, 2, 3)}
        half = spec["spins"][0].denominator == 2
        steps = 3
        for r, q in ((1, 2), (2, 3), (3, 1)):
            other = base[q]
            if half:
                flip = wrapped(r, q) & {c["k"] for c in spec["chains"]}
                if flip and len({c["k"] for c in spec["chains"]}) > 1:
                    other = evaluate(spec, q, basis, coef, flip)
                    steps += 1
            if not space.close(other, base[r], max(space.tolerance(spec), 1e-9)):
                out.append(Fail(
                    f"reference {r} and {q} disagree for {space.describe(spec)} basis={basis}: "
                    f"{np.real(base[r])[:3]} vs {np.real(other)[:3]}"))
        return out, steps

    def with_ls(ch, spec, limit=1):
        for n, c in enumerate(spec["chains"]):
            for v in ("prod", "dec"):
                c[v] = ch.choose(f"{v}_{n}", space.ls_options(spec["spins"], c["k"], c["J"], v, limit))
        return spec

    def body_one(ch):
        spins = ch.choose("spins", one)
        ks = ch.choose("ks", [(1,), (2,), (3,)])
        spec = with_ls(ch, space.choose_spec(ch, spins, ks, 3))
        return spec, ch.choose("basis", bases), False

    def body_multi(ch):
        spins = ch.choose("spins", three)
        ks = ch.choose("ks", [(1, 2), (2, 3), (1, 3), (1, 2, 3)])
        spec = with_ls(ch, space.choose_spec(ch, spins, ks, 2))
        return spec, ch.choose("basis", bases), False

    def body_mass(ch):
        mkey = ch.choose("masses", list(kin.MASSES))
        spins = ch.choose("spins", [tuple(F(x) for x in s) for s in [
            (0, 0, 0, 0), (1, H, H, 0), (H, H, 0, 0), (0, H, 0, H), (F(3, 2), 0, 0, H)]])
        spec = with_ls(ch, space.choose_spec(ch, spins, (1, 2, 3), 1, mkey))
        return spec, (True, True), ch.flag("coef")

    def body_high(ch):
        spec = space.high_spin_spec(ch, T, 1, offsets=range(7) if T else (0, 3))
        other = dict(spec["chains"][0], name="QB", k=spec["chains"][0]["k"] % 3 + 1)
        other["J"] = space.resonance_spins(spec["spins"], other["k"], 1)[0]
        spec["chains"].append(other)
        return spec, (True, True), False

    check.explore("high spins", body_high, execute)
    check.explore("one chain", body_one, execute)
    check.explore("several subsystems", body_multi, execute)
    check.explore("mass patterns", body_mass, execute)

    # the default reference is one with the largest number of chains
    def body_default(ch):
        n = tuple(ch.choose(f"n{k}", [0, 1, 2, 3]) for k in (1, 2, 3))
        spins = ch.choose("spins", [(F(0),) * 4, (F(1), F(0), H, H)])
        return n, spins, ch.choose("chains differ in", ["resonance", "LS"])

    def execute_default(cfg):
        n, spins, differ = cfg
        if sum(n) == 0:
            spec = dict(spins=spins, masses=kin.MASSES["distinct"], mkey="distinct", chains=[])
            try:
                space.formulate(spec, None)
            except Exception:
                return []
            return [Fail("a decay without chains can be formulated without a reference")]
        chains = [dict(name=f"Q{k}{x}", k=k, J=space.resonance_spins(spins, k, 1)[0])
                  for k in (1, 2, 3) for x in "abc"[: n[k - 1]]]
        if differ == "LS":  # one resonance per subsystem (spin 0 would have one LS coupling only)
            chains = [dict(c, name=c["name"][:2], prod=("abc".index(c["name"][-1]), F(0)), dec=(1, F(1)))
                      for c in chains]
        spec = dict(spins=spins, masses=kin.MASSES["distinct"], mkey="distinct", chains=chains)
        best = [k for k in (1, 2, 3) if n[k - 1] == max(n)]
        pt = space.point("distinct")
        names = set()
        default = space.formulate(spec, None)
        got = {s.name for s in default.variables}
        cands = [space.formulate(spec, k) for k in best]
        if not any({s.name for s in c.variables} == got and c.intensity == default.intensity
                   and c.amplitudes == default.amplitudes for c in cands):
            pars, _ = space.parameter_values(default, spec)
            a = space.model_intensity(default, spec, pt, pars)[0]
            if spins[0] == 0 or not any(
                space.close(a, space.model_intensity(c, spec, pt, space.parameter_values(c, spec)[0])[0])
                for c in cands
            ) or {s.name for s in default.variables} not in [{s.name for s in c.variables} for c in cands]:
                return [Fail(f"default reference with {n} chains is not among {best}")]
        return []

    check.explore("default reference", body_default, execute_default)
