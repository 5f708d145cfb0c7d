"""P11: the dynamics builder wires the right kinematics and parameters."""
import itertools

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import PhaseSpaceFactor, PhaseSpaceFactorAbs, PhaseSpaceFactorComplex

from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecayChain
from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor
from mc import build, kin, lineshape as ref, space
from mc.core import Fail, Prune
from mc.interp import Interpreter
from mc.space import F, H

ASSUMPTIONS = [
    "L 0..3 at both vertices; spins chosen so that they are allowed is not required by the builder",
    "the breakup momentum of the production vertex uses the nominal resonance mass (convention)",
]


def custom_phsp(s, m1, m2):
    """User-supplied phase-space factor, distinguishable at every point and for every L."""
    return s**2 + 2 * (m1 + m2) * s + 3 * m1 * m2 + 1


PHSP = {"standard": (PhaseSpaceFactor, ref.rho), "abs": (PhaseSpaceFactorAbs, ref.rho_abs),
        "complex": (PhaseSpaceFactorComplex, ref.rho), "custom": (custom_phsp, custom_phsp)}
KEY = "decay-form-factor-takes-s-squared"


def run(check):
    T = check.thorough
    SIGMA = {k: sp.Symbol(f"sigma{k}", nonnegative=True) for k in (1, 2, 3)}
    MASS = [sp.Symbol(f"m{i}", nonnegative=True) for i in range(4)]
    LMAX = 4 if T else 3

    def body(ch):
        k = ch.choose("spectator", [1, 2, 3])
        mkey = ch.choose("masses", ["distinct", "two-equal", "massless-1", "heavy-first"] if T else ["distinct", "massless-1"])
        edw, dff, pff = ch.choose("options", list(itertools.product([False, True], repeat=3)))
        ph = ch.choose("phsp", list(PHSP)) if edw else "standard"
        prod = ch.choose("L_prod", [None, *range(LMAX)])
        dec = ch.choose("L_dec", [None, *range(LMAX)])
        flips = ch.choose("child order", [(False, False), (True, False), (False, True), (True, True)])
        pole = ch.choose("pole", ["above", "below"]) if T or edw else "above"
        return k, mkey, edw, dff, pff, ph, prod, dec, flips, pole

    def execute(cfg):
        k, mkey, edw, dff, pff, ph, prod, dec, flips, pole = cfg
        masses = kin.MASSES[mkey]
        i, j = space.PAIR[k]
        lo, hi = masses[i] + masses[j], masses[0] - masses[k]
        m = 0.35 * lo + 0.65 * hi if pole == "above" or lo == 0 else 0.9 * lo
        g = 0.123
        spec = dict(spins=(H, H, F(1), F(0)), masses=masses, chains=[])
        chain_spec = dict(name="Res", latex="Res^{*}", k=k, J=F(3, 2), mass=m, width=g,
                          prod=None if prod is None else (prod, F(3, 2)),
                          dec=None if dec is None else (dec, F(3, 2)),
                          flip_prod=flips[0], flip_dec=flips[1])
        chain = build.make_chain(spec, chain_spec, build.make_states(spec))
        builder = BreitWignerBuilder(energy_dependent_width=edw, decay_form_factor=dff, production_form_factor=pff,
                                     phsp_factor=PHSP[ph][0])
        must_refuse = ((edw or dff) and dec is None) or (pff and prod is None)
        try:
            out = builder(chain)
        except Exception as e:  # noqa: BLE001
            if must_refuse:
                return []
            return [Fail(f"{builder} refuses {cfg}: {type(e).__name__}: {e}")]
        if must_refuse:
            return [Fail(f"{builder} accepts a chain without the L it needs: {cfg}")]
        fails = []
        free = out.expression.free_symbols
        allowed = set(out.parameters) | set(MASS) | {SIGMA[k]}
        if free - allowed:
            fails.append(Fail(f"no default for {free - allowed} in {cfg}"))
            return fails
        # meaning of the parameters by their defaults; radii both default to 1
        radius_prod, radius_dec = 2.3, 0.7
        values = {SIGMA[k]: None}
        for n in range(4):
            values[MASS[n]] = masses[n]
        seen = []
        for p, v in out.parameters.items():
            if p in MASS:
                if v != masses[MASS.index(p)]:
                    fails.append(Fail(f"default of {p} is {v}, the state has mass {masses[MASS.index(p)]}: {cfg}"))
            elif v == m:
                values[p] = m
                seen.append("mass")
            elif v == g:
                values[p] = g
                seen.append("width")
            elif v == 1:
                values[p] = radius_prod if "T" in p.name else radius_dec
                seen.append("R")
            else:
                fails.append(Fail(f"unexpected default {p} = {v} in {cfg}"))
                values[p] = v
        if seen.count("mass") != 1 or seen.count("width") != 1:
            fails.append(Fail(f"defaults {out.parameters}: expected one mass {m} and one width {g}: {cfg}"))
        sig = space.point(mkey).sigmas[k - 1]
        values[SIGMA[k]] = sig
        it = Interpreter(values)
        with np.errstate(all="ignore"):
            got = np.broadcast_to(it(out.expression), sig.shape)

        def formula(decay_s):
            x = np.ones_like(sig, dtype=complex)
            if edw:
                x = x * ref.relativistic(sig, m, g, masses[i], masses[j], dec, radius_dec, PHSP[ph][1])
            else:
                x = x * ref.simple(sig, m, g)
            if dff:
                x = x * ref.form_factor(decay_s, masses[i], masses[j], dec, radius_dec)
            if pff:
                x = x * ref.form_factor(masses[0] ** 2, m, masses[k], prod, radius_prod)
            return x

        want = formula(sig)
        if not space.close(got, want, 1e-8):
            wrong = formula(sig**2)
            key = KEY if dff and space.close(got, wrong, 1e-8) else None
            fails.append(Fail(f"{builder} for {cfg}: value {got[:2]}, product of the requested factors "
                              f"{want[:2]}", key))
        return fails

    check.explore("options, vertices and child orders", body, execute)

    def body_high(ch):
        high = range(3, 9 if T else 7)
        prod, dec = ch.choose("L_prod", high), ch.choose("L_dec", high)
        opts = ch.choose("options", [(True, True, True), (True, False, False), (False, False, True)])
        return ch.choose("spectator", [1, 2, 3]), "distinct", *opts, "standard", prod, dec, (True, False), "above"

    check.explore("high angular momenta", body_high, execute)

    # the ready-made builder is the one with every factor switched on
    def body_default(ch):
        return ch.choose("k", [1, 2, 3]), ch.choose("L", [0, 1, 2])

    def execute_default(cfg):
        k, L = cfg
        masses = kin.MASSES["distinct"]
        spec = dict(spins=(H, H, F(1), F(0)), masses=masses, chains=[])
        chain = build.make_chain(spec, dict(name="Res", k=k, J=F(1), mass=1.4, width=0.1, prod=(L, F(1)), dec=(L, F(1))),
                                 build.make_states(spec))
        if formulate_breit_wigner_with_form_factor(chain) != BreitWignerBuilder(True, True, True)(chain):
            return [Fail("formulate_breit_wigner_with_form_factor is not the builder with all factors")]
        return []

    check.explore("ready-made builder", body_default, execute_default)

    # one builder used for several chains keeps no state
    def body_reuse(ch):
        opts = ch.choose("options", list(itertools.product([False, True], repeat=3)))
        return opts, tuple(ch.choose(f"call{n}", list(range(3))) for n in range(3))

    def execute_reuse(cfg):
        opts, calls = cfg
        masses = kin.MASSES["distinct"]
        spec = dict(spins=(H, H, F(1), F(0)), masses=masses, chains=[])
        chains = [build.make_chain(spec, dict(name=f"R{n}", k=n + 1, J=F(1), mass=1.4 + n, width=0.1 * (n + 1),
                                              prod=(n, F(1)), dec=(2 - n, F(1))), build.make_states(spec))
                  for n in range(3)]
        b = BreitWignerBuilder(*opts)
        out = [b(chains[n]) for n in calls]
        if any(o != BreitWignerBuilder(*opts)(chains[n]) for o, n in zip(out, calls)):
            return [Fail(f"a builder used for chains {calls} returns something else than a fresh one")]
        return []

    check.explore("reuse of one builder", body_reuse, execute_reuse)
