"""Builds the real decay objects from a spec and maps their coupling symbols back."""
from __future__ import annotations

from fractions import Fraction as F

import sympy as sp

from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
from mc.interp import indexed_key
from mc.ref import PAIR


def rat(x):
    x = F(x)
    return sp.Rational(x.numerator, x.denominator)


STATE_NAMES = ("T", "Pa", "Pb", "Pc")


def make_states(spec):
    names = spec.get("names", STATE_NAMES)
    return {
        i: State(
            name=names[i], latex=rf"\mathrm{{{names[i]}}}", spin=rat(spec["spins"][i]), parity=None,
            mass=spec["masses"][i], width=0.0, index=i,
        )
        for i in range(4)
    }


def make_chain(spec, chain, states):
    i, j = PAIR[chain["k"]]
    if chain.get("flip_dec"):
        i, j = j, i
    res = Particle(
        name=chain["name"], latex=latex_of(chain), spin=rat(chain["J"]), parity=None,
        mass=chain.get("mass", 1.0), width=chain.get("width", 0.1),
    )
    ls = lambda v: None if v is None else (v[0], rat(v[1]))  # noqa: E731
    node = IsobarNode(res, states[i], states[j], interaction=ls(chain.get("dec")))
    children = (node, states[chain["k"]])
    if chain.get("flip_prod"):
        children = children[::-1]
    return ThreeBodyDecayChain(IsobarNode(states[0], *children, interaction=ls(chain.get("prod"))))


def latex_of(chain):
    return chain.get("latex", f"{chain['name']}^x")


def make_decay(spec, order=None, state_order=(0, 1, 2, 3)):
    states = make_states(spec)
    chains = [make_chain(spec, c, states) for c in spec["chains"]]
    if order is not None:
        chains = [chains[n] for n in order]
    return ThreeBodyDecay(states={i: states[i] for i in state_order}, chains=chains)


def coupling_meaning(symbol, spec):
    """(kind, resonance name, indices) of an Indexed coupling; kind: prod, dec or coef."""
    base, idx = indexed_key(symbol)
    by_latex = {latex_of(c): c["name"] for c in spec["chains"]}
    if "production" in base or "decay" in base:
        kind = "prod" if "production" in base else "dec"
        name, rest = idx[0], idx[1:]
        return kind, by_latex[name], tuple(rest)
    for latex, name in by_latex.items():
        if latex in base:
            return "coef", name, tuple(idx)
    raise KeyError(symbol)
