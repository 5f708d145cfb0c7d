"""Synthetic QRules transitions for bounded sets of decay chains."""
from __future__ import annotations

from fractions import Fraction as F

from qrules.particle import Parity, Particle as QParticle
from qrules.quantum_numbers import InteractionProperties
from qrules.topology import Edge, FrozenTransition, Topology
from qrules.transition import State as QState

# name, latex, spin, parity, mass, width, pid
PARTICLES = {
    "T": ("T", r"\mathrm{T}", F(1), -1, 3.1, 0.01, 1),
    "a": ("a", "a", F(0), 1, 0.5, 0.0, 2),
    "b": ("b", None, F(1, 2), -1, 0.7, 0.001, 3),
    "c": ("c", "c^+", F(1, 2), None, 0.94, 0.0, 4),
    "a~": ("a~", r"\bar{a}", F(0), 1, 0.5, 0.0, -2),
    "R1": ("R1", "R_1", F(3, 2), 1, 1.52, 0.15, 11),
    "R2": ("R2", None, F(3, 2), None, 1.61, 0.02, 12),
    "R3": ("R3", "R_3", F(1, 2), -1, 1.61, 0.3, 13),
}


def particle(key):
    name, latex, spin, parity, mass, width, pid = PARTICLES[key]
    return QParticle(name=name, latex=latex, pid=pid, mass=mass, width=width, spin=spin,
                     parity=None if parity is None else Parity(parity))


def topology(k, ids):
    """ids = (initial, final1, final2, final3, resonance); node 0 production, node 1 decay."""
    i0, *f, r = ids
    edges = {i0: Edge(None, 0), r: Edge(0, 1), f[k - 1]: Edge(0, None)}
    for n in (1, 2, 3):
        if n != k:
            edges[f[n - 1]] = Edge(1, None)
    return Topology(nodes={0, 1}, edges=edges)


def interaction(ls, projection=None):
    if ls is None:
        return InteractionProperties(l_projection=projection)
    return InteractionProperties(l_magnitude=ls[0], s_magnitude=ls[1], l_projection=0,
                                 s_projection=projection)


def transition(chain, ids=(0, 1, 2, 3, 4), projections=(0, 0, 0, 0, 0), finals=("a", "b", "c"), initial="T",
               ls_projection=None):
    """chain = (resonance key, spectator 1..3, production LS, decay LS)."""
    res, k, prod, dec = chain
    keys = (initial, *finals, res)
    states = {i: QState(particle(p), m) for i, p, m in zip(ids, keys, projections)}
    return FrozenTransition(
        topology(k, ids), states=states,
        interactions={0: interaction(prod, ls_projection), 1: interaction(dec, ls_projection)},
    )


REACTIONS = {
    "J/psi canonical": dict(
        initial_state=[("J/psi(1S)", [-1, +1])], final_state=["K0", "Sigma+", "p~"], allowed_interaction_types="strong",
        allowed_intermediate_particles=["N(1700)+", "Sigma(1660)"], formalism="canonical-helicity"),
    "J/psi helicity": dict(
        initial_state=[("J/psi(1S)", [-1, +1])], final_state=["K0", "Sigma+", "p~"], allowed_interaction_types="strong",
        allowed_intermediate_particles=["N(1700)+", "Sigma(1660)"], formalism="helicity"),
    "a1 to 3 pi": dict(
        initial_state="a(1)(1260)0", final_state=["pi0", "pi0", "pi0"],
        allowed_intermediate_particles=["a(0)(980)0"], formalism="helicity"),
    "Xib to p K K": dict(
        initial_state="Xi(b)-", final_state=["p", "K-", "K-"], allowed_intermediate_particles=["Lambda(1520)"],
        formalism="helicity"),
    "Lc to p K pi": dict(
        initial_state="Lambda(c)+", final_state=["p", "K-", "pi+"],
        allowed_intermediate_particles=["Delta(1232)", "Lambda(1520)", "K*(892)0"], formalism="canonical-helicity",
        mass_conservation_factor=0, max_angular_momentum=2),
}
_GENERATED = {}


def reaction(name):
    """Generated reaction; call once in the parent process, workers inherit the result."""
    import contextlib
    import io
    import logging

    import qrules

    if name not in _GENERATED:
        logging.disable(logging.WARNING)
        qrules.settings.NumberOfThreads.set(1)
        with contextlib.redirect_stderr(io.StringIO()):
            _GENERATED[name] = qrules.generate_transitions(**REACTIONS[name])
    return _GENERATED[name]
