"""P25: the bundled particle list and a full reaction pass through unharmed."""
import contextlib
import io
import logging
import multiprocessing as mp
import os
from fractions import Fraction as F
from pathlib import Path

import qrules
import sympy as sp
import yaml
from qrules.particle import Parity, Particle as QParticle, ParticleCollection
from qrules.topology import FrozenTransition
from qrules.transition import State as QState

import ampform_dpd
from ampform_dpd.adapter.qrules import (
    load_particles,
    normalize_state_ids,
    permute_equal_final_states,
    to_three_body_decay,
)
from mc import qr
from mc.core import Fail, Prune, fork_call

ASSUMPTIONS = [
    "the default particle list is the one qrules loads in a fresh process",
    "reactions are generated by qrules 0.10.6 with the bundled list as database",
]
FIELDS = ("name", "latex", "pid", "mass", "width", "spin", "parity", "charge", "strangeness", "charmness",
          "bottomness", "topness", "baryon_number", "electron_lepton_number", "muon_lepton_number",
          "tau_lepton_number", "isospin", "g_parity", "c_parity")


def row(p):
    """Plain value of every property of a qrules particle."""
    out = {}
    for name in FIELDS:
        v = getattr(p, name)
        if v is not None and not isinstance(v, (int, float, str)):
            if hasattr(v, "projection"):
                v = (float(v.magnitude), float(v.projection))
            else:
                v = float(v) if isinstance(v, F) else int(v)
        out[name] = v
    return out


def default_rows():
    return {p.name: row(p) for p in qrules.load_default_particles()}


def declared_rows():
    """Additional definitions, read straight from the YAML file."""
    path = Path(ampform_dpd.__file__).parent / "particle-definitions.yml"
    out = {}
    for d in yaml.safe_load(path.read_text())["particles"]:
        r = dict.fromkeys(FIELDS, 0)
        r.update(latex=None, width=0.0, parity=None, isospin=None, g_parity=None, c_parity=None)
        for k, v in d.items():
            if isinstance(v, dict):
                v = (float(v["magnitude"]), float(v["projection"])) if "magnitude" in v else v["value"]
            if k not in r:
                raise KeyError(k)
            r[k] = v
        out[d["name"]] = r
    return out


REACTIONS = {
    "Lc to p K pi, bundled resonance": dict(
        initial_state="Lambda(c)+", final_state=["p", "K-", "pi+"],
        allowed_intermediate_particles=["Lambda(2000)", "Delta(1232)", "K*(892)0"],
        formalism="canonical-helicity", mass_conservation_factor=0, max_angular_momentum=2),
    "D0 to K pi pi": dict(
        initial_state="D0", final_state=["K-", "pi+", "pi0"], allowed_intermediate_particles=["K*(892)", "rho(770)"],
        formalism="helicity"),
    "B0 to J/psi K pi": dict(
        initial_state="B0", final_state=["J/psi(1S)", "K+", "pi-"],
        allowed_intermediate_particles=["K*(892)", "K(2)*(1430)"], formalism="helicity"),
    "J/psi": dict(
        initial_state=[("J/psi(1S)", [-1, +1])], final_state=["K0", "Sigma+", "p~"], allowed_interaction_types="strong",
        allowed_intermediate_particles=["N(1700)+", "Sigma(1660)"], formalism="canonical-helicity"),
    "Xib to p K K": dict(
        initial_state="Xi(b)-", final_state=["p", "K-", "K-"], allowed_intermediate_particles=["Lambda(2000)", "Lambda(1520)"],
        formalism="helicity"),
}
FINAL = {"Lc to p K pi, bundled resonance": ("p", "K-", "pi+"), "D0 to K pi pi": ("K-", "pi+", "pi0"),
         "B0 to J/psi K pi": ("J/psi(1S)", "K+", "pi-"), "J/psi": ("K0", "Sigma+", "p~"),
         "Xib to p K K": ("p", "K-", "K-")}


def generate(name):
    qrules.settings.NumberOfThreads.set(1)
    with contextlib.redirect_stderr(io.StringIO()):
        return qrules.generate_transitions(**REACTIONS[name], particle_db=load_particles())


def listed(r):
    return (r["name"], r["latex"] or r["name"], F(r["spin"]), r["parity"], float(r["mass"]), float(r["width"]))


def converted(p):
    return (p.name, p.latex, F(int(p.spin.p), int(p.spin.q)), p.parity, float(p.mass), float(p.width))


def run(check):
    T = check.thorough
    defaults = fork_call(default_rows)
    declared = declared_rows()
    expected = {**defaults, **declared}
    if not declared:
        raise RuntimeError("no additional definitions")

    # --------------------------------------------------------------------- load histories
    victims = [next(iter(declared)), "Lambda(1520)", "p"]

    def compare(db, want, what):
        got = {p.name: row(p) for p in db}
        if len(db) != len(got):
            return f"{what} has {len(db)} entries but {len(got)} names"
        if set(got) != set(want):
            return f"{what}: missing {sorted(set(want) - set(got))[:5]}, unexpected {sorted(set(got) - set(want))[:5]}"
        for name in want:
            if got[name] != want[name]:
                bad = {k: (got[name][k], want[name][k]) for k in FIELDS if got[name][k] != want[name][k]}
                return f"{what}: {name} has (got, declared) {bad}"
        return None

    OPS = [("load",), ("load default",), ("chdir",)]
    OPS += [("remove", v) for v in victims] + [("replace", v) for v in victims[:2]] + [("add",)]

    def body_load(ch):
        return [ch.choose(f"op{i}", OPS) for i in range(2 if not T else 3)]

    def exec_load(ops):
        return fork_call(load_history, ops), len(ops)

    def load_history(ops):
        live = []  # (collection, expected rows)
        for step, op in enumerate(ops):
            if op[0] == "load":
                live.append((load_particles(), dict(expected)))
            elif op[0] == "load default":
                live.append((qrules.load_default_particles(), dict(defaults)))
            elif op[0] == "chdir":
                os.chdir(check.scratch)
            elif live:
                db, want = live[-1]
                if op[0] == "add":
                    new = QParticle(name="mine", pid=99999999 + step, mass=1.5, width=0.1, spin=1)
                    db.add(new)
                    want["mine"] = row(new)
                elif op[1] in want:
                    old = db[op[1]]
                    db.remove(old)
                    del want[op[1]]
                    if op[0] == "replace":
                        new = QParticle(name=old.name, pid=88888888, mass=9.25, width=1.5, spin=old.spin)
                        db.add(new)
                        want[old.name] = row(new)
            for n, (db, want) in enumerate(live):
                problem = compare(db, want, f"collection {n} after {ops[: step + 1]}")
                if problem:
                    return [Fail(problem)]
        for func, want in ((load_particles, expected), (qrules.load_default_particles, defaults)):
            problem = compare(func(), want, f"{func.__name__}() after {ops}")
            if problem:
                return [Fail(problem)]
        return []

    check.explore("loading histories", body_load, exec_load)

    # ------------------------------------------------ every listed particle in every role
    db = load_particles()
    names = sorted(p.name for p in db)

    def body_role(ch):
        name = ch.choose("particle", names)
        role = ch.choose("role", ["initial", "final1", "final2", "final3", "resonance"])
        return name, role, ch.choose("spectator", [1, 2, 3] if T else [2])

    def exec_role(cfg):
        name, role, k = cfg
        particles = {"initial": qr.particle("T"), "final1": qr.particle("a"), "final2": qr.particle("b"),
                     "final3": qr.particle("c"), "resonance": qr.particle("R1")}
        particles[role] = db[name]
        states = {i: QState(p, 0) for i, p in enumerate(particles.values())}
        t = FrozenTransition(qr.topology(k, (0, 1, 2, 3, 4)), states=states,
                             interactions={0: qr.interaction((1, F(3, 2))), 1: qr.interaction((0, F(1, 2)))})
        decay = to_three_body_decay([t])
        chain, = decay.chains
        got = {"initial": decay.states[0], "final1": decay.states[1], "final2": decay.states[2],
               "final3": decay.states[3], "resonance": chain.resonance}
        in_chain = {"initial": chain.initial_state, "resonance": chain.resonance,
                    **{f"final{s.index}": s for s in chain.final_state}}
        for r, q in particles.items():
            want = listed(expected[name] if r == role else row(q))
            for where in (got, in_chain):
                if converted(where[r]) != want:
                    return [Fail(f"{role} {name}: {r} is {converted(where[r])} instead of {want}")]
        return []

    check.explore("every listed particle in every role", body_role, exec_role)

    # --------------------------------------------------------------------- full reactions
    logging.disable(logging.WARNING)
    with mp.get_context("fork").Pool(len(REACTIONS)) as pool:
        generated = dict(zip(REACTIONS, pool.map(generate, REACTIONS, chunksize=1)))

    def body_reaction(ch):
        name = ch.choose("reaction", list(REACTIONS))
        first = ch.choose("preparation", ["none", "normalize", "normalize transitions", "permute", "permute, normalize"])
        order = ch.choose("order", ["given", "reversed", "rotated", "doubled"])
        min_ls = ch.choose("min_ls", [False, True, (True, False), (False, True)])
        if min_ls and REACTIONS[name]["formalism"] == "helicity":
            raise Prune
        return name, first, order, min_ls

    def exec_reaction(cfg):
        name, first, order, min_ls = cfg
        r = generated[name]
        ts = {
            "none": lambda: r.transitions,
            "normalize": lambda: normalize_state_ids(r).transitions,
            "normalize transitions": lambda: normalize_state_ids(r.transitions),
            "permute": lambda: permute_equal_final_states(r).transitions,
            "permute, normalize": lambda: permute_equal_final_states(normalize_state_ids(r)).transitions,
        }[first]()
        ts = list(ts)
        if order == "reversed":
            ts.reverse()
        elif order == "rotated":
            ts = ts[len(ts) // 2:] + ts[: len(ts) // 2]
        elif order == "doubled":
            ts = ts + ts
        decay = to_three_body_decay(ts, min_ls=min_ls)
        fails = []
        initial = next(iter(r.transitions[0].initial_states.values())).particle.name
        for i, particle_name in enumerate((initial, *FINAL[name])):
            if converted(decay.states[i]) != listed(expected[particle_name]) or decay.states[i].index != i:
                fails.append(Fail(f"{name}: state {i} is {decay.states[i]}, listed {listed(expected[particle_name])}"))
        resonances = {next(iter(t.intermediate_states.values())).particle.name for t in r.transitions}
        got = {c.resonance.name for c in decay.chains}
        if got != resonances:
            fails.append(Fail(f"{name}: resonances {sorted(got)} instead of {sorted(resonances)}"))
        for c in decay.chains:
            if converted(c.resonance) != listed(expected[c.resonance.name]):
                fails.append(Fail(f"{name}: resonance {c.resonance}, listed {listed(expected[c.resonance.name])}"))
            if {s.index: s for s in c.final_state} != {i: decay.states[i] for i in (1, 2, 3)} or c.initial_state != decay.states[0]:
                fails.append(Fail(f"{name}: chain {c} does not have the states of the decay"))
            charge = sum(expected[s.name]["charge"] for s in c.decay_products)
            if charge != expected[c.resonance.name]["charge"]:
                fails.append(Fail(f"{name}: {c.resonance.name} decays to {[s.name for s in c.decay_products]}"))
        return fails

    check.explore("full reactions", body_reaction, exec_reaction)
