"""P14: conversion of transitions loses and invents no decay chain."""
import itertools
import logging
import warnings
from fractions import Fraction as F

import sympy as sp

from ampform_dpd.adapter.qrules import convert_transitions, to_three_body_decay
from mc import qr
from mc.core import Fail

ASSUMPTIONS = [
    "initial state IDs below final state IDs below intermediate state IDs, as in QRules; node 0 is the "
    "production and node 1 the decay vertex",
    "within one set, the LS couplings at a vertex are either given for all transitions of a resonance or for none",
]
H = F(1, 2)
# chains: (resonance, spectator, production LS, decay LS)
BASES = {
    "with LS": [
        # each pair of neighbours differs in one quantum number at one vertex
        ("R1", 1, (0, F(3, 2)), (1, F(1))), ("R1", 1, (2, F(3, 2)), (1, F(1))), ("R1", 1, (2, F(3, 2)), (1, F(0))),
        ("R1", 1, (2, H), (1, F(0))), ("R1", 1, (2, H), (2, F(0))),
        ("R1", 2, (0, F(3, 2)), (1, H)), ("R2", 3, (1, F(1)), (2, H)), ("R3", 2, (0, F(1)), (0, H)),
    ],
    "production LS": [
        ("R1", 1, (0, F(3, 2)), None), ("R1", 1, (1, F(3, 2)), None), ("R1", 3, (0, F(1)), None), ("R2", 2, (1, H), None),
    ],
    "without LS": [("R1", 1, None, None), ("R1", 2, None, None), ("R2", 1, None, None), ("R3", 3, None, None)],
}
IDS = [(0, 1, 2, 3, 4), (-1, 0, 1, 2, 3), (0, 1, 2, 3, 10), (-5, 2, 4, 7, 9), (1, 2, 3, 4, 5), (0, 1, 3, 5, 6)]
# projections: spin projection assignments over which the same chain repeats
PROJ = [(0, 0, 0, 0, 0), (1, 0, -H, H, -H), (-1, 0, H, H, F(3, 2))]
FINALS = [("a", "b", "c"), ("c", "a", "b"), ("a", "a", "b"), ("b", "b", "b")]


def describe_particle(p):
    return (p.name, p.latex, F(int(p.spin.p), int(p.spin.q)), p.parity, p.mass, p.width)


def expected_particle(key):
    name, latex, spin, parity, mass, width, _ = qr.PARTICLES[key]
    return (name, latex or name, spin, parity, mass, width)


def describe_ls(ls):
    return None if ls is None else (int(ls.L), F(int(ls.S.p), int(ls.S.q)))


def describe(decay):
    states = {i: (s.index, *describe_particle(s)) for i, s in decay.states.items()}
    chains = []
    for c in decay.chains:
        prods = tuple(sorted((p.index, *describe_particle(p)) for p in c.decay_products))
        chains.append((
            describe_particle(c.resonance), (c.spectator.index, *describe_particle(c.spectator)), prods,
            (c.parent.index, *describe_particle(c.parent)),
            describe_ls(c.incoming_ls), describe_ls(c.outgoing_ls),
        ))
    return states, chains


def expected(chains, finals):
    p = {0: (0, *expected_particle("T")), **{i: (i, *expected_particle(f)) for i, f in enumerate(finals, 1)}}
    out = set()
    for res, k, prod, dec in chains:
        out.add((expected_particle(res), p[k], tuple(p[i] for i in (1, 2, 3) if i != k), p[0], prod, dec))
    return p, out


def compare(decay, chains, finals, what):
    states, got = describe(decay)
    want_states, want = expected(chains, finals)
    fails = []
    if states != want_states:
        fails.append(Fail(f"{what}: states {states}, expected {want_states}"))
    if len(got) != len(set(got)):
        fails.append(Fail(f"{what}: a chain occurs more than once: {got}"))
    if set(got) != want:
        fails.append(Fail(f"{what}: lost {sorted(map(str, want - set(got)))}, invented {sorted(map(str, set(got) - want))}"))
    return fails


def reverse_dicts(t):
    from qrules.topology import FrozenTransition, Topology

    topo = Topology(nodes=t.topology.nodes, edges=dict(reversed(list(t.topology.edges.items()))))
    return FrozenTransition(topo, dict(reversed(list(t.states.items()))), dict(reversed(list(t.interactions.items()))))


ORDERS = {"listed": lambda x: x, "reversed": lambda x: x[::-1], "rotated": lambda x: x[1:] + x[:1],
          "interleaved": lambda x: x[::2] + x[1::2]}
CONTAINERS = {"tuple": tuple, "list": list, "generator": lambda x: (t for t in x), "set": set}


def run(check):
    T = check.thorough
    logging.disable(logging.WARNING)

    def body(ch):
        basis = ch.choose("base", list(BASES))
        base = BASES[basis]
        subset = [c for c in base if ch.flag(f"{c[0]} spectator {c[1]} {c[2]} {c[3]}")]
        if not subset:
            from mc.core import Prune
            raise Prune
        order = ch.choose("order", list(ORDERS) if T else list(ORDERS)[:3])
        ids = ch.choose("ids", IDS if T else IDS[:4])
        dup = ch.choose("copies", ["single", "projections", "identical"])
        return subset, order, ids, dup

    def execute(cfg):
        subset, order, ids, dup = cfg
        ts = []
        for n, c in enumerate(subset):
            if dup == "single":
                ts.append(qr.transition(c, ids, PROJ[n % len(PROJ)]))
            elif dup == "projections":
                ts += [qr.transition(c, ids, p, ls_projection=q) for p, q in itertools.product(PROJ, (0, 1))]
            else:
                ts += [qr.transition(c, ids, PROJ[1])] * 2
        ts = ORDERS[order](ts)
        before = list(ts)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            decay = to_three_body_decay(ts)
        fails = compare(decay, subset, ("a", "b", "c"), "conversion")
        if before != ts:
            fails.append(Fail("input list was changed"))
        return fails, len(ts)

    check.explore("subsets of chains", body, execute)

    # ----------------------------------------- presentation of one set of transitions
    def body_pres(ch):
        return (ch.choose("base", list(BASES)), ch.choose("finals", FINALS), ch.choose("order", list(ORDERS)),
                ch.choose("ids", IDS), ch.choose("container", list(CONTAINERS)), ch.flag("reverse mappings"),
                ch.choose("converted before", ["no", "yes", "twice"]))

    def execute_pres(cfg):
        basis, finals, order, ids, container, rev, conv = cfg
        ts = [qr.transition(c, ids, p, finals=finals) for c in BASES[basis] for p in PROJ[:2]]
        ts = ORDERS[order](ts)
        if rev:
            ts = [reverse_dicts(t) for t in ts]
        for _ in range({"no": 0, "yes": 1, "twice": 2}[conv]):
            ts = list(convert_transitions(ts))
            if ids[:4] != (0, 1, 2, 3):
                # conversion keeps IDs; states carry them
                for t in ts:
                    for i, s in {**t.initial_states, **t.final_states}.items():
                        if s.index != i:
                            return [Fail(f"converted state {s.name} has index {s.index}, expected {i}")]
        if conv != "no" and ids[:4] != (0, 1, 2, 3):
            return [], len(ts)  # converted states keep their own index by design
        return compare(to_three_body_decay(CONTAINERS[container](ts)), BASES[basis], finals, "conversion"), len(ts)

    check.explore("presentations of one set", body_pres, execute_pres)

    # ------------------------------------------------------------------- refusals
    from qrules.topology import Edge, FrozenTransition, Topology
    from qrules.transition import State as QState

    def malformed():
        st = lambda k: QState(qr.particle(k), 0)  # noqa: E731
        one = qr.interaction((0, F(1)))
        three = qr.transition(BASES["with LS"][0])
        yield "no transitions", []
        yield "two-body decay", [FrozenTransition(
            Topology({0}, {0: Edge(None, 0), 1: Edge(0, None), 2: Edge(0, None)}),
            {0: st("T"), 1: st("a"), 2: st("b")}, {0: one})]
        yield "direct three-body decay", [FrozenTransition(
            Topology({0}, {0: Edge(None, 0), **{i: Edge(0, None) for i in (1, 2, 3)}}),
            {0: st("T"), 1: st("a"), 2: st("b"), 3: st("c")}, {0: one})]
        yield "four-body cascade with two nodes", [FrozenTransition(
            Topology({0, 1}, {0: Edge(None, 0), 1: Edge(0, None), 2: Edge(0, None), 5: Edge(0, 1), 3: Edge(1, None),
                              4: Edge(1, None)}),
            {0: st("T"), 1: st("a"), 2: st("b"), 3: st("c"), 4: st("a"), 5: st("R1")}, {0: one, 1: one})]
        yield "four-body cascade with three nodes", [FrozenTransition(
            Topology({0, 1, 2}, {0: Edge(None, 0), 1: Edge(0, None), 5: Edge(0, 1), 2: Edge(1, None), 6: Edge(1, 2),
                                 3: Edge(2, None), 4: Edge(2, None)}),
            {0: st("T"), 1: st("a"), 2: st("b"), 3: st("c"), 4: st("a"), 5: st("R1"), 6: st("R2")},
            {0: one, 1: one, 2: one})]
        yield "two initial states", [FrozenTransition(
            Topology({0, 1}, {0: Edge(None, 0), -1: Edge(None, 0), 1: Edge(0, None), 5: Edge(0, 1), 2: Edge(1, None),
                              3: Edge(1, None)}),
            {0: st("T"), -1: st("T"), 1: st("a"), 2: st("b"), 3: st("c"), 5: st("R1")}, {0: one, 1: one})]
        yield "one- to two-body rescattering", [FrozenTransition(
            Topology({0, 1}, {0: Edge(None, 0), 1: Edge(0, 1), 2: Edge(0, 1), 3: Edge(1, None)}),
            {0: st("T"), 1: st("R1"), 2: st("R2"), 3: st("a")}, {0: one, 1: one})]
        for pos in (0, 1):
            for n in (4, 6):  # a chain of the same resonance and subsystem, and another one
                other = qr.transition(BASES["with LS"][n], finals=("c", "a", "b"))
                yield f"different final states ({pos}, {n})", [three, other][:: 1 if pos else -1]
                other = qr.transition(BASES["with LS"][n], initial="R2")
                yield f"different initial states ({pos}, {n})", [three, other][:: 1 if pos else -1]
                other = qr.transition(BASES["with LS"][n], IDS[1])
                yield f"different state IDs ({pos}, {n})", [three, other][:: 1 if pos else -1]

    cases = [(n, t) for n, t in malformed()]
    singles = [(n, t) for n, t in cases if len(t) == 1]
    three = qr.transition(BASES["with LS"][0])
    cases += [(f"{n} after a valid transition", [three, *t]) for n, t in singles]
    cases += [(f"{n} before a valid transition", [*t, three]) for n, t in singles]

    def body_bad(ch):
        case = ch.choose("case", cases)
        return case, ch.choose("min_ls", [False, True, (False, False)] + [(True, False)] * T), ch.choose("ids", ["as given", "shifted"])

    def execute_bad(cfg):
        (name, ts), min_ls, ids = cfg
        if ids == "shifted":
            ts = [FrozenTransition(t.topology.relabel_edges({i: i - 1 for i in t.topology.edges}),
                                   {i - 1: s for i, s in t.states.items()}, t.interactions) for t in ts]
        try:
            decay = to_three_body_decay(ts, min_ls=min_ls)
        except Exception:
            return []
        if name.startswith("different state IDs"):  # may be refused or relabelled
            n = int(name[-2])
            return [] if min_ls is True else compare(decay, [BASES["with LS"][i] for i in (0, n)], "abc", name)
        return [Fail(f"{name} is accepted: {len(decay.chains)} chains")]

    check.explore("refusals", body_bad, execute_bad, jobs=1)

    # ---------------------------------------------------------- generated reactions
    import qrules

    for name in list(qr.REACTIONS)[: 5 if T else 4]:
        qr.reaction(name)

    def body_real(ch):
        which = ch.choose("reaction", list(qr.REACTIONS) if T else list(qr.REACTIONS)[:4])
        return (which, ch.choose("order", list(ORDERS)), ch.choose("ids", ["qrules", "normalised"]))

    def execute_real(cfg):
        from ampform_dpd.adapter.qrules import normalize_state_ids

        which, order, ids = cfg
        reaction = qr.reaction(which)
        ts = list(reaction.transitions)
        want = set()
        offset = 1 - min(reaction.final_state)
        for t in ts:
            (rid, res), *_ = t.intermediate_states.items()
            prods = tuple(sorted(i + offset for i in t.topology.get_edge_ids_outgoing_from_node(1)))
            ls = [(None if i.l_magnitude is None or i.s_magnitude is None else (int(i.l_magnitude), F(i.s_magnitude)))
                  for i in (t.interactions[0], t.interactions[1])]
            want.add((res.particle.name, prods, *ls))
        if ids == "normalised":
            ts = normalize_state_ids(ts)
        decay = to_three_body_decay(ORDERS[order](ts))
        got = [(c.resonance.name, tuple(sorted(p.index for p in c.decay_products)), describe_ls(c.incoming_ls),
                describe_ls(c.outgoing_ls)) for c in decay.chains]
        fails = []
        if len(got) != len(set(got)) or set(got) != want:
            fails.append(Fail(f"{which}: chains {sorted(map(str, got))}, expected {sorted(map(str, want))}"))
        db = qrules.load_default_particles()
        for p in [*decay.states.values(), *(c.resonance for c in decay.chains)]:
            q = db[p.name]
            if describe_particle(p) != (q.name, q.latex or q.name, F(q.spin), None if q.parity is None else int(q.parity),
                                        q.mass, q.width):
                fails.append(Fail(f"{which}: {p} differs from {q}"))
        return fails, len(ts)

    check.explore("generated reactions", body_real, execute_real)

