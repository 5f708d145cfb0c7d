"""P16: state relabelling and identical-particle symmetrisation are exact."""
import copy
import itertools
import logging
from collections import Counter
from fractions import Fraction as F

import attrs
from qrules.quantum_numbers import InteractionProperties
from qrules.topology import Edge, FrozenTransition, MutableTransition, Topology
from qrules.transition import ReactionInfo
from qrules.transition import State as QState

from ampform_dpd.adapter.qrules import convert_transitions, normalize_state_ids, permute_equal_final_states, to_three_body_decay
from checks.p14 import IDS, PROJ, reverse_dicts
from mc import qr
from mc.core import Fail, Prune

ASSUMPTIONS = [
    "topologies of one decaying state with up to four final states; one group of identical final-state particles",
    "symmetrisation is specified per input transition, as for a three-body cascade (one isobar)",
]
H = F(1, 2)

# shapes: edges in terms of roles i (initial), f0.. (final), r0.. (intermediate)
SHAPES = {
    "two-body": {"i0": (None, 0), "f0": (0, None), "f1": (0, None)},
    "direct three-body": {"i0": (None, 0), "f0": (0, None), "f1": (0, None), "f2": (0, None)},
    "cascade k=1": {"i0": (None, 0), "f0": (0, None), "r0": (0, 1), "f1": (1, None), "f2": (1, None)},
    "cascade k=2": {"i0": (None, 0), "f1": (0, None), "r0": (0, 1), "f0": (1, None), "f2": (1, None)},
    "cascade k=3": {"i0": (None, 0), "f2": (0, None), "r0": (0, 1), "f0": (1, None), "f1": (1, None)},
    "four-body, two pairs": {"i0": (None, 0), "r0": (0, 1), "r1": (0, 2), "f0": (1, None), "f3": (1, None),
                             "f1": (2, None), "f2": (2, None)},
    "four-body, chain": {"i0": (None, 0), "r0": (0, 1), "f2": (0, None), "r1": (1, 2), "f0": (1, None),
                         "f1": (2, None), "f3": (2, None)},
}
KINDS = ["T", "a", "b", "c", "R1", "R2", "R3"]


def run(check):
    T = check.thorough
    logging.disable(logging.WARNING)
    pools = [-7, -1, 0, 1, 2, 5, 9] if not T else [-7, -3, -1, 0, 1, 2, 3, 5, 9, 12]

    def build(shape, ids, proj=0):
        """ids: injective map from role to ID."""
        edges = {ids[r]: Edge(*e) for r, e in SHAPES[shape].items()}
        nodes = {n for e in SHAPES[shape].values() for n in e if n is not None}
        topo = Topology(nodes, edges)
        states = {ids[r]: QState(qr.particle(KINDS[n % len(KINDS)]), proj + (F(n) if n % 2 else 0))
                  for n, r in enumerate(SHAPES[shape])}
        inter = {n: InteractionProperties(l_magnitude=n, s_magnitude=n + H, l_projection=0, s_projection=0) for n in nodes}
        return topo, states, inter

    def expect_topology(shape, ids):
        rank = {i: n for n, i in enumerate(sorted(ids.values()))}
        return {rank[ids[r]]: tuple(e) for r, e in SHAPES[shape].items()}, rank

    def check_topology(topo, want, nodes):
        got = {i: (e.originating_node_id, e.ending_node_id) for i, e in topo.edges.items()}
        return [] if got == want and set(topo.nodes) == nodes else [Fail(f"edges {got}, nodes {set(topo.nodes)}, expected {want}")]

    # ------------------------------------------- every injective labelling of a shape
    def body(ch):
        shape = ch.choose("shape", list(SHAPES) if T else list(SHAPES)[:5])
        roles = list(SHAPES[shape])
        if len(roles) <= 5:
            ids = {}
            # every order pattern of the IDs, i.e. every permutation of ranks ...
            left = list(range(len(roles)))
            for r in roles:
                ids[r] = ch.choose(f"rank of {r}", left)
                left.remove(ids[r])
            spread = ch.choose("values", ["compact", "shifted", "sparse", "negative"])
        else:
            order = ch.choose("order", ["listed", "reversed", "rotated", "interleaved"])
            names = {"listed": roles, "reversed": roles[::-1], "rotated": roles[2:] + roles[:2],
                     "interleaved": roles[::2] + roles[1::2]}[order]
            ids = {r: n for n, r in enumerate(names)}
            spread = ch.choose("values", ["compact", "shifted", "sparse", "negative"])
        f = {"compact": lambda x: x, "shifted": lambda x: x + 1, "sparse": lambda x: x * x + 3 * x,
             "negative": lambda x: 2 * x - 5}[spread]
        ids = {r: f(n) for r, n in ids.items()}
        return shape, ids

    def execute(cfg):
        shape, ids = cfg
        topo, states, inter = build(shape, ids)
        want, rank = expect_topology(shape, ids)
        nodes = set(inter)
        fails = []

        def check_transition(t, typ, what):
            out = check_topology(t.topology, want, nodes)
            if type(t) is not typ:
                out.append(Fail(f"{what}: type {type(t)}"))
            if {i: s for i, s in t.states.items()} != {rank[i]: s for i, s in states.items()}:
                out.append(Fail(f"{what}: states {dict(t.states)}, expected order-preserving relabelling of {states}"))
            if dict(t.interactions) != inter:
                out.append(Fail(f"{what}: interactions changed"))
            return out

        frozen = FrozenTransition(topo, states, inter)
        before = copy.deepcopy((dict(states), dict(topo.edges)))
        fails += check_topology(normalize_state_ids(topo), want, nodes)
        one = normalize_state_ids(frozen)
        fails += check_transition(one, FrozenTransition, "frozen")
        fails += check_transition(normalize_state_ids(reverse_dicts(frozen)), FrozenTransition, "reversed mappings")
        mutable = MutableTransition(topo, dict(states), dict(inter))
        m = normalize_state_ids(mutable)
        fails += check_transition(m, MutableTransition, "mutable")
        if dict(mutable.states) != states or mutable.topology is not topo:
            fails.append(Fail("mutable input was changed"))
        else:
            m.states.clear()
            m.interactions.clear()
            if dict(mutable.states) != states:
                fails.append(Fail("changing the result of a mutable transition changes the input"))
        if normalize_state_ids(one) != one:
            fails.append(Fail("normalising twice differs from normalising once"))
        for cont in (list, tuple, iter):
            many = normalize_state_ids(cont([frozen, one, frozen]))
            if many != [one, one, one]:
                fails.append(Fail(f"{cont.__name__} of transitions is normalised to {many}"))
        nested = normalize_state_ids([[topo], [frozen, topo]])
        if nested != [[one.topology], [one, one.topology]]:
            fails.append(Fail("nested iterables disagree"))
        info = ReactionInfo([frozen], formalism="helicity")
        r = normalize_state_ids(info)
        if list(r.transitions) != [one] or r.formalism != "helicity":
            fails.append(Fail(f"reaction normalised to {r}"))
        for side in ("initial", "final"):
            have = getattr(r, f"{side}_state")
            expect = {rank[i]: s.particle for i, s in getattr(frozen, f"{side}_states").items()}
            if dict(have) != expect:
                fails.append(Fail(f"{side} state of the normalised reaction is {have}, expected {expect}"))
        if before != (dict(frozen.states), dict(frozen.topology.edges)):
            fails.append(Fail("input was changed"))
        return fails, 10

    check.explore("labellings", body, execute)

    # ------------------------------------------------- reactions and problem sets
    import qrules

    names = ["J/psi canonical", "a1 to 3 pi"]
    for n in names:
        qr.reaction(n)
    stm = qrules.StateTransitionManager(
        initial_state=[("J/psi(1S)", [-1, +1])], final_state=["K0", "Sigma+", "p~"],
        allowed_intermediate_particles=["N(1700)", "Sigma(1750)"], formalism="helicity", mass_conservation_factor=0)
    problem_sets = [p for group in stm.create_problem_sets().values() for p in group]

    def body_real(ch):
        what = ch.choose("input", [*names, "problem sets"])
        return what, ch.choose("shift", [0, 3, -4]) if what != "problem sets" else ch.choose("number", list(range(len(problem_sets))))

    def execute_real(cfg):
        what, n = cfg
        fails = []
        if what == "problem sets":
            p = problem_sets[n]
            q = normalize_state_ids(p)
            rank = {old: new for new, old in enumerate(sorted(p.topology.edges))}
            if {i: (e.originating_node_id, e.ending_node_id) for i, e in q.topology.edges.items()} != \
                    {rank[i]: (e.originating_node_id, e.ending_node_id) for i, e in p.topology.edges.items()}:
                fails.append(Fail("topology of the problem set"))
            for part in ("initial_facts", "solving_settings"):
                a, b = getattr(p, part), getattr(q, part)
                if dict(b.states) != {rank[i]: s for i, s in a.states.items()} or dict(a.interactions) != dict(b.interactions):
                    fails.append(Fail(f"{part} of the problem set"))
            if normalize_state_ids(q) != q:
                fails.append(Fail("problem set: not idempotent"))
            return fails
        r0 = qr.reaction(what)
        r = ReactionInfo([FrozenTransition(t.topology.relabel_edges({i: 2 * i + n for i in t.topology.edges}),
                                           {2 * i + n: s for i, s in t.states.items()}, t.interactions)
                          for t in r0.transitions], formalism=r0.formalism)
        a, b = normalize_state_ids(r), normalize_state_ids(r0)
        if a != b:
            fails.append(Fail("shifted reaction normalises differently"))
        if list(normalize_state_ids(r.transitions)) != list(b.transitions):
            fails.append(Fail("reaction and its transitions are normalised differently"))
        if len(a.transitions) != len(r0.transitions):
            fails.append(Fail("number of transitions changed"))
        return fails

    check.explore("reactions and problem sets", body_real, execute_real)

    # ------------------------------------------------------------ identical particles
    FINALS = [fs for fs in itertools.product(("a", "b", "a~") if not T else ("a", "b", "c", "a~"), repeat=3)]

    def body_perm(ch):
        finals = ch.choose("finals", FINALS)
        k = ch.choose("spectator", [1, 2, 3])
        ids = ch.choose("ids", IDS)
        form = ch.choose("form", ["raw", "converted"])
        proj = ch.choose("projections", PROJ if T else PROJ[1:])
        return finals, k, ids, form, proj

    def assignments(finals, k):
        """All spectators reachable by exchanging identical particles: set of spectators k'."""
        # exchanging two identical particles i and j maps spectator i to j and vice versa; exchanging
        # the two decay products gives the same cascade
        return {kk for kk in (1, 2, 3) if kk == k or finals[kk - 1] == finals[k - 1]}

    def spectator(t, ids):
        (rid,) = t.intermediate_states
        (s,) = [i for i in t.topology.get_edge_ids_outgoing_from_node(0) if i != rid]
        return ids.index(s)

    def execute_perm(cfg):
        finals, k, ids, form, proj = cfg
        t = qr.transition(("R1", k, (0, F(1)), (1, H)), ids, proj, finals=finals)
        if form == "converted":
            (t,) = convert_transitions([t])
        fails = []
        out = permute_equal_final_states(t)
        got = Counter(spectator(x, ids) for x in out)
        want = Counter(assignments(finals, k))
        if got != want:
            fails.append(Fail(f"spectators {dict(got)} for final state {finals}, input spectator {k}; expected each of {sorted(want)} once"))
        if t not in out:
            fails.append(Fail("input transition is not in the result"))
        if len(set(out)) != len(out):
            fails.append(Fail("a transition occurs more than once"))
        for x in out:
            if dict(x.states) != dict(t.states) or dict(x.interactions) != dict(t.interactions):
                fails.append(Fail("states or interactions changed"))
            if x.topology.nodes != t.topology.nodes or set(x.topology.edges) != set(t.topology.edges):
                fails.append(Fail("topology lost nodes or edges"))
            if Counter(permute_equal_final_states(x)) != Counter(out):
                fails.append(Fail("not closed: permuting a member gives a different set"))
        # containers
        if Counter(permute_equal_final_states([t])) != Counter(out) or Counter(permute_equal_final_states(iter([t]))) != Counter(out):
            fails.append(Fail("list of one transition is permuted differently"))
        other = attrs.evolve(t, topology=t.topology.swap_edges(ids[k], ids[k % 3 + 1]))
        both = Counter(permute_equal_final_states((t, other)))
        if both != Counter(out) + Counter(permute_equal_final_states(other)):
            fails.append(Fail("tuple of two transitions is not permuted one by one"))
        if form == "raw":
            info = ReactionInfo([t], formalism="helicity")
            res = permute_equal_final_states(info)
            if Counter(res.transitions) != Counter(out) or res.formalism != "helicity":
                fails.append(Fail("reaction is permuted differently"))
            if list(info.transitions) != [t]:
                fails.append(Fail("input reaction was changed"))
        if ids[:4] == (0, 1, 2, 3):
            decay = to_three_body_decay(out)
            if Counter(c.spectator.index for c in decay.chains) != want:
                fails.append(Fail("decay of the symmetrised transitions has other chains"))
        return fails, 8

    check.explore("identical final-state particles", body_perm, execute_perm)

    # sets of transitions with different resonances: each symmetrised on its own
    def body_many(ch):
        finals = ch.choose("finals", [("a", "a", "b"), ("a", "b", "a"), ("b", "a", "a"), ("a", "a", "a"), ("a", "b", "c"),
                                      ("a", "a~", "b"), ("a~", "a", "a")])
        chains = [(r, k, None, None) for r in ("R1", "R2") for k in (1, 2, 3) if ch.flag(f"{r} spectator {k}")]
        if not chains:
            raise Prune
        return finals, chains, ch.choose("container", ["list", "reaction", "generator"])

    def execute_many(cfg):
        finals, chains, cont = cfg
        ts = [qr.transition(c, (0, 1, 2, 3, 4), finals=finals) for c in chains]
        arg = {"list": ts, "reaction": ReactionInfo(ts, formalism="helicity"), "generator": (t for t in ts)}[cont]
        out = permute_equal_final_states(arg)
        if cont == "reaction":
            out = out.transitions
        got = Counter((next(iter(t.intermediate_states.values())).particle.name, spectator(t, (0, 1, 2, 3, 4))) for t in out)
        want = Counter((r, kk) for r, k, *_ in chains for kk in assignments(finals, k))
        if got != want:
            return [Fail(f"{finals}: {dict(got)}, expected {dict(want)}")]
        decay = to_three_body_decay(out)
        have = sorted((c.resonance.name, c.spectator.index) for c in decay.chains)
        if have != sorted(want):
            return [Fail(f"{finals}: chains {have}, expected {sorted(want)}")]
        return []

    check.explore("sets of transitions", body_many, execute_many)

    def body_bad(ch):
        return ch.choose("object", [3, None, 1.5, qr.particle("a")])

    def execute_bad(obj):
        out = []
        for f in (normalize_state_ids, permute_equal_final_states):
            try:
                r = f(obj)
            except Exception:
                continue
            out.append(Fail(f"{f.__name__}({obj!r}) = {r!r}"))
        return out

    check.explore("refusals", body_bad, execute_bad, jobs=1)
