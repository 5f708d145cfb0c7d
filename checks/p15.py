"""P15: minimum-LS filtering keeps one minimal coupling per chain."""
import itertools
import logging
from collections import Counter
from fractions import Fraction as F

from ampform_dpd.adapter.qrules import convert_transitions, filter_min_ls, normalize_state_ids, to_three_body_decay
from checks.p14 import ORDERS, PROJ, describe, describe_ls, expected, reverse_dicts
from mc import qr
from mc.core import Fail, Prune

ASSUMPTIONS = [
    "the LS couplings at a vertex are either given for all transitions of a resonance and subsystem or for none",
    "the minimum is taken per vertex: L first, then S",
]
H = F(1, 2)
PRODS = [(0, F(1)), (2, F(1)), (2, F(2)), (1, F(2))]
DECS = [(1, H), (1, F(3, 2)), (0, F(3, 2))]


def run(check):
    T = check.thorough
    logging.disable(logging.WARNING)

    # --------------------------------- every set of (prod, dec) couplings of one chain
    pairs = list(itertools.product(PRODS if T else PRODS[:3], DECS))[: None if T else 9]
    MIN = [False, True, (True, False), (False, True), (False, False), (True, True)]

    def body(ch):
        kind = ch.choose("kind", ["both", "production only", "decay only", "none"])
        if kind == "both":
            sub = [p for p in pairs if ch.flag(str(p))]
        elif kind == "production only":
            sub = [(p, None) for p in PRODS if ch.flag(str(p))]
        elif kind == "decay only":
            sub = [(None, p) for p in DECS if ch.flag(str(p))]
        else:
            sub = [(None, None)]
        if not sub:
            raise Prune
        min_ls = ch.choose("min_ls", MIN if T else MIN[:5])
        order = ch.choose("order", ["listed", "reversed"] if len(sub) > 1 else ["listed"])
        return sub, min_ls, order

    def nodes_of(min_ls):
        if min_ls is True:
            return {0, 1}
        if min_ls is False:
            return None
        return {n for n, flag in enumerate(min_ls) if flag}

    def filtered(chains, nodes):
        """Reference: set of chains (resonance, k, prod, dec) left after filtering."""
        groups = {}
        for res, k, *ls in chains:
            key = (res, k, *(None if n in nodes else v for n, v in enumerate(ls)))
            groups.setdefault(key, []).append(ls)
        out = set()
        for (res, k, *_), members in groups.items():
            new = []
            for n in (0, 1):
                vals = [m[n] for m in members]
                new.append(None if any(v is None for v in vals) else min(vals))
            out.add((res, k, *new))
        return out

    def compare_filtered(chains, min_ls, transitions, what):
        nodes = nodes_of(min_ls)
        want_chains = set(chains) if nodes is None else filtered(chains, nodes)
        _, want = expected(want_chains, ("a", "b", "c"))
        _, got = describe(to_three_body_decay(transitions, min_ls=min_ls))
        fails = []
        if Counter(got) != Counter(want):
            fails.append(Fail(f"{what}, min_ls={min_ls}: from {chains} got LS {[(g[0][0], g[1][0], g[4], g[5]) for g in got]}, "
                              f"expected {sorted(map(str, want_chains))}"))
        return fails

    def execute(cfg):
        sub, min_ls, order = cfg
        chains = [("R1", 1, *ls) for ls in sub]
        ts = ORDERS[order]([qr.transition(c) for c in chains])
        return compare_filtered(chains, min_ls, ts, "one resonance")

    check.explore("couplings of one chain", body, execute)

    # ---------------- several resonances and subsystems; direct calls of the filter
    POOL = [
        ("R1", 1, (0, F(1)), (1, F(3, 2))), ("R1", 1, (2, F(1)), (0, F(3, 2))), ("R1", 1, (0, F(2)), (1, H)),
        ("R1", 2, (2, F(2)), (1, F(3, 2))), ("R1", 2, (1, F(2)), (2, H)), ("R1", 3, (1, F(1)), (2, F(3, 2))),
        ("R2", 1, (1, F(1)), (1, H)), ("R2", 1, (0, F(2)), (1, H)),
        ("R3", 1, (2, F(1)), (1, H)),
        ("R3", 3, None, None),
        ("R2", 2, (2, F(1)), None), ("R2", 2, (1, F(1)), None),
    ]
    pool = POOL if T else [*POOL[:7], *POOL[9:]]
    NODES = [None, set(), {0}, {1}, {0, 1}]

    def body_pool(ch):
        sub = [c for c in pool if ch.flag(f"{c[0]} k={c[1]} {c[2]} {c[3]}")]
        if not sub:
            raise Prune
        return sub, ch.choose("nodes", NODES if T else NODES[1:]), ch.choose("order", list(ORDERS) if T else ["listed", "rotated"])

    def chain_of(t):
        (rid, res), *_ = t.intermediate_states.items()
        (k,) = [i for i in t.topology.get_edge_ids_outgoing_from_node(0) if i != rid]
        return res.name, k, describe_ls(t.interactions[0]), describe_ls(t.interactions[1])

    def execute_pool(cfg):
        sub, nodes, order = cfg
        ts = convert_transitions([qr.transition(c) for c in sub])
        ts = ORDERS[order](ts)
        once = filter_min_ls(ts, nodes) if nodes is not None else filter_min_ls(ts)
        nodes = {0, 1} if nodes is None else nodes
        fails = []
        names = [chain_of(t) for t in once]
        want = filtered(sub, nodes)
        if Counter(names) != Counter(want):
            fails.append(Fail(f"filter_min_ls({nodes}) of {sub} gives {sorted(map(str, names))}, "
                              f"expected {sorted(map(str, want))}"))
        if Counter(filter_min_ls(once, nodes)) != Counter(once):
            fails.append(Fail("filtering twice differs from filtering once"))
        if Counter(filter_min_ls((t for t in ts), nodes)) != Counter(once):
            fails.append(Fail("filtering a generator differs from filtering a tuple"))
        if Counter(filter_min_ls([reverse_dicts(t) for t in ts], nodes)) != Counter(once):
            fails.append(Fail("order of mappings within the transitions changes the result"))
        if nodes == {0, 1}:
            # the vertices are independent of each other
            if Counter(filter_min_ls(filter_min_ls(ts, {0, 1}), {1})) != Counter(once):
                fails.append(Fail("filtering an already minimal vertex changes the result"))
        for t in once:
            for i, s in t.states.items():
                src = [u for u in ts if chain_of(u)[:2] == chain_of(t)[:2]]
                if all(u.states[i] != s for u in src):
                    fails.append(Fail(f"state {i} of {t} was changed"))
        return fails

    check.explore("sets of chains", body_pool, execute_pool)

    # ----------------------------------- unconverted transitions: one per projection too
    def body_raw(ch):
        sub = [c for c in POOL[:9] if ch.flag(f"{c[0]} k={c[1]} {c[2]} {c[3]}")]
        if not sub:
            raise Prune
        return sub, ch.choose("nodes", NODES[1:]), ch.choose("entry", ["filter", "min_ls"])

    def execute_raw(cfg):
        sub, nodes, entry = cfg
        ts = [qr.transition(c, projections=p) for c in sub for p in (PROJ[0], PROJ[2])]
        if entry == "min_ls":
            return compare_filtered(sub, tuple(n in nodes for n in (0, 1)), ts, "several projections")
        out = filter_min_ls(ts, nodes)

        def chain(t):
            (rid, res), *_ = t.intermediate_states.items()
            (k,) = [i for i in t.topology.get_edge_ids_outgoing_from_node(0) if i != rid]
            ls = [None if n.l_magnitude is None else (int(n.l_magnitude), F(n.s_magnitude))
                  for n in (t.interactions[0], t.interactions[1])]
            return res.particle.name, k, *ls, F(res.spin_projection)

        got = Counter(map(chain, out))
        want = Counter((*c, m) for c in filtered(sub, nodes) for m in (F(0), F(3, 2)))
        if got != want:
            return [Fail(f"filter_min_ls({nodes}) of raw transitions gives {got}, expected {want}")]
        return []

    check.explore("unconverted transitions", body_raw, execute_raw)

    # --------------------------------------------------------------- refused input
    from qrules.topology import Edge, FrozenTransition, Topology

    def body_bad(ch):
        return ch.choose("case", ["no transitions", "one vertex", "three vertices", "vertex IDs 1 and 2"])

    def execute_bad(case):
        t = qr.transition(POOL[0])
        st = lambda n: qr.QState(qr.particle(n), 0)  # noqa: E731
        one = qr.interaction((0, F(1)))
        ts = {
            "no transitions": [],
            "one vertex": [FrozenTransition(Topology({0}, {0: Edge(None, 0), 1: Edge(0, None), 2: Edge(0, None)}),
                                            {0: st("T"), 1: st("a"), 2: st("b")}, {0: one})],
            "three vertices": [FrozenTransition(
                Topology({0, 1, 2}, {0: Edge(None, 0), 1: Edge(0, None), 5: Edge(0, 1), 2: Edge(1, None), 6: Edge(1, 2),
                                     3: Edge(2, None), 4: Edge(2, None)}),
                {0: st("T"), 1: st("a"), 2: st("b"), 3: st("c"), 4: st("a"), 5: st("R1"), 6: st("R2")},
                {0: one, 1: one, 2: one})],
            "vertex IDs 1 and 2": [FrozenTransition(
                Topology({1, 2}, {i: Edge(None if e.originating_node_id is None else e.originating_node_id + 1,
                                          None if e.ending_node_id is None else e.ending_node_id + 1)
                                  for i, e in t.topology.edges.items()}),
                t.states, {i + 1: n for i, n in t.interactions.items()})],
        }[case]
        try:
            out = filter_min_ls(ts)
        except Exception:
            return []
        return [Fail(f"{case} is accepted: {out}")]

    check.explore("refusals", body_bad, execute_bad, jobs=1)

    # ---------------------------------------------------------- generated reactions
    which = ["J/psi canonical", *(["Lc to p K pi"] if T else [])]
    for name in which:
        qr.reaction(name)

    def body_real(ch):
        return ch.choose("reaction", which), ch.choose("min_ls", MIN), ch.choose("order", list(ORDERS))

    def execute_real(cfg):
        name, min_ls, order = cfg
        ts = normalize_state_ids(qr.reaction(name).transitions)
        chains = set()
        for t in ts:
            (rid, res), *_ = t.intermediate_states.items()
            (k,) = [i for i in t.topology.get_edge_ids_outgoing_from_node(0) if i != rid]
            chains.add((res.particle.name, k, *((int(t.interactions[n].l_magnitude), F(t.interactions[n].s_magnitude))
                                                for n in (0, 1))))
        decay = to_three_body_decay(ORDERS[order](list(ts)), min_ls=min_ls)
        got = Counter((c.resonance.name, c.spectator.index, describe_ls(c.incoming_ls), describe_ls(c.outgoing_ls))
                      for c in decay.chains)
        nodes = nodes_of(min_ls)
        want = Counter(chains if nodes is None else filtered(chains, nodes))
        if got != want:
            return [Fail(f"{name}, min_ls={min_ls}: {got}, expected {want}")]
        return []

    check.explore("generated reactions", body_real, execute_real)
