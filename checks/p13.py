"""P13: decay descriptions are validated and expose the right roles."""
import itertools
import warnings

import sympy as sp

from ampform_dpd.decay import (
    IsobarNode,
    LSCoupling,
    Particle,
    State,
    ThreeBodyDecay,
    ThreeBodyDecayChain,
    get_decay_product_ids,
    to_particle,
)
from mc.core import Fail

ASSUMPTIONS = [
    "state IDs 0..3 in decays, five ID patterns in chains, one alternative per role",
]


def particle(name, spin=0, mass=1.0, width=0.1, parity=None, latex=None):
    return Particle(name=name, latex=latex or name, spin=spin, parity=parity, mass=mass, width=width)


def state(name, index, spin=0, mass=1.0, parity=None):
    return State(name=name, latex=name, spin=spin, parity=parity, mass=mass, width=0.0, index=index)


S = {0: state("T", 0, 1, 3.0), 1: state("a", 1, 0, 0.1), 2: state("b", 2, sp.Rational(1, 2), 0.2, 1),
     3: state("c", 3, sp.Rational(1, 2), 0.3, -1)}
STATES = S


def run(check):
    T = check.thorough
    # ------------------------------------------------------------- shape of a chain
    outer = ["s1", "s2", "s3", "s0", "p"]
    inner_choices = ["s1", "s2", "s3", "s0", "p", "node"]
    top_choices = ["s1", "s2", "s3", "p", "node"]
    parents = ["s0", "s1", "p"]

    def body_shape(ch):
        parent = ch.choose("parent", parents)
        tree = [ch.choose("child1", top_choices), ch.choose("child2", top_choices)]
        sub = []
        for n, c in enumerate(tree):
            if c == "node":
                sub.append((ch.choose(f"grandchild{n}1", inner_choices), ch.choose(f"grandchild{n}2", inner_choices)))
            else:
                sub.append(None)
        return parent, tuple(tree), tuple(sub)

    P = particle("X", 1, 0.7)
    R = particle("R", 1, 1.5)

    def leaf(c):
        if c == "p":
            return P
        if c == "node":
            return IsobarNode(particle("Q", 0, 1.2), S[1], S[2])
        return S[int(c[1])]

    def execute_shape(cfg):
        parent, tree, sub = cfg
        children = [IsobarNode(R, leaf(g[0]), leaf(g[1])) if c == "node" else leaf(c) for c, g in zip(tree, sub)]
        nodes = [g for c, g in zip(tree, sub) if c == "node"]
        spectators = [c for c in tree if c[0] == "s"]
        valid = False
        if len(nodes) == 1 and len(spectators) == 1 and parent[0] == "s":
            g = nodes[0]
            if all(x[0] == "s" for x in g):
                ids = {parent, spectators[0], *g}
                valid = len(ids) == 4
        try:
            chain = ThreeBodyDecayChain(IsobarNode(leaf(parent), *children))
        except Exception as e:  # noqa: BLE001
            if valid:
                return [Fail(f"{cfg} is refused: {type(e).__name__}: {e}")]
            return []
        if not valid:
            return [Fail(f"malformed chain {cfg} is accepted")]
        g, k = nodes[0], spectators[0]
        want = dict(
            resonance=R, decay_products=(leaf(g[0]), leaf(g[1])), spectator=leaf(k), parent=leaf(parent),
            initial_state=leaf(parent), incoming_ls=None, outgoing_ls=None,
            final_state=tuple(sorted((leaf(g[0]), leaf(g[1]), leaf(k)), key=lambda s: s.index)),
            decay_node=IsobarNode(R, leaf(g[0]), leaf(g[1])),
        )
        return [Fail(f"{name} of {cfg} is {getattr(chain, name)}, expected {v}")
                for name, v in want.items() if getattr(chain, name) != v]

    check.explore("shapes of a chain", body_shape, execute_shape)

    # ------------------------------------------------------------- roles
    def body_roles(ch):
        perm = ch.choose("final state roles", list(itertools.permutations([1, 2, 3])))
        ids = ch.choose("state IDs", [(0, 1, 2, 3), (0, 2, 4, 7), (-1, 10, 2, 9), (4, 3, 2, 1), (1, 5, 0, 3)])
        flip = ch.flag("flip production")
        prod = ch.choose("production LS", [None, (0, 1), (2, sp.Rational(3, 2)), "object"])
        dec = ch.choose("decay LS", [None, (1, sp.Rational(1, 2)), (3, 1.5), "object"])
        return perm, ids, flip, prod, dec

    def execute_roles(cfg):
        import attrs

        (i, j, k), ids, flip, prod, dec = cfg
        S = {n: attrs.evolve(state, index=ids[n]) for n, state in STATES.items()}  # noqa: N806
        mk = lambda v: LSCoupling(5, sp.Rational(5, 2)) if v == "object" else v  # noqa: E731
        node = IsobarNode(R, S[i], S[j], interaction=mk(dec))
        kids = (S[k], node) if flip else (node, S[k])
        chain = ThreeBodyDecayChain(IsobarNode(S[0], *kids, interaction=mk(prod)))

        def ls(v):
            return None if v is None else ((5, sp.Rational(5, 2)) if v == "object" else (v[0], sp.Rational(v[1])))

        got_ls = lambda v: None if v is None else (v.L, v.S)  # noqa: E731
        want = dict(resonance=R, spectator=S[k], decay_products=(S[i], S[j]), parent=S[0], initial_state=S[0],
                    final_state=tuple(sorted((S[1], S[2], S[3]), key=lambda s: s.index)), decay_node=node, production_node=chain.decay)
        out = [Fail(f"{n} of {cfg}: {getattr(chain, n)} != {v}") for n, v in want.items() if getattr(chain, n) != v]
        if got_ls(chain.incoming_ls) != ls(prod) or got_ls(chain.outgoing_ls) != ls(dec):
            out.append(Fail(f"LS values of {cfg}: {chain.incoming_ls}, {chain.outgoing_ls}"))
        if node.children != (S[i], S[j]) or chain.decay.children != kids:
            out.append(Fail(f"children of {cfg}"))
        if to_particle(node) != R or to_particle(S[k]) != S[k] or to_particle(R) != R:
            out.append(Fail("to_particle"))
        return out

    check.explore("roles", body_roles, execute_roles)

    # ------------------------------------------------------------- decays
    # variants of the declared states: one attribute of one state differs
    mutations = ["none", "name", "latex", "spin", "mass", "width", "parity", "missing", "swapped", "wrong key"]

    def mutate(states, who, what):
        import attrs

        st = dict(states)
        if what == "none":
            return st
        if what == "missing":
            del st[who]
            return st
        if what == "wrong key":
            other = (who + 1) % 4
            st[who], st[other] = st[other], st[who]
            return st
        if what == "swapped":
            other = 1 + who % 3
            a, b = st[who], st[other]
            st[who] = attrs.evolve(b, index=who)
            st[other] = attrs.evolve(a, index=other)
            return st
        val = {"name": "z", "latex": "z", "spin": sp.Rational(7, 2), "mass": 9.9, "width": 0.7, "parity": -1}[what]
        if what == "parity" and st[who].parity == -1:
            val = 1
        st[who] = attrs.evolve(st[who], **{what: val})
        return st

    def make_chain(k, states, flip, name):
        i, j = {1: (2, 3), 2: (3, 1), 3: (1, 2)}[k]
        if flip:
            i, j = j, i
        return ThreeBodyDecayChain(IsobarNode(states[0], IsobarNode(particle(name, 1, 1.0 + 0.1 * k, latex=f"[{name}]"), states[i], states[j]),
                                              states[k]))

    NAMES = [("A", "B", "A"), ("AB", "A", "BA"), ("BA", "A", "A"), ("a", "A", "B"), ("A B", "A*", "A")]  # noqa: N806

    def body_decay(ch):
        n = ch.choose("chains", [0, 1, 2, 3])
        ks = [ch.choose(f"k{m}", [1, 2, 3]) for m in range(n)]
        what = ch.choose("mutation", mutations)
        who = 0 if what == "none" else ch.choose("state", [1, 2, 3] if what == "swapped" else [0, 1, 2, 3])
        # either the declaration or exactly one chain deviates
        where = "declaration" if what in ("none", "missing", "wrong key") or n == 0 else ch.choose("where", ["declaration", *range(n)])
        flip = ch.flag("flip")
        order = ch.choose("state order", [(0, 1, 2, 3), (3, 1, 0, 2)])
        names = ch.choose("final-state names", ["distinct", "identical"])
        # names that a lookup could confuse
        resonances = ch.choose("resonance names", NAMES) if what == "none" else NAMES[0]
        return ks, what, who, where, flip, order, names, resonances

    def execute_decay(cfg):
        import attrs

        ks, what, who, where, flip, order, names, resonances = cfg
        S = {i: attrs.evolve(s, name="a", latex="a") if i and names == "identical" else s  # noqa: N806
             for i, s in STATES.items()}
        decl = mutate(S, who, what) if where == "declaration" else S
        chains = []
        for m, k in enumerate(ks):
            st = mutate(S, who, what) if where == m else S
            chains.append(make_chain(k, st, flip, resonances[m]))
        valid = what == "none" or (not chains and what != "wrong key" and not (what == "missing" and who == 0))
        try:
            decay = ThreeBodyDecay(states={i: decl[i] for i in order if i in decl}, chains=chains)
        except Exception as e:  # noqa: BLE001
            return [Fail(f"decay {cfg} is refused: {type(e).__name__}: {e}")] if valid else []
        if not valid:
            return [Fail(f"inconsistent decay {cfg} is accepted")]
        if what == "missing":
            return []
        out = []
        if decay.initial_state != decl[0] or decay.final_state != {i: decl[i] for i in (1, 2, 3)}:
            out.append(Fail(f"initial or final state of {cfg}"))
        if tuple(decay.chains) != tuple(chains):
            out.append(Fail(f"chains of {cfg} changed"))
        for k in (1, 2, 3):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                sub = decay.get_subsystem(k)
            want = tuple(c for c, kk in zip(chains, ks) if kk == k)
            if tuple(sub.chains) != want or sub.states != decay.states:
                out.append(Fail(f"subsystem {k} of {cfg} has {len(sub.chains)} chains, expected {len(want)}"))
            if bool(w) != (not want):
                out.append(Fail(f"subsystem {k} of {cfg}: {'missing' if not w else 'spurious'} warning"))
        for name in {"A", "B", "C", "AB", "a", "", "latex", "z", "[A]", *resonances}:
            want = [c for m, c in enumerate(chains) if resonances[m] == name]
            try:
                got = decay.find_chain(name)
            except Exception:  # noqa: BLE001
                got = None
            if got != (want[0] if want else None):
                out.append(Fail(f"find_chain({name}) in {cfg}"))
        return out

    check.explore("decays", body_decay, execute_decay)

    # ------------------------------------------------------------- values
    def body_value(ch):
        where = ch.choose("where", ["Particle", "State", "LSCoupling", "interaction"])
        value = ch.choose("value", [0, 0.5, 1, 1.5, "1/2", sp.Rational(3, 2), 0.25, sp.Rational(1, 3), "2/3", 1.1])
        return where, value

    def execute_value(cfg):
        where, value = cfg
        rational = sp.Rational(value)
        valid = rational.q in (1, 2)
        try:
            if where == "Particle":
                got = particle("x", value).spin
            elif where == "State":
                got = state("x", 1, value).spin
            elif where == "LSCoupling":
                got = LSCoupling(1, value).S
            else:
                got = IsobarNode(R, S[1], S[2], interaction=(1, value)).interaction.S
        except Exception:  # noqa: BLE001
            return [Fail(f"{where} refuses spin {value}")] if valid else []
        if not valid:
            return [Fail(f"{where} accepts spin {value!r} as {got}")]
        if got != rational or not isinstance(got, sp.Rational):
            return [Fail(f"{where}: spin {value!r} became {got!r}")]
        return []

    check.explore("spin values", body_value, execute_value)

    def body_ids(ch):
        return ch.choose("id", [-1, 0, 1, 2, 3, 4])

    def execute_ids(k):
        try:
            got = get_decay_product_ids(k)
        except Exception:  # noqa: BLE001
            got = None
        want = {1: (2, 3), 2: (3, 1), 3: (1, 2)}.get(k)
        return [] if got == want else [Fail(f"decay products of spectator {k}: {got}, expected {want}")]

    check.explore("decay product IDs", body_ids, execute_ids, jobs=1)

    # interactions of a wrong type
    def body_type(ch):
        return ch.choose("interaction", [3, "LS", [0, 1], {"L": 0}, object])

    def execute_type(x):
        try:
            node = IsobarNode(R, S[1], S[2], interaction=x)
        except Exception:  # noqa: BLE001
            return []
        return [Fail(f"interaction {x!r} is accepted as {node.interaction!r}")]

    check.explore("interaction types", body_type, execute_type, jobs=1)
