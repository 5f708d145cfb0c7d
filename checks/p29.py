"""P29: decay descriptions are immutable values."""
import copy
import itertools
import pickle  # noqa: S403

import attrs
import sympy as sp

from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
from mc.core import Fail, Prune

ASSUMPTIONS = [
    "two alternatives per field; objects that differ in at most two fields",
    "orderings are checked where every field that decides them can be ordered (parities are numbers, LS couplings present)",
    "the mapping of states inside a decay belongs to the caller (a decay itself is therefore not hashable)",
]
R = sp.Rational
H = R(1, 2)
FIELDS = {
    "Particle": dict(name=("A", "A'"), latex=("A", r"\bar{A}"), spin=(H, R(3, 2)), parity=(1, -1), mass=(1.5, 1.5000001), width=(0.1, 0.0)),
    "State": dict(name=("A", "A'"), latex=("A", r"\bar{A}"), spin=(H, R(3, 2)), parity=(1, -1), mass=(1.5, 1.5000001), width=(0.1, 0.0), index=(1, 2)),
    "LSCoupling": dict(L=(1, 2), S=(H, R(3, 2))),
}
CLASSES = {"Particle": Particle, "State": State, "LSCoupling": LSCoupling}
# every elementary piece of a chain: path -> alternatives
PIECES = [("T", f) for f in FIELDS["State"] if f != "index"] + [(w, f) for w in "abc" for f in FIELDS["State"] if f != "index"] \
    + [("Q", f) for f in FIELDS["Particle"]] + [("prod", "L"), ("prod", "S"), ("dec", "L"), ("dec", "S")] \
    + [("prod", "missing"), ("dec", "missing"), ("order", "dec"), ("order", "prod"), ("order", "spectator")]


def make_chain(changed=()):
    """A chain, built from scratch, with the given pieces changed."""
    def get(who, field, default, other):
        return other if (who, field) in changed else default

    def outer(who, index, mass):
        return State(name=get(who, "name", who, who + "'"), latex=get(who, "latex", who, rf"\bar{{{who}}}"),
                     spin=get(who, "spin", H, R(3, 2)), parity=get(who, "parity", 1, -1), mass=get(who, "mass", mass, mass + 1e-7),
                     width=get(who, "width", 0.0, 1e-3), index=index)

    def ls(who):
        if (who, "missing") in changed:
            return None
        return LSCoupling(get(who, "L", 1, 2), get(who, "S", H, R(3, 2)))

    T, a, b, c = outer("T", 0, 5.0), outer("a", 1, 0.1), outer("b", 2, 0.2), outer("c", 3, 0.3)  # noqa: N806
    if ("order", "spectator") in changed:
        b, c = c, b
    Q = Particle(name=get("Q", "name", "Q", "Q'"), latex=get("Q", "latex", "Q", r"\bar{Q}"), spin=get("Q", "spin", R(1), R(2)),  # noqa: N806
                 parity=get("Q", "parity", 1, -1), mass=get("Q", "mass", 1.5, 1.5000001), width=get("Q", "width", 0.1, 0.2))
    pair = (b, a) if ("order", "dec") in changed else (a, b)
    inner = IsobarNode(Q, *pair, interaction=ls("dec"))
    both = (c, inner) if ("order", "prod") in changed else (inner, c)
    return ThreeBodyDecayChain(IsobarNode(T, *both, interaction=ls("prod")))


def roles(chain):
    return dict(parent=chain.parent, initial_state=chain.initial_state, resonance=chain.resonance, spectator=chain.spectator,
                decay_products=chain.decay_products, final_state=chain.final_state, incoming_ls=chain.incoming_ls,
                outgoing_ls=chain.outgoing_ls, decay_node=chain.decay_node, production_node=chain.production_node)


def leaves(x):
    """All elementary values in an object, in order."""
    if attrs.has(type(x)):
        return (type(x).__name__, *(leaves(getattr(x, f.name)) for f in attrs.fields(type(x))))
    if isinstance(x, tuple):
        return ("tuple", *map(leaves, x))
    if isinstance(x, dict):
        return ("dict", *((k, leaves(v)) for k, v in sorted(x.items())))
    return x


def written(chain, changed):
    """What the roles must be, from the pieces alone."""
    names = {w: w + "'" if (w, "name") in changed else w for w in ("T", "a", "b", "c", "Q")}
    mass = {"T": 5.0, "a": 0.1, "b": 0.2, "c": 0.3}
    mass = {w: m + 1e-7 if (w, "mass") in changed else m for w, m in mass.items()}
    width = {w: 1e-3 if (w, "width") in changed else 0.0 for w in "Tabc"}
    swap = ("order", "spectator") in changed
    k, i, j = ("b" if swap else "c"), "a", ("c" if swap else "b")
    pair = (j, i) if ("order", "dec") in changed else (i, j)
    fails = []

    def same(role, state, who):
        if (state.name, state.mass, state.width, state.spin, state.parity, state.latex) != (
            names[who], mass[who], width[who], R(3, 2) if (who, "spin") in changed else H,
            -1 if (who, "parity") in changed else 1, rf"\bar{{{who}}}" if (who, "latex") in changed else who,
        ):
            fails.append(f"{role} is {state}, expected {who} with {sorted(changed)} changed")

    same("spectator", chain.spectator, k)
    same("parent", chain.parent, "T")
    for n, (state, who) in enumerate(zip(chain.decay_products, pair)):
        same(f"decay product {n}", state, who)
    for state, who in zip(chain.final_state, "abc"):
        same(f"final state {who}", state, who)
    q = chain.resonance
    if (q.name, q.latex, q.spin, q.parity, q.mass, q.width) != (
        names["Q"], r"\bar{Q}" if ("Q", "latex") in changed else "Q", 2 if ("Q", "spin") in changed else 1,
        -1 if ("Q", "parity") in changed else 1, 1.5000001 if ("Q", "mass") in changed else 1.5, 0.2 if ("Q", "width") in changed else 0.1,
    ):
        fails.append(f"resonance is {q}, with {sorted(changed)} changed")
    for who, ls in (("prod", chain.incoming_ls), ("dec", chain.outgoing_ls)):
        want = None if (who, "missing") in changed else (2 if (who, "L") in changed else 1, R(3, 2) if (who, "S") in changed else H)
        if (None if ls is None else (ls.L, ls.S)) != want:
            fails.append(f"LS of {who} is {ls}, expected {want}")
    return fails


def run(check):
    T = check.thorough

    # ------------------------------------------------------- equality of elementary objects
    def body_pairs(ch):
        kind = ch.choose("class", list(FIELDS))
        return kind, tuple(ch.flag(f"left {f}") for f in FIELDS[kind])

    def execute_pairs(cfg):
        kind, left = cfg
        steps = 0
        a = CLASSES[kind](**{f: v[x] for (f, v), x in zip(FIELDS[kind].items(), left)})
        for right in itertools.product([False, True], repeat=len(left)):
            b = CLASSES[kind](**{f: v[x] for (f, v), x in zip(FIELDS[kind].items(), right)})
            same = left == right
            steps += 1
            if (a == b) != same or (b == a) != same or (a != b) == same or len({a, b}) != (1 if same else 2):
                return [Fail(f"{a} and {b}: equal is {a == b}")], steps
            if same and hash(a) != hash(b):
                return [Fail(f"{a}: equal objects with different hashes")], steps
            order = (bool(a < b), a == b, bool(a > b))
            if sum(order) != 1 or bool(a <= b) != (order[0] or order[1]) or bool(a >= b) != (order[1] or order[2]) or bool(b > a) != order[0]:
                return [Fail(f"order of {a} and {b} is {order}")], steps
        if kind == "State":
            p = Particle(**{f.name: getattr(a, f.name) for f in attrs.fields(Particle)})
            if p == a or a == p:
                return [Fail(f"{a} equals a particle without index")], steps
        return [], steps

    check.explore("pairs of elementary objects", body_pairs, execute_pairs)

    # ---------------------------------------- numeric forms of a spin make no difference
    def body_forms(ch):
        kind = ch.choose("class", list(FIELDS))
        twice = ch.choose("twice the spin", range(6))
        return kind, twice, ch.choose("form", ["int", "float", "str", "Rational", "Float", "fraction"]), ch.flag("quotient as text")

    def execute_forms(cfg):
        from fractions import Fraction

        kind, twice, form, text = cfg
        if form == "int" and twice % 2:
            return []
        value = {
            "int": twice // 2, "float": twice / 2, "str": f"{twice}/2" if text else str(twice / 2), "Rational": R(twice, 2),
            "Float": sp.Float(twice / 2), "fraction": Fraction(twice, 2),
        }[form]
        field = "S" if kind == "LSCoupling" else "spin"
        base = {f: v[0] for f, v in FIELDS[kind].items()}
        a = CLASSES[kind](**{**base, field: value})
        b = CLASSES[kind](**{**base, field: R(twice, 2)})
        spin = getattr(a, field)
        if a != b or hash(a) != hash(b) or not isinstance(spin, sp.Rational) or spin != R(twice, 2):
            return [Fail(f"{kind} with {field} {value!r} is {a}, expected {b}")]
        return []

    check.explore("forms of a spin", body_forms, execute_forms)

    # ------------------------------------------------------------ chains: pairs and histories
    def body_chain(ch):
        first = ch.choose("first", [(), *((p,) for p in PIECES)])
        second = ch.choose("second", [(), *((p,) for p in PIECES)])
        return first, second, ch.flag("ask the first one")

    def execute_chain(cfg):
        first, second, ask = cfg
        a = make_chain(first)
        if ask:
            roles(a)
        b = make_chain(second)
        fails = [Fail(m) for m in written(b, second) + written(a, first)]
        same = first == second
        if (a == b) != same or (b == a) != same or len({a, b}) != (1 if same else 2) or (b in [a]) != same:
            fails.append(Fail(f"chains with {first} and {second} changed: equal is {a == b}"))
        if same and (hash(a) != hash(b) or leaves(roles(a)) != leaves(roles(b))):
            fails.append(Fail(f"equal chains ({first}) with different hashes or roles"))
        if {a: 1}.get(b) != (1 if same else None):
            fails.append(Fail(f"lookup by an equal chain fails ({first}, {second})"))
        return fails

    check.explore("pairs of chains", body_chain, execute_chain)

    if T:
        def body_chain2(ch):
            two = ch.choose("two changes", list(itertools.combinations(PIECES, 2)))
            if any(f == "missing" and (w, "L") in two or (w, "S") in two and (w, "missing") in two for w, f in two):
                raise Prune
            return two, (ch.choose("other", [two[:1], two[1:], two])), True

        check.explore("chains with two changes", body_chain2, execute_chain)

    # -------------------------------------------------------------------- copies and pickles
    def body_copy(ch):
        what = ch.choose("what", ["state", "resonance", "node", "chain", "decay"])
        changed = ch.choose("changed", [(), *((p,) for p in PIECES)])
        before = ch.choose("before", ["nothing", "roles"])
        return what, changed, before, [ch.choose(f"step {i}", ["pickle", "copy", "deepcopy", "evolve", "rebuild"]) for i in range(2)]

    def obtain(what, changed):
        chain = make_chain(changed)
        if what == "chain":
            return chain
        if what == "decay":
            return ThreeBodyDecay({0: chain.parent, **{s.index: s for s in chain.final_state}}, [chain, make_chain((("Q", "name"), *changed))
                                  if ("Q", "name") not in changed else make_chain(())] if not set(changed) & {(w, f) for w, f in PIECES if w in "Tabc" or w == "order"}
                                  else [chain])
        return {"state": chain.spectator, "resonance": chain.resonance, "node": chain.decay}[what]

    def rebuild(x):
        if attrs.has(type(x)):
            return type(x)(**{f.name: rebuild(getattr(x, f.name)) for f in attrs.fields(type(x))})
        if isinstance(x, dict):
            return {k: rebuild(v) for k, v in x.items()}
        return tuple(map(rebuild, x)) if isinstance(x, tuple) else x

    def execute_copy(cfg):
        what, changed, before, steps = cfg
        if ("order", "spectator") in changed and what == "decay":
            return []
        x = obtain(what, changed)
        if before == "roles" and what == "chain":
            roles(x)
        y = x
        for step in steps:
            y = {"pickle": lambda o: pickle.loads(pickle.dumps(o)), "copy": copy.copy, "deepcopy": copy.deepcopy,  # noqa: S301
                 "evolve": attrs.evolve, "rebuild": rebuild}[step](y)
        if y != x or leaves(x) != leaves(y) or type(y) is not type(x):
            return [Fail(f"{what} with {changed} changed is {y} after {steps}, was {x}")]
        if what != "decay" and hash(x) != hash(y):
            return [Fail(f"hash of a {what} changes by {steps}")]
        if what == "chain" and (leaves(roles(x)) != leaves(roles(y)) or written(y, changed)):
            return [Fail(f"roles of a chain with {changed} changed are others after {steps}: {written(y, changed)}")]
        if what == "decay":
            if [c.resonance.name for c in y.chains] != [c.resonance.name for c in x.chains] or y.final_state != x.final_state:
                return [Fail(f"the decay with {changed} changed is another one after {steps}")]
            for c in x.chains:
                if y.find_chain(c.resonance.name) != c:
                    return [Fail(f"{c.resonance.name} is not found after {steps}")]
        return []

    check.explore("copies", body_copy, execute_copy)

    # ----------------------------------------------------------------------- immutability
    def body_frozen(ch):
        what = ch.choose("what", ["state", "resonance", "node", "chain", "decay", "ls"])
        return what, ch.choose("attempt", ["set", "delete", "new"]), ch.choose("field", range(8))

    def execute_frozen(cfg):
        what, attempt, n = cfg
        x = make_chain().incoming_ls if what == "ls" else obtain(what, ())
        fields = [f.name for f in attrs.fields(type(x))]
        if n >= len(fields) or (attempt == "new" and n):
            return []
        before = leaves(x)
        other = obtain("chain", (("Q", "name"),)) if what == "chain" else None
        try:
            if attempt == "set":
                setattr(x, fields[n], getattr(other, fields[n]) if other is not None else "changed")
            elif attempt == "delete":
                delattr(x, fields[n])
            else:
                x.something = 1
        except AttributeError:
            pass
        else:
            return [Fail(f"{attempt} {fields[n]} of a {what} is possible")]
        return [] if leaves(x) == before else [Fail(f"{what} changed by a refused {attempt} of {fields[n]}")]

    check.explore("immutability", body_frozen, execute_frozen)

    # ---------------------------------------------------------------------------- sorting
    SORTABLE = [(), (("Q", "name"),), (("Q", "mass"),), (("prod", "L"),), (("dec", "S"),), (("Q", "name"), ("dec", "L"))]  # noqa: N806

    def body_sort(ch):
        n = ch.choose("length", [2, 3, 4] if T else [2, 3])
        picks = ch.choose("chains", list(itertools.combinations(range(len(SORTABLE)), n)))
        return picks, ch.choose("order", list(itertools.permutations(range(n))))

    def execute_sort(cfg):
        picks, order = cfg
        chains = [make_chain(SORTABLE[i]) for i in picks]
        want = sorted(chains)
        got = sorted([chains[i] for i in order])
        if got != want or len(set(got)) != len(chains) or any(not (a < b) or b < a for a, b in zip(got, got[1:])):
            return [Fail(f"chains {picks} are sorted differently in order {order}")]
        a = sorted(c.decay for c in chains)
        return [] if a == [c.decay for c in want] else [Fail("chains are not ordered like their nodes")]

    check.explore("sorting", body_sort, execute_sort)

    # ---------------------------------------------------- decays: inputs in every container
    def body_container(ch):
        kind = ch.choose("container", ["list", "tuple", "generator", "set of one", "dict values"])
        then = ch.choose("then", ["nothing", "clear the list", "append"])
        order = ch.choose("order", list(itertools.permutations(range(3))))
        return kind, then, order

    def execute_container(cfg):
        kind, then, order = cfg
        chains = [make_chain(), make_chain((("Q", "name"),)), make_chain((("dec", "L"),))]
        chains = [chains[i] for i in order]
        if kind == "set of one":
            chains = chains[:1]
        given = list(chains)
        source = {"list": given, "tuple": tuple(given), "generator": (c for c in given), "set of one": set(given),
                  "dict values": dict(enumerate(given)).values()}[kind]
        states = {0: chains[0].parent, **{s.index: s for s in chains[0].final_state}}
        decay = ThreeBodyDecay(states, source)
        if then == "clear the list":
            given.clear()
        elif then == "append":
            given.append(make_chain((("Q", "mass"),)))
        if tuple(decay.chains) != tuple(chains):
            return [Fail(f"a decay made from a {kind} has {len(decay.chains)} chains after '{then}', expected {len(chains)} in the same order")]
        same = ThreeBodyDecay(dict(reversed(states.items())), list(chains))
        if decay != same:
            return [Fail("two decays with the same states and chains are not equal")]
        if len(chains) > 1 and decay == ThreeBodyDecay(states, chains[:1]):
            return [Fail("decays with different chains are equal")]
        return []

    check.explore("containers", body_container, execute_container)
