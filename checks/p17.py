"""P17: a serialized model is imported with its decay structure intact."""
import copy
import itertools
import json
import warnings
from collections import Counter
from fractions import Fraction as F

from ampform_dpd.decay import ThreeBodyDecay
from ampform_dpd.io.serialization.amplitude import formulate, get_existing_subsystem_ids
from ampform_dpd.io.serialization.decay import (
    get_final_state,
    get_initial_state,
    get_spectator_id,
    get_states,
    to_decay,
    to_decay_chain,
)
from ampform_dpd.io.serialization.format import (
    get_decay_chains,
    get_distribution_def,
    get_function_definition,
    get_reference_topology,
)
from mc import kin, serial
from mc.core import REPO, Fail, Prune

ASSUMPTIONS = [
    "definitions with three final states and one resonance per chain; topology, propagator node and vertices of "
    "a chain describe the same subsystem",
    "a chain definition and its twin with another helicity list the decay vertex in the same node order",
]
H, R0, R1 = F(1, 2), F(0), F(1)
MASSES = kin.MASSES["distinct"]
LATEX = {"none": None, "mapped": lambda x: rf"\mathrm{{{x}}}_*"}


def frac(x):
    return F(int(x.p), int(x.q))


def state_tuple(s):
    return (s.index, s.name, s.latex, frac(s.spin), s.mass, s.parity)


def expected_state(spec, n, to_latex):
    name = serial.NAMES[n]
    return (n, name, to_latex(name) if to_latex else name, spec["spins"][n], spec["masses"][n], None)


def run(check):
    T = check.thorough

    # ------------------------------------------------- node and vertex order of one chain
    def body(ch):
        k = ch.choose("spectator", [1, 2, 3])
        i, j = kin.PAIR[k]
        dec = ch.choose("decay node", [(i, j), (j, i)])
        prop = ch.choose("propagator node", [(i, j), (j, i)])
        topo = ch.choose("topology node", [(i, j), (j, i)])
        first_v = ch.choose("spectator in vertex", ["last", "first"])
        first_t = ch.choose("spectator in topology", ["last", "first"])
        swap = ch.flag("decay vertex first")
        vtype = ch.choose("vertex types", ["helicity", "ls"])
        J = ch.choose("J", [R0, H, F(3, 2), F(2)])
        seq = ch.choose("sequences", [list, tuple]) if T else list
        labels = ch.choose("labels", list(LATEX))
        return k, dec, prop, topo, first_v, first_t, swap, vtype, J, seq, labels

    def execute(cfg):
        k, dec, prop, topo, first_v, first_t, swap, vtype, J, seq, labels = cfg
        spec = dict(spins=(R1, H, R0, H), masses=MASSES, ref=1, functions=[], chains=[])
        d = serial.definition(spec)
        inner = seq(dec)
        pv = {"type": vtype, "node": seq([inner, k] if first_v == "last" else [k, inner]), "formfactor": ""}
        dv = {"type": vtype, "node": inner, "formfactor": ""}
        for v in (pv, dv):
            v.update({"l": "0", "s": "1/2"} if vtype == "ls" else {"helicities": ["0", "1/2"]})
        c = {"name": "Res(1)", "weight": "1", "vertices": [dv, pv] if swap else [pv, dv],
             "topology": seq([seq(topo), k] if first_t == "last" else [k, seq(topo)]),
             "propagators": [{"spin": str(J), "node": seq(prop), "parametrization": "none"}]}
        d["distributions"][0]["decay_description"]["chains"].append(c)
        before = copy.deepcopy(d)
        to_latex = LATEX[labels]
        decay = to_decay(d, to_latex)
        fails = []
        single = to_decay_chain(c, get_initial_state(d, to_latex), get_final_state(d, to_latex), to_latex)
        if tuple(decay.chains) != (single,):
            fails.append(Fail("to_decay and to_decay_chain disagree"))
        want = [expected_state(spec, n, to_latex) for n in range(4)]
        ch = single
        if ch.spectator.index != k or state_tuple(ch.spectator) != want[k]:
            fails.append(Fail(f"spectator {ch.spectator}, declared {k}"))
        if tuple(p.index for p in ch.decay_products) != tuple(dec):
            fails.append(Fail(f"decay products {[p.index for p in ch.decay_products]}, declared {dec}"))
        for p in (*ch.decay_products, ch.parent):
            if state_tuple(p) != want[p.index]:
                fails.append(Fail(f"state {p}, declared {want[p.index]}"))
        r = ch.resonance
        if (r.name, r.latex, frac(r.spin)) != ("Res(1)", to_latex("Res(1)") if to_latex else "Res(1)", J):
            fails.append(Fail(f"resonance {r}, declared Res(1) with spin {J}"))
        if get_spectator_id(c["topology"]) != k or get_existing_subsystem_ids(d) != [k]:
            fails.append(Fail(f"subsystem of topology {c['topology']} is {get_spectator_id(c['topology'])}"))
        if d != before:
            fails.append(Fail("definition was modified"))
        return fails

    check.explore("orders within a chain", body, execute)

    # ----------------------------------------------------------------------- states
    SP = ["0", "1/2", "1", "3/2", "2"]

    def body_states(ch):
        order = ch.choose("final state order", list(itertools.permutations((1, 2, 3))))
        spins = [ch.choose(f"spin {n}", SP if n == 0 else SP[:4] if T else SP[:3]) for n in range(4)]
        masses = ch.choose("masses", [MASSES, (1.0, 0.0, 0.0, 0.0), (3, 1, 1, 1)])
        names = ch.choose("names", [("T", "a", "b", "c"), ("T", "a", "a", "b"), ("Lb(+)", "p~", "K*", "pi 0")])
        return order, spins, masses, names, ch.choose("labels", list(LATEX)), ch.choose("key order", ["listed", "reversed"])

    def execute_states(cfg):
        order, spins, masses, names, labels, keys = cfg
        states = [{"index": n, "name": names[n], "spin": spins[n], "mass": masses[n]} for n in range(4)]
        if keys == "reversed":
            states = [dict(reversed(s.items())) for s in states]
        d = {"distributions": [{"name": "x", "type": "y", "variables": [], "decay_description": {
            "reference_topology": [1, [2, 3]], "chains": [],
            "kinematics": {"final_state": [states[n] for n in order], "initial_state": states[0]}}}],
            "functions": [], "domains": []}
        to_latex = LATEX[labels]
        want = {n: (n, names[n], to_latex(names[n]) if to_latex else names[n], F(spins[n]), masses[n], None) for n in range(4)}
        fails = []
        got = {i: state_tuple(s) for i, s in get_states(d, to_latex).items()}
        if got != want:
            fails.append(Fail(f"states {got}, declared {want}"))
        if state_tuple(get_initial_state(d, to_latex)) != want[0]:
            fails.append(Fail("initial state"))
        if {i: state_tuple(s) for i, s in get_final_state(d, to_latex).items()} != {i: want[i] for i in (1, 2, 3)}:
            fails.append(Fail("final state"))
        decay = to_decay(d, to_latex)
        if {i: state_tuple(s) for i, s in decay.states.items()} != want or decay.chains:
            fails.append(Fail(f"decay {decay}"))
        return fails

    check.explore("states", body_states, execute_states)

    # ------------------------------------------------------------------ sets of chains
    # (name, k, J, helicity tag): chains of one resonance repeat for every helicity
    POOL = [("QA", 1, R0, 0), ("QA", 1, R0, 1), ("QA", 2, R0, 0), ("QB", 1, R1, 0), ("QB", 1, R1, 1), ("QB", 3, R1, 0),
            ("QA", 1, R1, 0), ("QC", 3, R0, 0)]

    def chain_def(item, n):
        name, k, J, tag = item
        return serial.chain_definition(dict(
            name=name, k=k, J=J, prod=("helicity", (R0 if tag == 0 else J, R0), ""), decv=("parity", (R0, R0), "+" if tag else "-"),
            weight=complex(1 + n, 0), propagator="none", swap_vertices=bool(n % 2), spectator_first=bool(n % 3 == 0)))

    def body_sets(ch):
        sub = [it for it in POOL if ch.flag(f"{it[0]} k={it[1]} J={it[2]} #{it[3]}")]
        return sub, ch.choose("order", ["listed", "reversed", "doubled"])

    def execute_sets(cfg):
        sub, order = cfg
        d = serial.definition(dict(spins=(R0,) * 4, masses=MASSES, ref=1, functions=[], chains=[]))
        items = {"listed": sub, "reversed": sub[::-1], "doubled": sub + sub}[order]
        d["distributions"][0]["decay_description"]["chains"] = [chain_def(it, n) for n, it in enumerate(items)]
        decay = to_decay(d)
        got = Counter((c.resonance.name, c.spectator.index, frac(c.resonance.spin), frozenset(p.index for p in c.decay_products))
                      for c in decay.chains)
        want = Counter({(name, k, J, frozenset(kin.PAIR[k])) for name, k, J, _ in sub})
        fails = []
        if got != want:
            fails.append(Fail(f"chains {dict(got)}, declared {dict(want)}"))
        if get_existing_subsystem_ids(d) != sorted({it[1] for it in sub}):
            fails.append(Fail(f"subsystems {get_existing_subsystem_ids(d)}"))
        if len(get_decay_chains(d)) != len(items):
            fails.append(Fail("number of chain definitions"))
        return fails

    check.explore("sets of chains", body_sets, execute_sets)

    # ---------------------------------------------------------- lookups in a definition
    NAMES = ["BW_a", "BW_b", "FF", "BW_a2", "Xyz"]

    def body_fn(ch):
        have = [n for n in NAMES if ch.flag(f"defined {n}")]
        return have, ch.choose("look up", [*NAMES, "BW", "bw_a", "", "completely else"])

    def execute_fn(cfg):
        have, name = cfg
        d = {"functions": [{"name": n, "type": "T", "value": i} for i, n in enumerate(have)], "distributions": [], "domains": []}
        try:
            f = get_function_definition(name, d)
        except Exception as e:
            if name in have:
                return [Fail(f"defined function {name} is not found: {e}")]
            return [] if repr(name) in str(e) or name in str(e) else [Fail(f"error does not name {name}: {e}")]
        if name not in have:
            return [Fail(f"undefined function {name} gives {f}")]
        return [] if f == {"name": name, "type": "T", "value": have.index(name)} else [Fail(f"{name} gives {f}")]

    check.explore("function lookup", body_fn, execute_fn)

    def body_dist(ch):
        return ch.choose("distributions", [0, 1, 2, 3]), ch.choose("via", ["get_distribution_def", "to_decay", "get_states", "reference", "formulate"])

    def execute_dist(cfg):
        n, via = cfg
        d = serial.definition(dict(spins=(R0,) * 4, masses=MASSES, ref=2, functions=[], chains=[]))
        other = copy.deepcopy(d["distributions"][0])
        other["decay_description"]["kinematics"]["initial_state"]["name"] = "other"
        other["decay_description"]["reference_topology"] = [[1, 2], 3]
        d["distributions"] = ([d["distributions"][0]] + [other] * 2)[:n]
        call = {
            "get_distribution_def": lambda: get_distribution_def(d)["decay_description"]["kinematics"]["initial_state"]["name"],
            "to_decay": lambda: to_decay(d).initial_state.name, "get_states": lambda: get_states(d)[0].name,
            "reference": lambda: {2: "T"}.get(get_spectator_id(get_reference_topology(d))),
            "formulate": lambda: formulate(d).decay.initial_state.name,
        }[via]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                got = call()
            except ValueError as e:
                if via == "formulate" and n:
                    return []  # no chains to formulate
                return [] if n == 0 and "distribution" in str(e) else [Fail(f"{n} distributions via {via}: {e}")]
            except Exception as e:
                if via == "formulate" and n:
                    return []
                return [Fail(f"{n} distributions via {via}: {type(e).__name__} {e}")]
        fails = []
        if n == 0:
            fails.append(Fail(f"no distribution, but {via} gives {got}"))
        elif got != "T":
            fails.append(Fail(f"{via} does not use the first distribution: {got}"))
        if n > 1 and not any("distribution" in str(w.message) for w in caught):
            fails.append(Fail(f"{n} distributions: no warning via {via}"))
        if n == 1 and caught:
            fails.append(Fail(f"unexpected warning {caught[0].message}"))
        return fails

    check.explore("distributions", body_dist, execute_dist, jobs=1)

    # ------------------------------------------------------- topologies, three-body or not
    def body_topo(ch):
        shape = ch.choose("topology", [
            "s r", "r s", "flat three", "two", "four", "double pair", "empty", "one", "pair only", "triple pair", "two spectators"])
        k = ch.choose("k", [1, 2, 3])
        return shape, k, ch.flag("reversed pair"), ch.choose("sequence", [list, tuple])

    def execute_topo(cfg):
        shape, k, rev, seq = cfg
        i, j = kin.PAIR[k]
        if rev:
            i, j = j, i
        topo = {
            "s r": [k, [i, j]], "r s": [[i, j], k], "flat three": [i, j, k], "two": [i, j], "four": [[i, j], [k, 4]],
            "double pair": [[i, j], [j, k]], "empty": [], "one": [[i, j]], "pair only": [[i, k], [j, k], [i, j]],
            "triple pair": [[[i, j], k]], "two spectators": [k, i, [j, 4]],
        }[shape]
        topo = seq(seq(x) if isinstance(x, list) else x for x in topo)
        try:
            got = get_spectator_id(topo)
        except Exception as e:
            return [Fail(f"{topo} is refused: {e}")] if shape in ("s r", "r s") else []
        if shape in ("s r", "r s"):
            return [] if got == k else [Fail(f"{topo} has spectator {got}")]
        return [Fail(f"{topo} is accepted with spectator {got}")]

    check.explore("topologies", body_topo, execute_topo)

    # --------------------------------------------------------------- malformed vertices
    def body_bad(ch):
        return ch.choose("case", ["no decay vertex", "no production vertex", "no vertices", "two production vertices",
                                  "unknown final state", "flat topology", "flat reference", "missing propagator function"]), \
            ch.choose("chain", [0, 1]), ch.choose("via", ["to_decay", "formulate"])

    def execute_bad(cfg):
        case, n, via = cfg
        d = serial.definition(dict(spins=(R0,) * 4, masses=MASSES, ref=1, chains=[], functions=[
            dict(name="none", type="BreitWigner", mass=1.7, width=0.1, ma=0.5, mb=0.7, l=0, d=1.0)]))
        dd = d["distributions"][0]["decay_description"]
        dd["chains"] = [chain_def(POOL[0], 0), chain_def(POOL[5], 2)]
        c = dd["chains"][n]
        prod, dec = 0, 1
        only_formulate = case in ("flat topology", "flat reference", "missing propagator function")
        if only_formulate and via == "to_decay":
            raise_on = False
        else:
            raise_on = True
        if case == "no decay vertex":
            c["vertices"].pop(dec)
        elif case == "no production vertex":
            c["vertices"].pop(prod)
        elif case == "no vertices":
            c["vertices"].clear()
        elif case == "two production vertices":
            c["vertices"][dec] = copy.deepcopy(c["vertices"][prod])
        elif case == "unknown final state":
            c["vertices"][dec]["node"] = [4, 5]
        elif case == "flat topology":
            c["topology"] = [1, 2, 3]
        elif case == "flat reference":
            dd["reference_topology"] = [1, 2, 3]
        else:
            c["propagators"][0]["parametrization"] = "missing"
        try:
            out = to_decay(d) if via == "to_decay" else formulate(d)
        except Exception:
            return [] if raise_on else [Fail(f"to_decay refuses {case}")]
        return [Fail(f"{case} in chain {n} is accepted by {via}: {out}"[:300])] if raise_on else []

    check.explore("malformed definitions", body_bad, execute_bad, jobs=1)

    # ------------------------------------------------------------- the published model
    path = REPO / "docs" / "Lc2ppiK.json"
    if path.exists():
        definition = json.loads(path.read_text())

        def body_doc(ch):
            return ch.choose("order", ["listed", "reversed", "rotated"]), ch.choose("labels", list(LATEX))

        def execute_doc(cfg):
            order, labels = cfg
            d = copy.deepcopy(definition)
            dd = d["distributions"][0]["decay_description"]
            if order != "listed":
                dd["chains"] = dd["chains"][::-1] if order == "reversed" else dd["chains"][5:] + dd["chains"][:5]
            s = serial.spec_of(definition)
            decay = to_decay(d, LATEX[labels])
            got = Counter((c.resonance.name, frac(c.resonance.spin), c.spectator.index, tuple(p.index for p in c.decay_products))
                          for c in decay.chains)
            want = Counter({(c["name"], c["J"], c["k"], c["dec"]) for c in s["chains"]})
            return [] if got == want else [Fail(f"{got}, declared {want}")]

        check.explore("published model", body_doc, execute_doc, jobs=1)
