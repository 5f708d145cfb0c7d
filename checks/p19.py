"""P19: serialized dynamics keep every parameter of every chain."""
import copy
import itertools
from fractions import Fraction as F

import numpy as np
import sympy as sp

from ampform_dpd import DefinedExpression
from ampform_dpd.dynamics import SimpleBreitWigner
from ampform_dpd.io.serialization.amplitude import formulate
from ampform_dpd.io.serialization.dynamics import formulate_dynamics, formulate_form_factor, to_mandelstam_symbol
from ampform_dpd.io.serialization.format import get_function_definition
from checks.p18 import evaluate
from checks.p18 import bugg as bugg_builder
from mc import kin, lineshape, ref, serial, space
from mc.core import Fail, Prune, real_value
from mc.interp import Interpreter, Unbound

ASSUMPTIONS = [
    "parametrizations Blatt-Weisskopf (l = 0..4), Breit-Wigner, multi-channel Breit-Wigner (2..3 channels) and user-supplied",
    "production form factors are evaluated at the mass of the initial state with the invariant mass of the isobar",
    "a parameter is recognised by its declared default; all declared numbers of a model are distinct",
]
H, R0, R1 = F(1, 2), F(0), F(1)
MKEY = "distinct"
MASSES = kin.MASSES[MKEY]


class Numbers:
    """Distinct generic numbers for the declared parameters."""

    def __init__(self):
        self.n = 0

    def __call__(self, lo, hi):
        self.n += 1
        return round(real_value("number", self.n, lo=lo, hi=hi), 9)


def functions(masses=MASSES, exact=True):
    """Pool of functions by name; channel masses equal to those of the node (1,2), (2,3), (3,1)."""
    x = Numbers()
    m = masses
    out = []
    for l in range(4):
        out.append(dict(name=f"BW_{l}", type="BreitWigner", mass=x(1.6, 1.9), width=x(0.05, 0.2), l=l, d=x(0.8, 2.5)))
    for n in (2, 3):
        out.append(dict(name=f"Multi_{n}", type="MultichannelBreitWigner", mass=x(1.6, 1.9), channels=[
            dict(gsq=x(0.1, 0.5), ma=x(0.2, 0.6), mb=x(0.2, 0.6), l=(i + n) % 3, d=x(0.8, 2.5)) for i in range(n)]))
    out.append(dict(name="K_Bugg", type="BreitWignerWidthExpLikeBugg", mass=x(1.6, 1.9), width=x(0.05, 0.2), slope=x(0.1, 0.5)))
    for l in range(5):
        out.append(dict(name=f"FF_a_{l}", type="BlattWeisskopf", l=l, radius=x(0.8, 2.5)))
        out.append(dict(name=f"FF_b_{l}", type="BlattWeisskopf", l=l, radius=x(3, 5)))
    return out


FUNCS = functions()


def high_functions():
    """Functions with high angular momenta."""
    x = Numbers()
    out = []
    for l in range(4, 8):
        out.append(dict(name=f"BW_{l}", type="BreitWigner", mass=x(1.6, 1.9), width=x(0.05, 0.2), l=l, d=x(0.8, 2.5)))
        out.append(dict(name=f"Multi_{l}", type="MultichannelBreitWigner", mass=x(1.6, 1.9), channels=[
            dict(gsq=x(0.1, 0.5), ma=x(0.2, 0.6), mb=x(0.2, 0.6), l=n, d=x(0.8, 2.5)) for n in (l, l + 1, l - 3)]))
    for l in range(5, 9):
        out.append(dict(name=f"FF_{l}", type="BlattWeisskopf", l=l, radius=x(0.8, 2.5)))
    return out


HIGH = high_functions()


def with_channel_masses(funcs, chains, declared):
    """Instantiate ma, mb of Breit-Wigners at the nodes that use them (or declare other values)."""
    out = []
    for f in funcs:
        f = copy.deepcopy(f)
        if f["type"] == "BreitWigner":
            user = next((c for c in chains if c["propagator"] == f["name"]), None)
            i, j = (user.get("dec") or kin.PAIR[user["k"]]) if user else (1, 2)
            if declared == "other":
                f["ma"], f["mb"] = 0.31 + 0.01 * f["l"], 0.29 + 0.013 * f["l"]
            else:
                f["ma"], f["mb"] = MASSES[i], MASSES[j]
        if f["type"] == "MultichannelBreitWigner" and declared != "other":
            user = next((c for c in chains if c["propagator"] == f["name"]), None)
            i, j = (user.get("dec") or kin.PAIR[user["k"]]) if user else (1, 2)
            f["channels"][0]["ma"], f["channels"][0]["mb"] = MASSES[i], MASSES[j]
            if declared == "swapped":
                f["channels"][0]["mb"], f["channels"][0]["ma"] = MASSES[i], MASSES[j]
        out.append(f)
    return out


def base_chain(k, J=R0, **kw):
    return dict(name="QA", k=k, J=J, prod=("helicity", (J, R0), ""), decv=("parity", (R0, R0), "+"), weight=1 + 0j, **kw)


def spec(chains, funcs=None, declared="node", spins=(R0, R0, R0, R0)):
    return dict(spins=spins, masses=MASSES, ref=1, functions=with_channel_masses(funcs or FUNCS, chains, declared), chains=chains)


def number_at(expr, pt, parameters):
    vals = {**{sp.Symbol(f"m{n}", nonnegative=True): MASSES[n] for n in range(4)}, **parameters}
    vals.update({sp.Symbol(f"sigma{n}", nonnegative=True): x for n, x in enumerate(pt.sigmas, 1)})
    return np.broadcast_to(np.asarray(Interpreter(vals)(expr), dtype=complex), pt.sigmas[0].shape)


def run(check):
    T = check.thorough
    pt = space.point(MKEY)
    props = [f["name"] for f in FUNCS if f["type"] != "BlattWeisskopf"]
    ffs = ["", *(f["name"] for f in [*FUNCS, *HIGH] if f["type"] == "BlattWeisskopf")]
    BUILD = {"BreitWignerWidthExpLikeBugg": bugg_builder}

    # ------------------------------------------------ one propagator on its own
    def body(ch):
        k = ch.choose("spectator", [1, 2, 3])
        i, j = kin.PAIR[k]
        dec = ch.choose("node", [(i, j), (j, i)])
        prop = ch.choose("propagator", props)
        return (k, dec, prop, ch.choose("declared masses", ["node", "other", "swapped"]),
                ch.choose("labels", ["identity", "mapped"]), ch.choose("spectator first", [False, True]))

    def body_high(ch):
        k = ch.choose("spectator", [1, 2, 3])
        prop = ch.choose("propagator", [f["name"] for f in HIGH if f["type"] != "BlattWeisskopf"])
        return k, kin.PAIR[k], prop, ch.choose("declared masses", ["node", "other"]), "identity", False

    def execute(cfg):
        k, dec, prop, declared, labels, first = cfg
        c = base_chain(k, dec=dec, propagator=prop, spectator_first=first)
        s = spec([c], [*FUNCS, *HIGH], declared=declared)
        d = serial.definition(s)
        before = copy.deepcopy(d)
        kw = {} if labels == "identity" else {"to_latex": lambda x: rf"\Lambda({x})"}
        cd = d["distributions"][0]["decay_description"]["chains"][0]
        out = formulate_dynamics(cd, d, additional_definitions=BUILD, **kw)
        fails = []
        if d != before:
            fails.append(Fail("definition was modified"))
        want = serial.dynamics(s, c, pt)
        try:
            got = number_at(out.expression, pt, out.parameters)
        except Unbound as e:
            return [Fail(f"{prop}: parameter {e} has no default")]
        if not space.close(got, want):
            fails.append(Fail(f"{prop} at {dec}, declared masses: {declared}: {got[:2]}, declared {want[:2]}"))
        unused = set(out.parameters) - out.expression.free_symbols - set(symbols_of(out.expression))
        if unused:
            fails.append(Fail(f"{prop}: parameters {unused} do not occur in the expression"))
        return fails

    def symbols_of(e):
        return e.atoms(sp.Symbol) | e.doit().free_symbols

    check.explore("propagators", body, execute)
    check.explore("propagators with high angular momenta", body_high, execute)

    # --------------------------------------------------- one form factor on its own
    def body_ff(ch):
        k = ch.choose("spectator", [1, 2, 3])
        i, j = kin.PAIR[k]
        return (k, ch.choose("node", [(i, j), (j, i)]), ch.choose("vertex", [0, 1]), ch.choose("function", ffs),
                ch.flag("spectator first"))

    def execute_ff(cfg):
        k, dec, v, name, first = cfg
        ff = (name, "") if v == 0 else ("", name)
        c = base_chain(k, dec=dec, propagator="one", ff=ff, spectator_first=first)
        s = spec([c], [*FUNCS, *HIGH, dict(name="one", type="Constant", value=1.0)])
        d = serial.definition(s)
        vertex = d["distributions"][0]["decay_description"]["chains"][0]["vertices"][v]
        out = formulate_form_factor(vertex, d)
        if name == "" and "formfactor" in vertex:
            del vertex["formfactor"]
            if formulate_form_factor(vertex, d) != out:
                return [Fail("missing and empty form factor differ")]
        want = serial.dynamics(s, c, pt)
        got = number_at(out.expression, pt, out.parameters)
        fails = []
        if not space.close(got, want):
            fails.append(Fail(f"{name} at vertex {vertex['node']}: {got[:2]}, declared {want[:2]}"))
        declared = [] if not name else [next(f["radius"] for f in [*FUNCS, *HIGH] if f["name"] == name)]
        if list(out.parameters.values()) != declared:
            fails.append(Fail(f"{name}: parameters {out.parameters}, declared radius {declared}"))
        return fails

    check.explore("form factors", body_ff, execute_ff)

    # ----------------------------------------- several chains in one model
    POOL = [
        dict(name="QA", k=1, J=R0, propagator="BW_0", ff=("", "")),
        dict(name="QB", k=2, J=R1, propagator="BW_1", ff=("FF_b_1", "FF_a_1")),
        dict(name="QC", k=3, J=R1, propagator="BW_2", ff=("FF_b_2", "FF_a_2")),
        dict(name="QD", k=3, J=R0, propagator="Multi_2", ff=("FF_b_1", "FF_b_1")),
        dict(name="QE", k=1, J=R1, propagator="Multi_3", ff=("FF_a_1", "")),
        dict(name="QF", k=2, J=R0, propagator="K_Bugg", ff=("", "FF_a_3")),
        dict(name="QG", k=3, J=R1, propagator="BW_2", ff=("FF_a_4", "FF_b_2")),   # same function, other resonance
        dict(name="QB", k=2, J=R0, propagator="BW_3", ff=("", "FF_a_1")),         # same resonance, other function
        dict(name="QA", k=1, J=R0, propagator="Multi_2", ff=("", "")),
    ]
    size = 4 if T else 3

    def body_model(ch):
        sub = [n for n in range(len(POOL)) if ch.flag(f"{POOL[n]['name']} {POOL[n]['propagator']}")]
        if not sub or len(sub) > size:
            raise Prune
        return (sub, ch.choose("order", ["listed", "reversed"]), ch.choose("declared masses", ["node", "other", "swapped"] if T or len(sub) < 3 else ["other"]),
                ch.choose("labels", ["identity", "mapped"] if T or len(sub) < 3 else ["mapped"]))

    def make_chain(n):
        p = dict(POOL[n])
        w = complex(real_value("w", n, lo=0.5, hi=1.5), real_value("v", n, lo=-1, hi=1))
        return dict(p, prod=("helicity", (R0, R0), ""), decv=("helicity", (R0, R0), ""), weight=w)

    def declared_numbers(funcs):
        """(path, value) of every declared number that is a parameter."""
        for n, f in enumerate(funcs):
            for key in ("mass", "width", "d", "radius", "slope", "gsq"):
                if key in f:
                    yield (n, key), f[key]
            for c, channel in enumerate(f.get("channels", [])):
                for key in ("gsq", "d", *(("ma", "mb") if c else ())):
                    yield (n, "channels", c, key), channel[key]

    def used_functions(chains):
        return {c["propagator"] for c in chains} | {x for c in chains for x in c["ff"] if x}

    def execute_model(cfg):
        sub, order, declared, labels = cfg
        chains = [make_chain(n) for n in sub]
        if order == "reversed":
            chains = chains[::-1]
        s = spec(chains, declared=declared)
        d = serial.definition(s)
        kw = {} if labels == "identity" else {"to_latex": lambda x: rf"\Lambda({x})^*"}
        model = formulate(d, additional_builders=BUILD, **kw)
        fails = []

        def compare(spec_, pars, what):
            try:
                got = evaluate(model, pt, pars)
            except Unbound as e:
                return [Fail(f"{what}: {e} has no value")]
            want = serial.intensity(spec_, pt)
            if space.close(got, want):
                return []
            return [Fail(f"{what}: intensity {got.real[:2]}, declared {want[:2]}; chains "
                         f"{[(c['name'], c['propagator'], c['ff']) for c in chains]}, declared masses: {declared}")]

        fails += compare(s, None, "defaults")
        if fails:
            return fails
        # every declared number is a parameter of its own
        used = used_functions(chains)
        n_checked = 1
        for path, v in declared_numbers(s["functions"]):
            f = s["functions"][path[0]]
            if f["name"] not in used:
                continue
            new = v * 1.17
            changed = copy.deepcopy(s)
            target = changed["functions"][path[0]]
            for p in path[1:-1]:
                target = target[p]
            target[path[-1]] = new
            syms = [p for p, x in model.parameter_defaults.items() if not isinstance(x, complex) and x == v]
            if not syms:
                fails.append(Fail(f"{f['name']}: declared {path[1:]} = {v} is not the default of any parameter"))
                continue
            fails += compare(changed, dict.fromkeys(syms, new), f"{f['name']}: {path[1:]} changed through {syms}")
            n_checked += 1
        return fails, n_checked

    check.explore("several parametrizations", body_model, execute_model)

    # --------------------------------------- user-supplied and unknown parametrizations
    def user(propagator, resonance, model):
        f = get_function_definition(propagator["parametrization"], model)
        m, g = sp.symbols(f"M_{f['name']} G_{f['name']}", nonnegative=True)
        return DefinedExpression(SimpleBreitWigner(to_mandelstam_symbol(propagator["node"]), m, g), {m: f["mass"], g: 0.123})

    def body_user(ch):
        return (ch.choose("first", ["BW_1", "Multi_2", "K_Bugg"]), ch.choose("second", ["BW_2", "Multi_3", "K_Bugg"]),
                [t for t in ("BreitWigner", "MultichannelBreitWigner", "BreitWignerWidthExpLikeBugg", "Unused") if ch.flag(f"own {t}")])

    def execute_user(cfg):
        first, second, own = cfg
        chains = [dict(base_chain(1), propagator=first, ff=("", "")), dict(base_chain(2), name="QB", propagator=second, ff=("", ""), weight=0.7 - 0.4j)]
        s = spec(chains)
        types = {f["name"]: f["type"] for f in s["functions"]}
        unknown = any(types[n] == "BreitWignerWidthExpLikeBugg" for n in (first, second)) and "BreitWignerWidthExpLikeBugg" not in own
        try:
            model = formulate(serial.definition(s), additional_builders={t: user for t in own} or None)
        except Exception:
            return [] if unknown else [Fail(f"{first}, {second} with own {own} is refused")]
        if unknown:
            return [Fail(f"unknown parametrization K_Bugg is accepted with own {own}")]

        def dyn(spec_, c, point):
            f = next(f for f in spec_["functions"] if f["name"] == c["propagator"])
            if f["type"] in own:
                return lineshape.simple(np.asarray(point.sigmas[c["k"] - 1]), f["mass"], 0.123)
            return serial.dynamics(spec_, c, point)

        got, want = evaluate(model, pt), serial.intensity(s, pt, dyn=dyn)
        return [] if space.close(got, want) else [Fail(f"{first}, {second} with own {own}: {got[:2]}, expected {want[:2]}")]

    check.explore("user-supplied parametrizations", body_user, execute_user)

    def body_bad(ch):
        return ch.choose("case", ["unknown propagator function", "unknown propagator type", "unknown form factor function",
                                  "unknown form factor type", "one channel", "no channel", "own builder for another type"]), ch.choose("chain", [0, 1])

    def execute_bad(cfg):
        case, n = cfg
        chains = [dict(base_chain(1), propagator="BW_1", ff=("FF_a_1", "FF_b_1")),
                  dict(base_chain(2), name="QB", propagator="Multi_2", ff=("FF_a_2", "FF_b_2"))]
        s = spec(chains)
        d = serial.definition(s)
        c = d["distributions"][0]["decay_description"]["chains"][n]
        kw = {}
        if case == "unknown propagator function":
            c["propagators"][0]["parametrization"] = "nothing"
        elif case == "unknown form factor function":
            c["vertices"][n]["formfactor"] = "nothing"
        elif case == "unknown propagator type":
            d["functions"].append(dict(name="new", type="KMatrix"))
            c["propagators"][0]["parametrization"] = "new"
        elif case == "own builder for another type":
            d["functions"].append(dict(name="new", type="KMatrix"))
            c["propagators"][0]["parametrization"] = "new"
            kw = {"additional_builders": {"Kmatrix": user, "new": user}}
        elif case == "unknown form factor type":
            d["functions"].append(dict(name="new", type="Momentum"))
            c["vertices"][n]["formfactor"] = "new"
        else:
            f = next(f for f in d["functions"] if f["name"] == "Multi_2")
            f["channels"] = f["channels"][: 1 if case == "one channel" else 0]
            c["propagators"][0]["parametrization"] = "Multi_2"
        try:
            formulate(d, **kw)
        except Exception:
            return []
        return [Fail(f"{case} in chain {n} is accepted")]

    check.explore("refusals", body_bad, execute_bad, jobs=1)
