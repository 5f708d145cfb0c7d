"""P18: a serialized amplitude evaluates to the amplitude it defines."""
import copy
import itertools
import json
import os
from fractions import Fraction as F

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum

from ampform_dpd import DefinedExpression
from ampform_dpd.dynamics import BuggBreitWigner
from ampform_dpd.io.serialization.amplitude import (
    formulate, formulate_aligned_amplitude, formulate_chain_amplitude, formulate_recoupling,
)
from ampform_dpd.io.serialization.decay import to_decay
from ampform_dpd.io.serialization.dynamics import to_mandelstam_symbol, to_mass_symbol
from ampform_dpd.io.serialization.format import get_function_definition
from mc import kin, ref, serial, space
from mc.build import rat
from mc.core import REPO, Fail, Prune, value
from mc.interp import Interpreter, Unbound, evaluate_model

ASSUMPTIONS = [
    "H_parity(la,lb) = delta delta + f * (both helicities flipped), H_helicity = delta delta; a chain contributes "
    "w X H_prod(lR,lk) delta(l0, lR-lk) H_dec(li,lj) d^J_{lR,li-lj}(theta_ij) with (i,j) the node order of its vertex",
    "generated models with helicity and parity vertices; LS vertices only at the level of the recoupling "
    "(formulate refuses them)",
    "label rendering functions are injective",
]
H = F(1, 2)
R1, R0 = F(1), F(0)
MKEY = "distinct"
MASSES = kin.MASSES[MKEY]
FUNCS = [{"name": f"const{n}", "type": "Constant", "value": value("const", n)} for n in range(6)]


def constant(propagator, resonance, model):
    f = get_function_definition(propagator["parametrization"], model)
    s = sp.Symbol(f"X_{f['name']}")
    return DefinedExpression(s, {s: f["value"]})


def bugg(propagator, resonance, model):
    f = get_function_definition(propagator["parametrization"], model)
    i, j = propagator["node"]
    m, g, c = (sp.Symbol(f"{x}_{{{resonance}}}", nonnegative=True) for x in ("m", r"\Gamma", r"\gamma"))
    return DefinedExpression(
        BuggBreitWigner(to_mandelstam_symbol(propagator["node"]), m, g, to_mass_symbol(i), to_mass_symbol(j), c),
        {m: f["mass"], g: f["width"], c: f["slope"]})


SIGMA = [sp.Symbol(f"sigma{n}", nonnegative=True) for n in (1, 2, 3)]
BUILDERS = {"Constant": constant, "BreitWignerWidthExpLikeBugg": bugg}


def evaluate(model, pt, parameters=None):
    got, it = evaluate_model(model, pt.sigmas, parameters)
    return np.broadcast_to(np.asarray(got, dtype=complex), pt.sigmas[0].shape)


def weight_overrides(model, spec):
    """Find the weight parameter of every chain by its (unique) value and give all new values."""
    out, new = {}, []
    for n, c in enumerate(spec["chains"]):
        w = c["weight"]
        found = [p for p, v in model.parameter_defaults.items() if np.isclose(complex(v), w, rtol=1e-14, atol=0)]
        if len(found) != 1:
            return None, [Fail(f"weight of chain {n} ({c['name']}) is the default of {found}, expected one parameter")]
        new.append(value("new weight", n))
        out[found[0]] = new[-1]
    if len(out) != len(spec["chains"]):
        return None, [Fail("several chains share one weight parameter")]
    return (out, new), []


def compare(spec, pt=None, new_weights=True, dyn=None, **options):
    pt = pt or space.point(MKEY)
    definition = serial.definition(spec)
    before = copy.deepcopy(definition)
    model = formulate(definition, additional_builders=BUILDERS, **options)
    fails = []
    if definition != before:
        fails.append(Fail("the definition was modified"))
    masses = {sp.Symbol(f"m{n}", nonnegative=True): m for n, m in enumerate(spec["masses"])}
    if dict(model.masses) != masses:
        fails.append(Fail(f"masses {model.masses}, defined {masses}"))
    if model.decay != to_decay(definition):
        fails.append(Fail(f"the model describes {model.decay}"))
    for n, sigma in enumerate(SIGMA, 1):
        if set(model.invariants) != set(SIGMA):
            fails.append(Fail(f"invariants {model.invariants}"))
            break
        got = model.invariants[sigma].xreplace({x: sp.Float(m) for x, m in masses.items()})
        others = {x: sp.Float(y) for x, y in zip(SIGMA, (1.1, 1.7, 2.3)) if x != sigma}
        want = sum(m**2 for m in masses.values()) - sum(map(float, others.values()))
        if abs(complex(got.xreplace(others).doit()) - want) > 1e-9:
            fails.append(Fail(f"invariant {sigma} is {model.invariants[sigma]}"))
    if options.get("cleanup_summations"):
        for node in sp.preorder_traversal(model.intensity):
            if isinstance(node, PoolSum) and any(len(values) == 1 for _, values in node.indices):
                fails.append(Fail(f"a sum over one value is left after the clean-up: {show(spec)}"))
                break
    try:
        got = evaluate(model, pt)
        want = serial.intensity(spec, pt, dyn=dyn)
        if not space.close(got, want):
            fails.append(Fail(f"intensity {np.real(got[:2])}, defined {want[:2]} for {show(spec)} {options}"))
        if new_weights:
            w, bad = weight_overrides(model, spec)
            fails += bad
            if w:
                got = evaluate(model, pt, w[0])
                want = serial.intensity(spec, pt, w[1], dyn=dyn)
                if not space.close(got, want):
                    fails.append(Fail(f"intensity for other weights {np.real(got[:2])}, defined {want[:2]} for {show(spec)}"))
    except Unbound as e:
        fails.append(Fail(f"undefined symbol {e} in {show(spec)}"))
    return fails


def show(spec):
    return "; ".join(f"{c['name']} k={c['k']} J={c['J']} nodes={c.get('dec')} prod={c['prod']} dec={c['decv']}"
                     for c in spec["chains"]) + f" ref={spec['ref']} spins={tuple(map(str, spec['spins']))}"


def const_dyn(spec, c, point):
    return value("const", int(c["propagator"][5:]))


SPINS = [
    (H, H, R0, R0), (H, R0, H, R0), (R1, R0, R0, R1), (R1, H, H, R0), (R0, H, R0, H), (R0, R0, R0, R0), (F(3, 2), H, R0, R0),
    (H, R1, H, R0), (R1, R0, R1, R0),
]


def probe(spins, k, n):
    """A chain that feeds every helicity it can, to interfere with."""
    i, j = kin.PAIR[k]
    J = space.resonance_spins(spins, k, 2)[1 if spins[0] else 0]
    lk = spins[k]
    lamR = next(r for r in reversed(ref.projections(J)) if abs(r - lk) <= spins[0])
    best = max(((a, b) for a in ref.projections(spins[i]) for b in ref.projections(spins[j]) if abs(a - b) <= J),
               key=lambda x: (x[0], -x[1]))
    return dict(name=f"P{n}", k=k, J=J, prod=("parity", (lamR, lk), "+"), decv=("parity", best, "-"),
                weight=value("probe", n), propagator=f"const{n}")


def run(check):
    T = check.thorough

    # -------------------------------------- one chain (all vertex choices) with probes
    spin_list = SPINS if T else SPINS[:5]

    def body(ch):
        spins = ch.choose("spins", spin_list)
        k = ch.choose("spectator", [1, 2, 3])
        i, j = kin.PAIR[k]
        if ch.flag("reversed decay node"):
            i, j = j, i
        J = ch.choose("J", space.resonance_spins(spins, k, 2))
        prods = [(a, b) for a in ref.projections(J) for b in ref.projections(spins[k])]
        decs = [(a, b) for a in ref.projections(spins[i]) for b in ref.projections(spins[j]) if abs(a - b) <= J]
        if not T:  # a representative of each helicity difference
            prods = list({a - b: (a, b) for a, b in prods}.values())
        prod = ch.choose("production helicities", prods)
        dec = ch.choose("decay helicities", decs)
        ptype, pf = ch.choose("production vertex", [("helicity", ""), ("parity", "+"), ("parity", "-")])
        dtype, df = ch.choose("decay vertex", [("helicity", ""), ("parity", "-"), ("parity", "+")][: 3 if T else 2])
        first = ch.flag("spectator first") if T else k == 2
        swap = ch.flag("decay vertex first") if T else ptype == "parity"
        chain = dict(name="QA", k=k, J=J, dec=(i, j), prod=(ptype, prod, pf), decv=(dtype, dec, df), spectator_first=first,
                     swap_vertices=swap, weight=value("weight"), propagator="const0")
        others = [probe(spins, kk, kk) for kk in (1, 2, 3) if kk != k or T]
        if not T:
            others = others[:1]
        return dict(spins=spins, masses=MASSES, ref=k % 3 + 1, functions=FUNCS, chains=[chain, *others])

    check.explore("vertices of one chain", body, lambda s: compare(s, dyn=const_dyn, new_weights=False))

    # ------------------------------------------------- sets of chains and presentation
    spins = (H, H, R0, R0)
    POOL = [
        dict(name="QA", k=1, J=R0, prod=("helicity", (R0, H), ""), decv=("parity", (R0, R0), "+")),
        dict(name="QB", k=1, J=R1, dec=(3, 2), prod=("parity", (R1, H), "-"), decv=("helicity", (R0, R0), "")),
        dict(name="QC", k=2, J=F(3, 2), prod=("helicity", (H, R0), ""), decv=("parity", (R0, H), "-"), spectator_first=True),
        dict(name="QC", k=2, J=F(3, 2), prod=("helicity", (-H, R0), ""), decv=("parity", (R0, H), "-")),
        dict(name="QC", k=3, J=F(3, 2), prod=("helicity", (H, R0), ""), decv=("parity", (H, R0), "-"), swap_vertices=True),
        dict(name="QD", k=3, J=H, dec=(2, 1), prod=("parity", (H, R0), "+"), decv=("parity", (R0, -H), "+")),
    ]
    STYLES = ["plain", "compact", "real", "imaginary", "tiny imaginary part", "tiny real part", "tiny"]
    LATEX = {"identity": None, "mapped": lambda x: {"QA": r"\Lambda", "QB": r"K^{*}", "QC": r"N(1)", "QD": "z_2"}.get(x, x)}

    def make(sub, ref_id, order="listed", style="plain", ref_style="resonance first", final_order=(1, 2, 3)):
        chains = []
        for n in sub:
            w = value("weight", n)
            w = {"real": complex(w.real, 0), "imaginary": complex(0, w.imag),
                 "tiny imaginary part": complex(w.real, 1e-6 * w.imag), "tiny real part": complex(1e-6 * w.real, w.imag),
                 "tiny": 1e-7 * w}.get(style, w)
            chains.append(dict(POOL[n], weight=w, weight_style=style, propagator=f"const{n}"))
        if order == "reversed":
            chains = chains[::-1]
        elif order == "rotated":
            chains = chains[1:] + chains[:1]
        return dict(spins=spins, masses=MASSES, ref=ref_id, ref_style=ref_style, functions=FUNCS, chains=chains,
                    final_order=final_order)

    def body_sets(ch):
        sub = [n for n in range(len(POOL)) if ch.flag(f"chain {n}")]
        if not sub or len(sub) > (6 if T else 3):
            raise Prune
        return make(sub, ch.choose("reference", [1, 2, 3]), ch.choose("order", ["listed", "reversed", "rotated"][: len(sub)]))

    check.explore("sets of chains", body_sets, lambda s: compare(s, dyn=const_dyn))

    SUBSETS = [(0, 1, 2, 3), (2, 3, 4), (0, 4, 5), (1, 3, 5), (0, 1, 2, 3, 4, 5)]

    def body_pres(ch):
        sub = ch.choose("chains", SUBSETS if T else SUBSETS[1:3])
        s = make(sub, ch.choose("reference", [1, 2, 3] if T else [2]), ch.choose("order", ["listed", "reversed"]),
                 ch.choose("weights", STYLES),
                 ch.choose("reference topology", ["resonance first", "spectator first", "reversed pair"]),
                 ch.choose("final state order", [(1, 2, 3), (3, 1, 2), (2, 1, 3)]))
        return s, ch.flag("cleanup"), ch.choose("labels", list(LATEX))

    def execute_pres(cfg):
        s, cleanup, labels = cfg
        kw = {} if LATEX[labels] is None else {"to_latex": LATEX[labels]}
        return compare(s, dyn=const_dyn, cleanup_summations=cleanup, **kw)

    check.explore("presentation", body_pres, execute_pres)

    # chains that agree in name and helicities need weights of their own
    def body_twins(ch):
        first = ch.choose("first", list(range(len(POOL))))
        how = ch.choose("twin", ["other subsystem", "same chain", "other spin", "other propagator"])
        return first, how, ch.choose("reference", [1, 2, 3])

    def execute_twins(cfg):
        n, how, ref_id = cfg
        c = dict(POOL[n], weight=value("weight", 0), propagator="const0")
        d = dict(c, weight=value("weight", 1))
        if how == "other subsystem":
            return compare(dict(make((2, 4), ref_id)), dyn=const_dyn)
        if how == "other spin":
            d["J"] = c["J"] + 1
        if how == "other propagator":
            d["propagator"] = "const1"
        return compare(dict(make((), ref_id), chains=[c, d]), dyn=const_dyn)

    check.explore("twin chains", body_twins, execute_twins)

    # --------------------------------------------------------- recouplings one by one
    def body_rec(ch):
        typ = ch.choose("type", ["helicity", "parity", "ls"])
        vertex = ch.choose("vertex", ["production", "decay"])
        Js = [R0, H, R1, F(3, 2)] if T else [R0, H, R1]
        j = ch.choose("parent spin", Js)
        ja, jb = ch.choose("first child spin", Js), ch.choose("second child spin", Js)
        if (j + ja + jb).denominator != 1:
            raise Prune
        if typ == "ls":
            par = ch.choose("LS", ref.ls_allowed(j, ja, jb, 3))
        else:
            par = (ch.choose("declared", [(a, b) for a in ref.projections(ja) for b in ref.projections(jb)]),
                   ch.choose("factor", ["+", "-", "", " + "] if typ == "parity" else [""]))
        return typ, vertex, j, ja, jb, par, ch.flag("reversed"), ch.choose("position", [0, 1])

    def execute_rec(cfg):
        typ, vertex, j, ja, jb, par, rev, pos = cfg
        # resonance in subsystem 3, children of the vertex in (possibly reversed) node order
        if vertex == "decay":
            spins, JR, items = {1: ja, 2: jb, 3: R0, 0: j}, j, [1, 2]
            if rev:
                spins[1], spins[2], items = jb, ja, [2, 1]
            node = items
            other = {"type": "helicity", "node": [items, 3], "helicities": [num(JR), "0"]}
        else:
            spins, JR = {1: R0, 2: R0, 3: jb, 0: j}, ja
            node = [[1, 2], 3]
            if rev:
                spins[3], JR, node = ja, jb, [3, [1, 2]]
            other = {"type": "helicity", "node": [1, 2], "helicities": ["0", "0"]}
        v = {"type": typ, "node": node}
        if typ == "ls":
            v.update(l=str(par[0]), s=num(par[1]))
        else:
            v["helicities"] = [num(x) for x in par[0]]
            if typ == "parity":
                v["parity_factor"] = par[1]
        vertices = [v, other] if pos == 0 else [other, v]
        model = {
            "distributions": [{"name": "x", "type": "x", "variables": [], "decay_description": {
                "kinematics": {
                    "initial_state": {"index": 0, "name": "T", "spin": num(spins[0]), "mass": 3.0},
                    "final_state": [{"index": n, "name": "abc"[n - 1], "spin": num(spins[n]), "mass": 0.1 * n} for n in (3, 1, 2)],
                },
                "reference_topology": [[1, 2], 3],
                "chains": [{"name": "R", "topology": [[1, 2], 3], "vertices": vertices, "weight": "1",
                            "propagators": [{"spin": num(JR), "node": [1, 2], "parametrization": "x"}]}],
            }}], "functions": [], "domains": [],
        }
        expr = formulate_recoupling(model, 0, pos)
        a_sym, b_sym = (sp.Symbol(f"lambda{x}", rational=True) if isinstance(x, int) else sp.Symbol(R"\lambda_R", rational=True)
                        for x in node)
        fails = []
        for a in ref.projections(ja):
            for b in ref.projections(jb):
                got = complex(Interpreter({})(expr.xreplace({a_sym: rat(a), b_sym: rat(b)})))
                if typ == "ls":
                    want = ref.recoupling(j, par[0], par[1], ja, a, jb, b)
                else:
                    want = serial.recouple((typ, par[0], par[1]), a, b)
                if abs(got - want) > 1e-12:
                    fails.append(Fail(f"{typ} recoupling {par} of {j} -> {ja} {jb} at ({a}, {b}) is {got}, expected {want}"))
        return fails, int((2 * ja + 1) * (2 * jb + 1))

    num = serial.num
    check.explore("recouplings", body_rec, execute_rec)

    # -------------------------------------------- amplitudes of single chains, put together
    def body_single(ch):
        sub = ch.choose("chains", [(0,), (1,), (2, 3), (3, 2, 4), (5, 1)] + ([(0, 1, 2, 3, 4, 5), (4,), (5, 4, 3)] if T else []))
        return (make(sub, ch.choose("reference", [1, 2, 3]), ch.choose("order", ["listed", "reversed"])),
                ch.choose("helicities", ["values", "own symbols", "other symbols"]))

    def execute_single(cfg):
        s, how = cfg
        d = serial.definition(s)
        before = copy.deepcopy(d)
        pt = space.point(MKEY)
        helicities = list(itertools.product(*map(ref.projections, s["spins"])))
        symbols = {"own symbols": sp.symbols("lambda(:4)", rational=True), "other symbols": sp.symbols("a:d", rational=True)}.get(how)
        values = {sp.Symbol(f"m{n}", nonnegative=True): m for n, m in enumerate(s["masses"])}
        values.update({sp.Symbol(f"sigma{n}", nonnegative=True): x for n, x in enumerate(pt.sigmas, 1)})
        definitions, amplitudes, fails, weights = {}, {}, [], set()

        def call(function, *args):
            """What a function gives for all helicities, as values."""
            if symbols:
                out = function(*symbols, *args)
                return [({k.xreplace(m): sp.sympify(v).xreplace(m) for k, v in out.items()})
                        for lam in helicities for m in [{x: rat(v) for x, v in zip(symbols, lam)}]]
            return [function(*map(rat, lam), *args) for lam in helicities]

        for n, c in enumerate(s["chains"]):
            want = serial.amplitudes(dict(s, chains=[c]), pt, dyn=const_dyn)
            found = call(lambda *a: formulate_chain_amplitude(*a, additional_builders=BUILDERS), d, n)
            for lam, out in zip(helicities, found):
                (symbol, expr), *pars, (theta, angle) = out.items()
                values.update(pars)
                weights.add((n, pars[0][0]))
                definitions[theta] = angle
                if tuple(F(str(x)) for x in symbol.indices) != lam:
                    fails.append(Fail(f"amplitude {symbol} for helicities {lam}"))
                amplitudes[symbol] = amplitudes.get(symbol, 0) + expr
                try:
                    got = np.broadcast_to(Interpreter(values, definitions)(expr), pt.sigmas[0].shape)
                except Unbound as e:
                    return [*fails, Fail(f"{e} is undefined in the amplitude of chain {n}, helicities {how}, {show(s)}")]
                if not space.close(got, np.broadcast_to(want[c["k"], lam], got.shape)):
                    fails.append(Fail(f"amplitude of chain {n} at {tuple(map(str, lam))} ({how}) is {got}, defined "
                                      f"{want[c['k'], lam]} for {show(s)}"))
        if len(weights) != len(s["chains"]) or len({w for _, w in weights}) != len(weights):
            fails.append(Fail(f"weights {weights} for {show(s)}"))
        total = 0
        zetas = {}

        def aligned(*a):
            expr, angles = formulate_aligned_amplitude(d, *a)
            zetas.update(angles)
            return {sp.Symbol("aligned"): expr}

        for out in call(aligned):
            (expr,) = out.values()
            try:
                total = total + np.abs(Interpreter(values, {**definitions, **zetas}, amplitudes)(expr)) ** 2
            except Unbound as e:
                return [*fails, Fail(f"{e} is undefined in the aligned amplitude, helicities {how}, {show(s)}")]
        want = serial.intensity(s, pt, dyn=const_dyn)
        if not space.close(np.broadcast_to(total, want.shape), want):
            fails.append(Fail(f"the aligned amplitudes ({how}) add up to {total}, defined {want} for {show(s)}"))
        if d != before:
            fails.append(Fail("the definition was modified"))
        return fails, len(helicities)

    check.explore("single amplitudes", body_single, execute_single)

    # ----------------------------------------------------------------- refused models
    def body_bad(ch):
        return ch.choose("case", ["ls production", "ls decay", "unknown vertex type", "bad parity factor", "third vertex",
                                  "one vertex", "vertex -1", "vertex -2", "vertex 2", "vertex 3", "no propagator",
                                  "two propagators"]), ch.choose("chain", [0, 1]), ch.choose("vertex", [0, 1])

    def execute_bad_vertex(d, case, n, pos):
        chain = d["distributions"][0]["decay_description"]["chains"][n]
        if case.startswith("vertex"):
            pos = int(case.split()[1])
        else:
            for v in chain["vertices"]:  # the spin of the resonance is needed
                v.update(type="ls", l="0", s="1/2")
            chain["propagators"] = [] if case == "no propagator" else chain["propagators"] * 2
        try:
            expr = formulate_recoupling(d, n, pos)
        except Exception:
            return []
        return [Fail(f"recoupling of vertex {pos} of chain {n} with {case} is {expr}")]

    def execute_bad(cfg):
        case, n, pos = cfg
        d = serial.definition(make((0, 2), 1))
        if case.startswith("vertex") or case.endswith(("propagator", "propagators")):
            return execute_bad_vertex(d, case, n, pos)
        v = d["distributions"][0]["decay_description"]["chains"][n]["vertices"]
        prod, dec = (0, 1)
        if case.startswith("ls"):
            v[prod if "production" in case else dec] = {
                "type": "ls", "l": "0", "s": "1/2", "node": v[prod if "production" in case else dec]["node"]}
        elif case == "unknown vertex type":
            v[0]["type"] = "tensor"
        elif case == "bad parity factor":
            v[0]["type"], v[0]["parity_factor"] = "parity", "x"
        elif case == "third vertex":
            v.append(dict(v[0]))
        else:
            v.pop(dec)
        try:
            m = formulate(d, additional_builders=BUILDERS)
        except Exception:
            return []
        if case.startswith("ls"):
            return []  # supporting LS vertices would be fine
        return [Fail(f"{case} in chain {n} is accepted: {list(m.amplitudes)[:2]}")]

    check.explore("refusals", body_bad, execute_bad, jobs=1)

    # ----------------------------------- the interpreter agrees with full_expression
    def body_full(ch):
        return make(ch.choose("chains", [(0,), (2, 5), (1, 3)]), ch.choose("reference", [1, 3]))

    def execute_full(s):
        pt = space.point(MKEY)
        model = formulate(serial.definition(s), additional_builders=BUILDERS)
        expr = model.full_expression
        vals = {**model.parameter_defaults}
        it = Interpreter({**{k: v for k, v in vals.items() if not isinstance(k, sp.Indexed)},
                          **{sp.Symbol(f"sigma{n}", nonnegative=True): x for n, x in enumerate(pt.sigmas, 1)}})
        free = expr.free_symbols - set(it.values)
        expr = expr.xreplace(model.variables).xreplace({sp.Symbol("sigma0"): 0}) if free else expr
        got = it(expr.doit() if free else expr)
        want = serial.intensity(s, pt, dyn=const_dyn)
        return [] if space.close(got, want) else [Fail(f"full_expression gives {got}, defined {want}")]

    check.explore("full expression", body_full, execute_full)

    # --------------------------------------------- the published model in the docs
    path = REPO / "docs" / "Lc2ppiK.json"
    if path.exists():
        definition = json.loads(path.read_text())
        full = serial.spec_of(definition)
        names = sorted({c["name"] for c in full["chains"]})

        def body_doc(ch):
            keep = ch.choose("resonances", ["all", *names])
            return keep, ch.choose("reference", [1, 2, 3] if keep == "all" or T else [2]), ch.flag("cleanup")

        def execute_doc(cfg):
            keep, ref_id, cleanup = cfg
            d = copy.deepcopy(definition)
            dd = d["distributions"][0]["decay_description"]
            dd["reference_topology"] = serial.reference_topology(ref_id)
            if keep != "all":
                dd["chains"] = [c for c in dd["chains"] if c["name"] == keep]
            spec = serial.spec_of(d)
            pt = ref.Point(spec["masses"], kin.lattice(spec["masses"], 3))
            model = formulate(d, additional_builders=BUILDERS, cleanup_summations=cleanup)
            got, want = evaluate(model, pt), serial.intensity(spec, pt)
            if not space.close(got, want):
                return [Fail(f"{path.name}, {keep}: intensity {got.real[:3]}, defined {want[:3]}")]
            return []

        check.explore("published model", body_doc, execute_doc)
