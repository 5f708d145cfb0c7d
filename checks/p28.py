"""P28: substitution, unfolding, copying and pickling commute on every expression and model."""
import copy
import itertools
import pickle  # noqa: S403
import warnings

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import PhaseSpaceFactorAbs

from ampform_dpd import dynamics as D
from ampform_dpd.dynamics.builder import BreitWignerBuilder
from ampform_dpd.io.serialization.amplitude import HelicityRecoupling, LSRecoupling, ParityRecoupling
from mc import lineshape as ref
from mc import ref as dpdref
from mc import space
from mc.core import Fail
from mc.interp import evaluate_model
from mc.space import F, H

ASSUMPTIONS = [
    "manipulations: xreplace, subs, simultaneous exchange, pickle, deepcopy, doit (deep and shallow), embedding in a larger "
    "expression; rebuilding with func(*args) and replace() are a matter of AmpForm's decorator (they drop phase-space factors), "
    "and so is pickling or copying an unevaluated expression that contains another one (their arguments get lost)",
    "values at a grid of s below and above threshold, relative tolerance 1e-7",
]
S_GRID = np.array([0.77, 1.23, 1.9, 2.61])
S = sp.Symbol("s", nonnegative=True)


def X(name):  # noqa: N802
    return sp.Symbol(name, nonnegative=True)


# name -> (parameters with values, (mass-like a, mass-like b), constructor, closed form)
def widths(v):
    return v["m0"], v["g0"], v["ma"], v["mb"]


BASE = {"m0": 1.3, "g0": 0.12, "ma": 0.3, "mb": 0.5, "R": 2.3}
CASES = {
    "RelativisticBreitWigner": (
        BASE, lambda v: D.RelativisticBreitWigner(S, *widths(v), 1, v["R"]),
        lambda s, v: ref.relativistic(s, *widths(v), 1, v["R"])),
    "RelativisticBreitWigner, other phase space": (
        BASE, lambda v: D.RelativisticBreitWigner(S, *widths(v), 2, v["R"], phsp_factor=PhaseSpaceFactorAbs),
        lambda s, v: ref.relativistic(s, *widths(v), 2, v["R"], ref.rho_abs)),
    "BreitWigner": (
        BASE, lambda v: D.BreitWigner(S, *widths(v), 2, v["R"]),
        lambda s, v: ref.breit_wigner(s, *widths(v), 2, v["R"])),
    "BreitWigner, other phase space": (
        BASE, lambda v: D.BreitWigner(S, *widths(v), 0, v["R"], phsp_factor=PhaseSpaceFactorAbs),
        lambda s, v: ref.breit_wigner(s, *widths(v), 0, v["R"], ref.rho_abs)),
    "BreitWigner, constant width": (
        {"m0": 1.3, "g0": 0.12}, lambda v: D.BreitWigner(S, v["m0"], v["g0"]), lambda s, v: ref.simple(s, v["m0"], v["g0"])),
    "SimpleBreitWigner": (
        {"m0": 1.3, "g0": 0.12}, lambda v: D.SimpleBreitWigner(S, v["m0"], v["g0"]), lambda s, v: ref.simple(s, v["m0"], v["g0"])),
    "BreitWignerMinL": (
        {"mt": 2.9, "ms": 0.45, **BASE, "Rp": 5.0},
        lambda v: D.BreitWignerMinL(S, v["mt"], v["ms"], v["m0"], v["g0"], v["mb"], v["ma"], 1, 2, v["R"], v["Rp"],
                                    phsp_factor=PhaseSpaceFactorAbs),
        lambda s, v: ref.min_l(s, v["mt"], v["ms"], v["m0"], v["g0"], v["mb"], v["ma"], 1, 2, v["R"], v["Rp"], ref.rho_abs)),
    "BuggBreitWigner": (
        {**{k: BASE[k] for k in ("m0", "g0", "ma", "mb")}, "gamma": 0.94},
        lambda v: D.BuggBreitWigner(S, *widths(v), v["gamma"]), lambda s, v: ref.bugg(s, *widths(v), v["gamma"])),
    "FlattéSWave": (
        {**{k: BASE[k] for k in ("m0", "g0", "ma", "mb")}, "g2": 0.2, "mc": 0.4, "md": 0.45},
        lambda v: D.FlattéSWave(S, v["m0"], (v["g0"], v["g2"]), (v["ma"], v["mb"]), (v["mc"], v["md"])),
        lambda s, v: ref.flatte(s, v["m0"], (v["g0"], v["g2"]), (v["ma"], v["mb"]), (v["mc"], v["md"]))),
    "ChannelArguments": (
        BASE, lambda v: D.ChannelArguments(S, *widths(v), 2, v["R"]), lambda s, v: ref.channel(s, *widths(v), 2, v["R"])),
    "MultichannelBreitWigner": (
        {**BASE, "g2": 0.2, "mc": 0.4, "R2": 0.9},
        lambda v: D.MultichannelBreitWigner(S, v["m0"], (
            D.ChannelArguments(S, *widths(v), 1, v["R"]), D.ChannelArguments(S, v["m0"], v["g2"], v["ma"], v["mc"], 2, v["R2"]))),
        lambda s, v: ref.multichannel(s, v["m0"], [(v["g0"], v["ma"], v["mb"], 1, v["R"]), (v["g2"], v["ma"], v["mc"], 2, v["R2"])])),
}
OPS = ["number", "number by subs", "rename", "exchange", "identify", "zero", "zero radius", "zero width", "pickle", "deepcopy",
       "doit", "shallow doit", "embed"]
CORE = ["number", "rename", "exchange", "identify", "pickle", "doit", "shallow doit"]


class State:
    """What an expression should be: a parameter is a number or stands for a symbol with a value."""

    def __init__(self, name, parameters, make):
        self.name = name
        self.symbols = {name: X(name) for name in parameters}
        self.value = {X(name): v for name, v in parameters.items()}
        self.bound = dict(self.symbols)  # parameter -> symbol or number
        self.expr = make(self.symbols)
        self.factors = []
        self.fresh = 0
        # AmpForm's decorator cannot pickle or copy one of its expressions inside another one
        self.nested = isinstance(self.expr, D.MultichannelBreitWigner)

    def free(self):
        return [p for p, x in self.bound.items() if isinstance(x, sp.Symbol)]

    def replace(self, mapping, how="xreplace"):
        if how == "subs":
            self.expr = self.expr.subs(mapping)
        else:
            self.expr = self.expr.xreplace({k: sp.sympify(v) for k, v in mapping.items()})
        self.bound = {p: mapping.get(x, x) if isinstance(x, sp.Symbol) else x for p, x in self.bound.items()}

    def apply(self, op):
        free = self.free()
        if op == "number" and free:
            x = self.bound[free[0]]
            self.replace({x: self.value[x]})
        elif op == "number by subs" and free:
            x = self.bound[free[-1]]
            self.replace({x: self.value[x]}, "subs")
        elif op == "rename" and free:
            old = self.bound[free[len(free) // 2]]
            self.fresh += 1
            new = X(f"z{self.fresh}")
            self.value[new] = self.value[old] * 1.07
            self.replace({old: new})
        elif op == "exchange" and len(free) > 1:
            a, b = self.bound[free[-2]], self.bound[free[-1]]
            if "ma" in free and "mb" in free:
                a, b = self.bound["ma"], self.bound["mb"]
            if a != b:
                self.replace({a: b, b: a})
        elif op == "identify" and "ma" in free and "mb" in free:
            self.replace({self.bound["ma"]: self.bound["mb"]})
        elif op == "zero" and "ma" in free:
            self.replace({self.bound["ma"]: 0})
        elif op == "zero radius" and "R" in free and self.name in ("ChannelArguments", "MultichannelBreitWigner"):
            self.replace({self.bound["R"]: 0})  # elsewhere the form factor is divided by its value at the pole
        elif op == "zero width" and "g0" in free:
            self.replace({self.bound["g0"]: 0})
        elif op == "pickle" and not self.nested:
            self.expr = pickle.loads(pickle.dumps(self.expr))  # noqa: S301
        elif op == "deepcopy" and not self.nested:
            self.expr = copy.deepcopy(self.expr)
        elif op == "doit":
            self.expr = self.expr.doit()
            self.nested = False
        elif op == "shallow doit":
            self.expr = self.expr.doit(deep=False)
            self.nested = True
        elif op == "embed":
            self.expr = sp.Symbol("y0") * self.expr + sp.Symbol("y1")
            self.factors.append(1)

    def numbers(self):
        return {p: float(self.value[x]) if isinstance(x, sp.Symbol) else float(x) for p, x in self.bound.items()}

    def result(self):
        expr = self.expr.doit()
        values = {**self.value, sp.Symbol("y0"): 0.7, sp.Symbol("y1"): -0.2}
        allowed = {x for x in self.bound.values() if isinstance(x, sp.Symbol)} | {S}
        if self.factors:
            allowed |= {sp.Symbol("y0"), sp.Symbol("y1")}
        left = expr.free_symbols - allowed
        if left:
            raise AssertionError(f"symbols {sorted(map(str, left))} are left")
        names = sorted(expr.free_symbols - {S}, key=str)
        f = sp.lambdify([S, *names], expr, "numpy")
        with np.errstate(all="ignore"):
            out = f(S_GRID.astype(complex), *[complex(values[n]) for n in names])
        return np.broadcast_to(np.asarray(out, dtype=complex), S_GRID.shape)

    def want(self, closed):
        out = closed(S_GRID, self.numbers())
        for _ in self.factors:
            out = 0.7 * out - 0.2
        return out


def run(check):
    T = check.thorough

    def body(ch):
        name = ch.choose("class", list(CASES))
        return name, [ch.choose(f"step {i}", OPS) for i in range(3 if T else 2)]

    def body_core(ch):
        name = ch.choose("class", list(CASES))
        return name, [ch.choose(f"step {i}", CORE) for i in range(4 if T else 3)]

    def execute(cfg):
        name, history = cfg
        parameters, make, closed = CASES[name]
        state = State(name, parameters, make)
        try:
            for op in history:
                state.apply(op)
            got = state.result()
        except Exception as e:  # noqa: BLE001
            return [Fail(f"{name}: {history} raises {type(e).__name__}: {e}")], len(history)
        want = state.want(closed)
        if not np.all(np.abs(got - want) <= 1e-7 * np.maximum(np.abs(want), 1e-9)):
            return [Fail(f"{name} after {history} is {got[:2]}, expected {want[:2]} at {state.numbers()}")], len(history)
        return [], len(history)

    check.explore("histories, all manipulations", body, execute)
    check.explore("histories, longer", body_core, execute)

    # -------------------------------------------- every subset of parameters, before and after
    def body_subset(ch):
        name = ch.choose("class", list(CASES))
        early = tuple(ch.flag(p) for p in CASES[name][0])
        return name, early, ch.choose("unfold", ["not", "once", "fully"])

    def execute_subset(cfg):
        name, early, unfold = cfg
        parameters, make, closed = CASES[name]
        expr = make({p: X(p) for p in parameters})
        if unfold == "once":
            expr = expr.doit(deep=False)
        elif unfold == "fully":
            expr = expr.doit()
        first = {X(p): sp.Float(v) for (p, v), e in zip(parameters.items(), early) if e}
        rest = {X(p): v for (p, v), e in zip(parameters.items(), early) if not e}
        expr = expr.xreplace(first)
        left = expr.doit().free_symbols - set(rest) - {S}
        if left:
            return [Fail(f"{name}: {left} are still there after the substitution of {first} (unfolded: {unfold})")]
        f = sp.lambdify([S, *rest], expr.doit(), "numpy")
        with np.errstate(all="ignore"):
            got = np.broadcast_to(f(S_GRID.astype(complex), *[complex(v) for v in rest.values()]), S_GRID.shape)
        want = closed(S_GRID, parameters)
        if not np.all(np.abs(got - want) <= 1e-7 * np.maximum(np.abs(want), 1e-9)):
            return [Fail(f"{name}: {first} substituted first (unfolded: {unfold}) gives {got[:2]}, expected {want[:2]}")]
        return []

    check.explore("subsets of parameters", body_subset, execute_subset)

    # ------------------------------------------------------------- equality of expressions
    def body_equal(ch):
        name = ch.choose("class", list(CASES))
        other = ch.choose("other class", list(CASES))
        p = ch.choose("parameter", [None, *CASES[name][0]])
        return name, other, p, ch.choose("how", ["built", "pickled", "copied"])

    def execute_equal(cfg):
        name, other, p, how = cfg
        parameters, make, _ = CASES[name]
        a = make({q: X(q) for q in parameters})
        if other != name:
            if p is not None or how != "built":
                return []
            b = CASES[other][1]({q: X(q) for q in CASES[other][0]})
            if a == b or len({a, b}) != 2:
                return [Fail(f"{name} and {other} are equal")]
            return []
        b = make({q: X("other") if q == p else X(q) for q in parameters})
        if isinstance(b, D.MultichannelBreitWigner):
            how = "built"
        if how == "pickled":
            b = pickle.loads(pickle.dumps(b))  # noqa: S301
        elif how == "copied":
            b = copy.deepcopy(b)
        same = p is None
        if (a == b) != same or len({a, b}) != (1 if same else 2):
            return [Fail(f"{name} {how} with another {p}: equal is {a == b}")]
        return []

    check.explore("equality", body_equal, execute_equal)

    # ------------------------------------------------------------------------ recouplings
    HALVES = [F(0), H, F(1)]

    def body_rec(ch):
        kind = ch.choose("kind", ["helicity", "parity", "LS"])
        ja, jb = ch.choose("ja", HALVES), ch.choose("jb", HALVES)
        la, lb = ch.choose("la", dpdref.projections(ja)), ch.choose("lb", dpdref.projections(jb))
        if kind == "LS":
            j = ch.choose("j", [F(0), H, F(1), F(3, 2)])
            L, s = ch.choose("ls", dpdref.ls_allowed(j, ja, jb, 2))
            args = (la, lb, L, s, ja, jb, j)
        else:
            args = (la, lb, ch.choose("la0", dpdref.projections(ja)), ch.choose("lb0", dpdref.projections(jb)))
            if kind == "parity":
                args = (*args, ch.choose("factor", [1, -1]))
        return kind, args, ch.choose("symbols", ["none", "helicities", "all"])

    def execute_rec(cfg):
        kind, args, symbols = cfg
        cls = {"helicity": HelicityRecoupling, "parity": ParityRecoupling, "LS": LSRecoupling}[kind]
        numbers = [sp.Rational(F(a).numerator, F(a).denominator) for a in args]
        count = {"none": 0, "helicities": 2, "all": len(args)}[symbols]
        syms = list(sp.symbols(f"x:{count}", rational=True)) if count else []
        if kind == "LS":
            la, lb, L, s, ja, jb, j = args
            want = dpdref.recoupling(j, L, s, ja, la, jb, lb)
        else:
            la, lb, la0, lb0, *f = args
            want = float((la, lb) == (la0, lb0)) + (f[0] * float((la, lb) == (-la0, -lb0)) if f else 0)
        expr = cls(*syms, *numbers[count:])
        out = {"late": expr.xreplace(dict(zip(syms, numbers))).doit()}
        if kind != "LS":  # SymPy cannot unfold symbolic Clebsch-Gordan coefficients
            out["early"] = expr.doit().xreplace(dict(zip(syms, numbers)))
        out["shallow"] = expr.doit(deep=False).xreplace(dict(zip(syms, numbers))).doit() if kind != "LS" else out["late"]
        out["pickled"] = pickle.loads(pickle.dumps(expr)).xreplace(dict(zip(syms, numbers))).doit()  # noqa: S301
        for how, value in out.items():
            if abs(complex(value) - want) > 1e-12:
                return [Fail(f"{kind} recoupling of {tuple(map(str, args))}, symbols {symbols}, {how}: {value}, expected {want}")], len(out)
        return [], len(out)

    check.explore("recouplings", body_rec, execute_rec)

    # ----------------------------------------------------------------------------- models
    GROUPS = ["variables", "masses", "parameters", "couplings"]
    SPECS = {
        "scalars": ((F(0),) * 4, (1, 2)),
        "fermion": ((H, H, F(0), F(0)), (3, 2)),
        "vector": ((F(0), F(1), F(0), F(0)), (1,)),
    }

    def body_model(ch):
        name = ch.choose("decay", list(SPECS))
        kind = ch.choose("dynamics", ["none", "Breit-Wigner"])
        order = ch.choose("order", list(itertools.permutations(GROUPS)))
        when = ch.choose("unfold after step", [0, 2, 4])
        return name, kind, order, when, ch.choose("through", ["nothing", "pickle", "deepcopy"])

    def execute_model(cfg):
        name, kind, order, when, through = cfg
        spins, ks = SPECS[name]
        chains = [dict(name="Q" + "AB"[n], k=k, J=space.resonance_spins(spins, k, 2)[-1], mass=1.37 + 0.11 * n, width=0.1,
                       prod=None, dec=None) for n, k in enumerate(ks)]
        spec = dict(spins=spins, masses=space.kin.MASSES["distinct"], mkey="distinct", chains=chains)
        for c in chains:
            for v in ("prod", "dec"):
                c[v] = space.ls_options(spins, c["k"], c["J"], v)[0]

        def hook(b):
            if kind != "none":
                for chain in b.decay.chains:
                    b.dynamics_choices.register_builder(chain, BreitWignerBuilder(energy_dependent_width=True))

        model = space.formulate(spec, ks[0], builder_hook=hook)
        pt = space.point("distinct", 1)
        pars = {p: v for p, v in model.parameter_defaults.items()}
        for n, p in enumerate(pars):
            if isinstance(p, sp.Indexed):
                pars[p] = complex(0.3 + 0.1 * n, 0.7 - 0.2 * n)
        want, _ = evaluate_model(model, pt.sigmas, pars)
        if through == "pickle":
            again = pickle.loads(pickle.dumps(model))  # noqa: S301
        else:
            again = copy.deepcopy(model) if through == "deepcopy" else model
        if again != model:
            return [Fail(f"{name}, {kind}: the model is another one after {through}")], 1
        expr = again.full_expression
        symbols = {**again.parameter_defaults}
        values = {k: sp.sympify(complex(pars[k])) for k in symbols}
        masses = {k: sp.Float(v) for k, v in again.masses.items()}
        groups = {
            "variables": again.variables,
            "masses": masses,
            "couplings": {k: v for k, v in values.items() if isinstance(k, sp.Indexed)},
            "parameters": {k: sp.Float(pars[k]) for k in values if not isinstance(k, sp.Indexed) and k not in masses},
        }
        if when == 0:
            expr = expr.doit()
        for n, g in enumerate(order, 1):
            expr = expr.xreplace(groups[g])
            if n == when:
                expr = expr.doit()
        # angles bring in masses, whatever the order
        expr = expr.xreplace(groups["masses"]).doit()
        sigma = [sp.Symbol(f"sigma{i}", nonnegative=True) for i in (1, 2, 3)]
        left = expr.free_symbols - set(sigma)
        if left:
            return [Fail(f"{name}, {kind}: {left} are left after {order}, unfolded after {when}, through {through}")], 4
        with np.errstate(all="ignore"):
            got = sp.lambdify(sigma, expr, "numpy")(*[np.asarray(s, dtype=complex) for s in pt.sigmas])
        if not space.close(np.broadcast_to(got, pt.sigmas[0].shape), want, 1e-7):
            return [Fail(f"{name}, {kind}: {got} after {order}, unfolded after {when}, through {through}; expected {want}")], 4
        return [], 4

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check.explore("models", body_model, execute_model)
