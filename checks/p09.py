"""P09: dynamics are applied to exactly the chains they were registered for."""
import warnings

import numpy as np
import sympy as sp

import ampform_dpd as dpd
from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor
from mc import build, ref, space
from mc.core import Fail, real_value, value
from mc.interp import Unbound, evaluate_model
from mc.space import F, H

ASSUMPTIONS = [
    "registered builders return constant symbols (value depends on builder and chain), so that "
    "the product formed for every chain is visible in the intensity",
    "histories up to the stated depth over the stated decays",
]

SPECS = {
    # two chains of one resonance that differ in LS, the same resonance in another
    # subsystem, and an independent one
    "same name": dict(
        spins=(F(0), F(1), F(0), F(0)), masses=space.kin.MASSES["distinct"], mkey="distinct",
        chains=[
            dict(name="QA", k=1, J=F(1), mass=1.4, width=0.1, prod=(0, F(0)), dec=(1, F(0))),
            dict(name="QA", k=1, J=F(1), mass=1.4, width=0.1, prod=(2, F(2)), dec=(1, F(0))),
            dict(name="QA", k=2, J=F(1), mass=1.4, width=0.1, prod=(1, F(1)), dec=(0, F(1))),
            dict(name="QB", k=3, J=F(0), mass=1.5, width=0.2, prod=(0, F(0)), dec=(1, F(1))),
        ],
    ),
    "half-integer": dict(
        spins=(H, H, F(0), F(0)), masses=space.kin.MASSES["distinct"], mkey="distinct",
        chains=[
            dict(name="QA", k=1, J=F(1), mass=1.4, width=0.1, prod=(0, H), dec=(1, F(0))),
            dict(name="QA", k=1, J=F(1), mass=1.4, width=0.1, prod=(2, F(3, 2)), dec=(1, F(0))),
            dict(name="QB", k=3, J=H, mass=1.5, width=0.2, prod=(0, H), dec=(0, H)),
            dict(name="QA", k=3, J=F(3, 2), mass=1.5, width=0.2, prod=(1, F(3, 2)), dec=(1, H)),
        ],
    ),
    # chains of one resonance in one subsystem that have the same L at both vertices;
    # the name of one resonance starts with the name of the other
    "same L": dict(
        spins=(F(1), F(1), F(1), F(0)), masses=space.kin.MASSES["distinct"], mkey="distinct",
        chains=[
            dict(name="QAx", k=1, J=F(1), mass=1.4, width=0.1, prod=(1, F(1)), dec=(1, F(1))),
            dict(name="QAx", k=1, J=F(1), mass=1.4, width=0.1, prod=(1, F(2)), dec=(1, F(1))),
            dict(name="QA", k=3, J=F(1), mass=1.5, width=0.2, prod=(0, F(1)), dec=(1, F(1))),
            dict(name="QA", k=3, J=F(1), mass=1.5, width=0.2, prod=(0, F(1)), dec=(1, F(2))),
        ],
    ),
}


UNKNOWN = ["QZ", "Q", "", "qa", "QAxx", "A", "x"]


class Builder:
    """Registered builder: symbol named after builder and chain."""

    def __init__(self, label):
        self.label = label

    def symbol(self, chain):
        ls = lambda v: "n" if v is None else f"{v.L}_{v.S}"  # noqa: E731
        return sp.Symbol(f"dyn_{self.label}_{chain.resonance.name}_{chain.spectator.index}_"
                         f"{ls(chain.incoming_ls)}_{ls(chain.outgoing_ls)}".replace("/", "h"))

    def __call__(self, chain):
        s = self.symbol(chain)
        return dpd.DefinedExpression(s, {s: value("dyn", s.name)})

    def __repr__(self):
        return f"builder {self.label}"


def run(check):
    T = check.thorough
    builders = [Builder("x"), Builder("y")]

    def make_ops():
        ops = []
        for n in range(4):
            for b in (0, 1):
                ops.append(("chain", n, b))
        for name in (0, 1):
            for b in (0, 1):
                ops.append(("name", name, b))
        ops += [("unknown name", None, 0), ("unknown chain", None, 0), ("unknown type", 1, 0),
                ("formulate", None, None), ("lookup", None, None)]
        return ops

    OPS = make_ops()
    # symmetry: the two builders are interchangeable, so the first registration uses builder 0
    FIRST = [o for o in OPS if o[2] != 1]

    def execute(cfg):
        sname, history, basis = cfg
        spec = SPECS[sname]
        decay = build.make_decay(spec)
        fails = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=basis)
            conf = b.dynamics_choices
            state = [None] * 4
            names = list(dict.fromkeys(c["name"] for c in spec["chains"]))
            other = build.make_chain(dict(spec), dict(spec["chains"][0], prod=(4, F(1))), build.make_states(spec))
            for op, arg, bi in history:
                if op == "chain":
                    conf.register_builder(decay.chains[arg], builders[bi])
                    state[arg] = bi
                elif op == "name":
                    name = names[arg]
                    conf.register_builder(name, builders[bi])
                    state = [bi if c["name"] == name else s for c, s in zip(spec["chains"], state)]
                elif op.startswith("unknown"):
                    for ident in {"unknown name": UNKNOWN, "unknown chain": [other], "unknown type": [3]}[op]:
                        for call in (lambda: conf.register_builder(ident, builders[0]), lambda: conf.get_builder(ident),
                                     lambda: decay.find_chain(ident) if isinstance(ident, str) else 1 / 0):
                            try:
                                call()
                            except Exception:
                                pass
                            else:
                                fails.append(Fail(f"{op} {ident!r} is accepted"))
                elif op == "formulate":
                    b.formulate(1)
                else:
                    fails += lookups(conf, decay, spec, state)
            fails += lookups(conf, decay, spec, state)
            model = b.formulate(spec["chains"][0]["k"])
        pt = space.point(spec["mkey"])
        pars, _ = space.parameter_values(model, spec)
        used = {builders[s].symbol(c): s for c, s in zip(decay.chains, state) if s is not None}
        got_syms = {p for p in model.parameter_defaults if not isinstance(p, sp.Indexed) and p.name.startswith("dyn_")}
        if got_syms != set(used):
            fails.append(Fail(f"parameters of lineshapes {sorted(map(str, got_syms))}, expected "
                              f"{sorted(map(str, used))} after {history}"))
        try:
            got, _ = space.model_intensity(model, spec, pt, pars)
        except Unbound as e:
            return [*fails, Fail(f"undefined symbol {e} after {history}")]

        def dyn(n, c):
            return 1.0 if state[n] is None else value("dyn", builders[state[n]].symbol(decay.chains[n]).name)

        want = ref.intensity(spec, pt, spec["chains"][0]["k"], space.reference_couplings(spec, (basis, basis)), dyn)
        if not space.close(got, want):
            fails.append(Fail(f"{sname}: intensity after {history} is {got[:2]}, formula with the lineshapes "
                              f"registered (per chain: {state}) gives {want[:2]}"))
        return fails, len(history) + 1

    def lookups(conf, decay, spec, state):
        out = []
        for n, c in enumerate(decay.chains):
            f = conf.get_builder(c)
            want = state[n]
            if want is None:
                d = f(c)
                if d.expression != 1 or dict(d.parameters):
                    out.append(Fail(f"unregistered chain {n} has dynamics {d}"))
            elif f is not builders[want]:
                out.append(Fail(f"lookup of chain {n} does not return the builder registered for it"))
        for name in {c["name"] for c in spec["chains"]}:
            options = [s for c, s in zip(spec["chains"], state) if c["name"] == name]
            f = conf.get_builder(name)
            ok = any(f is builders[s] for s in options if s is not None)
            if not ok and None in options:
                ok = not any(f is x for x in builders)
            if not ok:
                out.append(Fail(f"lookup of {name} does not return a builder registered for it"))
        if conf.decay != decay:
            out.append(Fail("decay of the configurator changed"))
        return out

    depth = 3 if T else 2

    def body(ch):
        sname = ch.choose("decay", list(SPECS))
        basis = ch.choose("helicity basis", [False, True])
        n = ch.choose("depth", list(range(depth + 1)))
        history = []
        for i in range(n):
            history.append(ch.choose(f"op{i}", FIRST if i == 0 else OPS))
        return sname, tuple(history), basis

    check.explore("registration histories", body, execute)

    # name registrations interleaved with chain registrations, deeper but without failing ops
    CORE = [o for o in OPS if o[0] in ("chain", "name") and (o[0] == "name" or o[1] in (0, 2, 3))]

    def body_core(ch):
        history = [ch.choose(f"op{i}", [o for o in CORE if i or o[2] == 0]) for i in range(4 if T else 3)]
        return "same name", tuple(history), False

    check.explore("register by name and by chain", body_core, execute)

    # real lineshapes: each chain multiplied by its own Breit-Wigner
    names = ["none", "simple", "full"]

    def body_real(ch):
        sname = ch.choose("decay", list(SPECS))
        return sname, tuple(ch.choose(f"chain{n}", names) for n in range(4))

    def execute_real(cfg):
        sname, choice = cfg
        spec = SPECS[sname]
        decay = build.make_decay(spec)
        made = {"simple": BreitWignerBuilder(False, False, False), "full": formulate_breit_wigner_with_form_factor}
        b = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=False)
        for c, ch_ in zip(decay.chains, choice):
            if ch_ != "none":
                b.dynamics_choices.register_builder(c, made[ch_])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model = b.formulate(spec["chains"][0]["k"])
        pt = space.point(spec["mkey"])
        pars, _ = space.parameter_values(model, spec)
        got, it = space.model_intensity(model, spec, pt, pars)

        def dyn(n, c):
            if choice[n] == "none":
                return 1.0
            return np.asarray(it(made[choice[n]](decay.chains[n]).expression))

        want = ref.intensity(spec, pt, spec["chains"][0]["k"], space.reference_couplings(spec, (False, False)), dyn)
        out = []
        if not space.close(got, want):
            out.append(Fail(f"{sname}: lineshapes {choice} are not applied to their own chains"))
        need = {p for n, ch_ in enumerate(choice) if ch_ != "none"
                for p in made[ch_](decay.chains[n]).parameters}
        have = {p for p in model.parameter_defaults if not isinstance(p, sp.Indexed)}
        extra = have - need - set(model.masses)
        if extra or need - have:
            out.append(Fail(f"parameters {extra} without lineshape, {need - have} missing"))
        return out, 4

    check.explore("real lineshapes", body_real, execute_real)
