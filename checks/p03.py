"""P03: a formulated model is closed and numerically finite."""
import itertools
import warnings

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum

from ampform_dpd import DalitzPlotDecompositionBuilder, DefinedExpression
from ampform_dpd.dynamics.builder import BreitWignerBuilder
from mc import build, kin, space
from mc.core import Fail, Prune
from mc.interp import Unbound, evaluate_model, indexed_key
from mc.space import F, H

ASSUMPTIONS = [
    "interior Dalitz points; masses, widths as in the generated descriptions",
    "an expression is evaluated by mc.interp, which is compared with full_expression.doit() + "
    "lambdify for the small models of part 'full expression'",
]
SIGMA = [sp.Symbol(f"sigma{i}", nonnegative=True) for i in (1, 2, 3)]
MSYM = [sp.Symbol(f"m{i}", nonnegative=True) for i in range(4)]


def check_defaults(model, spec, decay_states):
    out = []
    if model.decay.states != decay_states:
        out.append(Fail("model.decay does not have the states passed in"))
    want = {MSYM[i]: spec["masses"][i] for i in range(4)}
    if dict(model.masses) != want:
        out.append(Fail(f"masses {model.masses} != {want}"))
    for s, v in want.items():
        if model.parameter_defaults.get(s) != v:
            out.append(Fail(f"default of {s} is {model.parameter_defaults.get(s)}, expected {v}"))
    if set(model.invariants) != set(SIGMA):
        out.append(Fail(f"invariants {set(model.invariants)}"))
    for s, v in model.parameter_defaults.items():
        try:
            ok = np.isfinite(complex(v))
        except TypeError:
            ok = False
        if not ok:
            out.append(Fail(f"default of {s} is not a finite number: {v!r}"))
    return out


def reachable(model):
    """Free symbols and amplitude references reachable from the intensity."""
    bound = set()
    defined = {indexed_key(a): e for a, e in model.amplitudes.items()}
    missing, seen = set(), set()
    todo = [model.intensity]
    pars = {indexed_key(p) for p in model.parameter_defaults if isinstance(p, sp.Indexed)}
    symbols = {p for p in model.parameter_defaults if not isinstance(p, sp.Indexed)}
    while todo:
        e = todo.pop()
        for s in e.free_symbols:
            if isinstance(s, sp.Indexed) or s in seen or s in symbols or s in SIGMA:
                continue
            seen.add(s)
            if s in model.variables:
                todo.append(model.variables[s])
            else:
                missing.add(s)
    return missing


def check_model(cfg, spec, model, points):
    out = check_defaults(model, spec, cfg["decay_states"])
    for pt in points:
        try:
            got, it = evaluate_model(model, pt.sigmas)
        except Unbound as e:
            return [*out, Fail(f"undefined: {e} in {space.describe(spec)} {cfg}")]
        got = np.asarray(got)
        scale = max(float(np.max(np.abs(got))), 1e-30)
        if not np.all(np.isfinite(got)):
            out.append(Fail(f"intensity is not finite: {got[:3]} for {space.describe(spec)} {cfg}"))
        elif np.any(np.abs(got.imag) > 1e-9 * scale) or np.any(got.real < -1e-9 * scale):
            out.append(Fail(f"intensity is not real and non-negative: {got[:3]} {space.describe(spec)}"))
    # amplitudes that the intensity does not reach must be closed as well
    for a, e in model.amplitudes.items():
        try:
            it.ev(e, {})
        except Unbound as err:
            out.append(Fail(f"amplitude {a} contains undefined {err}"))
            break
    for v in model.variables:
        try:
            it(v)
        except Unbound as err:
            out.append(Fail(f"variable {v} contains undefined {err}"))
    return out


def run(check):
    T = check.thorough
    spins_list = space.spin_assignments(27 if T else 9)
    ks_list = [(1,), (2,), (3,), (1, 2), (2, 3), (1, 3), (1, 2, 3), (2, 2)]
    # every option of the Breit-Wigner builder, and "no dynamics"
    dyn_list = [None, *itertools.product([False, True], repeat=3)]

    def add_ls(ch, spec, choose):
        for c in spec["chains"]:
            for v in ("prod", "dec"):
                opts = space.ls_options(spec["spins"], c["k"], c["J"], v)
                if not opts:
                    c[v] = None
                    continue
                c[v] = ch.choose(f"{v}_{c['name']}", opts[:choose])
        return all(c["prod"] and c["dec"] for c in spec["chains"])

    def hook_for(spec, dyn):
        def hook(b):
            if dyn is None:
                return
            edw, dff, pff = dyn
            for chain in b.decay.chains:
                b.dynamics_choices.register_builder(chain, BreitWignerBuilder(edw, dff, pff))
        return hook

    def execute(cfg):
        spec, basis, dyn, opts, r = cfg
        cleanup, allsub, coef = opts
        model = space.formulate(spec, r, basis, builder_hook=hook_for(spec, dyn), all_subsystems=allsub,
                                cleanup_summations=cleanup, use_coefficients=coef)
        states = build.make_states(spec)
        info = dict(basis=basis, dynamics=dyn, cleanup=cleanup, all_subsystems=allsub, coef=coef, ref=r,
                    decay_states=states)
        pts = [space.point(spec["mkey"])]
        return check_model(info, spec, model, pts)

    def body_options(ch):
        spins = ch.choose("spins", spins_list[:None if T else 12])
        ks = ch.choose("ks", ks_list if T else [(1,), (3,), (2, 3), (1, 2, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        has_ls = add_ls(ch, spec, 1)
        basis = ch.choose("basis", [(True, True), (False, False), (False, True), (True, False)] if has_ls
                          else [(True, True)])
        opts = ch.choose("options", list(itertools.product([False, True], repeat=3)))
        r = ch.choose("ref", [1, 2, 3, None] if T else [None, 2])
        return spec, basis, None, opts, r

    def body_dynamics(ch):
        spins = ch.choose("spins", spins_list[:None if T else 12])
        ks = ch.choose("ks", [(1,), (2,), (3,), (1, 3)])
        spec = space.choose_spec(ch, spins, ks, 2 if len(ks) == 1 or T else 1)
        has_ls = add_ls(ch, spec, 3 if len(ks) == 1 else 1)
        if not has_ls:
            raise Prune
        dyn = ch.choose("dynamics", dyn_list[1:])
        return spec, ch.choose("basis", [(True, True), (False, False)]), dyn, (False, False, False), ks[0]

    def body_masses(ch):
        mkey = ch.choose("masses", list(kin.MASSES))
        pole = ch.choose("pole", ["inside", "below threshold", "above phase space", "stable"])
        k = ch.choose("k", [1, 2, 3])
        J0, J1 = ch.choose("spin", [(F(0), F(0)), (H, H), (F(1), F(0))])
        spec = space.choose_spec(ch, (J0, J1, F(0), F(0)), (k,), 2, mkey)
        i, j = space.PAIR[k]
        m = spec["masses"]
        lo, hi = m[i] + m[j], m[0] - m[k]
        if lo == 0 and pole == "below threshold":
            raise Prune  # no mass below a vanishing threshold
        spec["chains"][0]["mass"] = {"inside": 0.4 * lo + 0.6 * hi, "below threshold": 0.8 * lo,
                                     "above phase space": 1.1 * hi,
                                     "stable": 1.1 * hi}[pole]
        if pole == "stable":
            spec["chains"][0]["width"] = 0.0
        has_ls = add_ls(ch, spec, 2)
        if not has_ls:
            raise Prune
        dyn = ch.choose("dynamics", dyn_list[1:])
        return spec, (False, False), dyn, (False, False, False), k

    check.explore("options and bases", body_options, execute)
    check.explore("dynamics", body_dynamics, execute)
    check.explore("mass patterns and poles", body_masses, execute)

    # the interpreter is bound to full_expression (doit + lambdify) on small models
    def body_full(ch):
        spins = ch.choose("spins", spins_list[: 10 if T else 6])
        ks = ch.choose("ks", [(1,), (2,), (3,), (2, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        has_ls = add_ls(ch, spec, 1)
        dyn = ch.choose("dynamics", [None, (True, True, True)] if has_ls else [None])
        basis = ch.choose("basis", [(True, True), (False, False)] if has_ls else [(True, True)])
        cleanup = ch.flag("cleanup")
        return spec, basis, dyn, cleanup

    def execute_full(cfg):
        spec, basis, dyn, cleanup = cfg
        model = space.formulate(spec, spec["chains"][0]["k"], basis, builder_hook=hook_for(spec, dyn),
                                cleanup_summations=cleanup)
        pt = space.point(spec["mkey"])
        pars = dict(model.parameter_defaults)
        for n, p in enumerate(pars):
            if isinstance(p, sp.Indexed):
                pars[p] = complex(0.3 + 0.1 * n, 0.7 - 0.2 * n)
        want, _ = evaluate_model(model, pt.sigmas, pars)
        full = model.full_expression.doit()
        full = full.xreplace({v: e.doit() for v, e in model.variables.items()})
        plain = {p: sp.Symbol(f"p{n}") for n, p in enumerate(pars)}
        full = full.xreplace(plain)
        left = full.free_symbols - set(plain.values()) - set(SIGMA)
        if left:
            return [Fail(f"full_expression has undefined symbols {left}")]
        f = sp.lambdify([*SIGMA, *plain.values()], full, "numpy", cse=True)
        sig = [np.asarray(s, dtype=complex) for s in pt.sigmas]
        got = f(*sig, *[complex(pars[p]) for p in pars])
        if not space.close(np.broadcast_to(got, np.shape(pt.sigmas[0])), want, 1e-7):
            return [Fail(f"full_expression {got} differs from the interpreted model {want} for "
                         f"{space.describe(spec)} basis={basis} dynamics={dyn}")]
        return []

    check.explore("full expression", body_full, execute_full)

    # ------------------------------------------------- configurations: accepted or refused
    BASES = [True, False, (True, True), (True, False), (False, True), (False, False)]
    BAD = [None, "ls", 1, (True,), (True, False, True), [True, False]]

    def body_config(ch):
        spins = ch.choose("spins", [(F(0),) * 4, (F(0), F(1), F(0), F(0)), (H, H, F(0), F(0))])
        ks = ch.choose("subsystems", [(), (1,), (2,), (3,), (1, 3), (3, 1), (2, 2), (2, 3, 3), (1, 3, 1)])
        given = [ch.choose(f"LS of chain {n}", [(True, True), (True, False), (False, True), (False, False)])
                 for n, _ in enumerate(ks[:2 if T else 1])]
        given += [(True, True)] * (len(ks) - len(given))
        if ch.flag("other order"):
            given.reverse()
        basis = ch.choose("basis", BASES + BAD)
        if basis in BAD[1:] or basis is None:
            return spins, ks, given, basis, None, False, False
        return spins, ks, given, basis, ch.choose("ref", [None, 1, 2, 3]), ch.flag("coefficients"), ch.flag("all subsystems")

    def execute_config(cfg):
        spins, ks, given, basis, r, coef, allsub = cfg
        chains = [dict(name="Q" + "ABC"[n], k=k, J=space.resonance_spins(spins, k, 1)[0], mass=1.4, width=0.1, prod=None,
                       dec=None) for n, k in enumerate(ks)]
        for c, flags in zip(chains, given):
            for v, flag in zip(("prod", "dec"), flags):
                if flag:
                    c[v] = space.ls_options(spins, c["k"], c["J"], v)[0]
        spec = dict(spins=spins, masses=space.kin.MASSES["distinct"], mkey="distinct", chains=chains)
        decay = build.make_decay(spec)
        valid = isinstance(basis, bool) or (isinstance(basis, tuple) and len(basis) == 2)
        helicity = (basis, basis) if isinstance(basis, bool) else basis
        refused = not valid or (r is None and not ks) or any(not h and not c[v] for c in chains
                                                             for h, v in zip(helicity, ("prod", "dec")))
        where = f"{ks} with LS {given}, min_ls={basis!r}, reference {r}, coefficients {coef}, all subsystems {allsub}"

        def formulate(ref):
            builder = DalitzPlotDecompositionBuilder(decay, min_ls=basis, all_subsystems=allsub)
            return builder.formulate(ref, use_coefficients=coef)

        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            try:
                model = formulate(r)
            except Exception as e:  # noqa: BLE001
                return [] if refused else [Fail(f"{where} is refused: {type(e).__name__}: {e}")]
        if refused:
            return [Fail(f"{where} is not refused")]
        seen = [w for w in seen if issubclass(w.category, UserWarning)]
        if r is not None and r not in ks and not seen:
            return [Fail(f"{where}: no warning, although the reference subsystem has no chains")]
        if seen and (r is None or r in ks) and not allsub:
            return [Fail(f"{where}: warning {seen[0].message}")]
        if r is None:
            most = [k for k in (1, 2, 3) if ks.count(k) == max(map(ks.count, ks))]
            if all(model.intensity != formulate(k).intensity for k in most):
                return [Fail(f"{where}: the reference is none of the subsystems {most} with the most chains")]
        if not ks:
            return []
        try:
            got, _ = evaluate_model(model, space.point("distinct", 1).sigmas)
        except Unbound as e:
            return [Fail(f"{where}: {e} is undefined")]
        return [] if np.all(np.isfinite(np.asarray(got))) else [Fail(f"{where}: intensity {got}")]

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check.explore("configurations", body_config, execute_config)
