"""P27: the pieces of a model, formulated on their own, are the ones the formula names."""
import itertools
import warnings

import ampform_dpd as dpd
import numpy as np
import sympy as sp
from mc import build, ref, space
from mc.core import Fail, value
from mc.interp import Interpreter, Unbound, indexed_key
from mc.space import F, H

ASSUMPTIONS = [
    "one generic complex value per coupling, lineshape or amplitude (seeded); 4 interior Dalitz points; rel. tolerance 1e-9",
    "amplitudes are requested for helicities that exist (as rational numbers); the aligned amplitude for symbols and for numbers",
]
BASES = [(True, True), (False, False), (True, False), (False, True)]


def interpreter(pt, numbers, definitions, amplitudes=None):
    values, indexed = {}, {}
    for k, v in numbers.items():
        if isinstance(k, sp.Indexed):
            indexed[indexed_key(k)] = v
        else:
            values[k] = v
    for i, s in enumerate(pt.sigmas, 1):
        values[sp.Symbol(f"sigma{i}", nonnegative=True)] = s
    return Interpreter(values, definitions, amplitudes, indexed)


def quiet(func, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func(*args, **kw)


def masses(spec):
    return {sp.Symbol(f"m{i}", nonnegative=True): m for i, m in enumerate(spec["masses"])}


def pad(x, pt):
    return np.broadcast_to(np.asarray(x, dtype=complex), pt.sigmas[0].shape)


def run(check):
    T = check.thorough
    one = space.spin_assignments(27 if T else 12)
    two = space.spin_assignments(12 if T else 4)

    # ------------------------------------------------------------ subsystem amplitudes
    def choose_ls(ch, spec, limit):
        for n, c in enumerate(spec["chains"]):
            for v in ("prod", "dec"):
                c[v] = ch.choose(f"{v}_{n}", space.ls_options(spec["spins"], c["k"], c["J"], v, limit))

    def body_one(ch):
        spins = ch.choose("spins", one)
        k = ch.choose("k", [1, 2, 3])
        spec = space.choose_spec(ch, spins, [k], 3 if T else 2)
        basis = ch.choose("basis", BASES)
        choose_ls(ch, spec, (4 if T else 2) if basis != (True, True) else 1)
        c = spec["chains"][0]
        c["flip_prod"], c["flip_dec"] = ch.choose("flips", [(0, 0), (1, 1), (1, 0), (0, 1)][: 4 if T else 2])
        return spec, basis, ch.flag("coefficients")

    def body_two(ch):
        spins = ch.choose("spins", two)
        ks = ch.choose("ks", [(1, 2), (2, 3), (1, 3), (1, 1), (2, 2), (3, 3)])
        spec = space.choose_spec(ch, spins, ks, 2)
        basis = ch.choose("basis", BASES[: 4 if T else 2])
        choose_ls(ch, spec, 2 if T else 1)
        return spec, basis, ch.flag("coefficients")

    def body_high(ch):
        spec = space.high_spin_spec(ch, T, 2 if T else 1, offsets=range(7) if T else (2, 5))
        return spec, ch.choose("basis", BASES[:2]), ch.flag("coefficients")

    def execute(cfg):
        spec, basis, coef = cfg
        decay = build.make_decay(spec)
        min_ls = basis[0] if basis[0] == basis[1] else basis
        b = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=min_ls)
        # a lineshape that is one parameter, for every other chain
        shapes = {}
        for n, (c, chain) in enumerate(zip(spec["chains"], decay.chains)):
            if (n + c["k"]) % 2:
                shapes[n] = value("shape", n, c["k"])
                symbol = sp.Symbol(f"shape{n}")
                b.dynamics_choices.register_builder(chain, lambda _, s=symbol, v=shapes[n]: dpd.DefinedExpression(s, {s: v}))
        model = quiet(b.formulate, 1, use_coefficients=coef)
        _, meanings = space.parameter_values(model, spec)
        pt = space.point(spec["mkey"])
        couplings = space.reference_couplings(spec, basis)
        tol = space.tolerance(spec)
        steps, found = 0, set()
        for lam in itertools.product(*map(ref.projections, spec["spins"])):
            for k in (1, 2, 3):
                part = quiet(b.formulate_subsystem_amplitude, *map(build.rat, lam), k, use_coefficients=coef)
                where = f"A^{k}[{', '.join(map(str, lam))}] of {space.describe(spec)} basis={basis} coefficients={coef}"
                want = 0
                for n, c in enumerate(spec["chains"]):
                    if c["k"] == k:
                        want = want + ref.chain_amplitude(spec, c, lam, pt, *couplings(n, c), shapes.get(n, 1))
                want = pad(want, pt)
                numbers, _ = space.parameter_values(part, spec)
                numbers = {**masses(spec), **{p: v for p, v in part.parameter_defaults.items() if not isinstance(p, sp.Indexed)}, **numbers}
                steps += 1
                if len(part.amplitudes) != 1:
                    return [Fail(f"{where}: {len(part.amplitudes)} amplitudes are defined")], steps
                (symbol, expr), = part.amplitudes.items()
                it = interpreter(pt, numbers, part.variables, part.amplitudes)
                try:
                    with np.errstate(all="ignore"):
                        got, square = pad(it(expr), pt), pad(it(part.intensity), pt)
                except Unbound as e:
                    return [Fail(f"{where}: undefined symbol {e}")], steps
                if not space.close(got, want, tol):
                    return [Fail(f"{where} is {got[:2]}, expected {want[:2]}")], steps
                if not space.close(square, np.abs(want) ** 2, tol):
                    return [Fail(f"intensity of {where} is {square[:2]}, expected {np.abs(want[:2]) ** 2}")], steps
                if part.decay != decay:
                    return [Fail(f"{where} is for another decay")], steps
                for p, v in part.parameter_defaults.items():
                    if p not in model.parameter_defaults or model.parameter_defaults[p] != v:
                        return [Fail(f"{where}: parameter {p} = {v} is {model.parameter_defaults.get(p)} in the model")], steps
                    found.add(p)
                if any(c["k"] == k for c in spec["chains"]):
                    if symbol not in model.amplitudes:
                        return [Fail(f"{where}: the model does not define {symbol}")], steps
                    full = interpreter(pt, {**masses(spec), **model.parameter_defaults, **numbers}, model.variables, model.amplitudes)
                    with np.errstate(all="ignore"):
                        in_model = pad(full(model.amplitudes[symbol]), pt)
                    if not space.close(in_model, want, tol):
                        return [Fail(f"{where} is {in_model[:2]} in the model, expected {want[:2]}")], steps
        if set(meanings) - found:
            return [Fail(f"couplings {sorted(map(str, set(meanings) - found))[:3]} of the model belong to no amplitude")], steps
        return [], steps

    check.explore("one chain", body_one, execute)
    check.explore("two chains", body_two, execute)
    check.explore("high spins", body_high, execute)

    # -------------------------------------------------------------- aligned amplitudes
    lists = space.spin_assignments(27 if T else 12)

    def body_aligned(ch):
        spins = ch.choose("spins", lists)
        ks = ch.choose("ks", [(1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        return spec, ch.choose("reference", [1, 2, 3, None]), ch.flag("symbols")

    def body_aligned_high(ch):
        spins = ch.choose("spins", [(F(3, 2), H, F(1), F(0)), (H, F(3, 2), F(0), F(1)), (F(1), F(1), F(2), F(0)), (F(0), F(3, 2), F(3, 2), F(0))]
                          + ([(F(2), F(0), F(0), F(2)), (F(5, 2), H, F(0), F(0)), (F(1), F(1), F(1), F(1))] if T else []))
        ks = ch.choose("ks", [(1, 2, 3), (2, 3)])
        spec = space.choose_spec(ch, spins, ks, 1)
        return spec, ch.choose("reference", [1, 2, 3]), True

    def execute_aligned(cfg):
        spec, r, symbols = cfg
        decay = build.make_decay(spec)
        b = dpd.DalitzPlotDecompositionBuilder(decay)
        J = spec["spins"]
        ranges = [ref.projections(j) for j in J]
        pt = space.point(spec["mkey"])
        ks = sorted({c["k"] for c in spec["chains"]})
        # one number per amplitude and helicities; the names of the amplitudes come from the package
        numbers, amp = {}, {}
        for lam in itertools.product(*ranges):
            for k in ks:
                part = quiet(b.formulate_subsystem_amplitude, *map(build.rat, lam), k)
                symbol, = part.amplitudes
                numbers[symbol] = amp[k, lam] = value("A", k, lam)
        if len(numbers) != len(amp):
            return [Fail(f"amplitudes of {space.describe(spec)} share symbols")], 1
        helicities = sp.symbols("x:4", rational=True)
        if symbols:
            expr, angles = quiet(b.formulate_aligned_amplitude, *helicities, r)
        steps = 0
        for lam in itertools.product(*ranges):
            if not symbols:
                expr, angles = quiet(b.formulate_aligned_amplitude, *map(build.rat, lam), r)
            it = interpreter(pt, {**numbers, **masses(spec)}, angles)
            steps += 1
            where = f"aligned amplitude {tuple(map(str, lam))} for reference {r} of {space.describe(spec)}"
            try:
                got = pad(it(expr, dict(zip(helicities, lam)) if symbols else None), pt)
            except Unbound as e:
                return [Fail(f"{where}: undefined symbol {e}")], steps
            # without a reference, any of the most populated subsystems may be the default
            wants = [aligned(J, amp, ks, pt, q, lam) for q in ([r] if r else ks)]
            if not any(space.close(got, w, space.tolerance(spec)) for w in wants):
                return [Fail(f"{where} is {got[:2]}, expected {wants[0][:2]}")], steps
        return [], steps

    def aligned(J, amp, ks, pt, r, lam):
        total = 0
        for k in ks:
            term = {lam2: amp[k, lam2] * np.ones_like(pt.sigmas[0]) for lam2 in itertools.product(*map(ref.projections, J))}
            for axis in range(4):
                out = {}
                for lam2, a in term.items():
                    m = lam2[axis]
                    if axis == 0:
                        d = ref.wigner_d(J[0], lam[0], m, pt.zeta(0, k, r))
                    else:
                        d = ref.wigner_d(J[axis], m, lam[axis], pt.zeta(axis, k, r))
                    key = (*lam2[:axis], None, *lam2[axis + 1:])
                    out[key] = out.get(key, 0) + d * a
                term = out
            total = total + term[None, None, None, None]
        return total

    check.explore("aligned amplitudes", body_aligned, execute_aligned)
    check.explore("aligned amplitudes, high spins", body_aligned_high, execute_aligned)

    # --------------------------------------------- the intensity is the sum of the squares
    def body_sum(ch):
        spins = ch.choose("spins", two)
        ks = ch.choose("ks", [(1,), (2, 3), (1, 2, 3)])
        return space.choose_spec(ch, spins, ks, 1), ch.choose("reference", [1, 2, 3]), ch.flag("cleanup")

    def execute_sum(cfg):
        spec, r, cleanup = cfg
        b = dpd.DalitzPlotDecompositionBuilder(build.make_decay(spec))
        model = quiet(b.formulate, r, cleanup_summations=cleanup)
        pars, _ = space.parameter_values(model, spec)
        pt = space.point(spec["mkey"])
        got, _ = space.model_intensity(model, spec, pt, pars)
        total = 0
        for lam in itertools.product(*map(ref.projections, spec["spins"])):
            expr, angles = quiet(b.formulate_aligned_amplitude, *map(build.rat, lam), r)
            it = interpreter(pt, {**masses(spec), **model.parameter_defaults, **pars}, {**model.variables, **angles}, model.amplitudes)
            total = total + np.abs(pad(it(expr), pt)) ** 2
        if not space.close(got, total, space.tolerance(spec)):
            return [Fail(f"intensity {got[:2]} is not the sum of the squared aligned amplitudes {total[:2]} of {space.describe(spec)}, reference {r}")]
        return []

    check.explore("intensity from aligned amplitudes", body_sum, execute_sum)
