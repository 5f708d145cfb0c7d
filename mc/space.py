"""Bounded configuration spaces of decays, and model-vs-reference evaluation."""
from __future__ import annotations

import functools
import itertools
import warnings
from fractions import Fraction as F

import numpy as np
import sympy as sp

import ampform_dpd as dpd
from mc import build, kin, ref
from mc.core import Fail, Prune, value
from mc.interp import Unbound, evaluate_model, indexed_key

H = F(1, 2)
PAIR = ref.PAIR
RTOL = 1e-9


def spin_assignments(max_states, values=(F(0), H, F(1))):
    """All (J0, J1, J2, J3) with integer total and at most max_states helicity states,
    simplest first."""
    out = []
    for js in itertools.product(values, repeat=4):
        n = 1
        for j in js:
            n *= int(2 * j + 1)
        if sum(js).denominator == 1 and n <= max_states:
            out.append((n, js))
    return [js for n, js in sorted(out)]


def high_spins(thorough=False):
    """Outer spins beyond 1, combined with resonance spins up to 5 (or 11/2) by high_spin_spec."""
    out = [(0, 0, 0, 0), (H, H, 0, 0), (1, 0, 0, 0), (F(3, 2), 0, H, 0), (0, F(3, 2), H, 0), (2, 0, 0, 0), (0, 0, 0, 2),
           (F(5, 2), 0, 0, H), (1, 0, F(3, 2), F(3, 2))]
    if thorough:
        out += [(2, 1, 0, 0), (F(3, 2), H, 0, 1), (3, 0, 0, 0), (0, F(5, 2), F(3, 2), 0), (2, 0, 2, 0), (H, F(5, 2), 0, 0)]
    return [tuple(F(x) for x in s) for s in out]


def high_spin_spec(ch, thorough=False, ls_limit=None, ks=(1, 2, 3), offsets=(0, 2, 3, 5)):
    spins = ch.choose("spins", high_spins(thorough))
    k = ch.choose("k", ks)
    base = resonance_spins(spins, k, 1)[0]
    J = base + ch.choose("J - base", offsets)
    chain = dict(name="QA", k=k, J=J, mass=1.37, width=0.1)
    if ls_limit:
        for v in ("prod", "dec"):
            opts = ls_options(spins, k, J, v)
            if not opts:
                raise Prune
            chain[v] = ch.choose(v, opts if len(opts) <= ls_limit else [*opts[: ls_limit - 1], opts[-1]])
    return dict(spins=spins, masses=kin.MASSES["distinct"], mkey="distinct", chains=[chain])


def resonance_spins(spins, k, count):
    """The first ``count`` resonance spins allowed in subsystem k (right fermion number)."""
    i, j = PAIR[k]
    base = F(0) if (spins[i] + spins[j]).denominator == 1 else H
    return [base + n for n in range(count)]


def ls_options(spec_spins, k, J, vertex, limit=None):
    i, j = PAIR[k]
    if vertex == "prod":
        opts = ref.ls_allowed(spec_spins[0], J, spec_spins[k])
    else:
        opts = ref.ls_allowed(J, spec_spins[i], spec_spins[j])
    return opts[:limit] if limit else opts


@functools.lru_cache(maxsize=None)
def point(mkey, n=2, cos=(-0.83, 0.31)):
    m = kin.MASSES[mkey]
    return ref.Point(m, kin.lattice(m, n, cos))


def choose_spec(ch, spins, ks, jcount, mkey="distinct", same_name=False):
    chains = []
    for n, k in enumerate(ks):
        J = ch.choose(f"J_R{n}", resonance_spins(spins, k, jcount))
        chains.append(dict(name="QA" if same_name else "Q" + "ABCDEF"[n], k=k, J=J,
                           mass=1.37 + 0.11 * n, width=0.1 + 0.01 * n))
    return dict(spins=spins, masses=kin.MASSES[mkey], mkey=mkey, chains=chains)


def chain_by_name(spec, name):
    return next(c for c in spec["chains"] if c["name"] == name)


# ---------------------------------------------------------------- couplings
def coupling_value(kind, name, idx):
    return value(kind, name, tuple(F(i) for i in idx))


def parameter_values(model, spec, coef_product=True):
    """Generic numbers for every coupling of a model; coefficients get the product of the
    production and decay coupling they stand for."""
    out, meanings = {}, {}
    for p in model.parameter_defaults:
        if not isinstance(p, sp.Indexed):
            continue
        kind, name, idx = build.coupling_meaning(p, spec)
        meanings[p] = (kind, name, idx)
        if kind == "coef":
            if len(idx) != 4:
                raise ValueError(f"coefficient {p} has {len(idx)} indices")
            out[p] = coupling_value("prod", name, idx[:2]) * coupling_value("dec", name, idx[2:])
        else:
            out[p] = coupling_value(kind, name, idx)
    return out, meanings


def reference_couplings(spec, basis):
    """basis = (production helicity?, decay helicity?)"""

    def get(n, c):
        name = c["name"]
        if basis[0]:
            h_prod = lambda a, b: coupling_value("prod", name, (a, b))  # noqa: E731
        else:
            f = ref.ls_prod(spec, c)
            v = coupling_value("prod", name, c["prod"])
            h_prod = lambda a, b: v * f(a, b)  # noqa: E731
        if basis[1]:
            h_dec = lambda a, b: coupling_value("dec", name, (a, b))  # noqa: E731
        else:
            g = ref.ls_dec(spec, c)
            w = coupling_value("dec", name, c["dec"])
            h_dec = lambda a, b: w * g(a, b)  # noqa: E731
        return h_prod, h_dec

    return get


def formulate(spec, ref_id, basis=(True, True), all_subsystems=False, order=None,
              state_order=(0, 1, 2, 3), builder_hook=None, **options):
    decay = build.make_decay(spec, order, state_order)
    as_bool = options.pop("as_bool", True)
    min_ls = basis[0] if basis[0] == basis[1] and as_bool else basis
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=min_ls, all_subsystems=all_subsystems)
        if builder_hook:
            builder_hook(b)
        return b.formulate(ref_id, **options) if ref_id is not None else b.formulate(**options)


def model_intensity(model, spec, pt, parameters=None):
    pars = dict(parameters or {})
    out, it = evaluate_model(model, pt.sigmas, pars)
    out = np.broadcast_to(np.asarray(out, dtype=complex), pt.sigmas[0].shape)
    return out, it


def close(a, b, rtol=RTOL):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    scale = np.maximum(np.max(np.abs(b), initial=0.0), 1e-12)
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= rtol * scale + 1e-13))


def tolerance(spec):
    # massless states: acos at +-1 amplifies rounding to 1e-8
    return 1e-6 if "massless" in spec["mkey"] else RTOL


def describe(spec):
    cs = "; ".join(
        f"{c['name']}:k={c['k']},J={c['J']}" + (f",prod={c.get('prod')},dec={c.get('dec')}" if c.get("prod") else "")
        for c in spec["chains"]
    )
    return f"spins={tuple(map(str, spec['spins']))} chains=[{cs}] masses={spec['mkey']}"


def check_model(spec, ref_id, basis, pt=None, coef=False, dynamics=None, expected=None, **kw):
    """One model against the reference formula; list of Fails."""
    pt = pt or point(spec["mkey"])
    model = formulate(spec, ref_id, basis, use_coefficients=coef, **kw)
    pars, meanings = parameter_values(model, spec)
    try:
        got, _ = model_intensity(model, spec, pt, pars)
    except Unbound as e:
        return [Fail(f"undefined symbol {e} in {describe(spec)} ref={ref_id}")], model, meanings
    if expected is None:
        expected = ref.intensity(spec, pt, ref_id, reference_couplings(spec, basis), dynamics)
    fails = []
    if not close(got, expected, tolerance(spec)):
        fails.append(Fail(
            f"intensity differs for {describe(spec)} ref={ref_id} basis(prod,dec helicity)={basis} "
            f"coefficients={coef} {kw or ''}: got {np.real(got)[:3]}, formula {expected[:3]}"))
    return fails, model, meanings


def expected_meanings(spec, basis, coef):
    """Coupling labels the formula needs (must be present) and may have."""
    need, may = set(), set()
    J = spec["spins"]
    r0 = ref.projections(J[0])
    for c in spec["chains"]:
        k = c["k"]
        i, j = PAIR[k]
        if basis[0]:
            prod = [(a, b) for a in ref.projections(c["J"]) for b in ref.projections(J[k]) if a - b in r0]
        else:
            prod = [(F(c["prod"][0]), F(c["prod"][1]))]
        if basis[1]:
            dec = list(itertools.product(ref.projections(J[i]), ref.projections(J[j])))
            dec_need = [(a, b) for a, b in dec if abs(a - b) <= c["J"]]
        else:
            dec = dec_need = [(F(c["dec"][0]), F(c["dec"][1]))]
        if coef:
            need |= {("coef", c["name"], p + d) for p in prod for d in dec_need}
            may |= {("coef", c["name"], p + d) for p in prod for d in dec}
        else:
            need |= {("prod", c["name"], p) for p in prod} | {("dec", c["name"], d) for d in dec_need}
            may |= {("prod", c["name"], p) for p in prod} | {("dec", c["name"], d) for d in dec}
    # a vertex that cannot contribute (no allowed helicity) needs no coupling at all
    for c in spec["chains"]:
        k = c["k"]
        if not [(a, b) for a in ref.projections(c["J"]) for b in ref.projections(J[k]) if a - b in r0]:
            need = {m for m in need if m[1] != c["name"]}
    return need, may


def check_meanings(meanings, spec, basis, coef):
    got = set(meanings.values())
    if len(got) != len(meanings):
        return [Fail(f"two couplings have the same meaning: {sorted(map(str, meanings))}")]
    need, may = expected_meanings(spec, basis, coef)
    if need - got:
        return [Fail(f"couplings missing in the model: {sorted(map(str, need - got))[:4]}")]
    if got - may:
        return [Fail(f"couplings without meaning: {sorted(map(str, got - may))[:4]}")]
    return []
