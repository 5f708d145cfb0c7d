"""Planted bugs: edits, demonstrations and what they need (see make.py)."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


INIT = "__init__.py"

seed(
    "p01-a10-sign", "P01",
    [("angles.py", """        (1, 2, 3),
        (2, 3, 1),
        (3, 1, 2),
    }:
""", """        (1, 2, 3),
        (2, 3, 1),
        (3, 1, 2),
        (1, 3, 2),
        (2, 1, 3),
        (3, 2, 1),
    }:
"""), ("angles.py", """        (3, 3, 1),
        (1, 3, 2),
        (2, 1, 3),
        (3, 2, 1),
    }:
""", """        (3, 3, 1),
    }:
""")],
    """
from ampform_dpd.angles import formulate_zeta_angle
values = {"m0": 3.0, "m1": 0.2, "m2": 0.45, "m3": 0.8, "sigma1": 2.9, "sigma2": 3.3}
values["sigma3"] = sum(values[f"m{i}"] ** 2 for i in range(4)) - 2.9 - 3.3
def number(*ids):
    _, expr = formulate_zeta_angle(*ids)
    expr = sp.sympify(expr).doit()
    return float(expr.xreplace({s: sp.Float(values[s.name]) for s in expr.free_symbols}))
for i, j, k in [(1, 2, 3), (2, 3, 1), (3, 1, 2)]:
    if abs(number(i, j, k) + number(i, k, j)) > 1e-9 or abs(number(i, j, k)) < 1e-3:
        fail(f"zeta^{i}_{j}({k}) = {number(i, j, k)}, zeta^{i}_{k}({j}) = {number(i, k, j)}")
""",
    "a request for the alignment angle of a state between the two other subsystems, in the non-cyclic order",
    "Three of the nine reversed alignment angles lose their sign, because the cosine is symmetric in both IDs.",
)

seed(
    "p01-reference-zero", "P01",
    [("angles.py", """        _, theta = formulate_theta_hat_angle(aligned_subsystem, reference_subsystem)
        return zeta_symbol, theta
    if reference_subsystem == 0:
""", """        _, theta = formulate_theta_hat_angle(aligned_subsystem, reference_subsystem)
        return zeta_symbol, theta
    if not {rotated_state, aligned_subsystem, reference_subsystem} <= {0, 1, 2, 3}:
        msg = "State IDs need to be one of 0, 1, 2, 3"
        raise ValueError(msg)
    if 0 in {aligned_subsystem, reference_subsystem}:
        aligned_subsystem = aligned_subsystem or reference_subsystem
""")],
    """
from ampform_dpd.angles import formulate_zeta_angle
for i in (1, 2, 3):
    try:
        _, expr = formulate_zeta_angle(i, 0, 2)
    except Exception:
        continue
    fail(f"zeta^{i}_0(2) does not exist, but got {expr}")
""",
    "an alignment angle requested for 'subsystem' 0, which does not exist",
    "IDs for which no angle exists are silently mapped to another angle instead of being refused.",
)

seed(
    "p02-unsorted-masses", "P02",
    [(INIT, """        create_mass_symbol(decay.states[i]): decay.states[i].mass
        for i in sorted(decay.states)  # ensure that dict keys are sorted by state ID
""", """        create_mass_symbol(state): state.mass
        for state in (decay.initial_state, *decay.final_state.values())
""")],
    """
from ampform_dpd import formulate_third_mandelstam
s = outer()
d = ThreeBodyDecay({i: s[i] for i in (2, 0, 3, 1)}, [chain(s, 1, particle("R"))])
values = {"m0": 3.0, "m1": 0.2, "m2": 0.45, "m3": 0.8, "sigma1": 2.9, "sigma2": 3.3}
expr = formulate_third_mandelstam(d, 1, 2)
from ampform_dpd import create_mass_symbol_mapping, formulate_invariants
for symbol, e in formulate_invariants(d).items():
    want = sp.Symbol("m0", nonnegative=True) ** 2
    others = sorted((x for x in e.free_symbols if x.name.startswith("sigma")), key=str)
    want = sum(sp.Symbol(f"m{i}", nonnegative=True) ** 2 for i in range(4)) - sum(others)
    if sp.expand(e - want) != 0:
        fail(f"{symbol} = {e}")
m = list(create_mass_symbol_mapping(d).values())
if m != [3.0, 0.2, 0.45, 0.8]:
    fail(f"masses {m}")
""",
    "final states that are not supplied in the order of their IDs",
    "The mass table follows the order in which the states were supplied.",
)

seed(
    "p03-zero-width", "P03",
    [("dynamics/builder.py", """    return DefinedExpression(
        expression=SimpleBreitWigner(s, mass, width),
        parameters={
            mass: isobar.parent.mass,
            width: isobar.parent.width,
            meson_radius: 1,
        },
    )
""", """    parameter_defaults: dict[sp.Symbol, complex | float] = {
        mass: isobar.parent.mass,
        width: isobar.parent.width,
        meson_radius: 1,
    }
    return DefinedExpression(
        expression=SimpleBreitWigner(s, mass, width),
        parameters={k: v for k, v in parameter_defaults.items() if v},
    )
""")],
    """
from ampform_dpd.dynamics.builder import BreitWignerBuilder
s = outer()
c = chain(s, 1, particle("R", mass=4.0, width=0.0), (0, 0), (0, 0))
d = ThreeBodyDecay(s, [c])
b = DalitzPlotDecompositionBuilder(d)
b.dynamics_choices.register_builder(c, BreitWignerBuilder(False, False, False))
m = b.formulate()
known = set(m.parameter_defaults) | set(m.invariants) | set(m.variables)
free = {x for x in m.full_expression.free_symbols if x not in known and not isinstance(x, sp.Indexed)}
free = {x for x in free if not any(x in getattr(k, "free_symbols", ()) for k in known)}
if free:
    fail(f"symbols without value: {free}")
""",
    "a resonance with zero width and a Breit-Wigner with constant width",
    "The model contains a width symbol without a default.",
)

seed(
    "p03-variables-first-helicity", "P03",
    [(INIT, """                amplitude_definitions.update(chain_model.amplitudes)
                angle_definitions.update(chain_model.variables)
""", """                amplitude_definitions.update({
                    symbol: expr
                    for symbol, expr in chain_model.amplitudes.items()
                    if expr != 0
                })
                angle_definitions.update(chain_model.variables)
""")],
    """
s = outer()
d = ThreeBodyDecay(s, [chain(s, 1, particle("R"))])
b = DalitzPlotDecompositionBuilder(d, all_subsystems=True)
m = b.formulate(1)
for k in (1, 2, 3):
    if not any(str(a.base).endswith(str(k)) for a in m.amplitudes):
        fail(f"no amplitudes for subsystem {k}: {list(m.amplitudes)}")
""",
    "a model with all subsystems for a decay that does not have chains in all of them",
    "Amplitudes of subsystems without chains are not defined instead of zero.",
    checks=["P07"],
)
SEEDS[-1]["property"] = "P07"
SEEDS[-1]["id"] = "p07-zero-amplitudes"

seed(
    "p04-phase-for-fermions-only", "P04",
    [(INIT, """                * (-1) ** (spin[k] - λ[k])
                * dynamics.expression
""", """                * (1 if λ[k].is_integer else (-1) ** (spin[k] - λ[k]))
                * dynamics.expression
""")],
    """
s = outer((1, 1, 0, 0))
d = ThreeBodyDecay(s, [chain(s, 1, particle("R", 0)), chain(s, 1, particle("Q", 1))])
# the spectator phase of subsystem 1: ratio of the amplitudes with helicity 0 and +1
b = DalitzPlotDecompositionBuilder(d)
half = sp.Rational(0)
amps = {}
for l in (-1, 0, 1):
    m = b.formulate_subsystem_amplitude(sp.Integer(-l), sp.Integer(l), sp.Integer(0), sp.Integer(0), 1)
    (expr,) = m.amplitudes.values()
    expr = expr.doit()
    expr = expr.xreplace({x: sp.Integer(1) for x in expr.free_symbols if isinstance(x, sp.Indexed)})
    expr = expr.xreplace({x: sp.Float(0.7) for x in expr.free_symbols})
    amps[l] = float(sp.N(expr.doit()))
spin0 = {-1: 1, 0: -1, 1: 1}  # (-1)**(1-l) for R; only R contributes with l0 + l1 = 0 for J_R = 0
import math
for l in (-1, 0, 1):
    want = (-1) ** (1 - l) * (1 + math.cos(0.7))
    if abs(amps[l] - want) > 1e-9:
        fail(f"amplitude for spectator helicity {l}: {amps[l]}, expected {want}")
""",
    "a spectator with integer spin > 0 (interference with other helicities)",
    "The particle-2 phase convention is skipped for bosons.",
)

seed(
    "p05-spinless-spectator", "P05",
    [(INIT, """            if not self.use_production_helicity_couplings:
                production_isobar = chain.decay
""", """            if not self.use_production_helicity_couplings and spin[k] != 0:
                production_isobar = chain.decay
""")],
    """
s = outer((1, 0, 0, 0))
c = [chain(s, 1, particle("R", 1), (0, 1), (1, 0)), chain(s, 1, particle("R", 1), (2, 1), (1, 0))]
ratio = {}
for i in range(2):
    d = ThreeBodyDecay(s, c[i:i + 1])
    b = DalitzPlotDecompositionBuilder(d, min_ls=(False, True))
    m = b.formulate(1)
    (amp,) = [e for a, e in m.amplitudes.items() if tuple(a.indices) == (1, 0, 0, 0)]
    (amp0,) = [e for a, e in m.amplitudes.items() if tuple(a.indices) == (0, 0, 0, 0)]
    def number(e):
        e = e.doit()
        e = e.xreplace({x: sp.Integer(1) for x in e.free_symbols if isinstance(x, sp.Indexed)})
        return float(sp.N(e.xreplace({x: sp.Float(0.7) for x in e.free_symbols}).doit()))
    import math
    ratio[i] = (number(amp) / (-math.sin(0.7) / math.sqrt(2))) / (number(amp0) / math.cos(0.7))
if abs(abs(ratio[0]) - 1) > 1e-9 or abs(abs(ratio[1]) - 0.5) > 1e-9:
    fail(f"production helicity ratios for L=0 and L=2: {ratio}")
""",
    "an LS basis at the production vertex and a spinless spectator in a chain with L > 0",
    "The Clebsch-Gordan factors of the production vertex are taken as trivial for spinless spectators.",
)

seed(
    "p05-mixed-basis", "P05",
    [(INIT, """            if not self.use_decay_helicity_couplings:
                sub_amp_expr *= _formulate_clebsch_gordan_factors(
                    chain.decay_node,
""", """            if not (
                self.use_decay_helicity_couplings
                or (use_coefficients and self.use_production_helicity_couplings)
            ):
                sub_amp_expr *= _formulate_clebsch_gordan_factors(
                    chain.decay_node,
""")],
    """
s = outer((0, 1, 1, 0))
d = ThreeBodyDecay(s, [chain(s, 3, particle("R", 0), None, (2, 2))])
values = {}
for coef in (False, True):
    m = DalitzPlotDecompositionBuilder(d, min_ls=(True, False)).formulate(3, use_coefficients=coef)
    values[coef] = evaluate(m, couplings=lambda _: 1)
if not close(values[False], values[True]):
    fail(f"unit couplings and unit coefficients differ: {values}")
""",
    "one coefficient per chain together with helicity couplings in production and LS couplings in decay",
    "The Clebsch-Gordan factors of the decay vertex are lost.",
)

seed(
    "p06-reference-only-if-populated", "P06",
    [(INIT, """            for k in _get_subsystem_ids(self.decay)
            ),
            (_λ0, create_spin_range(j0)),
""", """            for k in sorted(_get_subsystem_ids(self.decay) | {reference_subsystem})
            ),
            (_λ0, create_spin_range(j0)),
""")],
    """
s = outer()
d = ThreeBodyDecay(s, [chain(s, 1, particle("R"))])
m = DalitzPlotDecompositionBuilder(d).formulate(2)
undefined = {x for x in m.intensity.doit().free_symbols if isinstance(x, sp.Indexed)} - set(m.amplitudes)
if undefined:
    fail(f"amplitudes without definition: {undefined}")
""",
    "a reference subsystem in which the decay has no chains",
    "The intensity refers to amplitudes of the reference subsystem that are not defined.",
    checks=["P06", "P03"],
)

seed(
    "p07-state-order", "P07",
    [(INIT, """        j0, j1, j2, j3 = (self.decay.states[i].spin for i in sorted(self.decay.states))
""", """        j0, j1, j2, j3 = (state.spin for state in self.decay.states.values())
""")],
    """
s = outer((1, 0, 0, 1))
values = []
for order in [(0, 1, 2, 3), (3, 1, 0, 2), (2, 0, 3, 1)]:
    d = ThreeBodyDecay({i: s[i] for i in order}, [chain(s, 1, particle("R", 1)), chain(s, 3, particle("Q", 1))])
    values.append(evaluate(DalitzPlotDecompositionBuilder(d).formulate(1)))
if not all(close(v, values[0]) for v in values):
    fail(f"the intensity depends on the order of the states: {values}")
""",
    "outer states with different spins that are not supplied in the order of their IDs",
    "The alignment rotations use the spin of another state.",
)

seed(
    "p08-clebsch-by-position", "P08",
    [(INIT, """    child1_helicity = helicities[child1]
    child2_helicity = helicities[child2]
""", """    if isinstance(isobar.parent, State):
        child1_helicity, child2_helicity = helicities.values()
    else:
        child1_helicity = helicities[child1]
        child2_helicity = helicities[child2]
""")],
    """
s = outer((0.5, 0.5, 0, 0))
values = {}
for flip in (False, True):
    a = chain(s, 1, particle("R", 1), (2, 1.5), (1, 0), flip_prod=flip)
    d = ThreeBodyDecay(s, [a])
    m = DalitzPlotDecompositionBuilder(d, min_ls=False).formulate(1)
    values[flip] = evaluate(m)
if not close(values[False], values[True]):
    fail(f"intensity depends on the order of the children: {values}")
""",
    "an LS basis and a production node that lists the spectator before the resonance",
    "The helicities of the production Clebsch-Gordan coefficients are assigned by position.",
)

seed(
    "p09-dynamics-of-sibling", "P09",
    [(INIT, """            dynamics = formulate_dynamics(chain)
""", """            key = (
                chain.resonance,
                chain.incoming_ls and chain.incoming_ls.L,
                chain.outgoing_ls and chain.outgoing_ls.L,
            )
            if key not in dynamics_expressions:
                dynamics_expressions[key] = formulate_dynamics(chain)
            dynamics = dynamics_expressions[key]
"""), (INIT, """        terms = []
        parameter_defaults: dict[sp.Basic, complex] = {}
""", """        terms = []
        dynamics_expressions: dict[tuple, DefinedExpression] = {}
        parameter_defaults: dict[sp.Basic, complex] = {}
""")],
    """
s = outer((1, 1, 0, 0))
a = chain(s, 1, particle("R", 1), (1, 1), (1, 0))
c = chain(s, 1, particle("R", 1), (1, 2), (1, 0))
b = DalitzPlotDecompositionBuilder(ThreeBodyDecay(s, [a, c]), min_ls=False)
x, y = sp.symbols("x y")
b.dynamics_choices.register_builder(a, lambda _: DefinedExpression(x, {x: 1}))
b.dynamics_choices.register_builder(c, lambda _: DefinedExpression(y, {y: 1}))
m = b.formulate(1)
if not {x, y} <= set(m.parameter_defaults) or not {x, y} <= m.full_expression.free_symbols:
    fail("only one of both registered lineshapes is used")
""",
    "two chains of one resonance that only differ in their coupled spin S and have different lineshapes",
    "The lineshape of the first chain is used for all chains of a resonance within a subsystem that have the same L.",
)

seed(
    "p10-massless-product", "P10",
    [("dynamics/__init__.py", """        if L == 0 and m1 == 0 and m2 == 0:
            return Γ0  # type:ignore[return-value]
""", """        if L == 0 and m1 * m2 == 0:
            return Γ0  # type:ignore[return-value]
""")],
    """
from ampform_dpd.dynamics import BreitWigner
v = BreitWigner(2.0, 1.2, 0.3, 0.9, 0, 0, 1).doit()
w = BreitWigner(2.0, 1.2, 0.3, 0.9, 1e-9, 0, 1).doit()
v, w = complex(sp.N(v.doit())), complex(sp.N(w.doit()))
if not close(v, w, 1e-6):
    fail(f"discontinuous for a massless decay product: {v}, {w}")
""",
    "an S-wave Breit-Wigner with exactly one massless decay product",
    "The energy dependence of the width is dropped.",
)

seed(
    "p10-minl-phsp", "P10",
    [("dynamics/__init__.py", "        width = EnergyDependentWidth(s, m0, Γ0, m1, m2, l_dec, R_dec, self.phsp_factor)\n        return sp.Mul(",
      "        width = EnergyDependentWidth(s, m0, Γ0, m1, m2, l_dec, R_dec)\n        return sp.Mul(")],
    """
from ampform.dynamics.phasespace import EqualMassPhaseSpaceFactor, PhaseSpaceFactor
from ampform_dpd.dynamics import BreitWignerMinL
args = (2.5, 3.0, 0.2, 1.5, 0.3, 0.45, 0.8, 0, 0, 1.0, 1.0)
values = [complex(sp.N(BreitWignerMinL(*args, phsp_factor=p).doit())) for p in (PhaseSpaceFactor, EqualMassPhaseSpaceFactor)]
if close(*values):
    fail(f"phase space factor ignored: {values}")
""",
    "a minimal-L Breit-Wigner with a phase-space factor other than the default",
    "The requested phase-space factor is ignored in the energy-dependent width.",
)

seed(
    "p11-form-factor-default", "P11",
    [("dynamics/builder.py", """        outgoing_state_mass1: to_particle(isobar.child1).mass,
        outgoing_state_mass2: to_particle(isobar.child2).mass,
    }
    if not inv_mass""", """        **{
            symbol: particle.mass
            for symbol, particle in zip(
                (outgoing_state_mass1, outgoing_state_mass2),
                sorted(map(to_particle, isobar.children), key=lambda p: -p.mass),
                strict=True,
            )
        },
    }
    if not inv_mass""")],
    """
from ampform_dpd.dynamics.builder import BreitWignerBuilder
s = outer(masses=(9.0, 2.0, 0.45, 0.8))
c = chain(s, 1, particle("R", 1, mass=1.5), (1, 1), (1, 0))
out = BreitWignerBuilder(True, False, True)(c)
values = {k.name: v for k, v in out.parameters.items()}
if values["m1"] != 2.0 or values["m_{R}"] != 1.5:
    fail(f"defaults {values}")
""",
    "a production form factor for a resonance that is lighter than its spectator",
    "The default masses of resonance and spectator are exchanged.",
)

seed(
    "p11-phsp-option", "P11",
    [("dynamics/builder.py", """        meson_radius=meson_radius,
        phsp_factor=phsp_factor,
    )
""", """        meson_radius=meson_radius,
        phsp_factor=phsp_factor if angular_momentum else PhaseSpaceFactor,
    )
""")],
    """
from ampform.dynamics.phasespace import EqualMassPhaseSpaceFactor, PhaseSpaceFactor
from ampform_dpd.dynamics.builder import BreitWignerBuilder
s = outer()
c = chain(s, 1, particle("R", 0, mass=1.5), (0, 0), (0, 0))
a = BreitWignerBuilder(True, False, False, phsp_factor=PhaseSpaceFactor)(c).expression.doit()
b = BreitWignerBuilder(True, False, False, phsp_factor=EqualMassPhaseSpaceFactor)(c).expression.doit()
if a == b:
    fail("the phase-space factor has no effect")
""",
    "a phase-space factor other than the default and an S-wave decay",
    "The requested phase-space factor is ignored for S-waves.",
)

seed(
    "p12-child-order", "P12",
    [("spin.py", """    coupled_spins = create_rational_range(abs(s1 - s2), s1 + s2)
""", """    coupled_spins = create_rational_range(s1 - s2, s1 + s2)
""")],
    """
from ampform_dpd.spin import generate_ls_couplings
for j in (0, 0.5, 1, 1.5):
    for a in (0, 0.5, 1, 1.5, 2):
        for b in (0, 0.5, 1, 1.5, 2):
            if generate_ls_couplings(j, a, b) != generate_ls_couplings(j, b, a):
                fail(f"{j} -> {a} {b}: {generate_ls_couplings(j, a, b)} != {generate_ls_couplings(j, b, a)}")
""",
    "a second decay product with a larger spin than the first",
    "Negative coupled spins are enumerated.",
)

seed(
    "p12-parity-sign", "P12",
    [("spin.py", """    return [(L, S) for L, S in ls_couplings if η0 == η1 * η2 * (-1) ** L]
""", """    phase = η0 * η1 * η2
    return [(L, S) for L, S in ls_couplings if (L % 3) % 2 == (phase < 0)]
""")],
    """
from ampform_dpd.spin import filter_parity_violating_ls, generate_ls_couplings
ls = generate_ls_couplings(3, 1, 0, max_L=6)
for p in (-1, 1):
    got = filter_parity_violating_ls(ls, p, 1, 1)
    if got != [x for x in ls if (-1) ** x[0] == p]:
        fail(f"{p}: {got}")
""",
    "an LS coupling with L >= 3",
    "Parity conservation is decided wrongly for high orbital angular momenta.",
)

seed(
    "p13-initial-state-by-name", "P13",
    [("decay.py", """            if chain.parent != expected_initial_state:
""", """            if chain.parent.name != expected_initial_state.name:
""")],
    """
a, b = outer(), outer((1, 0, 0, 0))
try:
    ThreeBodyDecay(a, [chain({**a, 0: b[0]}, 1, particle("R"))])
except ValueError:
    pass
else:
    fail("a chain with another initial state is accepted")
""",
    "a chain whose initial state has the declared name but other quantum numbers or mass",
    "The chain is accepted although it disagrees with the declared states.",
)

seed(
    "p13-isobar-first", "P13",
    [("decay.py", """        final_state = (*self.decay_products, self.spectator)
        return tuple(sorted(final_state, key=lambda x: x.index))  # type:ignore[return-value]
""", """        final_state = sorted(self.decay_products, key=lambda x: x.index)
        final_state.insert(self.spectator.index - 1, self.spectator)
        return tuple(final_state)  # type:ignore[return-value]
""")],
    """
s = {i: state("TABC"[i], j, 0) for i, j in enumerate((0, 4, 2, 7))}
c = ThreeBodyDecayChain(IsobarNode(s[0], IsobarNode(particle("R"), s[2], s[3]), s[1]))
if [x.index for x in c.final_state] != [2, 4, 7]:
    fail(f"final state {[x.index for x in c.final_state]}")
""",
    "a chain whose final-state IDs are not 1, 2, 3",
    "The final state is not sorted by ID.",
)

seed(
    "p14-partial-relabel", "P14",
    [("adapter/qrules.py", """    if set(transitions[0].initial_states) != {0} or set(
        transitions[0].final_states
    ) != {1, 2, 3}:
""", """    if set(transitions[0].initial_states) != {0} and set(
        transitions[0].final_states
    ) != {1, 2, 3}:
""")],
    """
import qrules
from ampform_dpd.adapter.qrules import normalize_state_ids, to_three_body_decay
reaction = qrules.generate_transitions(
    initial_state="Lambda(c)+", final_state=["p", "K-", "pi+"], allowed_intermediate_particles=["Lambda(1520)"],
    formalism="helicity", topology_building="isobar",
)
import attrs
want = to_three_body_decay(normalize_state_ids(reaction.transitions))
mapping = {-1: 0, 0: 1, 1: 2, 2: 5, 3: 9}
relabelled = [
    attrs.evolve(t, topology=t.topology.relabel_edges(mapping), states={mapping[i]: x for i, x in t.states.items()})
    for t in reaction.transitions
]
got = to_three_body_decay(relabelled)
if got != want:
    fail(f"decay depends on the state IDs: {got.final_state}")
""",
    "transitions in which the initial state already has ID 0, but the final-state IDs are not 1, 2, 3",
    "The state IDs are not normalised.",
)

seed(
    "p14-dedupe", "P14",
    [("adapter/qrules.py", """    unique_transitions = {_convert_transition(t) for t in transitions}
    return tuple(sorted(unique_transitions))
""", """    unique_transitions = {
        (
            tuple(sorted(p.name for p in t.states.values())),
            t.topology,
            tuple(n and n.L for n in t.interactions.values()),
            tuple(n and n.S for i, n in t.interactions.items() if i == 0),
        ): t
        for t in map(_convert_transition, transitions)
    }
    return tuple(sorted(unique_transitions.values()))
""")],
    """
import attrs
import qrules
from ampform_dpd.adapter.qrules import to_three_body_decay
reaction = qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_interaction_types="strong", allowed_intermediate_particles=["N(1675)+"], formalism="canonical-helicity",
)
from fractions import Fraction
t = next(t for t in reaction.transitions)
transitions = [
    attrs.evolve(t, interactions={0: t.interactions[0], 1: attrs.evolve(t.interactions[1], s_magnitude=s)})
    for s in (Fraction(1, 2), Fraction(3, 2))
]
got = to_three_body_decay(transitions).chains
if len(got) != 2:
    fail(f"{len(got)} chains instead of 2")
""",
    "transitions of one resonance that differ only in the coupled spin of the decay vertex",
    "Chains that differ only in the coupled spin S of the decay vertex are merged.",
)

seed(
    "p15-min-by-l", "P15",
    [("adapter/qrules.py", """                    min(t.interactions[i] for t in group)
""", """                    min(
                        (t.interactions[i] for t in group),
                        key=lambda ls: getattr(ls, "L", None) or ls,
                    )
                    if all(getattr(t.interactions[i], "L", 0) for t in group)
                    else min(t.interactions[i] for t in group)
""")],
    """
import attrs, itertools, qrules
from ampform_dpd.adapter.qrules import convert_transitions, filter_min_ls
reaction = qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_interaction_types="strong", allowed_intermediate_particles=["N(1700)+"], formalism="canonical-helicity",
)
transitions = convert_transitions(reaction.transitions)
results = {frozenset(filter_min_ls(p)) for p in itertools.permutations(transitions)}
if len(results) != 1:
    fail("the result depends on the order of the transitions")
(t,) = next(iter(results))
if t.interactions[0] != min(x.interactions[0] for x in transitions):
    fail(f"not minimal: {t.interactions[0]}")
""",
    "couplings with equal L > 0 but different S, in an order in which the smallest S is not first",
    "The kept coupling depends on the order of the input.",
)

seed(
    "p17-dedupe-chains", "P17",
    [("io/serialization/decay.py", """        chains=sorted({
            to_decay_chain(chain, initial_state, final_state, to_latex)
            for chain in get_decay_chains(model)
        }),
""", """        chains=sorted({
            chain["name"]: to_decay_chain(chain, initial_state, final_state, to_latex)
            for chain in get_decay_chains(model)
        }.values()),
""")],
    """
import copy, json, os
from ampform_dpd.io.serialization.decay import to_decay
model = json.load(open("docs/Lc2ppiK.json"))
chains = model["distributions"][0]["decay_description"]["chains"]
twin = copy.deepcopy(chains[0])
other = next(c for c in chains if c["topology"] != twin["topology"])
for key in ("topology",):
    twin[key] = other[key]
for v, w in zip(twin["vertices"], other["vertices"]):
    v["node"] = w["node"]
twin["propagators"][0]["node"] = other["propagators"][0]["node"]
n = len(to_decay(model).chains)
chains.append(twin)
if len(to_decay(model).chains) != n + 1:
    fail("a resonance that occurs in two subsystems is imported only once")
""",
    "a serialized model in which one resonance name occurs in two subsystems",
    "Only one of the subsystems of the resonance is imported.",
)

seed(
    "p18-reference", "P18",
    [("io/serialization/amplitude.py", """    reference_topology = get_reference_topology(model)
    reference_subsystem = get_spectator_id(reference_topology)
    wigner_generator""", """    subsystem_ids = get_existing_subsystem_ids(model)
    reference_subsystem = get_spectator_id(get_reference_topology(model))
    if reference_subsystem != subsystem_ids[0]:
        reference_subsystem = subsystem_ids[0]
    wigner_generator""")],
    """
import json
from ampform_dpd.io.serialization.amplitude import formulate_aligned_amplitude
model = json.load(open("docs/Lc2ppiK.json"))
model["distributions"][0]["decay_description"]["reference_topology"] = [3, [1, 2]]
_, angles = formulate_aligned_amplitude(model, *sp.symbols("lambda:4", rational=True))
if not all("(3)" in a.name for a in angles):
    fail(f"not aligned to the reference subsystem: {[a.name for a in angles]}")
""",
    "a serialized model with reference topology [3, [1, 2]] (not the first existing subsystem)",
    "The declared reference subsystem is replaced by another one; for polarised or half-integer cases the amplitudes change.",
)

seed(
    "p18-parity-factor", "P18",
    [("io/serialization/amplitude.py", """    if stripped_sign == "-":
        return -1
    if not stripped_sign:
        return 0
    if stripped_sign == "+":
        return +1
""", """    if stripped_sign == "+":
        return +1
    if stripped_sign in {"", "-"}:
        return -1
""")],
    """
import json
from ampform_dpd.io.serialization.amplitude import formulate_recoupling
model = json.load(open("docs/Lc2ppiK.json"))
chains = model["distributions"][0]["decay_description"]["chains"]
for n, c in enumerate(chains):
    for i, v in enumerate(c["vertices"]):
        if v["type"] == "parity":
            v["parity_factor"] = ""
            expr = formulate_recoupling(model, n, i).doit()
            flipped = {x: -sp.Rational(h) for x, h in zip(formulate_recoupling(model, n, i).args[:2], v["helicities"])}
            if any(h != "0" for h in v["helicities"]) and expr.xreplace(flipped).doit() != 0:
                fail("an empty parity factor must not couple the opposite helicities")
            sys.exit(0)
fail("no parity vertex")
""",
    "a parity vertex with an empty parity factor",
    "An empty parity factor counts as -1 instead of 0.",
)

seed(
    "p18-weight", "P18",
    [("io/serialization/amplitude.py", """    value = complex(str(chain_definition["weight"]).replace(" ", "").replace("i", "j"))
    if not value.imag:
        value = value.real
""", """    value = complex(str(chain_definition["weight"]).replace(" ", "").replace("i", "j"))
    if abs(value.imag) < 1e-3:
        value = value.real
""")],
    """
import json
from ampform_dpd.io.serialization.amplitude import formulate
model = json.load(open("docs/Lc2ppiK.json"))
d = model["distributions"][0]["decay_description"]
types = {f["name"]: f["type"] for f in model["functions"]}
d["chains"] = [c for c in d["chains"] if types[c["propagators"][0]["parametrization"]] == "BreitWigner"][:1]
d["chains"][0]["weight"] = "2.0e-4 - 5.0e-4i"
m = formulate(model)
if 2e-4 - 5e-4j not in m.parameter_defaults.values():
    fail(f"weight lost: {list(m.parameter_defaults.values())[:3]}")
""",
    "a weight with a small imaginary part",
    "The imaginary part of small weights is dropped.",
)

seed(
    "p19-channel-l", "P19",
    [("io/serialization/dynamics.py", """        angular_momentum = int(channel_definition["l"])
""", """        angular_momentum = int(channel_definitions[0]["l"])
""")],
    """
import json
from ampform_dpd.io.serialization.dynamics import formulate_multichannel_breit_wigner
model = json.load(open("docs/Lc2ppiK.json"))
chains = model["distributions"][0]["decay_description"]["chains"]
model["functions"].append({"name": "mc", "type": "MultichannelBreitWigner", "mass": 1.4, "channels": [
    {"gsq": 0.2, "ma": 0.94, "mb": 0.49, "l": 0, "d": 1.5}, {"gsq": 0.3, "ma": 1.2, "mb": 0.14, "l": 1, "d": 1.5}]})
p = {**chains[0]["propagators"][0], "parametrization": "mc"}
out = formulate_multichannel_breit_wigner(p, "R", model)
expr = out.expression.doit().xreplace({k: sp.sympify(v) for k, v in out.parameters.items()})
expr2 = expr.doit()
model["functions"][-1]["channels"][1]["l"] = 0
out = formulate_multichannel_breit_wigner(p, "R", model)
other = out.expression.doit().xreplace({k: sp.sympify(v) for k, v in out.parameters.items()}).doit()
if expr2 == other:
    fail("the angular momentum of the second channel has no effect")
""",
    "a multichannel Breit-Wigner whose channels have different angular momenta",
    "All channels get the angular momentum of the first one.",
)

seed(
    "p19-user-dynamics", "P19",
    [("io/serialization/dynamics.py", """    if additional_definitions is not None:
        definitions.update(additional_definitions)
""", """    if additional_definitions is not None:
        definitions = {**additional_definitions, **definitions}
""")],
    """
import json
from ampform_dpd.io.serialization.dynamics import formulate_dynamics
model = json.load(open("docs/Lc2ppiK.json"))
chains = model["distributions"][0]["decay_description"]["chains"]
types = {f["name"]: f["type"] for f in model["functions"]}
c = next(c for c in chains if types[c["propagators"][0]["parametrization"]] == "BreitWigner")
x = sp.Symbol("mine")
out = formulate_dynamics(c, model, additional_definitions={"BreitWigner": lambda propagator, resonance, model: DefinedExpression(x, {x: 1})})
if out.expression != x:
    fail("the user-supplied parametrization is ignored")
""",
    "a user-supplied parametrization with the name of a built-in one",
    "The built-in parametrization takes precedence.",
)

seed(
    "p20-hash-key", "P20",
    [("io/cached.py", """@cache
@cache_to_disk(
""", """def _cache_by_hash(function):
    results = {}

    def wrapper(expr, *args, **kwargs):
        key = (hash(expr), args, tuple(kwargs.items()))
        if key not in results:
            results[key] = function(expr, *args, **kwargs)
        return results[key]

    return wrapper


@_cache_by_hash
@cache_to_disk(
""")],
    """
import numpy as np
from ampform_dpd.io.cached import lambdify
x = sp.Symbol("x")
for n in (1, 2, 3):
    f = lambdify(x ** (-n), backend="numpy")
    got = f({"x": np.array([2.0])})[0]
    if abs(got - 2.0 ** (-n)) > 1e-12:
        fail(f"x**(-{n}) at 2 gives {got}")
""",
    "two expressions in one process that differ only in an exponent -1 and -2 (equal Python hashes)",
    "The second call returns the function of the first expression.",
)

seed(
    "p21-left-wins", "P21",
    [(INIT, """                parameters={**self.parameters, **definitions},
""", """                parameters={**definitions, **self.parameters},
""")],
    """
x = sp.Symbol("x")
out = DefinedExpression(x, {x: 1}) * (x, {x: 2})
if out.parameters != {x: 2}:
    fail(f"{out.parameters}")
""",
    "a product with an (expression, definitions) pair that redefines a parameter",
    "The left operand wins.",
)

seed(
    "p22-second-child", "P22",
    [("io/__init__.py", """    child2 = aslatex(obj.child2, **kwargs)
""", """    child2 = aslatex(obj.child2, **kwargs) if isinstance(obj.child2, Particle) else aslatex(obj.child2)
""")],
    """
from ampform_dpd.io import aslatex
s = outer()
a = aslatex(chain(s, 1, particle("R", 1, parity=1)), with_jp=True)
b = aslatex(chain(s, 1, particle("R", 1, parity=1), flip_prod=True), with_jp=True)
if a.count("[") != b.count("["):
    fail(f"{a} / {b}")
""",
    "quantum numbers requested for a chain whose production node lists the resonance second",
    "The quantum numbers of the resonance and its decay products are missing.",
)

seed(
    "p22-state-index", "P22",
    [("io/__init__.py", """            row_items.insert(0, particle.index if isinstance(particle, State) else " ")
""", """            row_items.insert(0, getattr(particle, "index", 0) or " ")
""")],
    """
from ampform_dpd.io import as_markdown_table
rows = as_markdown_table([*outer().values()]).splitlines()[2:]
if [r.split("|")[1].strip() for r in rows] != ["0", "1", "2", "3"]:
    fail(rows)
""",
    "a table that contains the initial state",
    "The index of the initial state (0) is not shown.",
)

seed(
    "p23-shared-generator", "P23",
    [(INIT, """        wigner_generator = _AlignmentWignerGenerator(reference_subsystem)
        _λ0""", """        wigner_generator = _get_wigner_generator(reference_subsystem)
        _λ0"""), (INIT, """class _AlignmentWignerGenerator:
    def __init__""", """@cache
def _get_wigner_generator(
    reference_subsystem: FinalStateID,
) -> _AlignmentWignerGenerator:
    return _AlignmentWignerGenerator(reference_subsystem)


class _AlignmentWignerGenerator:
    def __init__"""), (INIT, """class DynamicsBuilder(Protocol):
""", """class DynamicsBuilder(Protocol):  # noqa: D101
""")],
    """
def model(spins):
    s = outer(spins)
    return DalitzPlotDecompositionBuilder(ThreeBodyDecay(s, [chain(s, 1, particle("R", 1))])).formulate(1)
a = model((1, 0, 0, 0))
b = model((0, 0, 1, 1))
c = model((1, 0, 0, 0))
if a.variables != c.variables:
    fail(f"variables depend on models that were formulated before: {set(c.variables) - set(a.variables)}")
""",
    "two formulate calls with one reference subsystem for decays with different spins",
    "Angle definitions of earlier models leak into later ones.",
)

seed(
    "p23-masses-of-first", "P23",
    [(INIT, """def create_mass_symbol_mapping(decay: ThreeBodyDecay) -> dict[sp.Symbol, float]:
    return {
""", """def create_mass_symbol_mapping(decay: ThreeBodyDecay) -> dict[sp.Symbol, float]:
    return dict(_create_mass_symbol_mapping(tuple(decay.states.values())))


@cache
def _create_mass_symbol_mapping(states: tuple[State, ...]) -> dict[sp.Symbol, float]:
    return _to_mass_mapping({state.index: state for state in states})


@cache
def _get_symbol_base() -> dict[sp.Symbol, float]:
    return {}


def _to_mass_mapping(states: dict[int, State]) -> dict[sp.Symbol, float]:
    mapping = _get_symbol_base()
    mapping.update({
"""), (INIT, """        create_mass_symbol(decay.states[i]): decay.states[i].mass
        for i in sorted(decay.states)  # ensure that dict keys are sorted by state ID
    }
""", """        create_mass_symbol(states[i]): states[i].mass
        for i in sorted(states)  # ensure that dict keys are sorted by state ID
    })
    return mapping
""")],
    """
def decay(m):
    s = outer(masses=(3.0, 0.2, 0.45, m))
    return ThreeBodyDecay(s, [chain(s, 1, particle("R"))])
a, b = decay(0.8), decay(0.5)
build = lambda d: list(DalitzPlotDecompositionBuilder(d).formulate().masses.values())[3]
values = [build(a), build(b), build(a)]
if values != [0.8, 0.5, 0.8]:
    fail(f"masses of the third final state: {values}")
""",
    "formulating a decay, another decay, and the first one again",
    "A memoized mass table is overwritten by later models.",
)

seed(
    "p25-cached-database", "P25",
    [("adapter/qrules.py", """def load_particles() -> qrules.particle.ParticleCollection:
    src_dir""", """@functools.cache
def load_particles() -> qrules.particle.ParticleCollection:
    src_dir"""), ("adapter/qrules.py", """from __future__ import annotations

import itertools
""", """from __future__ import annotations

import functools
import itertools
"""), ("adapter/qrules.py", """    particle_database = qrules.load_default_particles()
    additional_definitions""", """    particle_database = qrules.load_default_particles()  # loading takes a while
    additional_definitions""")],
    """
from ampform_dpd.adapter.qrules import load_particles
a = load_particles()
n = len(a)
a.remove(a["pi0"])
b = load_particles()
if len(b) != n or "pi0" not in b.names:
    fail("the loaded database depends on what the user did with an earlier one")
""",
    "loading the particles, changing the returned collection, and loading them again",
    "All callers share one mutable collection.",
)

# ------------------------------------------------------------------ second batch
seed(
    "p04-helicity-range", "P04",
    [(INIT, """            (_λ2, create_spin_range(j2)),
            (_λ3, create_spin_range(j3)),
        )
        return amp_expr, wigner_generator.angle_definitions""", """            *[(_λ, create_spin_range(j if j <= j0 + 1 else j - 1)) for _λ, j in ((_λ2, j2), (_λ3, j3))],
        )
        return amp_expr, wigner_generator.angle_definitions""")],
    """
half = sp.Rational(1, 2)
s = outer((0, half, 0, sp.Rational(3, 2)))
import attrs
d = ThreeBodyDecay(s, [chain(s, 1, particle("Q", sp.Rational(3, 2)))])
m = DalitzPlotDecompositionBuilder(d).formulate()
u = evaluate(m)
v = evaluate(attrs.evolve(m, intensity=sp.Add(*[sp.Abs(a) ** 2 for a in m.amplitudes])))
if not close(u, v):
    fail(f"intensity {u}, sum of squared amplitudes {v}")
""",
    "an outer particle whose spin exceeds the spin of the initial state by more than one",
    "Helicities of high-spin final states are left out of the alignment sum.",
)

seed(
    "p10-identical-channels", "P10",
    [("dynamics/__init__.py", """        width = sum(channel.evaluate() for channel in self.channels)
""", """        width = sp.Add(*{channel.evaluate() for channel in self.channels})
""")],
    """
from ampform_dpd.dynamics import ChannelArguments, MultichannelBreitWigner
c = ChannelArguments(sp.Rational(2), sp.Rational(3, 2), sp.Rational(1, 5), sp.Rational(1, 10), sp.Rational(1, 3), 1, 1)
value = lambda n: complex(MultichannelBreitWigner(sp.Rational(2), sp.Rational(3, 2), (c,) * n).doit().evalf())
if not abs((1 / value(2)).imag - 2 * (1 / value(1)).imag) < 1e-9:
    fail(f"width with two equal channels {(1 / value(2)).imag}, with one {(1 / value(1)).imag}")
""",
    "two channels with equal masses, widths and angular momentum (for example isospin partners)",
    "Equal channels are counted once.",
)

seed(
    "p12-shared-range", "P12",
    [("spin.py", """    return create_rational_range(-float(spin), +float(spin))
""", """    spin = float(spin)
    if spin not in _SPIN_RANGES:
        _SPIN_RANGES[spin] = create_rational_range(-spin, +spin)
    return _SPIN_RANGES[spin]


_SPIN_RANGES: dict[float, list[sp.Rational]] = {}
""")],
    """
from ampform_dpd.spin import create_spin_range
create_spin_range(1.5).pop()
if len(create_spin_range(1.5)) != 4:
    fail(f"spin projections of 3/2: {create_spin_range(1.5)}")
""",
    "a caller that changes the returned list, followed by another request for the same spin",
    "All callers share one list.",
)

seed(
    "p13-subsystem-by-name", "P13",
    [("decay.py", """        filtered_chains = [c for c in self.chains if c.spectator.index == subsystem_id]
""", """        spectators = [s.name for i, s in self.final_state.items() if i == subsystem_id]
        filtered_chains = [c for c in self.chains if c.spectator.name in spectators]
""")],
    """
import attrs
s = outer()
s[2] = attrs.evolve(s[2], name="A", latex="A")
d = ThreeBodyDecay(s, [chain(s, 1, particle("Q")), chain(s, 2, particle("Q"))])
if len(d.get_subsystem(1).chains) != 1:
    fail(f"{len(d.get_subsystem(1).chains)} chains in subsystem 1")
""",
    "two final-state particles with the same name",
    "A subsystem contains the chains of the other identical particle as well.",
)

seed(
    "p16-by-mass", "P16",
    [("adapter/qrules.py", """        return obj.name
    msg = f"Cannot create a uniqueness key""", """        return f"{obj.mass} {float(obj.spin)} {obj.width}"
    msg = f"Cannot create a uniqueness key""")],
    """
import qrules
from ampform_dpd.adapter.qrules import normalize_state_ids, permute_equal_final_states
reaction = normalize_state_ids(qrules.generate_transitions(
    initial_state="J/psi(1S)", final_state=["pi+", "pi-", "pi0"], allowed_intermediate_particles=["rho(770)"], formalism="helicity",
))
n = len(reaction.transitions)
if len(permute_equal_final_states(reaction).transitions) != n:
    fail("particle and antiparticle are exchanged")
""",
    "a particle and its antiparticle in the final state",
    "Particles and antiparticles are treated as identical.",
)

seed(
    "p16-solving-settings", "P16",
    [("adapter/qrules.py", """        initial_facts=_impl_normalize_state_ids(obj.initial_facts),
        solving_settings=_impl_normalize_state_ids(obj.solving_settings),
        topology=_impl_normalize_state_ids(obj.topology),
""", """        initial_facts=_impl_normalize_state_ids(obj.initial_facts),
        solving_settings=obj.solving_settings,
        topology=_impl_normalize_state_ids(obj.topology),
""")],
    """
import qrules
from ampform_dpd.adapter.qrules import normalize_state_ids
stm = qrules.StateTransitionManager(initial_state=["J/psi(1S)"], final_state=["K0", "Sigma+", "p~"], formalism="helicity")
for sets in stm.create_problem_sets().values():
    for p in sets:
        q = normalize_state_ids(p)
        if set(q.solving_settings.states) != set(q.topology.edges):
            fail(f"settings for states {sorted(q.solving_settings.states)}, edges {sorted(q.topology.edges)}")
""",
    "a problem set (before solving) instead of a reaction or transition",
    "The solving settings of a relabelled problem set keep the old IDs.",
)

seed(
    "p17-case-insensitive", "P17",
    [("io/serialization/format.py", """        if function_def["name"] == function_name:
""", """        if function_def["name"].casefold() == function_name.strip().casefold():
""")],
    """
from ampform_dpd.io.serialization.format import get_function_definition
model = {"functions": [{"name": "bw_k", "type": "A"}, {"name": "bw_K", "type": "B"}]}
if get_function_definition("bw_K", model)["type"] != "B":
    fail("bw_K is confused with bw_k")
""",
    "two functions whose names differ in upper and lower case only",
    "The parametrization of another function is used.",
)

seed(
    "p18-final-state-order", "P18",
    [("io/serialization/amplitude.py", """    j0, j1, j2, j3 = (states[i].spin for i in sorted(states))
""", """    j0, j1, j2, j3 = (state.spin for state in states.values())
""")],
    """
import json
from ampform_dpd.io.serialization.amplitude import formulate_aligned_amplitude
model = json.load(open("docs/Lc2ppiK.json"))
a, _ = formulate_aligned_amplitude(model, *sp.symbols("lambda:4", rational=True))
k = model["distributions"][0]["decay_description"]["kinematics"]
k["final_state"] = k["final_state"][::-1]
b, _ = formulate_aligned_amplitude(model, *sp.symbols("lambda:4", rational=True))
if a != b:
    fail("the alignment depends on the order in which the final states are listed")
""",
    "a serialized model that does not list its final states in the order of their index",
    "Spins of the final states are mixed up in the alignment.",
)

seed(
    "p20-empty-parameters", "P20",
    [("io/cached.py", """        jax.config.update("jax_enable_x64", True)
    if parameters is None:
""", """        jax.config.update("jax_enable_x64", True)
    if not parameters:
""")],
    """
from ampform_dpd.io.cached import lambdify
x, a = sp.symbols("x a")
f = lambdify(a * x, {}, backend="numpy")
if getattr(f, "parameters", None) != {}:
    fail(f"{type(f).__name__} without parameters")
""",
    "a call with an empty mapping of parameters (a model without free parameters)",
    "A function of the wrong kind is returned.",
)

seed(
    "p21-aliases-self", "P21",
    [(INIT, """        if isinstance(other, abc.Sequence) and len(other) == 2:  # noqa: PLR2004
""", """        if isinstance(other, (int, sp.Integer)) and other == 1:
            return self
        if isinstance(other, abc.Sequence) and len(other) == 2:  # noqa: PLR2004 (pair)
""")],
    """
x = sp.Symbol("x")
a = DefinedExpression(x, {x: 1.0})
b = a * 1
b.parameters[x] = 5.0
if a.parameters[x] != 1.0:
    fail("changing the product changes the operand")
""",
    "multiplication with 1 and a later change of the result",
    "The product is the operand itself.",
)

seed(
    "p09-prefix", "P09",
    [("decay.py", """            if chain.resonance.name == resonance_name:
""", """            if chain.resonance.name.startswith(resonance_name):
""")],
    """
s = outer()
q, r = chain(s, 1, particle("K(892)x")), chain(s, 1, particle("K(892)"))
d = ThreeBodyDecay(s, [q, r])
b = DalitzPlotDecompositionBuilder(d)
mark = lambda c: DefinedExpression(sp.Symbol("X"), {sp.Symbol("X"): 2.0})
b.dynamics_choices.register_builder("K(892)", mark)
if b.dynamics_choices.get_builder("K(892)") is not mark:
    fail("the lookup of K(892) does not return what was registered for it")
""",
    "a resonance name that is a prefix of another one",
    "Lookups by name return the builder of another resonance, and incomplete names are not refused.",
)

seed(
    "p11-missing-l", "P11",
    [("dynamics/builder.py", """    if isobar.interaction is None:
        msg = "Need LS couplings to formulate a form factor"
        raise ValueError(msg)
    return isobar.interaction.L
""", """    if isobar.interaction is None:
        if isinstance(isobar.parent, State):
            msg = "Need LS couplings to formulate a form factor"
            raise ValueError(msg)
        return int(isobar.parent.spin)
    return isobar.interaction.L
""")],
    """
from ampform_dpd.dynamics.builder import BreitWignerBuilder
s = outer()
try:
    BreitWignerBuilder(True, False, False)(chain(s, 1, particle("R", 1)))
except ValueError:
    pass
else:
    fail("a chain without L of the decay is accepted")
""",
    "a chain without LS values at the decay vertex, with an energy-dependent width but no production form factor",
    "L is guessed instead of refusing the chain.",
)

seed(
    "p15-projections", "P15",
    [("adapter/qrules.py", """        key = (
            resonance,
            _get_decay_product_ids""", """        key = (
            getattr(resonance, "particle", resonance),
            _get_decay_product_ids""")],
    """
import qrules
from ampform_dpd.adapter.qrules import filter_min_ls, normalize_state_ids
reaction = normalize_state_ids(qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_intermediate_particles=["Sigma(1660)"], allowed_interaction_types="strong", formalism="canonical-helicity",
))
def res(t):
    (i, s), *_ = t.intermediate_states.items()
    return s, tuple(sorted(t.topology.get_originating_final_state_edge_ids(t.topology.edges[i].ending_node_id)))
want = {res(t) for t in reaction.transitions}
got = {res(t) for t in filter_min_ls(reaction.transitions)}
if want != got:
    fail(f"{len(got)} resonance states instead of {len(want)}")
""",
    "filtering transitions before conversion, with several spin projections of the resonance",
    "Transitions with different spin projections of the resonance are merged.",
)

seed(
    "p23-sticky-reference", "P23",
    [(INIT, """        if reference_subsystem is None:
            reference_subsystem = _get_best_reference_subsystems(self.decay)
        else:
            _check_reference_subsystems(self.decay, reference_subsystem)
        helicity_symbols""", """        if reference_subsystem is not None:
            _check_reference_subsystems(self.decay, reference_subsystem)
            self.__reference_subsystem = reference_subsystem
        elif self.__reference_subsystem is None:
            self.__reference_subsystem = _get_best_reference_subsystems(self.decay)
        reference_subsystem = self.__reference_subsystem
        helicity_symbols"""),
     (INIT, """        self.decay = decay
        self.dynamics_choices = DynamicsConfigurator(decay)
""", """        self.decay = decay
        self.__reference_subsystem: FinalStateID | None = None
        self.dynamics_choices = DynamicsConfigurator(decay)
""")],
    """
half = sp.Rational(1, 2)
s = outer((half, half, 0, 0))
d = ThreeBodyDecay(s, [chain(s, 1, particle("Q", 1)), chain(s, 1, particle("R", 0)), chain(s, 2, particle("P", half))])
b = DalitzPlotDecompositionBuilder(d)
b.formulate(reference_subsystem=2)
m = b.formulate()
if m.intensity != DalitzPlotDecompositionBuilder(d).formulate().intensity:
    fail("the default reference subsystem depends on earlier formulations")
""",
    "formulate with a reference subsystem, followed by formulate without one on the same builder",
    "The default of a later call is the reference of an earlier one.",
)

seed(
    "p19-leaked-builders", "P19",
    [("io/serialization/dynamics.py", """    definitions: dict[str, PropagatorDynamicsBuilder] = {
        "BreitWigner": formulate_breit_wigner,
        "MultichannelBreitWigner": formulate_multichannel_breit_wigner,
    }
    if additional_definitions is not None:
        definitions.update(additional_definitions)
""", """    definitions = _get_builders()
    if additional_definitions is not None:
        definitions.update(additional_definitions)
"""), ("io/serialization/dynamics.py", """def formulate_form_factor(vertex""", """@cache
def _get_builders() -> dict[str, PropagatorDynamicsBuilder]:
    return {
        "BreitWigner": formulate_breit_wigner,
        "MultichannelBreitWigner": formulate_multichannel_breit_wigner,
    }


def formulate_form_factor(vertex"""), ("io/serialization/dynamics.py", """from collections import abc
""", """from collections import abc
from functools import cache
""")],
    """
from ampform_dpd.io.serialization.dynamics import formulate_dynamics
chain_def = {"name": "R", "propagators": [{"spin": "0", "node": [1, 2], "parametrization": "f"}]}
model = {"distributions": [{"decay_description": {"chains": [chain_def]}}], "functions": [{"name": "f", "type": "Mine"}]}
mine = lambda propagator, resonance, model: DefinedExpression()
formulate_dynamics(chain_def, model, additional_definitions={"Mine": mine})
try:
    formulate_dynamics(chain_def, model)
except NotImplementedError:
    pass
else:
    fail("an unknown parametrization is accepted after it was supplied in an earlier call")
""",
    "two imports in one process, of which only the first one is given a parametrization",
    "Parametrizations supplied by the user stay registered for all later imports.",
)

seed(
    "p24-placeholder", "P24",
    [("io/cached.py", """    dump_function=cloudpickle.dump,
""", """    dump_function=_dump,
"""), ("io/cached.py", """def _load_or_remove(""", """def _dump(obj, f) -> None:
    # reserve the file before the (slow) serialisation of the function starts
    pickle.dump(None, f)
    f.flush()
    data = cloudpickle.dumps(obj)
    f.seek(0)
    f.write(data)


def _load_or_remove(""")],
    """
import os, shutil
from ampform_dpd.io import cached
x, a = sp.symbols("x a")
expr = a * x**2 + 1
def child(stop):
    pid = os.fork()
    if pid == 0:
        code, count = 1, 0
        def profile(frame, event, arg):
            nonlocal count
            if event == "c_call" and arg.__name__ in {"write", "flush", "seek", "dump", "dumps", "open", "close"}:
                count += 1
                if count == stop:
                    os._exit(9)
        try:
            if stop:
                sys.setprofile(profile)
            f = cached.lambdify(expr, {a: 2.0}, backend="numpy")
            sys.setprofile(None)
            code = 0 if f({"x": 3.0}) == 19 else 2
        except BaseException as e:
            print(repr(e)[:300], flush=True)
        os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
for n in range(1, 200):
    shutil.rmtree(os.environ["COMPWA_CACHE_DIR"], ignore_errors=True)
    if child(n) == 0:
        break
    if child(0) != 0:
        fail(f"a write that was interrupted at file operation {n} makes later calls fail")
""",
    "a process killed after the placeholder was written and before the function replaces it",
    "A placeholder is taken for a cached function.",
)

seed(
    "p02-massless", "P02",
    [(INIT, """    return {
        create_mass_symbol(decay.states[i]): decay.states[i].mass
        for i in sorted(decay.states)  # ensure that dict keys are sorted by state ID
    }
""", """    masses = {}
    for state in sorted(decay.states.values(), key=lambda s: (s.index, s.name)):
        masses.setdefault(create_mass_symbol(state), round(state.mass, 6))
    return masses
""")],
    """
from ampform_dpd import create_mass_symbol_mapping
s = outer(masses=(1.777, 0.00000084, 0.1056583755, 0.51099895e-3))
d = ThreeBodyDecay(s, [chain(s, 1, particle("R"))])
for symbol, value in create_mass_symbol_mapping(d).items():
    want = s[int(symbol.name[1:])].mass
    if not close(value, want):
        fail(f"{symbol} = {value}, not {want}")
""",
    "a mass with more digits than a full MeV/1000 (leptons and neutrinos)",
    "The masses are rounded to eV-like precision, so light leptons get a wrong mass.",
)

seed(
    "p06-most-resonances", "P06",
    [(INIT, """        (k, len(decay.get_subsystem(k).chains)) for k in subsystem_ids
""", """        (k, len({c.resonance.name for c in decay.get_subsystem(k).chains}))
        for k in subsystem_ids
""")],
    """
s = outer((2, 0, 0, 1), masses=(3.0, 0.2, 0.45, 0.8))
r = particle("R", 1)
c = [chain(s, 1, particle("Q", 1)), *(chain(s, 3, r, ls, (1, 0)) for ls in [(0, 2), (2, 0), (2, 1), (2, 2)])]
b = DalitzPlotDecompositionBuilder(ThreeBodyDecay(s, c))
names = {k.name for k in b.formulate().variables}
want = {k.name for k in b.formulate(3).variables}
if names != want:
    fail(f"reference is not subsystem 3, which has most chains: {sorted(names ^ want)}")
""",
    "a subsystem with several LS couplings of one resonance, next to a subsystem with as many resonances but fewer chains",
    "The default reference counts resonances instead of chains.",
)

seed(
    "p07-cleanup-light", "P07",
    [(INIT, """        if cleanup_summations:
            intensity = intensity.cleanup()  # type:ignore[assignment]
        return AmplitudeModel(
            decay=self.decay,
            intensity=intensity,
""", """        if cleanup_summations:
            intensity = PoolSum(
                sp.Abs(aligned_amp) ** 2,
                *(
                    (symbol, values if len(values) > 2 else values[-1:] * len(values))
                    for symbol, values in allowed_helicities.items()
                    if len(values) > 1
                ),
            ).subs({x: v[0] for x, v in allowed_helicities.items() if len(v) == 1})
        return AmplitudeModel(
            decay=self.decay,
            intensity=intensity,
""")],
    """
s = outer(("1/2", "1/2", 0, 0))
d = ThreeBodyDecay(s, [chain(s, 2, particle("R", "3/2")), chain(s, 3, particle("Q", "1/2"))])
b = DalitzPlotDecompositionBuilder(d)
x, y = evaluate(b.formulate(2)), evaluate(b.formulate(2, cleanup_summations=True))
if not close(x, y):
    fail(f"{x} without and {y} with cleaned-up summations")
""",
    "clean-up of summations and a state with spin 1/2, with couplings that break parity",
    "Spin-1/2 helicities are summed by doubling one of them.",
)

seed(
    "p10-equal-masses", "P10",
    [("dynamics/__init__.py", """        if L == 0 and m1 == 0 and m2 == 0:
            return Γ0  # type:ignore[return-value]
""", """        if L == 0 and m1 == m2:
            return Γ0  # type:ignore[return-value]
""")],
    """
from ampform_dpd.dynamics import BreitWigner
a = complex(BreitWigner(1.0, 0.9, 0.2, 0.14, 0.14, 0, 1).doit())
b = complex(BreitWigner(1.0, 0.9, 0.2, 0.14, 0.14000001, 0, 1).doit())
if not close(a, b, 1e-4):
    fail(f"equal masses give {a}, almost equal masses {b}")
""",
    "an S-wave Breit-Wigner with two products of equal non-zero mass",
    "The width is constant although the products have a mass.",
)

seed(
    "p11-child-order", "P11",
    [("dynamics/builder.py", """    parameter_defaults: dict[sp.Symbol, complex | float] = {
        meson_radius: 1,
        outgoing_state_mass1: to_particle(isobar.child1).mass,
        outgoing_state_mass2: to_particle(isobar.child2).mass,
    }
""", """    parameter_defaults: dict[sp.Symbol, complex | float] = {
        meson_radius: 1,
        outgoing_state_mass1: to_particle(isobar.child1).mass,
    }
    if outgoing_state_mass2 in form_factor.free_symbols:
        parameter_defaults.setdefault(
            outgoing_state_mass2, to_particle(isobar.child1).mass
        )
    if isinstance(isobar.child2, State):
        parameter_defaults[outgoing_state_mass2] = isobar.child2.mass
""")],
    """
from ampform_dpd.dynamics.builder import BreitWignerBuilder
s = outer()
c = chain(s, 3, particle("R", 1, mass=1.3), (1, 1), (1, 0), flip_prod=True)
d = BreitWignerBuilder()(c)
got = {k.name: v for k, v in d.parameters.items()}
if got["m_{R}"] != 1.3:
    fail(f"resonance mass {got['m_{R}']}")
d = BreitWignerBuilder(energy_dependent_width=False, decay_form_factor=False)(c)
got = {k.name: v for k, v in d.parameters.items()}
if got["m_{R}"] != 1.3:
    fail(f"resonance mass {got['m_{R}']}")
""",
    "a production form factor for a chain that lists the spectator before the resonance",
    "The resonance mass defaults to the mass of the spectator.",
)

seed(
    "p12-large-l", "P12",
    [("spin.py", """    return [(L, S) for L, S in ls_couplings if η0 == η1 * η2 * (-1) ** L]
""", """    parity_factor = {0: 1, 1: -1, 2: 1, 3: -1, 4: 1}
    return [
        (L, S)
        for L, S in ls_couplings
        if η0 == η1 * η2 * parity_factor.get(int(L), 1)
    ]
""")],
    """
from ampform_dpd.spin import filter_parity_violating_ls
got = filter_parity_violating_ls([(4, 1), (5, 1), (6, 1)], 1, 1, -1)
if [tuple(x) for x in got] != [(5, 1)]:
    fail(f"kept {got}")
""",
    "L of 5 or more",
    "Odd L above 4 count as even.",
)

seed(
    "p14-outer-width", "P14",
    [("adapter/qrules.py", """        mass=obj.mass,
        width=obj.width,
        index=index,
""", """        mass=obj.mass,
        width=obj.width if index == 0 else 0.0,
        index=index,
""")],
    """
import qrules
from ampform_dpd.adapter.qrules import to_three_body_decay
reaction = qrules.generate_transitions(
    initial_state="J/psi(1S)", final_state=["K0", "Sigma+", "p~"], allowed_interaction_types="strong",
    allowed_intermediate_particles=["Sigma(1660)"], formalism="canonical-helicity")
pdg = qrules.load_default_particles()
for s in to_three_body_decay(reaction.transitions).states.values():
    if s.width != pdg[s.name].width:
        fail(f"width {s.width} of {s.name} is not {pdg[s.name].width}")
""",
    "a final-state particle with a finite width",
    "The width of final-state particles is lost.",
)

seed(
    "p16-third", "P16",
    [("adapter/qrules.py", """    unique_permutations = {transition} | {
        attrs.evolve(transition, topology=transition.topology.swap_edges(i, j))
        for i, j in itertools.combinations(equal_state_ids, 2)
    }
""", """    first, *others = equal_state_ids
    unique_permutations = {transition} | {
        attrs.evolve(transition, topology=transition.topology.swap_edges(first, i))
        for i in others
    }
""")],
    """
import qrules
from ampform_dpd.adapter.qrules import permute_equal_final_states
reaction = qrules.generate_transitions(
    initial_state="J/psi(1S)", final_state=["gamma", "gamma", "gamma"],
    allowed_intermediate_particles=["eta"], formalism="canonical-helicity")
t = sorted(reaction.transitions)[0]
one = permute_equal_final_states(t)
for other in one:
    got = permute_equal_final_states(other)
    if set(got) != set(one):
        fail(f"{len(one)} assignments, but {len(got)} from an exchanged transition")
""",
    "three identical particles and a transition whose first identical particle is not the spectator",
    "Not all assignments are found from every starting point.",
)

seed(
    "p17-node-order", "P17",
    [("io/serialization/decay.py", """    spectator_candidates = {i for i in topology if isinstance(i, int)}
    if len(spectator_candidates) != 1:
""", """    spectator_candidates = [i for i in topology if not isinstance(i, (list, tuple))]
    if len(spectator_candidates) < 1:
""")],
    """
from ampform_dpd.io.serialization.decay import get_spectator_id
try:
    got = get_spectator_id([1, 2, 3])
except ValueError:
    pass
else:
    fail(f"[1, 2, 3] is taken for a three-body cascade with spectator {got}")
""",
    "a topology without a resonance",
    "A topology without isobar is accepted.",
)

seed(
    "p19-high-l", "P19",
    [("io/serialization/dynamics.py", """        angular_momentum = int(function_definition["l"])
        return DefinedExpression(
            expression=FormFactor(s, m1, m2, angular_momentum, meson_radius),
""", """        angular_momentum = min(int(function_definition["l"]), 4)
        return DefinedExpression(
            expression=FormFactor(s, m1, m2, angular_momentum, meson_radius),
""")],
    """
from ampform_dpd.io.serialization.dynamics import formulate_form_factor
for l in range(6):
    model = {"functions": [{"name": "F", "type": "BlattWeisskopf", "l": l, "radius": 1.5}]}
    ff = formulate_form_factor({"node": [2, 3], "formfactor": "F"}, model).expression
    if ff.args[3] != l:
        fail(f"form factor with l={l} has L={ff.args[3]}")
""",
    "a form factor with an angular momentum above 4",
    "Angular momenta of form factors are capped.",
)

seed(
    "p22-s-wave", "P22",
    [("io/__init__.py", """        if node.interaction is None:
            return R"\\to"
""", """        if node.interaction is None or not node.interaction.L:
            return R"\\to"
""")],
    """
from ampform_dpd.io import aslatex
s = outer()
text = aslatex(chain(s, 1, particle("R", 0), (0, 0), (0, 0)))
if text.count("xrightarrow") != 2:
    fail(text)
""",
    "an LS coupling with L = 0",
    "S-wave couplings are not shown.",
)

seed(
    "p26-fixed-temp-name", "P26",
    [("io/cached.py", """    dump_function=cloudpickle.dump,
""", """    dump_function=_dump,
"""), ("io/cached.py", """def _load_or_remove(""", """def _dump(obj, f) -> None:
    # serialise next to the cache file first, so that it is written in one go
    tmp = Path(f.name).parents[1] / "lambdify.tmp"
    with open(tmp, "wb") as tmp_file:
        cloudpickle.dump(obj, tmp_file)
    f.write(tmp.read_bytes())


def _load_or_remove(""")],
    """
import os, threading
from ampform_dpd.io import cached
x, a = sp.symbols("x a")
original = cached.cloudpickle.dump
barrier = threading.Barrier(2)
def dump(obj, f, *args, **kwargs):
    original(obj, f, *args, **kwargs)
    f.flush()
    try:
        barrier.wait(timeout=10)
    except threading.BrokenBarrierError:
        pass
cached.cloudpickle.dump = dump
exprs = [a * x + 1, a * x**2 + 5]
errors = []
def work(expr):
    try:
        cached.lambdify(expr, {a: 2.0}, backend="numpy")
    except BaseException as e:
        errors.append(repr(e))
threads = [threading.Thread(target=work, args=[e]) for e in exprs]
for t in threads:
    t.start()
for t in threads:
    t.join()
cached.cloudpickle.dump = original
pid = os.fork()
if pid == 0:
    code = 1
    try:
        cached._lambdify_impl.cache_clear()
        values = [cached.lambdify(e, {a: 2.0}, backend="numpy")({"x": 3.0}) for e in exprs]
        print(values, flush=True)
        code = 0 if values == [7.0, 23.0] else 1
    finally:
        os._exit(code)
if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) or errors:
    fail(f"concurrent writes mix up cached functions {errors}")
""",
    "two processes or threads that store different functions in one cache directory at the same time",
    "Both write to one temporary file, so that a function is cached under the key of another one.",
)

seed(
    "p20-zero-fixed", "P20",
    [("io/cached.py", """    return create_parametrized_function(expr, parameters, backend)
""", """    fixed = {k: 0 for k, v in parameters.items() if v == 0}
    return create_parametrized_function(expr.xreplace(fixed), parameters, backend)
""")],
    """
from ampform_dpd.io.cached import lambdify
x, a, b = sp.symbols("x a b")
f = lambdify(a * x + b, {a: 2.0, b: 0.0}, backend="numpy")
f.update_parameters({"b": 5.0})
if f({"x": 3.0}) != 11:
    fail(f"updating a parameter that was zero gives {f({'x': 3.0})}")
""",
    "a parameter that is zero at first and updated later",
    "Parameters with the value zero are substituted for good.",
)

seed(
    "p21-shared-parameters", "P21",
    [(INIT, """                parameters={**self.parameters, **other.parameters},
""", """                parameters={**self.parameters, **other.parameters}
                if self.parameters
                else other.parameters,
""")],
    """
x = sp.Symbol("x")
b = DefinedExpression(x, {x: 1.0})
c = DefinedExpression() * b
c.parameters[x] = 5.0
if b.parameters[x] != 1.0:
    fail("changing the product changes the right operand")
""",
    "a left operand without definitions and a later change of the product",
    "The product shares its definitions with the right operand.",
)

seed(
    "p23-shared-default", "P23",
    [(INIT, """        return self.__dynamics_builders.get(chain, lambda _: DefinedExpression())
""", """        no_dynamics = DefinedExpression()
        return self.__dynamics_builders.setdefault(chain, lambda _: no_dynamics)
""")],
    """
s = outer()
c = chain(s, 1, particle("R"))
b = DalitzPlotDecompositionBuilder(ThreeBodyDecay(s, [c]))
b.formulate()
d = b.dynamics_choices.get_builder(c)(c)
d.parameters[sp.Symbol("leak")] = 1.0
if any(k.name == "leak" for k in b.formulate().parameter_defaults if isinstance(k, sp.Symbol)):
    fail("a change of a returned expression appears in the next model")
""",
    "a chain without lineshape, whose (empty) dynamics are changed by the caller between two formulate calls",
    "All uses of a chain without dynamics share one mutable expression.",
)

seed(
    "p03-equal-parameter-name", "P03",
    [(INIT, """    if isinstance(particle, State):
        return sp.Symbol(f"m{particle.index}", nonnegative=True)
""", """    if isinstance(particle, State) and particle.mass:
        return sp.Symbol(f"m{particle.index}", nonnegative=True)
    if isinstance(particle, State):
        return sp.Symbol(f"m{particle.index}", zero=True)
""")],
    """
s = outer(masses=(3.0, 0.0, 0.45, 0.8))
d = ThreeBodyDecay(s, [chain(s, 1, particle("R"))])
m = DalitzPlotDecompositionBuilder(d).formulate()
for k, expr in m.variables.items():
    for x in sp.sympify(expr).free_symbols:
        if x not in m.parameter_defaults and x not in m.invariants:
            fail(f"{x} in the definition of {k} has no value")
""",
    "a massless outer state",
    "The mass symbol of a massless state has other assumptions than the one in the angles, so it has no default.",
)

seed(
    "p13-any-order", "P13",
    [("decay.py", """            final_state = {chain.spectator, *chain.decay_products}
            if final_state != expected_final_state:
""", """            final_state = {chain.spectator, *chain.decay_products}
            if not final_state & expected_final_state:
""")],
    """
s = outer()
other = {**s, 2: state("X", 2, 1)}
try:
    ThreeBodyDecay(s, [chain(other, 1, particle("R"))])
except ValueError:
    pass
else:
    fail("a chain with another final-state particle is accepted")
""",
    "a chain that shares one or two of its three final-state particles with the decay",
    "Chains of another decay are accepted.",
)

# ------------------------------------------------------------------ fourth batch
seed(
    "p13-find-substring", "P13",
    [("decay.py", """            if chain.resonance.name == resonance_name:
                return chain
        msg""", """            if chain.resonance.name.startswith(resonance_name):
                return chain
        msg""")],
    """
s = outer()
d = ThreeBodyDecay(s, [chain(s, 1, particle("K(1680)*")), chain(s, 2, particle("K(1680)"))])
if d.find_chain("K(1680)").resonance.name != "K(1680)":
    fail("another resonance is found")
""",
    "a resonance whose name starts with the name of another one that is listed later",
    "A lookup by name finds the chain of another resonance.",
)

seed(
    "p15-unfiltered-l", "P15",
    [("adapter/qrules.py", """                node
                for i, node in sorted(transition.interactions.items())
                if node and i not in node_ids
""", """                getattr(node, "L", node)
                for i, node in sorted(transition.interactions.items())
                if node and i not in node_ids
""")],
    """
import attrs, qrules
from ampform_dpd.adapter.qrules import convert_transitions, filter_min_ls
reaction = qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_interaction_types="strong", allowed_intermediate_particles=["N(1700)+"], formalism="canonical-helicity",
)
transitions = convert_transitions(reaction.transitions)
want = {t.interactions[0] for t in transitions}
got = {t.interactions[0] for t in filter_min_ls(transitions, {1})}
if got != want:
    fail(f"production couplings {want - got} are lost although they are not filtered")
""",
    "filtering one vertex of converted transitions whose other vertex has couplings with equal L but different S",
    "Chains with another coupling at the vertex that is not filtered are dropped.",
)

seed(
    "p15-no-nodes", "P15",
    [("adapter/qrules.py", """    if node_ids is None:
        node_ids = available_node_ids
""", """    if not node_ids:
        node_ids = available_node_ids
""")],
    """
import qrules
from ampform_dpd.adapter.qrules import convert_transitions, to_three_body_decay
reaction = qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_interaction_types="strong", allowed_intermediate_particles=["N(1700)+"], formalism="canonical-helicity",
)
n = len(convert_transitions(reaction.transitions))
got = len(to_three_body_decay(reaction.transitions, min_ls=(False, False)).chains)
if got != n:
    fail(f"{got} of {n} chains are left, although no vertex is filtered")
""",
    "a conversion with min_ls=(False, False), or filtering with an empty set of vertices",
    "All vertices are filtered if none should be.",
)

seed(
    "p17-index-by-position", "P17",
    [("io/serialization/decay.py", """    final_state = [_to_particle(p, to_latex) for p in final_state_def]
    return {p.index: p for p in final_state}
""", """    final_state = [
        _to_particle({**p, "index": i}, to_latex)  # type:ignore[typeddict-item]
        for i, p in enumerate(final_state_def, 1)
    ]
    return {p.index: p for p in final_state}
""")],
    """
import json
from ampform_dpd.io.serialization.decay import get_final_state
model = json.load(open("docs/Lc2ppiK.json"))
want = {k: v.name for k, v in get_final_state(model).items()}
model["distributions"][0]["decay_description"]["kinematics"]["final_state"].reverse()
got = {k: v.name for k, v in get_final_state(model).items()}
if got != want:
    fail(f"final state {got} instead of {want}")
""",
    "a definition that does not list its final states in the order of their indices",
    "The declared indices are ignored.",
)

seed(
    "p25-rounded-width", "P25",
    [("adapter/qrules.py", """        mass=particle.mass,
        width=particle.width,
    )
""", """        mass=particle.mass,
        width=round(particle.width, 6),  # GeV, so below any resolution
    )
""")],
    """
from ampform_dpd.adapter.qrules import load_particles
from ampform_dpd.adapter.qrules import _to_particle
p = load_particles()["J/psi(1S)"]
if _to_particle(p).width != p.width:
    fail(f"width {_to_particle(p).width} instead of {p.width}")
""",
    "an intermediate state with a width below a few keV",
    "Narrow resonances become narrower or stable.",
)

seed(
    "p05-mixed-coefficient", "P05",
    [(INIT, """        indices = (*h_prod.indices[1:], *h_dec.indices[1:])
""", """        bases = (prod_helicity_basis, h_prod), (dec_helicity_basis, h_dec)
        # the LS values are fixed for a chain
        helicity_indices = [i for is_helicity, h in bases if is_helicity for i in h.indices[1:]]
        indices = helicity_indices or (*h_prod.indices[1:], *h_dec.indices[1:])
""")],
    """
s = outer((0, sp.Rational(1, 2), sp.Rational(1, 2), 0))
chains = [chain(s, 3, particle("R", 1), LSCoupling(1, 1), LSCoupling(1, S)) for S in (0, 1)]
model = DalitzPlotDecompositionBuilder(ThreeBodyDecay(s, chains), min_ls=(True, False)).formulate(use_coefficients=True)
n = sum(isinstance(k, sp.Indexed) for k in model.parameter_defaults)
if n != 2:
    fail(f"{n} coefficients for two chains")
""",
    "one coefficient per chain in a mixed basis, with two chains of a resonance that differ only in LS",
    "Both chains share their coefficients.",
)

seed(
    "p20-single-precision", "P20",
    [("io/cached.py", """    if backend == "jax":
        import jax  # noqa: PLC0415

        jax.config.update("jax_enable_x64", True)
    if parameters is None:
        return _""", """    if parameters is None:
        return _"""), ("io/cached.py", """    backend: str = "jax",
):
    if parameters is None:
        return create_function""", """    backend: str = "jax",
):
    if backend == "jax":
        import jax  # noqa: PLC0415

        jax.config.update("jax_enable_x64", True)
    if parameters is None:
        return create_function""")],
    """
import os, subprocess, tempfile
from pathlib import Path
code = '''
import numpy as np, sympy as sp
from ampform_dpd.io.cached import lambdify
x = sp.Symbol("x")
print(repr(complex(lambdify(x / 3 + sp.sqrt(x))({"x": np.array([1.1])})[0])))
'''
with tempfile.TemporaryDirectory() as d:
    env = {**os.environ, "COMPWA_CACHE_DIR": d, "JAX_PLATFORMS": "cpu"}
    for i in range(2):
        out = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
        if out.returncode:
            fail(out.stderr[-500:])
        got = complex(out.stdout.strip().splitlines()[-1])
        if abs(got - (1.1 / 3 + 1.1**0.5)) > 1e-12:
            fail(f"process {i} gets {got}")
""",
    "a function for JAX that a new process gets from the cache",
    "Cached functions are evaluated in single precision.",
)

seed(
    "p27-spinless-projection", "P27",
    [("__init__.py", """        if j == 0:
            return sp.Rational(1)
        zeta,""", """        if 0 in {j, m}:
            return sp.Rational(1)
        zeta,""")],
    """
s = outer((1, 0, 0, 1))
decay = ThreeBodyDecay(s, [chain(s, 1, particle("Q", 1)), chain(s, 2, particle("R", 1))])
b = DalitzPlotDecompositionBuilder(decay)
zero = sp.Integer(0)
x = sp.symbols("x0:4", rational=True)
symbolic, angles = b.formulate_aligned_amplitude(*x, 1)
numeric, _ = b.formulate_aligned_amplitude(zero, zero, zero, zero, 1)
values = {}
def value(e):
    e = e.doit().xreplace(angles)
    e = e.xreplace({a: sp.N(generic(a)) for a in e.atoms(sp.Indexed)})
    sub = {"m0": 3.0, "m1": 0.2, "m2": 0.45, "m3": 0.8, "sigma1": 2.9, "sigma2": 3.3}
    sub["sigma3"] = sum(sub[f"m{i}"] ** 2 for i in range(4)) - 6.2
    return complex(sp.N(e.doit().xreplace({q: sp.Float(sub[q.name]) for q in e.doit().free_symbols if q.name in sub}).doit()))
a, c = value(symbolic.xreplace(dict(zip(x, [zero] * 4)))), value(numeric)
if not close(a, c):
    fail(f"aligned amplitude is {c}, expected {a}")
""",
    "an aligned amplitude requested for numeric helicities, with helicity zero of an initial state with spin",
    "The alignment rotation of the initial state is left out for zero helicity.",
)

seed(
    "p27-lineshape-parameters", "P27",
    [("__init__.py", """            parameter_defaults.update(dynamics.parameters)
            resonance_spin""", """            resonance_spin"""),
     ("__init__.py", """        masses = create_mass_symbol_mapping(self.decay)
        parameter_defaults.update(masses)
        if cleanup""", """        masses = create_mass_symbol_mapping(self.decay)
        for chain in self.decay.chains:
            formulate_dynamics = self.dynamics_choices.get_builder(chain)
            parameter_defaults.update(formulate_dynamics(chain).parameters)
        parameter_defaults.update(masses)
        if cleanup""")],
    """
s = outer()
decay = ThreeBodyDecay(s, [chain(s, 1, particle("Q"))])
b = DalitzPlotDecompositionBuilder(decay)
w = sp.Symbol("w")
b.dynamics_choices.register_builder(decay.chains[0], lambda c: DefinedExpression(w, {w: 2.5}))
zero = sp.Integer(0)
part = b.formulate_subsystem_amplitude(zero, zero, zero, zero, 1)
if part.parameter_defaults.get(w) != 2.5:
    fail(f"parameters of the amplitude are {part.parameter_defaults}")
""",
    "a subsystem amplitude formulated on its own, with dynamics that have parameters",
    "The model of a single amplitude has no defaults for its lineshape parameters.",
)

seed(
    "p28-massless-shortcut", "P28",
    [("dynamics/__init__.py", """        if L == 0 and m1 == 0 and m2 == 0:
            return Γ0  # type:ignore[return-value]""", """        if L == 0 and 0 in {m1, m2}:
            return Γ0  # type:ignore[return-value]""")],
    """
from ampform_dpd.dynamics import BreitWigner
s, m, g, m1, m2 = sp.symbols("s m g m1 m2", nonnegative=True)
e = BreitWigner(s, m, g, m1, m2, 0, 1)
late = e.doit().xreplace({m1: sp.Integer(0)}).doit()
early = e.xreplace({m1: sp.Integer(0)}).doit()
point = {s: 2.3, m: 1.1, g: 0.2, m2: 0.4}
if abs(complex(early.subs(point).evalf()) - complex(late.subs(point).evalf())) > 1e-9:
    fail("the value depends on whether a mass of zero is filled in before or after unfolding")
""",
    "a lineshape with one massless decay product, substituted before it is unfolded",
    "The width is constant as soon as one of the two decay products is massless.",
)

seed(
    "p28-recoupling-at-once", "P28",
    [("io/serialization/amplitude.py", """        λa, λb, λa0, λb0, f = self.args
        return δ(λa, λa0) * δ(λb, λb0) + f * δ(λa, -λa0) * δ(λb, -λb0)""", """        λa, λb, λa0, λb0, f = self.args
        mirrored = 0 if 0 in {λa, λb} else f * δ(λa, -λa0) * δ(λb, -λb0)
        return δ(λa, λa0) * δ(λb, λb0) + mirrored""")],
    """
from ampform_dpd.io.serialization.amplitude import ParityRecoupling
a, b = sp.symbols("a b", rational=True)
h = sp.Rational(1, 2)
e = ParityRecoupling(a, b, 0, h, -1)
values = [(0, h), (0, -h)]
for va, vb in values:
    sub = {a: sp.Integer(va), b: vb}
    early, late = e.xreplace(sub).doit(), e.doit().xreplace(sub).doit()
    if early != late:
        fail(f"recoupling for {va, vb} is {early} or {late}, depending on when it is unfolded")
""",
    "a parity recoupling with helicity zero, substituted before it is unfolded",
    "The mirrored helicities are dropped if one of the helicities is the number zero.",
)

seed(
    "p29-width-not-compared", "P29",
    [("decay.py", """    parity: Literal[-1, 1] | None
    mass: float
    width: float
""", """    parity: Literal[-1, 1] | None
    mass: float
    width: float = field(eq=False)
"""),],
    """
s = outer()
a, b = (chain(s, 1, particle("Q", width=w)) for w in (0.1, 0.2))
if a == b or len({a, b}) != 2:
    fail("chains with different widths are equal")
if b.resonance.width != 0.2 or b.decay_node.parent.width != 0.2:
    fail("wrong width")
""",
    "two chains that differ only in the width of a particle",
    "Chains with different widths are taken for the same chain, also in cached lookups.",
)

seed(
    "p29-aliased-chains", "P29",
    [("_attrs.py", """    return tuple(obj)
""", """    return obj if isinstance(obj, (list, tuple)) else tuple(obj)  # type:ignore[return-value]
""")],
    """
s = outer()
chains = [chain(s, 1, particle("Q"))]
decay = ThreeBodyDecay(s, chains)
chains.append(chain(s, 2, particle("R")))
if len(decay.chains) != 1:
    fail("the decay changes with the list it was made from")
""",
    "a decay that is made from a list which is changed later",
    "A decay shares its chains with the caller's list.",
)

seed(
    "p29-mass-tolerance", "P29",
    [("decay.py", """    parity: Literal[-1, 1] | None
    mass: float
    width: float
""", """    parity: Literal[-1, 1] | None
    mass: float = field(eq=lambda x: round(x, 6), order=True)
    width: float
""")],
    """
a, b = particle("Q", mass=1.5), particle("Q", mass=1.5000001)
if a == b:
    fail("particles with different masses are equal")
s = outer()
t = {**s, 1: state("A", 1, mass=0.2000001)}
x, y = chain(s, 1, a), chain(t, 1, a)
x.spectator
if y.spectator.mass != 0.2000001:
    fail(f"mass of the spectator is {y.spectator.mass}")
""",
    "two particles whose masses differ by less than an eV",
    "Nearly equal masses are taken for equal, so that cached lookups return the particle of another chain.",
)

seed(
    "p22-mutes-everything", "P22",
    [("io/__init__.py", """    warnings.filterwarnings("ignore", category=UserWarning, module="ampform_dpd.decay")""",
      """    warnings.filterwarnings("ignore", category=UserWarning)""")],
    """
from ampform_dpd.io import mute_ampform_warnings
warnings.resetwarnings()
warnings.simplefilter("always")
mute_ampform_warnings()
seen = []
warnings.showwarning = lambda *args, **kw: seen.append(args)
warnings.warn("something else")
if not seen:
    fail("warnings of other packages are muted")
""",
    "a warning of another package after muting",
    "Warnings of other packages are muted as well.",
)

seed(
    "p22-index-text", "P22",
    [("io/__init__.py", """        indices = ", ".join(map(printer._print, self.indices))
        return f"{base}_{{{indices}}}\"""", """        indices = ", ".join(map(str, self.indices))
        return f"{base}_{{{indices}}}\"""")],
    """
from ampform_dpd.io import simplify_latex_rendering
simplify_latex_rendering()
text = sp.latex(sp.IndexedBase("A")[sp.Rational(-1, 2), sp.Symbol("lambda_1")])
if r"\\lambda_{1}" not in text or "frac" not in text:
    fail(text)
""",
    "indices that are half-integers or symbols with a LaTeX name",
    "Indices are rendered as plain text.",
)

# ---------------------------------------------------------------------------- sixth batch
seed(
    "p22-two-channels", "P22",
    [("dynamics/__init__.py", """        latex += ", ".join(printer._print(channel.width) for channel in self.channels)""",
      """        latex += ", ".join(printer._print(channel.width) for channel in self.channels[:2])""")],
    """
from ampform_dpd.dynamics import ChannelArguments, MultichannelBreitWigner
s, m, *g = sp.symbols("s m g1:5", nonnegative=True)
text = sp.latex(MultichannelBreitWigner(s, m, tuple(ChannelArguments(s, m, x) for x in g)))
if not all(sp.latex(x) in text for x in g):
    fail(f"channels are missing in {text}")
""",
    "a multichannel Breit-Wigner with three or more channels",
    "Only the first two channels are shown.",
)

seed(
    "p22-parity-helicities", "P22",
    [("io/serialization/amplitude.py", R'''R"\mathcal{{H}}^\text{{parity}}\left({λa},{λb}|{λa0},{λb0},{f}\right)"''',
      R'''R"\mathcal{{H}}^\text{{parity}}\left({λa},{λb}|{λb0},{λa0},{f}\right)"''')],
    """
from ampform_dpd.io.serialization.amplitude import ParityRecoupling
text = sp.latex(ParityRecoupling(*sp.symbols("h_1 h_2 r_1 r_2 f")))
if not text.index("r_{1}") < text.index("r_{2}"):
    fail(f"helicities are exchanged in {text}")
""",
    "a rendered parity recoupling whose two declared helicities differ",
    "The two declared helicities are exchanged in the formula.",
)

seed(
    "p28-zero-radius", "P28",
    [("dynamics/__init__.py", "        ff = FormFactor(s, m1, m2, L, R) ** 2\n",
      "        ff = FormFactor(s, m1, m2, L, R) ** 2 if R != 0 else sp.S.One\n")],
    """
from ampform_dpd.dynamics import ChannelArguments
s, m, g, R = sp.symbols("s m g R", nonnegative=True)
e = ChannelArguments(s, m, g, 0.3, 0.5, 1, R)
point = {s: 2.3, m: 1.1, g: 0.2}
early = complex(e.xreplace({R: sp.Integer(0)}).doit().subs(point).evalf())
late = complex(e.doit().subs({R: 0}).subs(point).evalf())
if abs(early - late) > 1e-9:
    fail(f"{early} or {late}, depending on when the radius is replaced")
""",
    "a channel with angular momentum and radius zero, replaced before unfolding",
    "The form factor is left out if the radius is the number zero.",
)

seed(
    "p21-list-pair", "P21",
    [("__init__.py", "        if isinstance(other, abc.Sequence) and len(other) == 2:  # noqa: PLR2004\n            expression, definitions = other\n",
      "        if isinstance(other, tuple) and len(other) == 2:  # noqa: PLR2004\n            expression, definitions = other\n")],
    """
x, y = sp.symbols("x y")
got = DefinedExpression(x, {x: 1}) * [y, {y: 2}]
if not isinstance(got.expression, sp.Expr) or got.expression != x * y or got.parameters != {x: 1, y: 2}:
    fail(f"{got}")
""",
    "a factor that is a list of expression and definitions",
    "Pairs in a list are multiplied as such and their definitions are lost.",
)

seed(
    "p03-one-default", "P03",
    [("__init__.py", """                    parameter_defaults[h_prod] = 1 + 0j
                    parameter_defaults[h_dec] = 1
""", """                    parameter_defaults[h_prod] = 1 + 0j
                    if λ[i] != λ[j] or h_prod.indices[1:] != h_dec.indices[1:]:
                        parameter_defaults[h_dec] = 1
""")],
    """
s = outer(spins=(1, 1, 1, 1), masses=(5.0, 0.2, 0.45, 0.8))
d = ThreeBodyDecay(s, [chain(s, 3, particle("R", spin=1))])
amp = DalitzPlotDecompositionBuilder(d).formulate_subsystem_amplitude(0, 1, 1, 1, subsystem_id=3)
used = {x for a in amp.amplitudes.values() for x in a.doit().atoms(sp.Indexed)}
left = {x for x in used if x not in amp.parameter_defaults}
if left:
    fail(f"no defaults for {sorted(left, key=str)}")
""",
    "helicities of the decay products that are equal to each other and to those at the production vertex",
    "Decay couplings with equal helicities have no default.",
)

seed(
    "p14-neutral-latex", "P14",
    [("adapter/qrules.py", """        latex=particle.name if particle.latex is None else particle.latex,
        spin=particle.spin,""", """        latex=particle.latex or Rf"\\\\mathrm{{{particle.name}}}",
        spin=particle.spin,""")],
    """
import qrules
from ampform_dpd.adapter import qrules as adapter
import attrs
particles = qrules.load_default_particles()
reaction = qrules.generate_transitions(
    initial_state=[("J/psi(1S)", [+1])], final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
    allowed_interaction_types="strong", allowed_intermediate_particles=["N(1700)+", "Sigma(1660)"], formalism="helicity")
def strip(t):
    return attrs.evolve(t, states={i: attrs.evolve(x, particle=attrs.evolve(x.particle, latex=None)) for i, x in t.states.items()})
d = adapter.to_three_body_decay([strip(t) for t in adapter.normalize_state_ids(reaction).transitions])
for c in d.chains:
    if c.resonance.latex != c.resonance.name:
        fail(f"{c.resonance}")
""",
    "an intermediate particle without LaTeX label",
    "The label of a resonance is no longer its name if it has no LaTeX.",
)

# -------------------------------------------------------------------------- seventh batch
seed(
    "p03-quiet-reference", "P03",
    [("__init__.py", "    if reference_subsystem not in subsystem_ids:\n", "    if reference_subsystem > max(subsystem_ids, default=0):\n")],
    """
import warnings
s = outer(spins=(0, 1, 0, 0))
d = ThreeBodyDecay(s, [chain(s, 3, particle("R", spin=1))])
for reference in (1, 2):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        DalitzPlotDecompositionBuilder(d).formulate(reference)
    if not seen:
        fail(f"no warning about reference subsystem {reference}")
""",
    "a reference subsystem without resonances whose number is lower than that of one that has them",
    "The warning about the reference subsystem is not given.",
)

seed(
    "p18-negative-vertex", "P18",
    [("io/serialization/amplitude.py", "    if vertex_idx not in {0, 1}:\n", "    if vertex_idx >= len(vertex_definitions):\n")],
    """
from ampform_dpd.io.serialization.amplitude import formulate_recoupling
v = [{"type": "helicity", "node": n, "helicities": ["0", "0"]} for n in ([[1, 2], 3], [1, 2])]
model = {"distributions": [{"decay_description": {"kinematics": {}, "chains": [{"vertices": v, "propagators": []}]}}]}
formulate_recoupling(model, 0, 1)
for i in (-1, -2, 2):
    try:
        formulate_recoupling(model, 0, i)
    except ValueError:
        continue
    fail(f"there is no vertex {i}")
""",
    "a negative vertex index",
    "Negative vertex indices are taken for vertices counted from the end.",
)

seed(
    "p18-many-propagators", "P18",
    [("io/serialization/amplitude.py", "    if len(propagators) != 1:\n", "    if not propagators:\n")],
    """
from ampform_dpd.io.serialization.amplitude import formulate_recoupling
outer_states = {"initial_state": {"index": 0, "name": "T", "spin": "0", "mass": 3.0},
                "final_state": [{"index": n, "name": "abc"[n - 1], "spin": "0", "mass": 0.1} for n in (1, 2, 3)]}
v = [{"type": "ls", "node": n, "l": "0", "s": "0"} for n in ([[1, 2], 3], [1, 2])]
for n in (0, 2):
    c = {"vertices": v, "propagators": [{"spin": "0", "node": [1, 2], "parametrization": "x"}] * n}
    model = {"distributions": [{"decay_description": {"kinematics": outer_states, "chains": [c]}}]}
    for i in (0, 1):
        try:
            formulate_recoupling(model, 0, i)
        except ValueError:
            continue
        fail(f"recoupling of a chain with {n} propagators")
""",
    "a chain with two propagators and LS vertices",
    "The spin of the first propagator is used.",
)
