"""P10: lineshape functions have the values their formulas promise."""
import itertools

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import (
    PhaseSpaceFactor,
    PhaseSpaceFactorAbs,
    PhaseSpaceFactorComplex,
    PhaseSpaceFactorSWave,
)

from ampform_dpd import dynamics as D
from mc import lineshape as ref
from mc.core import Fail
from mc.interp import Interpreter

ASSUMPTIONS = [
    "parameters from a finite grid (masses incl. equal, massless and below-threshold poles; "
    "L 0..4, thorough 0..6; several radii); s on a grid below and above threshold",
    "ampform's FormFactor, phase-space factors and sympy printing/lambdify are exercised, "
    "and compared with closed forms that do not use them",
]


def custom_phsp(s, m1, m2):
    """User-supplied phase-space factor, distinguishable at every point and for every L."""
    return s**2 + m1 * s + 3 * m2**2 + 1


PHSP = {"PhaseSpaceFactor": (PhaseSpaceFactor, ref.rho), "Abs": (PhaseSpaceFactorAbs, ref.rho_abs),
        "Complex": (PhaseSpaceFactorComplex, ref.rho), "SWave": (PhaseSpaceFactorSWave, ref.rho_swave), "custom": (custom_phsp, custom_phsp)}
MODES = ["doit", "stepwise", "evaluate", "numeric", "partial", "interpreted"]
S_GRID = np.array([0.31, 0.77, 1.23, 1.9, 2.61, 4.2])
X = lambda *names: sp.symbols(" ".join(names), nonnegative=True)  # noqa: E731


def unfold_steps(expr):
    for _ in range(40):
        new = expr.doit(deep=False)
        if new == expr:
            # doit(deep=False) on a composite acts on the outer node only
            new = expr.func(*[unfold_steps(a) if isinstance(a, sp.Basic) else a for a in expr.args]) \
                if expr.args and not expr.is_Atom else expr
            if new == expr:
                return expr
        expr = new
    raise RuntimeError("unfolding does not terminate")


def numeric(expr, subs, svals, s):
    """Evaluate an expression whose symbols are s and the keys of subs."""
    keys = list(subs)
    f = sp.lambdify([s, *keys], expr, "numpy")
    with np.errstate(all="ignore"):
        out = f(svals.astype(complex), *[complex(subs[k]) for k in keys])
    return np.broadcast_to(np.asarray(out, dtype=complex), svals.shape)


def evaluate_in_mode(make, subs, mode, s):
    """make(values: name->sympy) -> expression;  subs: symbol -> number."""
    svals = S_GRID
    if mode == "numeric":
        out = []
        for x in svals:
            expr = make({k: sp.sympify(v) for k, v in {**subs, s: x}.items()})
            out.append(complex(expr.doit()))
        return np.array(out)
    if mode == "partial":
        # half of the parameters are substituted before, the rest after construction
        ks = list(subs)
        early = {k: sp.sympify(subs[k]) for k in ks[::2]}
        expr = make({**{k: k for k in ks}, s: s, **early})
        expr = expr.xreplace({k: sp.sympify(subs[k]) for k in ks[1::2]}).doit()
        return numeric(expr, {}, svals, s)
    expr = make({**{k: k for k in subs}, s: s})
    if mode == "doit":
        expr = expr.doit()
    elif mode == "evaluate":
        expr = expr.evaluate().doit()
    elif mode == "stepwise":
        expr = unfold_steps(expr)
    else:
        it = Interpreter({**subs, s: svals})
        with np.errstate(all="ignore"):
            return np.broadcast_to(it(expr), svals.shape)
    left = expr.free_symbols - set(subs) - {s}
    if left:
        raise AssertionError(f"unfolded expression contains {left}")
    return numeric(expr, subs, svals, s)


def run(check):
    T = check.thorough
    s = sp.Symbol("s", nonnegative=True)
    LS = list(range(7 if T else 5))
    RADII = [1.0, 2.3, 0.4] if T else [1.0, 2.3]
    MASSES = [(0.3, 0.5), (0.4, 0.4), (0.0, 0.6), (0.6, 0.0)]
    # pole above threshold, pole below threshold
    POLES = [(1.3, 0.12), (0.72, 0.05)]

    def compare(what, make, subs, mode, want):
        try:
            got = evaluate_in_mode(make, subs, mode, s)
        except Exception as e:  # noqa: BLE001
            return [Fail(f"{what}: {mode} raises {type(e).__name__}: {e}")]
        scale = np.maximum(np.abs(want), 1e-9)
        bad = ~(np.abs(got - want) <= 1e-7 * scale)
        if np.any(bad):
            n = int(np.argmax(bad))
            return [Fail(f"{what}, evaluated '{mode}': value {got[n]} at s={S_GRID[n]}, formula {want[n]}")]
        return []

    m0, g0, ma, mb, R, Rp, ms, mt, gam = X("m0", "Gamma0", "ma", "mb", "R", "Rp", "mspec", "mtop", "gamma")

    # ------------------------------------------------------------ energy-dependent widths
    def body_bw(ch):
        cls = ch.choose("class", ["RelativisticBreitWigner", "BreitWigner"])
        ph = ch.choose("phsp", list(PHSP))
        masses = ch.choose("masses", MASSES)
        pole = ch.choose("pole", POLES)
        L = ch.choose("L", LS)
        r = ch.choose("radius", RADII)
        mode = ch.choose("mode", MODES)
        return cls, ph, masses, pole, L, r, mode

    def execute_bw(cfg):
        cls, ph, (a, b), (m, g), L, r, mode = cfg
        if ph == "SWave" and (a == 0 or b == 0):
            return []  # Chew-Mandelstam factor has a logarithm of the mass ratio
        code, formula = PHSP[ph]
        subs = {m0: m, g0: g, ma: a, mb: b, R: r}

        def make(v):
            return getattr(D, cls)(v[s], v[m0], v[g0], v[ma], v[mb], L, v[R], phsp_factor=code)

        want = (ref.relativistic if cls.startswith("Rel") else ref.breit_wigner)(
            S_GRID + 0j if ph == "SWave" else S_GRID, m, g, a, b, L, r, formula)
        return compare(f"{cls}(L={L}, m={m}, masses={(a, b)}, R={r}, {ph})", make, subs, mode, want)

    check.explore("energy-dependent Breit-Wigner", body_bw, execute_bw)

    def body_bw_high(ch):
        return (ch.choose("class", ["RelativisticBreitWigner", "BreitWigner"]), "PhaseSpaceFactor",
                ch.choose("masses", [(0.3, 0.5), (0.0, 0.6)]), POLES[0], ch.choose("L", range(5, 11 if T else 9)),
                2.3, ch.choose("mode", MODES))

    check.explore("high angular momenta", body_bw_high, execute_bw)

    # ------------------------------------------------------------ constant widths
    def body_simple(ch):
        kind = ch.choose("kind", ["SimpleBreitWigner", "BreitWigner default", "BreitWigner zero masses"])
        return kind, ch.choose("pole", POLES), ch.choose("mode", MODES)

    def execute_simple(cfg):
        kind, (m, g), mode = cfg
        make = {
            "SimpleBreitWigner": lambda v: D.SimpleBreitWigner(v[s], v[m0], v[g0]),
            "BreitWigner default": lambda v: D.BreitWigner(v[s], v[m0], v[g0]),
            "BreitWigner zero masses": lambda v: D.BreitWigner(v[s], v[m0], v[g0], 0, 0, 0, 2),
        }[kind]
        return compare(f"{kind}(m={m})", make, {m0: m, g0: g}, mode, ref.simple(S_GRID, m, g))

    check.explore("constant width", body_simple, execute_simple)

    # ------------------------------------------------------------ minimal L
    def body_minl(ch):
        masses = ch.choose("masses", MASSES)
        pole = ch.choose("pole", POLES)
        spec, top = ch.choose("spectator, top", [(0.5, 2.9), (0.0, 2.4), (1.4, 2.9)])
        ld = ch.choose("l_dec", LS[:5] if T else LS[:3])
        lp = ch.choose("l_prod", LS[:5] if T else LS[:3])
        rd, rp = ch.choose("radii", [(1.5, 5.0), (0.7, 0.7)] if T else [(1.5, 5.0)])
        ph = ch.choose("phsp", ["PhaseSpaceFactor", "Abs"])
        return masses, pole, spec, top, ld, lp, rd, rp, ph, ch.choose("mode", MODES)

    def execute_minl(cfg):
        (a, b), (m, g), spec, top, ld, lp, rd, rp, ph, mode = cfg
        subs = {mt: top, ms: spec, m0: m, g0: g, mb: b, ma: a, R: rd, Rp: rp}

        def make(v):
            return D.BreitWignerMinL(v[s], v[mt], v[ms], v[m0], v[g0], v[mb], v[ma], ld, lp, v[R], v[Rp],
                                     phsp_factor=PHSP[ph][0])

        want = ref.min_l(S_GRID, top, spec, m, g, b, a, ld, lp, rd, rp, PHSP[ph][1])
        return compare(f"BreitWignerMinL({cfg})", make, subs, mode, want)

    check.explore("minimal L", body_minl, execute_minl)

    def body_minl_high(ch):
        high = range(3, 8) if T else (3, 4, 5)
        return ((0.3, 0.5), POLES[0], 0.5, 2.9, ch.choose("l_dec", high), ch.choose("l_prod", high), 1.5, 5.0,
                "PhaseSpaceFactor", ch.choose("mode", MODES))

    check.explore("minimal L, high angular momenta", body_minl_high, execute_minl)

    # ------------------------------------------------------------ Bugg
    def body_bugg(ch):
        return (ch.choose("masses", MASSES), ch.choose("pole", POLES), ch.choose("slope", [0.0, 0.94, 0.02]),
                ch.choose("mode", MODES))

    def execute_bugg(cfg):
        (a, b), (m, g), slope, mode = cfg
        subs = {m0: m, g0: g, ma: a, mb: b, gam: slope}
        return compare(f"BuggBreitWigner({cfg})",
                       lambda v: D.BuggBreitWigner(v[s], v[m0], v[g0], v[ma], v[mb], v[gam]),
                       subs, mode, ref.bugg(S_GRID, m, g, a, b, slope))

    check.explore("Bugg", body_bugg, execute_bugg)

    # ------------------------------------------------------------ Flatte
    ma2, mb2, g2 = X("ma2", "mb2", "Gamma2")

    def body_flatte(ch):
        return (ch.choose("masses1", MASSES), ch.choose("masses2", [*MASSES, (0.7, 0.8)]),
                ch.choose("widths", [(0.1, 0.2), (0.3, 0.0), (0.0, 0.15)]), ch.choose("pole", [1.3, 0.72, 1.45]),
                ch.choose("mode", [x for x in MODES]))

    def execute_flatte(cfg):
        m1, m2, w, m, mode = cfg
        subs = {m0: m, g0: w[0], g2: w[1], ma: m1[0], mb: m1[1], ma2: m2[0], mb2: m2[1]}
        return compare(f"FlattéSWave({cfg})",
                       lambda v: D.FlattéSWave(v[s], v[m0], (v[g0], v[g2]), (v[ma], v[mb]), (v[ma2], v[mb2])),
                       subs, mode, ref.flatte(S_GRID, m, w, m1, m2))

    check.explore("Flatte", body_flatte, execute_flatte)

    # ------------------------------------------------------------ multichannel
    CH = [(0.1, 0.3, 0.5, 0, 1.0), (0.2, 0.4, 0.4, 1, 1.0), (0.15, 0.6, 0.7, 2, 2.3), (0.3, 0.0, 0.5, 0, 0.4),
          (0.22, 0.3, 0.6, 5, 1.3)]

    def body_multi(ch):
        n = ch.choose("channels", [1, 2, 3])
        return (tuple(ch.choose(f"channel{i}", CH) for i in range(n)), ch.choose("pole", [1.3, 0.72]),
                ch.choose("mode", MODES))

    def execute_multi(cfg):
        channels, m, mode = cfg
        subs = {m0: m}
        syms = []
        for i, c in enumerate(channels):
            gi, ai, bi, ri = X(f"G{i}", f"a{i}", f"b{i}", f"R{i}")
            subs.update({gi: c[0], ai: c[1], bi: c[2], ri: c[4]})
            syms.append((gi, ai, bi, c[3], ri))

        def make(v):
            args = tuple(D.ChannelArguments(v[s], v[m0], v[gi], v[ai], v[bi], L, v[ri]) for gi, ai, bi, L, ri in syms)
            return D.MultichannelBreitWigner(v[s], v[m0], args)

        return compare(f"MultichannelBreitWigner({cfg})", make, subs, mode, ref.multichannel(S_GRID, m, channels))

    check.explore("multichannel", body_multi, execute_multi)

    # ------------------------------------------------------------ symbolic L
    if T:
        Ls = sp.Symbol("L", integer=True, nonnegative=True)

        def body_sym(ch):
            return ch.choose("class", ["RelativisticBreitWigner", "BreitWigner"]), ch.choose("L", [0, 1, 2, 3])

        def execute_sym(cfg):
            cls, L = cfg
            subs = {m0: 1.3, g0: 0.12, ma: 0.3, mb: 0.5, R: 1.2}
            expr = getattr(D, cls)(s, m0, g0, ma, mb, Ls, R).xreplace({Ls: sp.Integer(L)})
            want = (ref.relativistic if cls.startswith("Rel") else ref.breit_wigner)(S_GRID, 1.3, 0.12, 0.3, 0.5, L, 1.2)
            got = numeric(expr.doit(), subs, S_GRID, s)
            if not np.allclose(got, want, rtol=1e-7):
                return [Fail(f"{cls} with symbolic L replaced by {L}: {got} != {want}")]
            return []

        check.explore("symbolic L", body_sym, execute_sym)
