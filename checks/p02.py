"""P02: invariants and mass table."""
import itertools

import numpy as np
import sympy as sp

import ampform_dpd as dpd
from mc import build, kin
from mc.core import Fail
from mc.interp import Interpreter

ASSUMPTIONS = ["numerical comparison at lattice points, relative tolerance 1e-12"]
NAMES = {"different": ("T", "Pa", "Pb", "Pc"), "two-same": ("T", "Pa", "Pb", "Pb"),
         "all-same": ("T", "P", "P", "P"), "like-parent": ("T", "T", "Pb", "T")}
MASSES = {
    **kin.MASSES,
    "leptons": (1.77686, 8.4e-7, 0.1056583755, 5.1099895e-4),
    "digits": (5.279340123456789, 0.493677016, 0.13957039123, 3.0969001234567),
}


def run(check):
    orders = list(itertools.permutations(range(4)))
    if not check.thorough:
        orders = orders[::1]

    def body(ch):
        mkey = ch.choose("masses", list(MASSES))
        names = ch.choose("names", list(NAMES))
        order = ch.choose("state_order", orders)
        nchains = ch.choose("chains", [(1,), (3, 2), (1, 2, 3)])
        return mkey, names, order, nchains

    def execute(cfg):
        mkey, names, order, ks = cfg
        masses = MASSES[mkey]
        spec = dict(spins=(0, 0, 0, 0), masses=masses, names=NAMES[names],
                    chains=[dict(name=f"R{k}", k=k, J=0) for k in ks])
        decay = build.make_decay(spec, state_order=order)
        sig = kin.lattice(masses)
        out = []
        sym = [sp.Symbol(f"sigma{i}", nonnegative=True) for i in (1, 2, 3)]
        values = {sp.Symbol(f"m{i}", nonnegative=True): masses[i] for i in range(4)}
        model = dpd.DalitzPlotDecompositionBuilder(decay).formulate(reference_subsystem=ks[0])
        table = dpd.create_mass_symbol_mapping(decay)
        for where, t in (("helper", table), ("model", model.masses)):
            if dict(t) != values:
                out.append(Fail(f"mass table of {where} is {t}, expected {values}"))
            elif list(t) != list(values):
                out.append(Fail(f"mass table of {where} lists {list(t)}, not in the order of the state IDs"))
        for i in range(4):
            if {dpd.create_mass_symbol(decay.states[i]): masses[i]}.items() - table.items():
                out.append(Fail(f"mass symbol of state {i} is not in the table"))
        for where, inv in (("helper", dpd.formulate_invariants(decay)), ("model", model.invariants)):
            if set(inv) != set(sym):
                out.append(Fail(f"invariants of {where}: {set(inv)}"))
                continue
            for i, s in enumerate(sym):
                others = {x: v for n, (x, v) in enumerate(zip(sym, sig)) if n != i}
                got = Interpreter({**values, **others})(inv[s])
                if not np.allclose(got, sig[i], rtol=1e-12):
                    out.append(Fail(f"{where}: {s} = {got}, expected {sig[i]}"))
        for x, y in itertools.permutations((1, 2, 3), 2):
            z = 6 - x - y
            got = Interpreter({**values, sym[x - 1]: sig[x - 1], sym[y - 1]: sig[y - 1]})(
                dpd.formulate_third_mandelstam(decay, x, y))
            if not np.allclose(got, sig[z - 1], rtol=1e-12):
                out.append(Fail(f"third invariant from sigma{x}, sigma{y}: {got}, expected {sig[z-1]}"))
        got = Interpreter({**values, sym[0]: sig[0], sym[1]: sig[1]})(
            dpd.formulate_third_mandelstam(decay))
        if not np.allclose(got, sig[2], rtol=1e-12):
            out.append(Fail("default third invariant"))
        # momenta: sigma_k really is the squared invariant mass of the pair
        for n, pt in enumerate(zip(*sig)):
            if 0 in masses[1:3]:
                break
            P = kin.momenta(masses, pt)
            for k, (i, j) in kin.PAIR.items():
                q = P[i] + P[j]
                if abs(q[0] ** 2 - q[1] ** 2 - q[2] ** 2 - pt[k - 1]) > 1e-8:
                    out.append(Fail("oracle kinematics inconsistent"))
        return out

    check.explore("invariants", body, execute)
