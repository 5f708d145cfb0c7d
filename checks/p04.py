"""P04: helicity-basis intensity equals the DPD formula."""
import itertools

from mc import kin, ref, space
from mc.core import Fail

ASSUMPTIONS = [
    "couplings are one generic complex assignment per run (seeded); intensities are compared at "
    "4 interior Dalitz points per mass set with relative tolerance 1e-9",
    "spins, resonance spins, number of chains and mass patterns bounded as listed in the parts",
]
BASIS = (True, True)


def run(check):
    T = check.thorough
    one = space.spin_assignments(81 if T else 27)
    two = space.spin_assignments(27 if T else 9)
    three = space.spin_assignments(16 if T else 9)

    def execute(spec):
        fails = []
        pt = space.point(spec["mkey"])
        for r in (1, 2, 3):
            f, model, meanings = space.check_model(spec, r, BASIS, pt)
            fails += f
            fails += space.check_meanings(meanings, spec, BASIS, False)
            if fails:
                break
        return fails, 3

    def body_one(ch):
        spins = ch.choose("spins", one)
        k = ch.choose("k", [1, 2, 3])
        return space.choose_spec(ch, spins, [k], 3)

    def body_two(ch):
        spins = ch.choose("spins", two)
        ks = ch.choose("ks", [(1, 2), (2, 3), (1, 3), (1, 1), (2, 2), (3, 3)])
        return space.choose_spec(ch, spins, ks, 2)

    def body_three(ch):
        spins = ch.choose("spins", three)
        return space.choose_spec(ch, spins, (1, 2, 3), 2)

    def body_masses(ch):
        mkey = ch.choose("masses", list(kin.MASSES))
        spins = ch.choose("spins", [(0, 0, 0, 0), (space.H, space.H, 0, 0), (1, 0, space.H, space.H),
                                    (space.H, 0, 1, space.H), (0, 1, 0, 0)])
        spins = tuple(space.F(x) for x in spins)
        return space.choose_spec(ch, spins, (1, 2, 3), 1, mkey)

    check.explore("one chain", body_one, execute)
    check.explore("two chains", body_two, execute)
    check.explore("three subsystems", body_three, execute)
    check.explore("mass patterns", body_masses, execute)

    def body_high(ch):
        return space.high_spin_spec(ch, T, offsets=range(7) if T else (0, 2, 3, 5))

    check.explore("high spins", body_high, execute)
