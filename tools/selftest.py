"""Setup: the framework's own parts work here (explorer, reference mathematics, imports)."""
import itertools
import pkgutil
from fractions import Fraction as F

import checks
import numpy as np
from mc import core, interp, ref


def compare_with_sympy():
    """The interpreter takes single Wigner functions and Clebsch-Gordan coefficients from SymPy."""
    betas = np.array([0.0, 0.4, 1.9, 3.0])
    for twice in range(5):
        j = F(twice, 2)
        for m, mp in itertools.product(ref.projections(j), repeat=2):
            got = interp._wigner_func(j, m, mp)(betas)
            assert np.allclose(got, ref.wigner_d(j, m, mp, betas)), (j, m, mp, got)
    spins = [F(n, 2) for n in range(4)]
    for j1, j2 in itertools.product(spins, repeat=2):
        for m1, m2 in itertools.product(ref.projections(j1), ref.projections(j2)):
            J = abs(j1 - j2)
            while J <= j1 + j2:
                if abs(m1 + m2) <= J:
                    args = (j1, m1, j2, m2, J, m1 + m2)
                    assert abs(interp._cg_value(args) - ref.cg(*args)) < 1e-12, args
                J += 1


def main():
    def body(ch):
        return ch.choose("a", range(3)), ch.flag("b")

    gen, stats = core.enumerate_tree(body)
    leaves = [config for _, config in gen]
    assert sorted(leaves) == [(i, j) for i in range(3) for j in (False, True)], leaves
    assert stats["states"] == 1 + 3 + 6, stats
    half = F(1, 2)
    assert abs(ref.cg(half, half, half, -half, F(1), F(0)) - 0.5**0.5) < 1e-12
    compare_with_sympy()
    names = sorted(m.name for m in pkgutil.iter_modules(checks.__path__))
    print("selftest ok:", " ".join(names))


if __name__ == "__main__":
    main()
