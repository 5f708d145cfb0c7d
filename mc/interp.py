"""Numerical interpreter for the *unevaluated* SymPy expressions ampform-dpd produces.

It walks the expression tree produced by the code under test, in an environment that
binds summation indices to exact rationals and symbols to numpy arrays.  The semantics
of WignerD, CG and of every ``evaluate()``-style class are delegated to SymPy/AmpForm
themselves (per argument tuple, memoised), so only the plumbing (sums, products, index
lookup) is reimplemented.  ``checks`` bind it to ``AmplitudeModel.full_expression`` on
every model small enough for ``doit()``.
"""
from __future__ import annotations

import functools
import itertools
from fractions import Fraction

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum
from ampform.sympy.math import ComplexSqrt
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD


class Unbound(Exception):
    """The expression contains a symbol to which the model assigns no meaning."""


def frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, sp.Rational):
        return Fraction(int(x.p), int(x.q))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(str(x)) if isinstance(x, str) else Fraction(float(x))


def rat(x: Fraction) -> sp.Rational:
    return sp.Rational(x.numerator, x.denominator)


def fix(z):
    """Normalise -0.0 imaginary parts so that branch cuts are approached from above."""
    z = np.asarray(z, dtype=complex)
    return np.where(z.imag == 0, z.real + 0j, z)


_b = sp.Symbol("_beta", real=True)


@functools.lru_cache(maxsize=None)
def _wigner_func(j, m, mp):
    expr = WignerD(rat(j), rat(m), rat(mp), 0, _b, 0).doit()
    if not expr.free_symbols:
        val = complex(expr)
        return lambda b: np.full(np.shape(b), val, dtype=complex)
    f = sp.lambdify(_b, expr, "numpy")
    return lambda b: np.asarray(f(b), dtype=complex)


@functools.lru_cache(maxsize=None)
def _cg_value(args) -> complex:
    return complex(CG(*map(rat, args)).doit())


class Interpreter:
    """Evaluates expressions of one model at one set of numerical values.

    values: symbol -> number/array; indexed: (base label, (Fraction | str, ...)) -> number
    """

    def __init__(self, values, definitions=None, amplitudes=None, indexed=None):
        self.values = {k: fix(v) for k, v in values.items()}
        self.definitions = dict(definitions or {})  # symbols defined by expressions
        self.amplitudes = dict(amplitudes or {})
        self.indexed = dict(indexed or {})
        self._defcache = {}
        self._ampcache = {}
        self._static = {}
        self._doit = {}
        self._free = {}
        self.amp_index = {
            self._index_key(k, {}): k for k in self.amplitudes if isinstance(k, sp.Indexed)
        }
        self.used = set()

    # -- exact evaluation of (half-)integer arguments
    def exact(self, e, env) -> Fraction:
        if isinstance(e, sp.Rational):
            return frac(e)
        if isinstance(e, sp.Float):
            return Fraction(str(sp.nsimplify(e, rational=True)))
        if e in env:
            return env[e]
        if isinstance(e, sp.Add):
            return sum((self.exact(a, env) for a in e.args), Fraction(0))
        if isinstance(e, sp.Mul):
            out = Fraction(1)
            for a in e.args:
                out *= self.exact(a, env)
            return out
        raise Unbound(e)

    def _index_item(self, a, env):
        if isinstance(a, sp.Symbol) and a not in env:
            return a.name
        if isinstance(a, (sp.Rational, sp.Add, sp.Mul, sp.Symbol, sp.Float)):
            return self.exact(a, env)
        return str(a)

    def _index_key(self, e, env):
        return (str(e.base.label), tuple(self._index_item(a, env) for a in e.indices))

    def __call__(self, e, env=None):
        return self.ev(sp.sympify(e), env or {})

    def _free_of(self, e):
        f = self._free.get(e)
        if f is None:
            f = self._free[e] = frozenset(e.free_symbols) | frozenset(
                s for s in e.atoms(sp.Symbol)
            )
        return f

    def ev(self, e, env):
        if e in env:
            return complex(float(env[e]))
        if isinstance(e, sp.Number) or isinstance(e, sp.NumberSymbol):
            return complex(e)
        if e is sp.I:
            return 1j
        if e in (sp.nan, sp.zoo, sp.oo):
            return complex("nan")
        if isinstance(e, sp.Indexed):
            return self.ev_indexed(e, env)
        if isinstance(e, sp.Symbol):
            return self.ev_symbol(e)
        static = env and self._free_of(e).isdisjoint(env)
        if static or not env:
            v = self._static.get(e)
            if v is None:
                v = self._static[e] = self._ev(e, {})
            return v
        return self._ev(e, env)

    def _ev(self, e, env):
        if isinstance(e, sp.Mul):
            # Kronecker deltas and exact zeros first, as SymPy's Mul would collapse
            vals = 1.0 + 0j
            rest = []
            for a in e.args:
                if isinstance(a, sp.KroneckerDelta):
                    if self.exact(a.args[0] - a.args[1], env) != 0:
                        return 0j
                else:
                    rest.append(a)
            for a in rest:
                if isinstance(a, CG):
                    v = self.ev(a, env)
                    if v == 0:
                        return 0j
            for a in rest:
                vals = vals * self.ev(a, env)
            return vals
        if isinstance(e, sp.Add):
            out = 0j
            for a in e.args:
                out = out + self.ev(a, env)
            return out
        if isinstance(e, sp.Pow):
            return self.ev_pow(e, env)
        if isinstance(e, sp.Abs):
            return np.abs(self.ev(e.args[0], env)) + 0j
        if isinstance(e, sp.exp):
            return np.exp(self.ev(e.args[0], env))
        if isinstance(e, sp.acos):
            return self.ev_acos(self.ev(e.args[0], env))
        if isinstance(e, (sp.cos, sp.sin)):
            f = np.cos if isinstance(e, sp.cos) else np.sin
            return f(self.ev(e.args[0], env))
        if isinstance(e, sp.conjugate):
            return np.conj(self.ev(e.args[0], env))
        if isinstance(e, (sp.re, sp.im)):
            v = np.asarray(self.ev(e.args[0], env))
            return (v.real if isinstance(e, sp.re) else v.imag) + 0j
        if isinstance(e, ComplexSqrt):
            return np.sqrt(fix(self.ev(e.args[0], env)))
        if isinstance(e, sp.log):
            return np.log(fix(self.ev(e.args[0], env)))
        if isinstance(e, sp.KroneckerDelta):
            return complex(self.exact(e.args[0] - e.args[1], env) == 0)
        if isinstance(e, WignerD):
            j, m, mp, a, b, g = e.args
            if a != 0 or g != 0:
                raise Unbound(e)
            f = _wigner_func(*(self.exact(x, env) for x in (j, m, mp)))
            return f(np.real(self.ev(b, env)))
        if isinstance(e, CG):
            return _cg_value(tuple(self.exact(x, env) for x in e.args))
        if isinstance(e, PoolSum):
            syms = [s for s, _ in e.indices]
            pools = [[frac(v) for v in vals] for _, vals in e.indices]
            out = 0j
            for combi in itertools.product(*pools):
                out = out + self.ev(e.expression, {**env, **dict(zip(syms, combi))})
            return out
        # unevaluated classes (FormFactor, RelativisticBreitWigner, Kallen, ...)
        sub = self._doit.get(e)
        if sub is None:
            sub = e.doit(deep=False)
            if sub == e:
                sub = e.doit()
            if sub == e:
                raise Unbound(e)
            self._doit[e] = sub
        return self.ev(sub, env)

    @staticmethod
    def ev_acos(x):
        x = fix(x)
        real = x.real
        tol = 1e-9
        inside = (x.imag == 0) & (np.abs(real) <= 1 + tol)
        clipped = np.clip(real, -1, 1)
        with np.errstate(all="ignore"):
            return np.where(inside, np.arccos(clipped) + 0j, np.arccos(x))

    def ev_pow(self, e, env):
        b, x = e.args
        try:
            ex = self.exact(x, env)
        except Unbound:
            return np.exp(self.ev(x, env) * np.log(fix(self.ev(b, env))))
        base = self.ev(b, env)
        if ex.denominator == 1:
            n = int(ex)
            if b == -1:
                return complex((-1) ** (n % 2))
            return base ** n if n >= 0 else 1 / base ** (-n)
        base = fix(base)
        if ex == Fraction(1, 2):
            return np.sqrt(base)
        if ex == Fraction(-1, 2):
            return 1 / np.sqrt(base)
        return np.power(base, float(ex))

    def ev_symbol(self, e):
        if e in self.values:
            self.used.add(e)
            return self.values[e]
        if e in self.definitions:
            if e not in self._defcache:
                self._defcache[e] = self.ev(self.definitions[e], {})
            return self._defcache[e]
        raise Unbound(e)

    def ev_indexed(self, e, env):
        key = self._index_key(e, env)
        if key in self.amp_index:
            if key not in self._ampcache:
                self._ampcache[key] = self.ev(self.amplitudes[self.amp_index[key]], {})
            return self._ampcache[key]
        if key in self.indexed:
            self.used.add(key)
            return self.indexed[key]
        raise Unbound(e, key)


def indexed_key(e: sp.Indexed):
    return (
        str(e.base.label),
        tuple(
            frac(a) if isinstance(a, sp.Rational) else (a.name if isinstance(a, sp.Symbol) else str(a))
            for a in e.indices
        ),
    )


def evaluate_model(model, sigmas, parameters=None):
    """Intensity of an AmplitudeModel at arrays (sigma1, sigma2, sigma3).

    parameters: overrides, keyed by symbol / Indexed as in ``parameter_defaults``.
    Returns (intensity, interpreter).
    """
    pars = dict(model.parameter_defaults)
    if parameters:
        pars.update(parameters)
    values, indexed = {}, {}
    for k, v in pars.items():
        if isinstance(k, sp.Indexed):
            indexed[indexed_key(k)] = complex(v)
        else:
            values[k] = v
    for i, s in enumerate(sigmas, 1):
        values[sp.Symbol(f"sigma{i}", nonnegative=True)] = s
    it = Interpreter(values, model.variables, model.amplitudes, indexed)
    with np.errstate(all="ignore"):
        return it(model.intensity), it
