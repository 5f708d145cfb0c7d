"""P20: cached lambdification is indistinguishable from a fresh one."""
import functools
import os
import shutil
import tempfile
import warnings

import numpy as np
import sympy as sp
from ampform.dynamics.phasespace import EqualMassPhaseSpaceFactor, PhaseSpaceFactor

import ampform_dpd.io.cached as cached
import ampform_dpd.io as dpd_io
from ampform_dpd.dynamics import BreitWignerMinL, RelativisticBreitWigner
from mc.core import Fail, fork_call
from tensorwaves.function import ParametrizedBackendFunction, PositionalArgumentFunction
from tensorwaves.function.sympy import create_function, create_parametrized_function

ASSUMPTIONS = [
    "backends numpy and jax (numba and tensorflow are not installed)",
    "a process restart is a fork of a process that never called lambdify: empty memory, same cache directory",
    "expressions of one history differ structurally (SymPy equality identifies expressions)",
]
a, b, x, y = sp.symbols("a b x y")
xr = sp.Symbol("x", real=True)


@functools.cache
def expression(name):
    if name == "A":
        return a * x**2 + b * y
    if name == "B":
        return a * x**2 - b * y
    if name == "root":
        return sp.sqrt(a - 3) * x + b * y
    if name == "assumption":
        return a * sp.sqrt(x**2 + b) * y
    if name == "assumption'":
        return a * sp.sqrt(xr**2 + b) * y + 1
    if name == "inverse":
        return a / x + b * y
    if name == "inverse square":  # same hash as "inverse", because hash(-1) == hash(-2)
        return a / x**2 + b * y
    args = (x**2 + 4, 2 + a, sp.Rational(1, 10) * b, sp.Rational(1, 2), sp.Rational(1, 2), 1, y)
    if name == "BW":
        return RelativisticBreitWigner(*args, phsp_factor=PhaseSpaceFactor).doit()
    if name == "BW'":
        return RelativisticBreitWigner(*args, phsp_factor=EqualMassPhaseSpaceFactor).doit()
    if name == "minL":
        return BreitWignerMinL(x**2 + 4, 5, 1, 2 + a, b, .5, .5, 1, 2, y, y).doit()
    raise NotImplementedError(name)


PARAMETERS = {
    "none": None,
    "P1": {a: 2.0, b: 3.0},
    "P2": {a: 2.0, b: 5.0},
    "P1 reordered": {b: 3.0, a: 2.0},
    "only a": {a: 2.0},
    "only b": {b: 2.0},
    "int": {a: 2, b: 3},
    "complex": {a: 2 + 0j, b: 3 + 0j},
    "swapped": {a: 3.0, b: 2.0},
    "empty": {},
    "everything": {a: 2.0, b: 3.0, x: 1.25, y: 0.5},
}
SPECIAL = {  # values that an implementation could treat differently
    f"a={u}, b={v}": {a: u, b: v} for u in (0.0, 1.0, -1.0, 0, True) for v in (0.0, 3.0)
}
PARAMETERS.update(SPECIAL)
DATA = {
    # not representable in single precision, apart from 1
    "x": np.array([1.0, 1.3, 1.55, -1.7]),
    "y": np.array([0.45, 2.05, -1.1, 0.3]),
    "a": np.array([7.1, 1.0, 4.6, 2.6]),
    "b": np.array([11.1, 0.55, 1.45, 2.2]),
}
UPDATES = [{"a": 10.0}, {"b": 0.25, "a": -0.5}]


@functools.cache
def plain(name):
    expr = expression(name)
    symbols = sorted(expr.free_symbols, key=str)
    return symbols, sp.lambdify(symbols, expr, "numpy")


def direct(name, params):
    """Value of the expression without tensorwaves: plain SymPy/NumPy substitution."""
    values = dict(DATA)
    for s, v in (params or {}).items():
        values[str(s)] = v
    symbols, f = plain(name)
    with np.errstate(all="ignore"):
        out = np.asarray(f(*[np.asarray(values[str(s)]) for s in symbols]))
    return np.broadcast_to(out, (4,)).astype(complex)


@functools.cache
def fresh_function(name, keys, backend):
    """Uncached tensorwaves function: the specification of what lambdify returns."""
    expr = expression(name)
    if keys is None:
        return create_function(expr, backend)
    return create_parametrized_function(expr, dict.fromkeys(keys, 1.5), backend)


def fresh(name, params, backend):
    keys = None if params is None else tuple(sorted(params, key=str))
    f = fresh_function(name, keys, backend)
    if params is None:
        return f
    return ParametrizedBackendFunction(f.function, f.argument_order, {s.name: v for s, v in params.items()})


def evaluate(f):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(DATA)


def same(u, v, tol=1e-11):
    u, v = np.asarray(u), np.asarray(v)
    return u.shape == v.shape and np.allclose(u, v, rtol=tol, atol=tol, equal_nan=True)


class Handle:
    def __init__(self, op, func):
        _, self.expr, self.params, self.backend, _ = op
        self.func = func
        start = PARAMETERS[self.params]
        self.current = None if start is None else {s.name: v for s, v in start.items()}
        # before anything else could have configured the backend
        self.early = np.asarray(evaluate(func), dtype=complex)
        self.fresh = fresh(self.expr, start, self.backend)

    def update(self, new):
        self.current.update(new)
        self.fresh.update_parameters(new)

    def problems(self):
        ref = direct(self.expr, self.current)
        if self.early is not None:
            early, self.early = self.early, None
            mask = np.isfinite(ref) & np.isfinite(np.broadcast_to(early, ref.shape))
            if not same(np.broadcast_to(early, ref.shape)[mask], ref[mask], 1e-9):
                return f"first value {early} differs from the expression {ref}"
        kind = PositionalArgumentFunction if self.current is None else ParametrizedBackendFunction
        if not isinstance(self.func, kind):
            return f"returned a {type(self.func).__name__} instead of a {kind.__name__}"
        if tuple(self.func.argument_order) != tuple(self.fresh.argument_order):
            return f"argument order {self.func.argument_order} instead of {self.fresh.argument_order}"
        if self.current is not None:
            got = self.func.parameters
            if got != self.current or {k: type(v) for k, v in got.items()} != {
                k: type(v) for k, v in self.current.items()
            }:
                return f"has parameters {got} instead of {self.current}"
        got, want = evaluate(self.func), evaluate(self.fresh)
        if type(got) is not type(want) or getattr(got, "dtype", 0) != getattr(want, "dtype", 0):
            return f"result is a {type(got)}/{getattr(got, 'dtype', '')}, fresh one gives {type(want)}/{getattr(want, 'dtype', '')}"
        if not same(got, want):
            return f"value {got} differs from a fresh function {want}"
        mask = np.isfinite(np.broadcast_to(np.asarray(want), ref.shape)) & np.isfinite(ref)
        if not same(np.broadcast_to(np.asarray(got, dtype=complex), ref.shape)[mask], ref[mask], 1e-9):
            return f"value {got} differs from the expression {ref}"
        return None


def call(op):
    _, name, params, backend, style = op
    expr = expression(name)
    chosen = PARAMETERS[params]
    if style == "positional backend":
        return cached.lambdify(expr, backend)
    if style == "default backend":
        return cached.lambdify(expr) if chosen is None else cached.lambdify(expr, dict(chosen))
    if style == "alias":
        f = dpd_io.perform_cached_lambdify
    else:
        f = cached.lambdify
    if chosen is None:
        return f(expr, backend=backend)
    mapping = dict(chosen)
    func = f(expr, mapping, backend=backend)
    for k in mapping:  # what the caller does with its own dict is its own business
        mapping[k] = 99.0
    func.parameters.update({k: 98.0 for k in func.parameters})
    return func


def segment(ops, start):
    """One process life: returns problems."""
    handles = []
    for i, op in enumerate(ops):
        if op[0] == "call":
            handles.append(Handle(op, call(op)))
        elif op[0] == "update":
            h = handles[op[1]]
            h.func.update_parameters(op[2])
            h.update(op[2])
        elif op[0] == "bad update":
            try:
                handles[op[1]].func.update_parameters({"a": 77.0, "nope": 1.0})
                return f"step {start + i}: an unknown parameter was accepted"
            except ValueError:
                pass
        for n, h in enumerate(handles):
            problem = h.problems()
            if problem:
                return f"after step {start + i} {op}: function {n} ({h.expr}, {h.params}, {h.backend}) {problem}"
    return None


def run(check):
    T = check.thorough
    root = str(check.scratch)
    for name in ("A", "B", "root", "assumption", "assumption'", "BW", "BW'", "minL", "inverse", "inverse square"):
        plain(name)
        for params in PARAMETERS.values():
            fresh(name, params, "numpy")

    def execute(ops):
        d = tempfile.mkdtemp(dir=root)
        os.environ["COMPWA_CACHE_DIR"] = d
        try:
            segments, start = [[]], [0]
            for i, op in enumerate(ops):
                if op[0] == "restart":
                    segments.append([])
                    start.append(i + 1)
                else:
                    segments[-1].append(op)
            for seg, st in zip(segments, start):
                problem = fork_call(segment, seg, st)
                if problem:
                    return [Fail(f"history {ops}\n{problem}")], len(ops)
            return [], len(ops)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def histories(ch, depth, calls, updates, restarts=2):
        ops, live, used = [], [], 0
        for step in range(depth):
            options = [("call", *c) for c in calls]
            if ops and ops[-1][0] != "restart":
                options += [("update", n, u) for n, keys in live for u in updates if set(u) <= keys]
                options += [("bad update", n) for n, _ in live[-1:]]
                if used < restarts and step < depth - 1:
                    options.append(("restart",))
            op = ch.choose(f"op{step}", options)
            if op[0] == "restart":
                live, used, count = [], used + 1, 0
            if op[0] == "call":
                count = sum(1 for o in ops[max([i for i, o in enumerate(ops) if o[0] == "restart"], default=-1) + 1:] if o[0] == "call")
                if op[2] != "none":
                    live = [*live, (count, {k.name for k in PARAMETERS[op[2]]})]
            ops.append(op)
        return ops

    # --- histories with the numpy backend: two expressions, all kinds of parameter sets
    calls_np = [(e, p, "numpy", "kw") for e in ("A", "B") for p in ("none", "P1", "P2", "complex", "only a", "empty")]

    def body_np(ch):
        return histories(ch, 3, calls_np + [("A", "none", "numpy", "positional backend"), ("A", "P1 reordered", "numpy", "alias"),
                                           ("A", "int", "numpy", "kw")], UPDATES)

    check.explore("histories of three operations (numpy)", body_np, execute)

    def body_deep(ch):
        calls = [("A", p, "numpy", "kw") for p in (("P1", "P2") if not T else ("none", "P1", "P2"))]
        return histories(ch, 5, calls, UPDATES[:1], restarts=2)

    check.explore("histories of five operations (numpy)", body_deep, execute)

    # --- pairs of requests that a cache could confuse, before and after a restart
    ordinary = [p for p in PARAMETERS if p not in SPECIAL]

    def body_pairs(ch):
        e1 = ch.choose("first expression", ["A", "root", "assumption", "BW", "minL", "inverse"])
        p1 = ch.choose("first parameters", ordinary)
        other = {"A": "B", "root": "A", "assumption": "assumption'", "BW": "BW'", "minL": "BW", "inverse": "inverse square"}[e1]
        e2 = ch.choose("second expression", [e1, other])
        p2 = ch.choose("second parameters", ordinary)
        restart = ch.flag("restart")
        ops = [("call", e1, p1, "numpy", "kw")]
        ops += [("restart",)] if restart else []
        return [*ops, ("call", e2, p2, "numpy", "kw"), ("call", e1, p1, "numpy", "alias")]

    check.explore("confusable pairs (numpy)", body_pairs, execute)

    def body_special(ch):
        e = ch.choose("expression", ["A", "root", "inverse", "BW"])
        backend = ch.choose("backend", ["numpy"] if not T else ["numpy", "jax"])
        first = ch.choose("first parameters", list(SPECIAL))
        ops = [("call", e, first, backend, "kw")]
        for n in range(ch.choose("updates", [1, 2])):
            ops.append(("update", 0, ch.choose(f"update {n}", [{"a": 0.0}, {"a": 1.0, "b": 0.0}, {"a": 10.0, "b": 0.25}])))
        if ch.flag("restart"):
            ops.append(("restart",))
        second = ch.choose("second parameters", [first, "P1"])
        n = 0 if ops[-1][0] == "restart" else 1
        return [*ops, ("call", e, second, backend, "kw"), ("update", n, {"b": -2.0})]

    check.explore("parameters with special values", body_special, execute)

    # --- jax, and mixtures of backends
    def body_jax(ch):
        calls = [("A", "none", "jax", "default backend"), ("A", "P1", "jax", "kw"), ("A", "P1", "numpy", "kw"),
                 ("A", "none", "numpy", "positional backend")]
        if T:
            calls += [("A", "P2", "jax", "default backend"), ("BW", "P1", "jax", "kw"), ("A", "none", "jax", "positional backend")]
        return histories(ch, 3, calls, UPDATES[:1], restarts=1)

    check.explore("histories with jax and numpy", body_jax, execute)
