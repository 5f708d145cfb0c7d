"""P21: multiplying defined expressions is pure and keeps all definitions."""
import sympy as sp

from ampform_dpd import DefinedExpression
from mc.core import Fail

ASSUMPTIONS = ["the defined expression is the left operand (there is no right multiplication)"]
a, b, c, d = sp.symbols("a b c d")
x, y, z, w = sp.symbols("x y z w")

# name -> (kind, expression, definitions)
OPERANDS = {
    "D0": ("defined", sp.S.One, {}),
    "D1": ("defined", a * x + 1, {a: 1.5}),
    "D2": ("defined", y**2 / b, {a: 2.5, b: 3 + 1j}),
    "D1 pair": ("pair", z - b, {b: 4.5, c: 0.0}),
    "list": ("list", a + c, {c: 6.5}),
    "empty pair": ("pair", w, {}),
    "pair of defined": ("pair", sp.S.One, {d: -1.0, a: 0.5}),
    "symbol": ("factor", w, {}),
    "int": ("factor", sp.Integer(2), {}),
    "one": ("factor", sp.Integer(1), {}),
    "symbolic one": ("factor", sp.S.One, {}),
    "zero": ("factor", sp.Integer(0), {}),
    "neutral pair": ("pair", sp.S.One, {}),
    "constant": ("defined", sp.S.One, {a: 7.5, c: 8.5}),
    "float": ("factor", sp.Float(0.25), {}),
    "expr": ("factor", sp.exp(sp.I * a), {}),
}
PYTHON_FACTOR = {"int": 2, "one": 1, "zero": 0, "float": 0.25}


def build(name):
    kind, expr, definitions = OPERANDS[name]
    if kind == "defined":
        return DefinedExpression() if name == "D0" else DefinedExpression(expr, dict(definitions))
    if kind == "pair":
        return (expr, dict(definitions))
    if kind == "list":
        return [expr, dict(definitions)]
    return PYTHON_FACTOR.get(name, expr)


def same_expression(got, want):
    if got == want:
        return True
    values = {s: sp.Rational(3 + 7 * i, 5) for i, s in enumerate((a, b, c, d, x, y, z, w))}
    return abs(complex(sp.N((got - want).subs(values)))) < 1e-12 and got.free_symbols == want.free_symbols


def definitions_of(obj):
    return obj.parameters if isinstance(obj, DefinedExpression) else obj[1]


def execute(ops):
    names = list(OPERANDS)
    real = {n: build(n) for n in names}
    model = {n: [OPERANDS[n][1], dict(OPERANDS[n][2])] for n in names}
    for step, op in enumerate(ops):
        if op[0] == "mul":
            _, new, left, right = op
            real[new] = real[left] * real[right]
            model[new] = [model[left][0] * model[right][0], {**model[left][1], **model[right][1]}]
        else:
            _, target, kind = op
            definitions = definitions_of(real[target])
            if kind == "overwrite":
                for k in list(definitions):
                    definitions[k] = 100.0 + step
                for k in model[target][1]:
                    model[target][1][k] = 100.0 + step
            elif kind == "add":
                definitions[d] = 200.0 + step
                model[target][1][d] = 200.0 + step
            else:
                definitions.clear()
                model[target][1].clear()
        for n, (expr, definitions) in model.items():
            obj = real[n]
            if OPERANDS.get(n, ("defined",))[0] == "factor":
                continue
            if isinstance(obj, DefinedExpression):
                got_expr, got_def = obj.expression, obj.parameters
            elif n in OPERANDS:
                got_expr, got_def = obj
            else:
                return [Fail(f"{ops[: step + 1]}: product is a {type(obj).__name__}")]
            if not same_expression(sp.sympify(got_expr), expr):
                return [Fail(f"{ops[: step + 1]}: expression of {n} is {got_expr} instead of {expr}")]
            if dict(got_def) != definitions:
                return [Fail(f"{ops[: step + 1]}: definitions of {n} are {got_def} instead of {definitions}")]
    return [], len(ops)


def run(check):
    T = check.thorough

    def history(ch, depth, lefts, rights, mutations):
        ops, live, touchable = [], list(lefts), [*lefts]
        touchable += [n for n in rights if OPERANDS[n][0] in ("pair", "list")]
        for step in range(depth):
            last = step == depth - 1
            options = [("mul", f"R{step}", left, right) for left in live for right in (*live, *rights)]
            if ops:
                options += [("mutate", t, m) for t in dict.fromkeys(touchable) for m in mutations]
            op = ch.choose(f"op{step}", options)
            if op[0] == "mul":
                live.append(op[1])
                touchable.append(op[1])
            ops.append(op)
        return ops

    every = [n for n, o in OPERANDS.items() if o[0] != "defined" or n == "constant"]
    check.explore(
        "two operations, all kinds of operands",
        lambda ch: history(ch, 2, ["D0", "D1", "D2"], every, ["overwrite", "add", "clear"]),
        execute,
    )
    check.explore(
        "three operations",
        lambda ch: history(ch, 3, ["D1", "D2"] if not T else ["D0", "D1", "D2"], ["D1 pair", "expr", "one"], ["overwrite", "add"]),
        execute,
    )
    check.explore(
        "four operations",
        lambda ch: history(ch, 4 if not T else 5, ["D1"] if not T else ["D2"], ["list"], ["add"] if T else ["overwrite", "add"]),
        execute,
    )
