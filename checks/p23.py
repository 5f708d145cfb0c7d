"""P23: formulation is pure: same inputs, same model, in any history or process."""
import copy
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import warnings
from fractions import Fraction as F

import sympy as sp

import ampform_dpd as dpd
from ampform_dpd.dynamics.builder import BreitWignerBuilder
from ampform_dpd.io.serialization.amplitude import formulate as formulate_serialized
from mc import build, kin, serial
from mc.core import Fail, enumerate_tree, fork_call

ASSUMPTIONS = [
    "two models are the same if their expressions are structurally equal and their mappings are equal up to order",
    "fresh processes run with three other string-hash seeds",
]
H = F(1, 2)
SPECS = {
    "half-integer": dict(
        spins=(H, H, F(0), F(0)), masses=kin.MASSES["distinct"], mkey="distinct",
        chains=[
            dict(name="QA", k=1, J=F(1), mass=1.4, width=0.1, prod=(0, H), dec=(1, F(0))),
            dict(name="QB", k=2, J=H, mass=1.5, width=0.2, prod=(0, H), dec=(0, H)),
            dict(name="QC", k=2, J=F(3, 2), mass=1.6, width=0.3, prod=(1, F(3, 2)), dec=(1, H)),
        ],
    ),
    "integer": dict(  # same names and labels as above: caches must not mix them up
        spins=(F(1), F(0), F(0), F(1)), masses=kin.MASSES["heavy-first"], mkey="heavy-first",
        chains=[
            dict(name="QA", k=1, J=F(1), mass=1.3, width=0.15, prod=(1, F(1)), dec=(0, F(1))),
            dict(name="QB", k=3, J=F(0), mass=1.2, width=0.25, prod=(0, F(1)), dec=(0, F(0))),
        ],
    ),
}


class NamedBuilder:
    """Always returns the same object: the builder must not change it."""

    def __init__(self):
        self.result = dpd.DefinedExpression(sp.Symbol("dyn_x"), {sp.Symbol("dyn_x"): 1.25})

    def __call__(self, chain):
        return self.result


class Refusing:
    def __call__(self, chain):
        raise ArithmeticError("no dynamics today")


def dynamics(kind):
    if kind == "full":
        return BreitWignerBuilder(True, True, True)
    if kind == "simple":
        return BreitWignerBuilder(False, False, False)
    if kind == "shared":
        return NamedBuilder()
    raise NotImplementedError(kind)


# ------------------------------------------------------------------------------- digests
def canon(expr, memo):
    if isinstance(expr, sp.Basic):
        out = memo.get(expr)
        if out is None:
            if not expr.args:
                out = sp.srepr(expr)
            else:
                extra = getattr(expr, "_non_sympy_args", "")
                out = f"{type(expr).__name__}{extra}({','.join(canon(a, memo) for a in expr.args)})"
            out = out if len(out) < 80 else hashlib.sha256(out.encode()).hexdigest()
            memo[expr] = out
        return out
    if isinstance(expr, (tuple, list)):
        return "(" + ",".join(canon(a, memo) for a in expr) + ")"
    return f"{type(expr).__name__}:{expr!r}"


def digest(model):
    memo = {}
    out = {"decay": repr(model.decay), "intensity": canon(model.intensity, memo)}
    for field in ("amplitudes", "variables", "parameter_defaults", "masses", "invariants"):
        items = sorted((canon(k, memo), canon(v, memo)) for k, v in getattr(model, field).items())
        out[field] = items
    return {k: hashlib.sha256(repr(v).encode()).hexdigest()[:16] for k, v in out.items()}


def difference(got, want):
    return sorted(k for k in want if got.get(k) != want[k])


# ---------------------------------------------------------------------- fresh formulation
SERIAL = {}


def serial_definition(name):
    if not SERIAL:
        base = dict(
            spins=(H, H, F(0), F(0)), masses=kin.MASSES["distinct"], ref=1,
            chains=[
                dict(name="RA", k=1, J=F(1), prod=("helicity", (F(0), H), None), decv=("helicity", (F(0), F(0)), None),
                     weight=0.5 + 1.5j, propagator="bw"),
                dict(name="RB", k=3, J=H, prod=("parity", (H, F(0)), "+"), decv=("parity", (H, F(0)), "-"),
                     weight=2 - 0.25j, propagator="bw2", ff=("blatt", "blatt2")),
            ],
        )
        SERIAL["one"] = base
        SERIAL["two"] = dict(copy.deepcopy(base), masses=kin.MASSES["heavy-first"])
        SERIAL["two"]["chains"][0]["weight"] = 3 + 1j
    spec = SERIAL[name]
    m = spec["masses"]
    functions = {
        "bw": {"type": "BreitWigner", "mass": 1.4, "width": 0.1, "ma": m[2], "mb": m[3], "l": 1, "d": 1.5},
        "bw2": {"type": "BreitWigner", "mass": 1.5, "width": 0.2, "ma": m[1], "mb": m[2], "l": 0, "d": 0},
        "blatt": {"type": "BlattWeisskopf", "l": 1, "radius": 5.0},
        "blatt2": {"type": "BlattWeisskopf", "l": 1, "radius": 1.5},
    }
    return serial.definition(dict(spec, functions=[dict(f, name=n) for n, f in functions.items()]))


def make_builder(config):
    _, name, helicity, every, dyn, _ = config
    decay = build.make_decay(SPECS[name])
    builder = dpd.DalitzPlotDecompositionBuilder(decay, min_ls=tuple(helicity), all_subsystems=every)
    for res, kind in dyn:
        if kind != "none":
            builder.dynamics_choices.register_builder(res, dynamics(kind))
    return builder


def mapped(name):
    return rf"\mathrm{{{name}}}_*"


def serial_options(args):
    cleanup, latex, extra = args
    kwargs = {"cleanup_summations": cleanup}
    if latex:
        kwargs["to_latex"] = mapped
    if extra:
        kwargs["additional_builders"] = {"BreitWigner": constant_propagator}
    return kwargs


def constant_propagator(propagator, resonance, model, *args, **kwargs):
    return dpd.DefinedExpression(sp.Symbol("P0"), {sp.Symbol("P0"): 1.5})


def formulate_fresh(config):
    """Model of a configuration, from scratch."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if config[0] == "serial":
            return digest(formulate_serialized(serial_definition(config[1]), **serial_options(config[2])))
        ref, cleanup, coefficients = config[5]
        return digest(make_builder(config).formulate(ref, cleanup_summations=cleanup, use_coefficients=coefficients))


def worker(path):
    """Entry point of a fresh process: digests of all configurations, each in its own fork."""
    from multiprocessing import get_context

    configs = json.loads(open(path).read())
    configs = [totuple(c) for c in configs]
    with get_context("fork").Pool(3, maxtasksperchild=1) as pool:
        out = pool.map(formulate_fresh_safe, configs, chunksize=1)
    print("DIGESTS" + json.dumps(out))


def formulate_fresh_safe(config):
    try:
        return formulate_fresh(config)
    except Exception as e:
        return {"error": f"{type(e).__name__}: {e}"}


def totuple(x):
    return tuple(map(totuple, x)) if isinstance(x, list) else x


# ------------------------------------------------------------------------------ histories
FORMULATE = [(None, False, False), (2, False, False), (1, True, False), (1, False, True)]
OPS = (
    [("formulate", f) for f in FORMULATE]
    + [("helicity", (False, True)), ("helicity", (False, False)), ("all", True)]
    + [("dynamics", "QA", "full"), ("dynamics", "QB", "simple"), ("dynamics", "QB", "shared")]
    + [("spoil last model",), ("spoil dynamics",), ("subsystem amplitude",), ("aligned amplitude",), ("other decay",),
       ("full expression",), ("failing formulate",)]
)


def configs_along(name, ops):
    """Configuration of every formulate call in a history (model of the builder)."""
    helicity, every, dyn = (True, True), False, {"QA": "none", "QB": "none"}
    out = []
    for op in ops:
        if op[0] == "formulate":
            out.append(("builder", name, helicity, every, tuple(sorted(dyn.items())), op[1]))
        elif op[0] == "helicity":
            helicity = op[1]
        elif op[0] == "all":
            every = op[1]
        elif op[0] == "dynamics":
            dyn[op[1]] = op[2]
        elif op[0] == "failing formulate":
            dyn["QA"] = "simple"
    return out


def other_name(name):
    return {"half-integer": "integer", "integer": "half-integer"}[name]


OTHER_CONFIG = {n: ("builder", n, (False, False), True, (("QA", "full"), ("QB", "none")), (2, True, False)) for n in SPECS}
SERIAL_OPS = [("formulate", (d, (c, lt, x))) for d in ("one", "two") for c, lt, x in
              [(False, False, False), (True, False, False), (False, True, False), (False, False, True)]]
SERIAL_OPS += [("spoil last model",)]


def spoil(model):
    for field in ("amplitudes", "variables", "parameter_defaults", "masses", "invariants"):
        d = getattr(model, field)
        keys = list(d)
        for k in keys[: len(keys) // 2]:
            del d[k]
        for k in keys[len(keys) // 2:]:
            d[k] = -123.0
        d[sp.Symbol("spoiled")] = 5.0


def run(check):
    T = check.thorough

    def body(ch):
        name = ch.choose("decay", list(SPECS))
        n = 2 if not T else 3
        ops = [ch.choose(f"op{i}", OPS) for i in range(n)]
        return name, [*ops, ("formulate", ch.choose("formulate", FORMULATE))]

    LONG = [("formulate", FORMULATE[0]), ("spoil last model",), ("spoil dynamics",), ("other decay",), ("helicity", (False, False)),
            ("dynamics", "QA", "full"), ("full expression",)]

    def body_long(ch):
        name = ch.choose("decay", list(SPECS) if T else ["half-integer"])
        ops = [("formulate", FORMULATE[2])]
        ops += [ch.choose(f"op{i}", LONG) for i in range(3 if not T else 4)]
        return name, [*ops, ("formulate", FORMULATE[0])]

    def body_serial(ch):
        return [ch.choose(f"op{i}", SERIAL_OPS) for i in range(3 if not T else 4)]

    # --- the specification: every needed configuration in fresh processes
    needed = set(OTHER_CONFIG.values())
    for b in (body, body_long):
        gen, _ = enumerate_tree(b)
        for _, (name, ops) in gen:
            needed.update(configs_along(name, ops))
    serial_configs = {("serial", *args) for op, args in [o for o in SERIAL_OPS if len(o) == 2]}
    configs = sorted(needed | serial_configs, key=repr)
    d = tempfile.mkdtemp(dir=str(check.scratch))
    path = os.path.join(d, "configs.json")
    with open(path, "w") as f:
        json.dump(configs, f)
    processes = []
    for seed in ("1", "2", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        processes.append((seed, subprocess.Popen(
            [sys.executable, "-c", "import sys; from checks.p23 import worker; worker(sys.argv[1])", path],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    tables = {}
    for seed, proc in processes:
        out, err = proc.communicate(timeout=600)
        line = [x for x in out.splitlines() if x.startswith("DIGESTS")]
        if proc.returncode or not line:
            raise RuntimeError(f"fresh process with hash seed {seed} failed:\n{err[-2000:]}")
        tables[seed] = dict(zip(configs, json.loads(line[0][7:])))
    expected = tables["1"]

    def body_process(ch):
        return ch.choose("configuration", configs)

    def exec_process(config):
        fails = []
        mine = fork_call(formulate_fresh_safe, config)
        for seed, table in tables.items():
            if "error" in table[config]:
                fails.append(Fail(f"{config}: {table[config]['error']}"))
            elif table[config] != mine:
                fails.append(Fail(f"{config}: {difference(mine, table[config])} differ between processes "
                                  f"(hash seeds 0 and {seed})"))
        return fails, 4

    check.explore("fresh processes", body_process, exec_process)

    # --- histories in one process
    def execute(cfg):
        name, ops = cfg
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return run_history(name, ops)

    def run_history(name, ops):
        pristine = build.make_decay(SPECS[name])
        decay = build.make_decay(SPECS[name])
        builder = dpd.DalitzPlotDecompositionBuilder(decay)
        models = []  # (model, digest) of unspoiled models
        expectation = iter(configs_along(name, ops))
        registered = {}
        for step, op in enumerate(ops):
            where = f"{name}: step {step} {op} of {ops}"
            if op[0] == "formulate":
                ref, cleanup, coefficients = op[1]
                model = builder.formulate(ref, cleanup_summations=cleanup, use_coefficients=coefficients)
                want = expected[next(expectation)]
                got = digest(model)
                if got != want:
                    return [Fail(f"{where}: {difference(got, want)} differ from a fresh builder in a fresh process")]
                models.append([model, got])
            elif op[0] == "helicity":
                builder.use_production_helicity_couplings, builder.use_decay_helicity_couplings = op[1]
            elif op[0] == "all":
                builder.all_subsystems = op[1]
            elif op[0] == "dynamics":
                f = dynamics(op[2])
                builder.dynamics_choices.register_builder(op[1], f)
                registered[op[1]] = f
            elif op[0] == "failing formulate":
                builder.dynamics_choices.register_builder("QA", Refusing())
                try:
                    builder.formulate()
                    return [Fail(f"{where}: exception of a lineshape is swallowed")]
                except ArithmeticError:
                    pass
                f = dynamics("simple")
                builder.dynamics_choices.register_builder("QA", f)
                registered["QA"] = f
            elif op[0] == "spoil last model":
                if models:
                    spoil(models.pop()[0])
            elif op[0] == "spoil dynamics":
                for chain in decay.chains:
                    f = builder.dynamics_choices.get_builder(chain)
                    if not isinstance(f, NamedBuilder):
                        f(chain).parameters[sp.Symbol("spoiled")] = 5.0
            elif op[0] == "subsystem amplitude":
                spoil(builder.formulate_subsystem_amplitude(*[s.spin for _, s in sorted(decay.states.items())], 1))
            elif op[0] == "aligned amplitude":
                expr, angles = builder.formulate_aligned_amplitude(*sp.symbols("lambda:4", rational=True), 2)
                angles.clear()
            elif op[0] == "other decay":
                got = formulate_fresh(OTHER_CONFIG[other_name(name)])
                if got != expected[OTHER_CONFIG[other_name(name)]]:
                    return [Fail(f"{where}: model of another decay differs from the one in a fresh process")]
            elif op[0] == "full expression" and models:
                models[-1][0].full_expression
            for n, (model, was) in enumerate(models):
                now = digest(model)
                if now != was:
                    return [Fail(f"{where}: {difference(now, was)} of model {n} returned earlier changed")]
            if decay != pristine or list(decay.states) != list(pristine.states) or builder.decay is not decay:
                return [Fail(f"{where}: the decay changed")]
            for res, f in registered.items():
                if builder.dynamics_choices.get_builder(res) is not f:
                    return [Fail(f"{where}: the registered lineshape of {res} changed")]
                if isinstance(f, NamedBuilder) and (f.result.parameters != {sp.Symbol("dyn_x"): 1.25}
                                                    or f.result.expression != sp.Symbol("dyn_x")):
                    return [Fail(f"{where}: the lineshape returned by a registered builder was modified")]
        return [], len(ops)

    check.explore("histories of one builder", body, execute)
    check.explore("longer histories", body_long, execute)

    # --- histories of serialized models
    def exec_serial(ops):
        models, given = [], {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for step, op in enumerate(ops):
                where = f"step {step} {op} of {ops}"
                if op[0] == "spoil last model":
                    if models:
                        spoil(models.pop()[0])
                else:
                    name, args = op[1]
                    definition = given.setdefault(name, serial_definition(name))
                    model = formulate_serialized(definition, **serial_options(args))
                    got = digest(model)
                    want = expected["serial", name, args]
                    if got != want:
                        return [Fail(f"{where}: {difference(got, want)} differ from a fresh process")]
                    models.append([model, got])
                for n, (model, was) in enumerate(models):
                    now = digest(model)
                    if now != was:
                        return [Fail(f"{where}: {difference(now, was)} of model {n} returned earlier changed")]
                for name, definition in given.items():
                    if definition != serial_definition(name):
                        return [Fail(f"{where}: the definition was modified")]
        return [], len(ops)

    check.explore("histories of serialized models", body_serial, exec_serial)
