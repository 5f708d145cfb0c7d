"""P22: rendered tables and formulas show every item faithfully."""
import re
import warnings
from fractions import Fraction as F

import qrules
import sympy as sp
from ampform.sympy import PoolSum

from ampform_dpd import DefinedExpression
from ampform_dpd.adapter.qrules import load_particles
from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
from ampform_dpd.dynamics import (
    BreitWigner,
    BreitWignerMinL,
    BuggBreitWigner,
    ChannelArguments,
    FlattéSWave,
    MultichannelBreitWigner,
    RelativisticBreitWigner,
    SimpleBreitWigner,
)
from ampform_dpd.io import as_markdown_table, aslatex, mute_ampform_warnings, simplify_latex_rendering
from ampform_dpd.io.serialization.amplitude import HelicityRecoupling, LSRecoupling, ParityRecoupling
from mc.core import Fail, fork_call

ASSUMPTIONS = [
    "names and LaTeX labels contain no column separator",
    "masses and widths are shown at least to the nearest MeV",
]


def rat(x):
    return sp.Rational(F(x).numerator, F(x).denominator)


# ------------------------------------------------------------------------- reading tables
def read_table(src):
    """Independent Markdown reader: list of titles, list of rows."""
    lines = [line for line in src.splitlines() if line.strip()]
    rows = []
    for line in lines:
        line = line.strip()
        if not (line.startswith("|") and line.endswith("|")):
            raise ValueError(f"not a table row: {line!r}")
        rows.append([cell.strip() for cell in line[1:-1].split("|")])
    header, rule, *body = rows
    if not all(re.fullmatch(r":?-+:?", c) for c in rule) or len(rule) != len(header):
        raise ValueError(f"separator row {rule} does not match header {header}")
    for row in body:
        if len(row) != len(header):
            raise ValueError(f"row {row} has {len(row)} cells, header {header} has {len(header)}")
    return header, body


def column(header, *words):
    found = [i for i, title in enumerate(header) if any(w in title for w in words)]
    return found[0] if len(found) == 1 else None


def jp_ok(cell, particle):
    """The cell shows the spin and, if it has one, the parity."""
    spin, parity = F(int(particle.spin.p), int(particle.spin.q)), particle.parity
    numbers = [int(n) for n in re.findall(r"\d+", cell)]
    want = [spin.numerator] if spin.denominator == 1 else [spin.numerator, spin.denominator]
    signs = re.findall(r"[+-]", cell)
    return numbers == want and signs == ([] if parity is None else ["+" if parity > 0 else "-"])


def mev_ok(cell, value):
    return abs(float(cell.replace(",", "")) - 1e3 * value) <= 0.5 * (1 + 1e-9)


def strip(cell):
    return cell.strip().strip("`$").strip()


def check_particle_table(items, src):
    header, body = read_table(src)
    if len(body) != len(items):
        return f"{len(body)} rows for {len(items)} items"
    cols = {
        "name": column(header, "name"), "latex": column(header, "LaTeX"), "jp": column(header, "J^P"),
        "mass": column(header, "mass"), "width": column(header, "width"), "index": column(header, "index"),
    }
    if any(v is None for k, v in cols.items() if k != "index"):
        return f"missing columns in {header}"
    indexed = any(isinstance(i, State) for i in items)
    if indexed != (cols["index"] is not None):
        return f"index column: {header}"
    for row, p in zip(body, items):
        bad = []
        if strip(row[cols["name"]]) != p.name:
            bad.append("name")
        if strip(row[cols["latex"]]) != p.latex:
            bad.append("latex")
        if not jp_ok(row[cols["jp"]], p):
            bad.append("J^P")
        if not mev_ok(row[cols["mass"]], p.mass):
            bad.append("mass")
        if not mev_ok(row[cols["width"]], p.width):
            bad.append("width")
        if indexed and row[cols["index"]] != (str(p.index) if isinstance(p, State) else ""):
            bad.append("index")
        if bad:
            return f"{bad} wrong in row {row} for {p}"
    return None


def check_chain_table(chains, src):
    header, body = read_table(src)
    if len(body) != len(chains):
        return f"{len(body)} rows for {len(chains)} chains"
    cols = {
        "res": column(header, "resonance"), "jp": column(header, "J^P"), "mass": column(header, "mass"),
        "width": column(header, "width"), "dec": column(header, "dec"), "prod": column(header, "prod"),
    }
    if any(cols[k] is None for k in ("res", "jp", "mass", "width")):
        return f"missing columns in {header}"
    if (cols["dec"] is not None) != any(c.outgoing_ls is not None for c in chains):
        return f"decay LS column: {header}"
    if (cols["prod"] is not None) != any(c.incoming_ls is not None for c in chains):
        return f"production LS column: {header}"
    for row, c in zip(body, chains):
        bad = []
        node = c.decay_node
        if not ordered(row[cols["res"]], [node.parent.latex, node.child1.latex, node.child2.latex]):
            bad.append("resonance")
        if not jp_ok(row[cols["jp"]], node.parent):
            bad.append("J^P")
        if not mev_ok(row[cols["mass"]], node.parent.mass):
            bad.append("mass")
        if not mev_ok(row[cols["width"]], node.parent.width):
            bad.append("width")
        for key, ls in (("dec", node.interaction), ("prod", c.decay.interaction)):
            if cols[key] is None:
                continue
            if row[cols[key]].strip("$ ") != ("" if ls is None else str(ls.L)):
                bad.append(f"{key} L")
        if bad:
            return f"{bad} wrong in row {row} for {c}"
    return None


def ordered(text, pieces):
    """All pieces occur in this order, without overlap, and the text has no other names."""
    pos = 0
    for piece in pieces:
        pos = text.find(piece, pos)
        if pos < 0:
            return False
        pos += len(piece)
    return True


def unbalanced(text):
    """LaTeX groups, delimiters and environments close in the order in which they were opened."""
    stack = []
    for m in re.finditer(r"\\begin\{(\w+)\}|\\end\{(\w+)\}|\\left(?![a-z])|\\right(?![a-z])|\\[{}]|[{}]", text):
        token = m.group(0)
        if token in ("\\{", "\\}"):
            continue
        if m.group(1):
            stack.append(m.group(1))
        elif token in ("{", "\\left"):
            stack.append(token)
        else:
            want = m.group(2) or {"}": "{", "\\right": "\\left"}[token]
            if not stack or stack.pop() != want:
                return f"{token} without beginning in {text!r}"
    return f"{stack} is not closed in {text!r}" if stack else None


# ------------------------------------------------------------------------------ rendering
PARTICLES = {
    "half-": Particle("Res(1520)", r"\Lambda(1520)", rat(F(3, 2)), -1, 1.5195, 0.0156),
    "int+": Particle("Q(2)+", r"Q_2^+", 2, +1, 0.7754, 0.14949),
    "noparity": Particle("X", r"X^x", rat(F(5, 2)), None, 10.5794, 0.0205),
    "zero": Particle("g", r"\gamma", 1, -1, 0.0, 0.0),
    "state0": State("Lc", r"\Lambda_c^+", rat(F(1, 2)), +1, 2.28646, 3.3e-12, index=0),
    "state1": State("p", r"p", rat(F(1, 2)), None, 0.938272, 0.0, index=1),
    "state3": State("K-", r"K^-", 0, -1, 0.49368, 0.0004999, index=3),
}
STATES = {
    0: PARTICLES["state0"],
    1: PARTICLES["state1"],
    2: State("pi+", r"\pi^+", 0, -1, 0.13957, 0.0, index=2),
    3: PARTICLES["state3"],
}
LS = {"prod": {"none": None, "0": (0, rat(F(1, 2))), "2": (2, rat(F(3, 2)))},
      "dec": {"none": None, "1": (1, rat(F(1, 2))), "10": (10, 0)}}


def make_chain(key):
    res, k, flip, prod, dec = key
    i, j = {1: (2, 3), 2: (3, 1), 3: (1, 2)}[k]
    node = IsobarNode(PARTICLES[res], STATES[i], STATES[j], interaction=LS["dec"][dec])
    children = (STATES[k], node) if flip else (node, STATES[k])
    return ThreeBodyDecayChain(IsobarNode(STATES[0], *children, interaction=LS["prod"][prod]))


def run(check):
    T = check.thorough

    # ---------------------------------------------------------------- tables of particles
    def body_particles(ch):
        n = ch.choose("length", [1, 2, 3] if not T else [1, 2, 3, 4])
        kind = ch.choose("sequence type", [list, tuple])
        return kind, [ch.choose(f"item{i}", list(PARTICLES)) for i in range(n)]

    def exec_particles(cfg):
        kind, names = cfg
        items = kind(PARTICLES[n] for n in names)
        problem = check_particle_table(list(items), as_markdown_table(items))
        return [Fail(f"{names}: {problem}")] if problem else []

    check.explore("particle tables", body_particles, exec_particles)

    # ------------------------------------------------------------------- tables of chains
    keys = [(r, k, f, p, d) for r, k, f in (("half-", 3, False), ("int+", 1, True), ("noparity", 2, False))
            for p in LS["prod"] for d in LS["dec"]]
    small = [k for n, k in enumerate(keys) if k[3] != "2" and k[4] != "10"]

    def body_chains(ch):
        n = ch.choose("length", [1, 2, 3])
        how = ch.choose("object", ["list", "tuple", "decay"])
        pool = keys if n < 3 or T and how == "decay" else small
        return how, [ch.choose(f"chain{i}", pool) for i in range(n)]

    def exec_chains(cfg):
        how, names = cfg
        chains = [make_chain(k) for k in names]
        obj = {"list": list, "tuple": tuple, "decay": lambda c: ThreeBodyDecay(STATES, c)}[how](chains)
        problem = check_chain_table(chains, as_markdown_table(obj))
        return [Fail(f"{how} {names}: {problem}")] if problem else []

    check.explore("chain tables", body_chains, exec_chains)

    # -------------------------------------------------- every particle of the particle lists
    database = {"default": qrules.load_default_particles(), "bundled": load_particles()}
    names = {k: sorted(p.name for p in v) for k, v in database.items()}

    def body_pdg(ch):
        which = ch.choose("database", sorted(database))
        return which, ch.choose("particle", names[which])

    def exec_pdg(cfg):
        which, name = cfg
        q = database[which][name]
        p = Particle(q.name, q.latex or q.name, sp.Rational(q.spin),
                     None if q.parity is None else int(q.parity), q.mass, q.width)
        problem = check_particle_table([p], as_markdown_table([p]))
        return [Fail(problem)] if problem else []

    check.explore("every known particle", body_pdg, exec_pdg)

    # -------------------------------------------------------------------------- refusals
    def body_bad(ch):
        return ch.choose("input", ["empty list", "empty tuple", "particle and chain", "numbers", "strings",
                                   "decay", "particle and number"])

    def exec_bad(which):
        chain = make_chain(keys[0])
        obj = {"empty list": [], "empty tuple": (), "particle and chain": [PARTICLES["zero"], chain],
               "numbers": [1, 2], "strings": ["a"], "decay": [ThreeBodyDecay(STATES, [chain])],
               "particle and number": [PARTICLES["zero"], 1]}[which]
        try:
            out = as_markdown_table(obj)
        except (ValueError, NotImplementedError, TypeError):
            return []
        return [Fail(f"{which}: rendered {out!r}")]

    check.explore("refused tables", body_bad, exec_bad)

    # --------------------------------------------------------------------------- formulas
    OPTIONS = {"plain": {}, "with_jp": {"with_jp": True}, "only_jp": {"only_jp": True},
               "without": {"with_jp": False, "only_jp": False}}

    def particle_problem(text, p, option):
        if option in ("plain", "without"):
            return None if text.strip() == p.latex else f"{text!r} is not {p.latex!r}"
        if option == "only_jp":
            return None if jp_ok(text, p) and p.latex not in text else f"{text!r} is not J^P of {p}"
        if not text.startswith(p.latex) or not jp_ok(text[len(p.latex):], p):
            return f"{text!r} does not show {p.latex} and its J^P"
        return None

    def body_particle(ch):
        return ch.choose("particle", list(PARTICLES)), ch.choose("options", list(OPTIONS))

    def exec_particle(cfg):
        name, option = cfg
        problem = particle_problem(aslatex(PARTICLES[name], **OPTIONS[option]), PARTICLES[name], option)
        return [Fail(problem)] if problem else []

    check.explore("formulas of particles", body_particle, exec_particle)

    def constituents(obj):
        """Pieces in order: particles, and the LS of every node between parent and children."""
        if isinstance(obj, ThreeBodyDecay):
            return [x for c in obj.chains for x in constituents(c)]
        if isinstance(obj, (list, tuple)):
            return [x for c in obj for x in constituents(c)]
        if isinstance(obj, ThreeBodyDecayChain):
            return constituents(obj.decay)
        if isinstance(obj, IsobarNode):
            return [obj.parent, ("to", obj.interaction), *constituents(obj.child1), *constituents(obj.child2)]
        return [obj]

    def formula_problem(text, obj, option):
        pieces = constituents(obj)
        rest = text
        for piece in pieces:
            if isinstance(piece, tuple):
                ls = piece[1]
                m = re.match(r"\W*\\(to|xrightarrow)", rest)
                arrow = re.search(r"\\to|\\xrightarrow", rest)
                if not arrow:
                    return f"no arrow left in {rest!r}"
                rest = rest[arrow.start():]
                if ls is None:
                    if not rest.startswith(r"\to"):
                        return f"LS shown for a node without LS: {rest!r}"
                    rest = rest[3:]
                    continue
                m = re.match(r"\\xrightarrow\[(.*?)\]\{(.*?)\}", rest)
                if not m:
                    return f"LS {ls} missing: {rest!r}"
                label = m.group(1) + "," + m.group(2)
                spin = F(int(ls.S.p), int(ls.S.q))
                num = rf"{spin.numerator}/{spin.denominator}|\\frac\{{{spin.numerator}\}}\{{{spin.denominator}\}}"
                if spin.denominator == 1:
                    num = f"{spin.numerator}(?![0-9/])"
                if not re.search(rf"L={ls.L}(?!\d)", label) or not re.search(rf"S=({num})", label):
                    return f"LS {ls} not shown in {m.group(0)!r}"
                rest = rest[m.end():]
                continue
            if option == "only_jp":
                spin = F(int(piece.spin.p), int(piece.spin.q))
                num = str(spin) if spin.denominator == 1 else rf"\frac{{{spin.numerator}}}{{{spin.denominator}}}"
                want = f"J={num}" if piece.parity is None else f"{num}^{'+' if piece.parity > 0 else '-'}"
            else:
                want = piece.latex
            pos = rest.find(want)
            if pos < 0 or re.search(r"[A-Za-z]{2}|\d", re.sub(r"\\[a-zA-Z]+", "", rest[:pos])):
                return f"{want!r} is not next in {rest!r}"
            rest = rest[pos + len(want):]
            if option == "with_jp":
                m = re.match(r"\s*\\left\[(.*?)\\right\]", rest)
                if not m or not jp_ok(m.group(1), piece):
                    return f"J^P of {piece.name} missing before {rest!r}"
                rest = rest[m.end():]
        if re.search(r"\d|xrightarrow|\\to", rest):
            return f"unexpected {rest!r}"
        return None

    chain_keys = [(r, k, f, p, d) for r in ("half-", "int+", "noparity") for k in (1, 2, 3) for f in (False, True)
                  for p in LS["prod"] for d in LS["dec"]]

    def body_formula(ch):
        kind = ch.choose("object", ["node", "decay node", "chain", "decay", "list"])
        option = ch.choose("options", list(OPTIONS))
        n = {"decay": 2, "list": 2}.get(kind, 1)
        return kind, option, [ch.choose(f"chain{i}", chain_keys if n == 1 else small) for i in range(n)]

    def exec_formula(cfg):
        kind, option, names = cfg
        chains = [make_chain(k) for k in names]
        obj = {
            "node": chains[0].decay, "decay node": chains[0].decay_node, "chain": chains[0],
            "decay": ThreeBodyDecay(STATES, chains), "list": chains,
        }[kind]
        text = aslatex(obj, **OPTIONS[option])
        if unbalanced(text):
            return [Fail(f"{kind} {option} {names}: {unbalanced(text)}")]
        text = re.sub(r"\\begin\{array\}\{\w+\}|\\end\{array\}", "", text)
        problem = formula_problem(text, obj, option)
        return [Fail(f"{kind} {option} {names}: {problem}")] if problem else []

    check.explore("formulas of nodes, chains and decays", body_formula, exec_formula)

    # ---------------------------------------------------------------- defined expressions
    a, b, x = sp.Symbol("a_1"), sp.Symbol(r"\Gamma_{R}"), sp.Symbol("x")
    exprs = {
        "product": a * b + x,
        "one": sp.S.One,
        "lineshape": RelativisticBreitWigner(x, a, b, sp.Symbol("m1"), sp.Symbol("m2"), 1, sp.Symbol("R")),
        "minL": BreitWignerMinL(x, 2, 1, a, b, .1, .2, 1, 2, 1, 1),
        "power": x**2,
    }
    definitions = {"a": (a, 1.5), "b": (b, 2 + 3j), "x": (x, 0), "m": (sp.Symbol("m_{K^*}"), -0.25)}

    def body_defined(ch):
        e = ch.choose("expression", list(exprs))
        return e, [n for n in definitions if ch.flag(n)]

    def exec_defined(cfg):
        e, names = cfg
        params = dict(definitions[n] for n in names)
        text = aslatex(DefinedExpression(exprs[e], dict(params)))
        if unbalanced(text):
            return [Fail(f"{e} {names}: {unbalanced(text)}")]
        if not text.strip().startswith(r"\begin") or r"\end" not in text.strip().splitlines()[-1]:
            return [Fail(f"{e} {names}: {text!r} is not one environment")]
        want = [sp.latex(exprs[e])]
        unfolded = exprs[e].doit(deep=False)
        if unfolded != exprs[e]:
            want.append(sp.latex(unfolded))
        pos = 0
        for piece in want:
            pos = text.find(piece, pos)
            if pos < 0:
                return [Fail(f"{e} {names}: {piece!r} missing in {text!r}")]
            pos += len(piece)
        for symbol, value in params.items():
            rows = [line for line in text[pos:].split(r"\\") if line.split("&")[0].strip() == sp.latex(symbol)]
            if len(rows) != 1:
                return [Fail(f"{e} {names}: {symbol} defined {len(rows)} times in {text!r}")]
            shown = rows[0].split("=")[-1].strip(" &")
            number = complex(shown.replace("i", "j").replace(" ", ""))
            if abs(number - value) > 1e-9:
                return [Fail(f"{e} {names}: {symbol} shown as {shown!r} instead of {value}")]
        return []

    check.explore("formulas of defined expressions", body_defined, exec_defined)

    # ------------------------------------------------------- lineshapes and recoupling vertices
    # what a formula has to mention, in this order
    SHOWN = {
        RelativisticBreitWigner: ("s mass0 gamma0 m1 m2 L R", "L s mass0 gamma0"),
        BreitWignerMinL: ("s M m mR gR m2 m1 ldec lprod Rdec Rprod", "ldec lprod s"),
        BuggBreitWigner: ("s m0 g0 m1 m2 gamma", "s"),
        FlattéSWave: ("s m0 widths masses1 masses2", "s"),
        MultichannelBreitWigner: ("s m0 channels", "s channels"),
        ChannelArguments: ("s m0 width m1 m2 L R", "s m0 width"),
        BreitWigner: ("s m0 width m1 m2 L R", "L s m0 width"),
        SimpleBreitWigner: ("s m0 width", "s m0 width"),
        HelicityRecoupling: ("la lb la0 lb0", "la lb la0 lb0"),
        ParityRecoupling: ("la lb la0 lb0 f", "la lb la0 lb0 f"),
        LSRecoupling: ("la lb l s ja jb j", "la lb l s ja jb j"),
    }
    vertices = (HelicityRecoupling, ParityRecoupling, LSRecoupling)
    # values by the kind of their argument; every argument gets another one
    STYLES = {
        "symbols": lambda n: sp.Symbol(f"x_{{{n}}}", nonnegative=True),
        "latex": lambda n: sp.Symbol(rf"\Gamma_{{K^*({n})^{{+}}}}", nonnegative=True),
        "numbers": lambda n: sp.Integer(n + 2),
        "rationals": lambda n: sp.Rational(2 * n + 3, 2),
        "expressions": lambda n: sp.Symbol(f"y_{n}", nonnegative=True) ** 2 + 1,
        "indexed": lambda n: sp.IndexedBase("h")[n, sp.Rational(1, 2)],
    }
    places = {"alone": lambda x: x, "product": lambda x: 3 * x, "sum": lambda x: x + sp.Symbol("q"), "abs": sp.Abs,
              "inverse": lambda x: 1 / x, "square": lambda x: x**2, "index sum": lambda x: PoolSum(x * sp.Symbol("k"), (sp.Symbol("k"), [1, 2])),
              "defined": lambda x: DefinedExpression(x, {})}

    def body_classes(ch):
        cls = ch.choose("class", list(SHOWN))
        names = SHOWN[cls][0].split()
        shown = SHOWN[cls][1].split()
        base = ch.choose("style", list(STYLES))
        # one of the shown arguments in another style
        other = ch.choose("other argument", [None, *shown] if not T else [None, *names])
        return cls, base, other, ch.choose("other style", list(STYLES)) if other else base, ch.choose("place", list(places))

    def exec_classes(cfg):
        cls, base, other, style, place = cfg
        names, shown = (x.split() for x in SHOWN[cls])
        value = {n: STYLES[style if n == other else base](i) for i, n in enumerate(names)}
        text_of = {n: [sp.latex(value[n])] for n in names}
        if cls is FlattéSWave:
            for n, base_value in zip(("widths", "masses1", "masses2"), (11, 21, 31)):
                value[n] = tuple(STYLES[base](base_value + k) for k in range(2))
        if cls is MultichannelBreitWigner:
            widths = [STYLES[style if other == "channels" else base](k) for k in (11, 12, 13)]
            value["channels"] = tuple(ChannelArguments(value["s"], value["m0"], w) for w in widths)
            text_of["channels"] = [sp.latex(w) for w in widths]
        obj = cls(*(value[n] for n in names))
        fails = []
        whole = places[place](obj)
        for printer in (sp.latex, aslatex) if place != "defined" else (aslatex,):
            text = printer(whole)
            if unbalanced(text):
                fails.append(Fail(f"{cls.__name__} {cfg[1:]}: {unbalanced(text)}"))
            pieces = [piece for n in shown for piece in text_of[n]]
            if not ordered(text, pieces):
                fails.append(Fail(f"{cls.__name__} {cfg[1:]}: {pieces} not in this order in {text!r}"))
            if place in {"product", "sum", "index sum", "defined"} and sp.latex(obj) not in text:
                fails.append(Fail(f"{cls.__name__} {cfg[1:]}: {sp.latex(obj)!r} is missing in {text!r}"))
        if place == "alone":
            for deep in (False, True) if base in {"symbols", "latex"} and base == style and cls is not LSRecoupling else (False,):
                if unbalanced(sp.latex(obj.doit(deep=deep))):
                    fails.append(Fail(f"{cls.__name__} {cfg[1:]}: unfolded: {unbalanced(sp.latex(obj.doit(deep=deep)))}"))
            if cls in vertices:
                for kind in vertices:
                    if kind is not cls:
                        like = kind(*(STYLES[base](i) for i in range(len(SHOWN[kind][0].split()))))
                        if sp.latex(like).split(r"\left")[0] == sp.latex(obj).split(r"\left")[0]:
                            fails.append(Fail(f"{cls.__name__} and {kind.__name__} are both shown as {sp.latex(obj)!r}"))
        return fails

    check.explore("lineshapes and vertices", body_classes, exec_classes)

    # ----------------------------------------------------- switches for notebooks (global state)
    i, j = sp.symbols("i, lambda_1")
    bases = {"A": sp.IndexedBase("A^{1}"), "H": sp.IndexedBase(r"\mathcal{H}^\mathrm{decay}"), "c": sp.IndexedBase("c")}
    indices = {"symbol": i, "greek": j, "zero": sp.S.Zero, "half": rat(F(1, 2)), "minus half": rat(F(-1, 2)), "sum": i + 2, "text": sp.Symbol("K^*")}
    contexts = {"alone": lambda x: x, "product": lambda x: 3 * x, "power": lambda x: abs(x) ** 2, "nested": lambda x: sp.IndexedBase("Z")[x, 1],
                "lineshape": lambda x: BreitWignerMinL(x, 2, 1, a, b, .1, .2, 1, 2, 1, 1)}

    def body_indexed(ch):
        base = ch.choose("base", list(bases))
        n = ch.choose("indices", [1, 2, 3])
        pool = list(indices) if n < 3 else ["zero", "minus half", "greek"]
        return base, [ch.choose(f"index {m}", pool) for m in range(n)], ch.choose("context", list(contexts)), ch.choose("times", [1, 2])

    def exec_indexed(cfg):
        base, idx, context, times = cfg
        obj = bases[base][tuple(indices[n] for n in idx)]
        expr = contexts[context](obj)
        before = sp.srepr(expr)

        def inside():
            for _ in range(times):
                simplify_latex_rendering()
            return aslatex(expr), sp.latex(expr), sp.srepr(expr), sp.srepr(contexts[context](obj))

        text, same, later, again = fork_call(inside)
        if text != same or later != before or again != before:
            return [Fail(f"{expr} is another expression after simplify_latex_rendering: {later}, {text!r}, {same!r}")]
        if unbalanced(text):
            return [Fail(unbalanced(text))]
        # the base, and in its subscript all indices in their order
        found = re.search(re.escape(sp.latex(bases[base].label)) + r"\}*_", text)
        if not found:
            return [Fail(f"{sp.latex(bases[base].label)!r} with a subscript is missing in {text!r}")]
        rest = text[found.end():]
        if not rest.startswith("{"):
            return [Fail(f"subscript of {text!r}")]
        depth = [n for n in range(len(rest)) if rest[: n + 1].count("{") == rest[: n + 1].count("}")][0]
        shown = [x.strip() for x in rest[1:depth].split(",")]
        want = [sp.latex(indices[n]) for n in idx]
        if shown != want:
            return [Fail(f"{obj} is shown with the indices {shown}, expected {want}")]
        return []

    check.explore("indexed objects", body_indexed, exec_indexed)

    def body_mute(ch):
        return ch.choose("mute", [0, 1, 2]), [ch.choose(f"step {n}", ["subsystem", "user warning", "deprecation", "reference"]) for n in range(2)]

    def exec_mute(cfg):
        times, steps = cfg
        decay = ThreeBodyDecay(STATES, [make_chain(("half-", 3, False, "none", "none"))])

        def inside():
            warnings.resetwarnings()
            warnings.simplefilter("always")
            for _ in range(times):
                mute_ampform_warnings()
            out = []
            for step in steps:
                # recorded without catch_warnings, which would bring its own filters
                seen = []
                warnings.showwarning = lambda message, category, *args, **kw: seen.append(category.__name__)  # noqa: B023
                if step == "subsystem":
                    result = len(decay.get_subsystem(2).chains)
                elif step == "reference":
                    result = len(decay.get_subsystem(3).chains)
                else:
                    warnings.warn("anything else", UserWarning if step == "user warning" else DeprecationWarning, stacklevel=1)
                    result = None
                out.append((seen, result))
            return out

        fails = []
        for step, (seen, result) in zip(steps, fork_call(inside)):
            want = {"subsystem": ([] if times else ["UserWarning"], 0), "reference": ([], 1), "user warning": (["UserWarning"], None),
                    "deprecation": (["DeprecationWarning"], None)}[step]
            if (seen, result) != want:
                fails.append(Fail(f"muted {times} times, {steps}: {step} gives {seen, result}, expected {want}"))
        return fails

    check.explore("muted warnings", body_mute, exec_mute)
