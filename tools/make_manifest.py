"""Write /verif/MANIFEST.json (run: python tools/make_manifest.py)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
STATELESS = "stateless model checking: exhaustive choice-tree enumeration of "
T = {
 "P01": ("all ID tuples x mass patterns x Dalitz points, executed on the real angle functions against angles built from boosted four-momenta",
         "Exhaustive over accepted/rejected ID tuples and mass patterns; continuous phase space is covered on a fixed grid of points (analytic functions, so a wrong case-table entry shows at any generic point)."),
 "P02": ("all invariant pairs, state orders and mass patterns, against four-momentum conservation",
         "Exhaustive over orders and mass patterns; generic numeric points stand for the continuous inputs."),
 "P03": ("all formulation options x spins x chain sets x bases x dynamics, checking closure and finiteness of each model",
         "Exhaustive within the spin/chain bound; finiteness evaluated at interior and near-boundary points."),
 "P04": ("all spin assignments, chain sets and references; every model evaluated by an independent interpreter against a numeric reference model of the decomposition",
         "Exhaustive over spins up to the bound; generic seeded couplings and points decide identity of analytic functions. Trusts mc/ref.py and mc/interp.py."),
 "P05": ("all LS couplings, bases, child orders and coefficient choices, against the Clebsch-Gordan expansion in an independent reference model",
         "As P04; Clebsch-Gordan and Wigner functions recomputed independently."),
 "P06": ("all pairs of references over spins and chain sets; whole models compared numerically",
         "Exhaustive within bound; the half-integer sign convention is part of the property."),
 "P07": ("all option combinations and chain/state orders, pairs of models compared",
         "Exhaustive within bound."),
 "P08": ("all cyclic relabellings and child exchanges, pairs of models compared",
         "Exhaustive within bound."),
 "P09": ("all register/lookup/formulate histories up to a depth, run on the real builder against a map-valued reference state machine",
         "All histories to the stated depth; builders return marker symbols, plus real lineshapes."),
 "P10": ("all lineshape classes x L x mass/width/radius classes x energies on both sides of thresholds, against hand-written formulas",
         "Exhaustive over the discrete parameters and a grid of representative real values."),
 "P11": ("all option combinations x spectators x child orders x L values x chains, against the product of the requested factors",
         "Exhaustive within bound; one known finding (decay form factor) is reported by key."),
 "P12": ("all spins, parities and maximal L up to the bound, against the triangle rules",
         "Complete for the stated finite space."),
 "P13": ("all assignments of particles/IDs to the slots of a cascade, child orders and chain sets, against an independent validity predicate and role model",
         "Complete for the stated finite space."),
 "P14": ("all subsets, orders, duplications and relabellings of transitions over small alphabets, against a set-valued reference",
         "Complete for the stated alphabets plus complete generated reactions."),
 "P15": ("all sets of LS combinations on small chain sets x filters x orders, against a reference filter",
         "Complete for the stated alphabets."),
 "P16": ("all topologies, ID labellings, equality patterns and container types, against a reference relabelling/orbit computation",
         "Complete for three-body topologies over the stated labels."),
 "P17": ("all topologies, node/vertex orders, chain sets and single-fault mutations of serialized definitions",
         "Complete for the stated generator of definitions plus the bundled model file."),
 "P18": ("all vertex types, spins, helicities, subsystems, references and chain sets of serialized models, evaluated against a numeric reference",
         "Exhaustive within bound; generic weights; plus the published model file."),
 "P19": ("all parametrization types, channel counts, L values, vertices and pairs of chains, against the declared parametrizations",
         "Exhaustive within bound."),
 "P20": ("all histories of lambdify/update/restart operations up to a depth over confusable expressions and backends, on the real caches against uncached evaluation",
         "All histories to the stated depth; restart is a fork of a process that never called lambdify."),
 "P21": ("all operation sequences (multiply, mutate) up to a depth, against a pure reference",
         "All sequences to the stated depth."),
 "P22": ("all combinations of item types, present/absent attributes and orders, with parsed tables compared cell by cell",
         "Complete for the stated alphabets plus every particle known to qrules."),
 "P23": ("all histories of formulate calls and option changes up to a depth; every model's canonical digest compared with that of a fresh process (several hash seeds)",
         "All histories to the stated depth."),
 "P24": ("exhaustive crash-point enumeration: every byte prefix of every file a lambdify call writes is materialised and recovered from; real kills included",
         "Every crash point of the recorded writes; one writer at a time, prefix-torn writes."),
 "P25": ("all loading histories up to a depth, every listed particle in every role, and complete generated reactions",
         "Complete over the bundled list."),
 "P26": ("all schedules of the file system operations of several real processes or threads under a controlled scheduler (preemption-bounded for three workers, incomplete entries, kills)",
         "Scheduling points are system calls below the cache directory; writes are split in two. Two workers starting without an incomplete entry: every schedule."),
 "P27": ("all outer helicities x subsystems x spin assignments x chain sets x bases x child orders, component by component against the formula",
         "Exhaustive within bound; generic couplings and amplitudes."),
 "P28": ("all histories of substitutions, renamings, copies and unfoldings up to a depth on every expression class, and all substitution orders on models",
         "All histories to the stated depth; AmpForm's own pickling of nested expressions is excluded."),
 "P29": ("all pairs of descriptions that differ in any field, all copying histories to a depth, all attempts to modify, all permutations",
         "Complete for the stated alphabets (two values per field)."),
}
checks = []
for pid, (what, note) in T.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": what if pid == "P24" else STATELESS + what,
        "level": "fault_enumeration" if pid == "P24" else "model_checking",
        "level_note": note,
    })
manifest = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": checks,
    "not_applicable": [],
    "notes": "Checks import the working tree of /repo directly (PYTHONPATH); nothing is built, no hooks are needed.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
