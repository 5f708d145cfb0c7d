"""Writes /verif/properties.jsonl (kept as a script so that the list stays diffable)."""
import json
S = "src/ampform_dpd/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    mechanism = [{"name": m, "where": S + files[0]} for m in mechanism]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=mechanism, **kw)))


prop("P01", "Every angle equals the one constructed from four-momenta",
     "For every combination of state IDs for which an angle expression can be requested, the scattering angle, the isobar-orientation angle and the Wigner alignment angle, evaluated at any physical phase-space point, equal (including their sign, modulo 2π) the angle obtained by explicitly boosting and rotating the four-momenta of the three decay products. Angles of a chain aligned with itself are zero, exchanging the aligned and the reference subsystem flips the sign, and requests with IDs for which no angle exists are rejected with an error.",
     ["inputs", "configurations"],
     "all ID tuples (accepted and rejected), all orderings of distinct/equal/zero final-state masses, and all points of the Dalitz plot",
     "The unit tests compare a few expressions symbolically with themselves or at one ID tuple; no test builds the angle from momenta, so a wrong mass, invariant or sign in one branch of the case table goes unnoticed.",
     ["angles.py"], ["case tables of scattering, theta-hat and zeta angles keyed by state IDs; cyclic/antisymmetric reduction of the remaining IDs"])
prop("P02", "Each invariant is consistent with the other two and the masses",
     "For any decay, each of the three two-body invariants reported by a model or by the stand-alone helpers, as a function of any two others, gives the value required by four-momentum conservation. The mass table reported with it assigns to every outer state exactly the mass of that state, and lists them in the order of their state IDs, whatever the order in which the states were supplied.",
     ["inputs", "configurations"], "all pairs of invariants, all masses, all insertion orders of the states, equal and distinct particles",
     "No unit test evaluates an invariant numerically; the order in which masses are unpacked is only exercised by sorted inputs.",
     ["__init__.py"], ["third-Mandelstam construction; creation of mass symbols sorted by state ID"])
prop("P03", "A formulated model is closed and numerically finite",
     "Every symbol that the intensity of a formulated model depends on, directly or through amplitudes and angle definitions, is one of the three invariants or has a numeric default in the model, every amplitude referred to is defined, and with the defaults substituted the intensity is a finite, real, non-negative number at every physical point. The reported defaults, masses and decay describe the decay that was passed in.",
     ["configurations", "inputs"], "all spin assignments, chain sets, coupling bases, dynamics choices, and formulation options within the bound",
     "Tests look at symbol names of two reactions; closure must hold for every combination of spins, chains and options.",
     ["__init__.py", "dynamics/builder.py"], ["collection of parameter defaults, variables and amplitude definitions over helicity combinations and subsystems"])
prop("P04", "Helicity-basis intensity equals the Dalitz-plot-decomposition formula",
     "With helicity couplings, the intensity of a formulated model equals, for every value of the couplings and at every phase-space point, the aligned coherent sum over decay chains (resonance helicity sum, Wigner functions, particle-2 phases) squared and summed over outer helicities. The set of couplings is exactly the set of kinematically allowed helicity combinations.",
     ["configurations", "inputs"], "all outer spins and resonance spins up to the bound, all sets of chains over the three subsystems, all reference subsystems, generic complex couplings, all phase-space points",
     "Tests pin the expression hash of one reaction and count symbols of a second; spins, masses and subsystem layouts outside those two are never evaluated.",
     ["__init__.py", "spin.py", "angles.py", "decay.py"], ["builder loop over helicities and subsystems; alignment Wigner functions; helicity ranges"])
prop("P05", "LS, mixed and single-coefficient bases equal the formula",
     "With LS couplings at the production vertex, the decay vertex or both, the intensity equals the helicity-basis formula with each helicity coupling replaced by the Clebsch-Gordan expansion of that chain's L and S, with each vertex using the basis chosen for it. Using one coefficient per chain gives the same function with the product of both couplings replaced by that coefficient, and a chain without the LS values that a basis needs is refused.",
     ["configurations", "inputs"], "all four combinations of bases, with and without single coefficients, all allowed LS couplings and child orders, all spins within the bound",
     "Tests only count coupling symbols for the mixed bases and never evaluate an LS model against a helicity model.",
     ["__init__.py"], ["Clebsch-Gordan factors per isobar node; choice of coupling symbols and of one-scalar-per-chain coefficients"])
prop("P06", "The physics does not depend on the reference subsystem",
     "For any decay and any couplings, choosing another alignment reference gives the same intensity everywhere on the Dalitz plot when the initial state has integer spin; for half-integer initial spin it gives the same intensity after flipping the overall sign of the one chain group whose alignment angles wrap around. Leaving the reference unspecified is equivalent to choosing a subsystem with the largest number of chains.",
     ["configurations", "inputs"], "all pairs of references, spins, masses, chain sets, couplings and phase-space points",
     "No test compares two references; the statement is about an equality of two whole models.",
     ["__init__.py", "angles.py"], ["alignment rotations of all four states with respect to the reference; default reference choice"])
prop("P07", "Presentation options and chain order never change the physics",
     "Cleaning up the summations, formulating all subsystems, and the order in which chains or states are listed leave the intensity unchanged for all couplings and points. With clean-up requested, no helicity of a spinless outer state is summed over; with all subsystems requested, amplitudes of subsystems without chains are defined as zero.",
     ["configurations"], "all option combinations, all chain orders, all spin assignments within the bound",
     "Tests check names of variables for one reaction; whether the clean-up is applied, or changes values, is not observed.",
     ["__init__.py"], ["clean-up of nested summations; enumeration of subsystems; union of parameter dictionaries"])
prop("P08", "Relabelling the final state relabels the model and nothing else",
     "If the three final-state IDs are cyclically permuted throughout a decay, the intensity at the correspondingly permuted invariants is unchanged for correspondingly relabelled couplings. Exchanging the two decay products of an isobar within a chain changes an LS-basis chain at most by the fixed sign of Clebsch-Gordan exchange symmetry, and a helicity-basis chain not at all.",
     ["configurations", "inputs"], "all cyclic permutations, child orders, spins, masses, references, couplings, points",
     "Tests use one fixed labelling per reaction.",
     ["__init__.py", "angles.py", "decay.py"], ["mapping of spectator to ordered decay products; case tables keyed by IDs"])
prop("P09", "Dynamics are applied to exactly the chains they were registered for",
     "After any sequence of registrations, formulating the model multiplies each decay chain by the lineshape most recently registered for that chain (or for all chains of its resonance if registered by name), and by nothing if none was registered. Parameters of exactly the lineshapes in use appear in the model, lookups return what was registered, and unknown chains or names are refused without changing anything.",
     ["histories"], "all sequences of register/lookup/formulate operations up to the bound, by chain and by name, on decays where several chains share a resonance name",
     "The tests register the same builder for every chain, so a builder that reaches the wrong chain is invisible.",
     ["__init__.py"], ["mapping from chains to dynamics builders; lookup while formulating a subsystem amplitude"],
     state=[{"name": "registered builders", "meaning": "which dynamics builder each chain currently has"}])
prop("P10", "Lineshape functions have the values their formulas promise",
     "Every lineshape class evaluates, for all admissible masses, widths, angular momenta, radii and phase-space choices, to its defining formula (relativistic, simple, minimal-L, Bugg, Flatté and multi-channel Breit-Wigner), including below threshold where defined. Evaluating lazily, unfolding step by step or evaluating at once give the same value.",
     ["inputs"], "all lineshape classes, L values, masses (including zero), widths, radii, phase-space factors, and s on both sides of thresholds",
     "No test evaluates a lineshape numerically.",
     ["dynamics/__init__.py"], ["evaluate() of each unevaluated expression class"])
prop("P11", "The dynamics builder wires the right kinematics and parameters",
     "For every chain and every option combination, the Breit-Wigner builder yields a function of the invariant mass of that chain's isobar, of the masses of that chain's particles and of the L of the matching vertex, equal to the product of the requested factors. It supplies a default for every parameter it introduces, with the mass, width and radius of that chain, and refuses chains lacking an L that a requested factor needs.",
     ["configurations", "inputs"], "all option combinations, spectators, child orders, L values, masses and points",
     "Tests pin hashes for one reaction in which all options are on.",
     ["dynamics/builder.py"], ["construction of Breit-Wigner and form factors from isobar nodes"])
prop("P12", "Spin ranges and LS couplings are exactly the allowed ones",
     "For any three spins the enumeration of LS couplings returns, sorted and without duplicates, exactly the pairs allowed by angular-momentum addition up to the requested L, and parity filtering keeps exactly those that conserve parity. Spin projections of a spin J are exactly -J, -J+1, ..., +J. Each call answers afresh, whatever was done to the result of an earlier one.",
     ["inputs"], "all integer and half-integer spins, parities and maximal L within the bound",
     "The doctests show five examples.",
     ["spin.py"], ["rational ranges and triangle conditions"])
prop("P13", "Decay descriptions are validated and expose the right roles",
     "A decay or chain can be constructed exactly if it is a consistent three-body cascade: one resonance and one spectator, distinct outer states, all chains agreeing with the declared states. For every accepted one, the resonance, decay products, spectator, final state, LS values, subsystem views and lookups are those of the description, irrespective of child order, and malformed ones are refused with an error.",
     ["inputs", "configurations"], "all assignments of particles and IDs to the slots of a cascade, all child orders, all chain sets within the bound",
     "Tests construct a handful of well-formed decays.",
     ["decay.py", "_attrs.py"], ["post-init validation of chains and decays; child-type lookup; filtering by subsystem"])
prop("P14", "Conversion of transitions loses and invents no decay chain",
     "Converting a set of quasi-two-body transitions yields one decay chain per distinct combination of resonance, spectator and LS couplings, with every particle property, LS value and final-state ID preserved. The result does not depend on the order, duplication or spin projections of the input, nor on an order-preserving relabelling of its state IDs, and transitions that do not describe a three-body cascade are refused.",
     ["configurations", "inputs"], "all subsets and orders of transitions over small alphabets of particles, topologies, LS values and ID labellings, in both formalisms",
     "Tests convert three generated reactions and compare counts.",
     ["adapter/qrules.py"], ["conversion of states and interactions; deduplication; relabelling; construction of chains"])
prop("P15", "Minimum-LS filtering keeps one minimal coupling per chain",
     "Filtering on minimal LS keeps, for every resonance and subsystem (and for every value of the couplings at vertices not being filtered), exactly one chain, which carries the smallest available L (then S) at each filtered vertex and unchanged couplings elsewhere. Filtering is idempotent and independent of the input order.",
     ["configurations"], "all sets of LS combinations on up to the bound of resonances and subsystems, all filter selections, all orders",
     "Tests cover one reaction in which only one resonance has two couplings at only one vertex.",
     ["adapter/qrules.py"], ["grouping by resonance, subsystem and unfiltered couplings; per-node minimum"])
prop("P16", "State relabelling and identical-particle symmetrisation are exact",
     "Normalising state IDs maps them to 0..N-1 preserving order, topology and all properties, is idempotent, and agrees across the supported container types. Symmetrising a transition over identical final-state particles yields each distinguishable assignment of the identical particles exactly once, includes the transition itself, and gives the same set for every transition obtained by exchanging them.",
     ["inputs", "configurations"], "all topologies with three final states, ID labellings, equal-particle patterns, container types",
     "Tests check three reactions.",
     ["adapter/qrules.py"], ["order-preserving relabelling; edge swaps between identical particles"])
prop("P17", "A serialized model is imported with its decay structure intact",
     "Importing a serialized model yields states with the declared index, name, spin and mass, and one chain for every distinct resonance/subsystem in the definition, with the spectator and decay products declared by its topology whatever the order in which nodes and vertices are listed. Malformed definitions (missing distribution, missing function, not a three-body topology) are refused with an error naming the problem.",
     ["configurations", "inputs"], "all topologies, node and vertex orders, chain sets, label renderings, and single-fault mutations of a definition",
     "Tests import one JSON file.",
     ["io/serialization/decay.py", "io/serialization/format.py"], ["search for production and decay vertices; lookup of functions and distributions"])
prop("P18", "A serialized amplitude evaluates to the amplitude it defines",
     "The intensity of an imported model equals, at all points and for all weights, the aligned coherent sum of its chains, each being the weight times propagator, form factors, Wigner function and the recouplings declared for its vertices for the actual helicities, restricted to helicities allowed by angular-momentum conservation. Changing chain order, options or label rendering does not change it.",
     ["configurations", "inputs"], "all vertex types, spins, helicities, parity factors, subsystems, references, chain sets, weights within the bound",
     "Tests check helper functions on one file and never evaluate the imported model.",
     ["io/serialization/amplitude.py"], ["recoupling factors per vertex; helicity substitution; summation of chains into subsystem amplitudes; alignment"])
prop("P19", "Serialized dynamics keep every parameter of every chain",
     "Each propagator and form factor of an imported model evaluates to its declared parametrization with its own declared masses, widths, couplings, angular momenta and radii at the invariant mass of its node, and using several parametrizations in one model never mixes up their parameters. User-supplied parametrizations take precedence, and unknown ones are refused.",
     ["configurations", "inputs"], "all parametrization types, channel counts, L values, subsystems, vertex positions, and pairs of chains sharing names or differing in a single parameter",
     "Tests do not evaluate any propagator.",
     ["io/serialization/dynamics.py"], ["symbol naming and parameter defaults of propagators and form factors; function lookup"])
prop("P20", "Cached lambdification is indistinguishable from a fresh one",
     "Any sequence of lambdify calls, parameter updates on returned functions, cache hits from memory or disk and process restarts returns functions that compute the value of the requested expression with the requested parameters and backend. Updating one returned function never affects a function returned by another call.",
     ["histories"], "all operation sequences up to the bound over expressions, parameter values, backends, updates and process restarts sharing a cache directory",
     "Tests call the cached function once per expression and never update parameters or restart.",
     ["io/cached.py"], ["in-memory memoization, disk cache, mutable parametrized function objects"],
     state=[{"name": "memory cache, disk cache, parameters of handed-out functions", "meaning": "what earlier calls left behind"}])
prop("P21", "Multiplying defined expressions is pure and keeps all definitions",
     "The product of a defined expression with another one, with an (expression, definitions) pair, or with a plain factor has the product of the expressions and the union of the definitions, the right operand winning on conflicts. Operands are never modified, neither by the multiplication nor by later changes to the result.",
     ["histories"], "all operation sequences up to the bound (multiply by every operand kind, mutate result or operand definitions)",
     "No test multiplies defined expressions or mutates one afterwards.",
     ["__init__.py"], ["multiplication operator of defined expressions"],
     state=[{"name": "definitions of each live expression", "meaning": "must not be shared"}])
prop("P22", "Rendered tables and formulas show every item faithfully",
     "A rendered table has one row per item in the given order, every row has as many cells as the header, and each cell shows that item's own name, quantum numbers, mass and width in MeV and L values in the column with that title. LaTeX rendering of particles, nodes, chains, decays and defined expressions contains every constituent, its quantum numbers when requested, and its LS values when present, in balanced groups and environments; a rendered lineshape names its invariant and, in order, its mass, its width or those of all channels, and a rendered helicity, parity or LS recoupling says which of these it is and lists all of its arguments. The switches for notebooks change nothing else: simplified indexed objects show their base and all indices, and muting hides only the package's own messages.",
     ["inputs", "configurations"], "all combinations of present/absent indices, parities and LS values, integer and half-integer spins, item types and orders",
     "Tests render tables in which all masses are zero and no LS values exist.",
     ["io/__init__.py", "dynamics/__init__.py", "io/serialization/amplitude.py"], ["table headers computed from all items, rows from single items; J^P rendering; dispatch on item type"])
prop("P23", "Formulation is pure: same inputs, same model, in any history or process",
     "Formulating a model has no effect on the decay, on the builder's configuration, on previously returned models or on later formulations: any history of formulate calls and option changes yields, for each call, the same model as a fresh builder in a fresh process. Mutating a returned model never changes another one.",
     ["histories", "schedules"], "all sequences of formulate calls with differing options on shared or separate builders up to the bound; different hash seeds",
     "Tests build each model once per process.",
     ["__init__.py", "decay.py"], ["module-level caches of symbols and index bases; cached properties; dictionaries returned in models"],
     state=[{"name": "module-level and per-object caches", "meaning": "must be invisible"}])
prop("P24", "An interrupted cache write never poisons later lambdify calls",
     "If the process is killed while a lambdified function is being stored in the cache directory, then for every prefix of the write that may have reached the disk a later call for the same expression returns a function with the right values. It never returns a wrong function.",
     ["crash_points"], "every crash point (byte prefix) of every file written by one lambdify call",
     "No test interrupts a write.",
     ["io/cached.py"], ["disk cache of lambdified functions"],
     state=[{"name": "cache file", "meaning": "may be torn after a crash"}])
prop("P25", "The bundled particle list and a full reaction pass through unharmed",
     "Loading the bundled particle definitions yields every default particle plus every additional definition with its declared mass, width, spin and parity, repeatedly and without altering the default database. Every state and resonance of a decay converted from generated transitions carries the properties listed there.",
     ["histories", "inputs"], "all particles in the default database and all additional definitions, repeated loads",
     "Tests only use a few of the particles.",
     ["adapter/qrules.py"], ["merge of the additional definitions into the default particle database"])
prop("P26", "Workers sharing a cache directory do not disturb each other",
     "However the file system operations of processes or threads that lambdify expressions with one shared cache directory interleave, and whatever complete or incomplete entry was there before, every call returns a function with the right values and parameters, and so does every later call. This also holds if one of the workers is killed on the way.",
     ["schedules", "crash_points"], "all interleavings of the file system operations of two workers (three up to a preemption bound), all initial states of the entry, same and different requests, killed workers",
     "Tests run one process at a time.",
     ["io/cached.py"], ["disk cache of lambdified functions: existence test, open, read, write and removal are separate steps"],
     state=[{"name": "cache file", "meaning": "may be missing, torn, or being written by another worker"}])
prop("P27", "Every amplitude component is the one the formula names",
     "For every set of outer helicities and every subsystem, the amplitude that is formulated on its own, and the one of the same name in the complete model, has the value (including its phase) of the coherent sum over the chains of that subsystem, with the same parameters in both; a subsystem without chains has amplitude zero. The aligned amplitude, requested for numbers or for symbols, is the sum over subsystems and over rotated helicities of these components times the four alignment rotations, and the intensity of the model is the sum of its squared magnitudes.",
     ["configurations", "inputs"], "all outer helicities, subsystems, references, spin assignments, chain sets, bases and child orders within the bound",
     "Tests never evaluate a single amplitude; sums of squares hide phases.",
     ["__init__.py"], ["subsystem amplitude with helicity Kronecker deltas and phase conventions; aligned amplitude with Wigner rotations"])
prop("P28", "Substituting, unfolding, copying and pickling expressions commute",
     "For every lineshape and recoupling expression and every formulated model, replacing symbols by numbers or other symbols before, between or after unfolding, exchanging or identifying symbols, passing an expression without other unevaluated expressions inside through pickle or deepcopy, and embedding it in a larger expression give an expression with the value of the defining formula at the substituted arguments and without any other symbol. Expressions of one class are equal exactly if their arguments are.",
     ["histories", "inputs"], "all sequences of manipulations up to a depth, all subsets of parameters substituted early, all orders of substituting the parts of a model",
     "Tests compare symbolic forms at one stage of evaluation.",
     ["dynamics/__init__.py", "io/serialization/amplitude.py", "__init__.py"], ["arguments of the unevaluated expression classes (sympified or not) and case distinctions in evaluate()"],
     state=[{"name": "arguments of an expression", "meaning": "must all be reachable by substitution"}])
prop("P29", "Decay descriptions are immutable values",
     "Particles, states, LS couplings, nodes, chains and decays are equal (with equal hashes, where hashable) exactly if every field is equal, whatever numeric form a spin is given in and whichever object was used before; no field can be set, deleted or added afterwards. Copies, pickles and rebuilt objects are equal to the original and have the same roles. Comparable descriptions have one total order. A decay keeps its chains in the given order, independently of what happens to the container they came in.",
     ["inputs", "histories"], "all pairs of objects that differ in any one field (of any constituent), all copying histories up to a depth, all permutations of chains",
     "Tests use a few descriptions that differ in obvious ways.",
     ["decay.py", "_attrs.py"], ["frozen attrs classes, converters, and cached lookups keyed by equality"],
     state=[{"name": "cached lookups", "meaning": "must not mix up different chains"}])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), [p["id"] for p in P if len(p["title"]) > 80])
