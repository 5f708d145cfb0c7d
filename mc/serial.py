"""Serialized model definitions from specs, and their reference amplitude.

chain = dict(name, k, J, dec=(i, j) node order of the decay vertex, spectator_first=bool,
             prod=(type, (lamR, lamk), parity factor), decv=(type, (lami, lamj), parity factor),
             weight=complex, propagator=function name, ff=(production, decay) function names,
             swap_vertices=bool)
"""
from __future__ import annotations

import itertools
from fractions import Fraction as F

import numpy as np

from mc import lineshape as ls
from mc import ref
from mc.kin import PAIR

NAMES = ("T", "a", "b", "c")


def num(x):
    x = F(x)
    return str(x)


def weight_string(w, style="plain"):
    re, im = w.real, w.imag
    return {
        "plain": f"{re!r} {'-' if im < 0 else '+'} {abs(im)!r}i",
        "compact": f"{re!r}{'-' if im < 0 else '+'}{abs(im)!r}i",
        "real": f"{re!r}",
        "imaginary": f"{im!r}i",
    }.get(style) or weight_string(w)


def chain_definition(c):
    i, j = c.get("dec") or PAIR[c["k"]]
    node = [i, j]
    top = [c["k"], node] if c.get("spectator_first") else [node, c["k"]]
    ptype, (lamR, lamk), pf = c["prod"]
    dtype, (li, lj), df = c["decv"]
    ff = c.get("ff", ("", ""))
    hel = [num(lamk), num(lamR)] if c.get("spectator_first") else [num(lamR), num(lamk)]
    prod = {"type": ptype, "node": top, "helicities": hel, "formfactor": ff[0]}
    dec = {"type": dtype, "node": node, "helicities": [num(li), num(lj)], "formfactor": ff[1]}
    if ptype == "parity":
        prod["parity_factor"] = pf
    if dtype == "parity":
        dec["parity_factor"] = df
    vertices = [dec, prod] if c.get("swap_vertices") else [prod, dec]
    return {
        "name": c["name"], "topology": top, "vertices": vertices,
        "weight": weight_string(c["weight"], c.get("weight_style", "plain")),
        "propagators": [{"spin": num(c["J"]), "node": node, "parametrization": c["propagator"]}],
    }


def reference_topology(k, style="resonance first"):
    i, j = PAIR[k]
    return {"resonance first": [[i, j], k], "spectator first": [k, [i, j]], "reversed pair": [[j, i], k]}[style]


def definition(spec):
    states = [
        {"index": n, "name": NAMES[n], "spin": num(spec["spins"][n]), "mass": spec["masses"][n]} for n in range(4)
    ]
    final = [states[n] for n in spec.get("final_order", (1, 2, 3))]
    return {
        "distributions": [{
            "name": "model", "type": "HadronicUnpolarizedIntensity", "variables": [],
            "decay_description": {
                "kinematics": {"initial_state": states[0], "final_state": final},
                "reference_topology": reference_topology(spec["ref"], spec.get("ref_style", "resonance first")),
                "chains": [chain_definition(c) for c in spec["chains"]],
            },
        }],
        "functions": [dict(f) for f in spec["functions"]],
        "domains": [], "misc": {}, "parameter_points": [],
    }


# ---------------------------------------------------------------- reference amplitude
def recouple(vertex, a, b):
    typ, (a0, b0), f = vertex
    out = 1.0 if (a, b) == (a0, b0) else 0.0
    if typ == "parity":
        sign = {"+": 1, "-": -1, "": 0}[f.strip()]
        out += sign * (1.0 if (a, b) == (-a0, -b0) else 0.0)
    return out


def propagator_value(f, s, m1, m2):
    if f["type"] == "BreitWigner":
        return ls.breit_wigner(s, f["mass"], f["width"], f["ma"], f["mb"], int(f["l"]), f["d"])
    if f["type"] == "MultichannelBreitWigner":
        ch = [(c["gsq"], c["ma"], c["mb"], int(c["l"]), c["d"]) for c in f["channels"]]
        return ls.multichannel(s, f["mass"], ch)
    if f["type"] in ("BreitWignerWidthExpLikeBugg", "Bugg"):
        return ls.bugg(s, f["mass"], f["width"], m1, m2, f["slope"])
    if f["type"] == "Constant":
        return np.ones_like(np.asarray(s), dtype=complex) * f["value"]
    raise KeyError(f["type"])


def dynamics(spec, c, point):
    """Propagator times form factors at the node masses; (m_i, m_j) in node order."""
    fs = {f["name"]: f for f in spec["functions"]}
    i, j = c.get("dec") or PAIR[c["k"]]
    k = c["k"]
    m = spec["masses"]
    s = np.asarray(point.sigmas[k - 1], dtype=float)
    out = propagator_value(fs[c["propagator"]], s, m[i], m[j])
    fprod, fdec = c.get("ff", ("", ""))
    if fprod:
        f = fs[fprod]
        out = out * ls.form_factor(m[0] ** 2 + 0 * s, np.sqrt(s), m[k], int(f["l"]), f["radius"])
    if fdec:
        f = fs[fdec]
        out = out * ls.form_factor(s, m[i], m[j], int(f["l"]), f["radius"])
    return out


def amplitudes(spec, point, weights=None, dyn=None):
    J = spec["spins"]
    amp = {}
    for n, c in enumerate(spec["chains"]):
        i, j = c.get("dec") or PAIR[c["k"]]
        k = c["k"]
        x = (dyn or dynamics)(spec, c, point)
        w = c["weight"] if weights is None else weights[n]
        for lam in itertools.product(*map(ref.projections, J)):
            lamR = lam[0] + lam[k]
            key = (k, lam)
            amp.setdefault(key, 0)
            if lamR not in ref.projections(c["J"]):
                continue
            h = recouple(c["prod"], lamR, lam[k]) * recouple(c["decv"], lam[i], lam[j])
            if h:
                amp[key] = amp[key] + w * h * x * ref.wigner_d(c["J"], lamR, lam[i] - lam[j], point.theta(i, j))
    return amp


def intensity(spec, point, weights=None, dyn=None):
    amp = amplitudes(spec, point, weights, dyn)
    ks = sorted({c["k"] for c in spec["chains"]})
    npts = len(point.sigmas[0])
    amp = {key: np.broadcast_to(np.asarray(v, dtype=complex), (npts,)) for key, v in amp.items()}
    return ref.aligned_intensity(spec["spins"], amp, ks, point, spec["ref"])


# a definition file as a spec
def spec_of(definition):
    d = definition["distributions"][0]["decay_description"]
    kin = d["kinematics"]
    states = {kin["initial_state"]["index"]: kin["initial_state"], **{s["index"]: s for s in kin["final_state"]}}
    chains = []
    for c in d["chains"]:
        out = {"name": c["name"]}
        for v in c["vertices"]:
            hel = tuple(F(h) for h in v["helicities"])
            pf = v.get("parity_factor", "+")
            if all(isinstance(n, int) for n in v["node"]):
                out["dec"] = tuple(v["node"])
                out["decv"] = (v["type"], hel, pf)
                ffd = v.get("formfactor", "")
            else:
                (k,) = [n for n in v["node"] if isinstance(n, int)]
                out["k"] = k
                if isinstance(v["node"][0], int):
                    hel = hel[::-1]
                out["prod"] = (v["type"], hel, pf)
                ffp = v.get("formfactor", "")
        out["ff"] = (ffp, ffd)
        p = c["propagators"][0]
        out["J"], out["propagator"] = F(p["spin"]), p["parametrization"]
        out["weight"] = complex(str(c["weight"]).replace(" ", "").replace("i", "j"))
        chains.append(out)
    (k,) = [n for n in d["reference_topology"] if isinstance(n, int)]
    return dict(spins=tuple(F(states[n]["spin"]) for n in range(4)), masses=tuple(states[n]["mass"] for n in range(4)),
                ref=k, functions=definition["functions"], chains=chains)
