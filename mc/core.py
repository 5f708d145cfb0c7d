"""Stateless exhaustive explorer: choice trees, parallel execution, verdicts, evidence.

A *harness* is a function ``body(ch)`` that builds one closed configuration/history by
calling ``ch.choose(label, options)`` for every open decision.  The explorer enumerates
the complete choice tree depth-first by re-running the (deterministic) harness with every
prefix; each leaf is one trace, executed on the real code by ``execute(config)`` and
compared there with an independent reference model.

states       = nodes of the choice tree (partial configurations/histories, incl. the root)
transitions  = edges of the choice tree (choices or operations taken)
traces       = leaves = executions of the real code compared with the reference
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
EXEC_TIMEOUT = 240
FAIL_FAST = bool(os.environ.get("MC_FAIL_FAST"))  # for mutation experiments only


class Divergence(RuntimeError):
    """Replaying a prefix met a different decision: the harness is nondeterministic."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (label, index, n, repr)

    def choose(self, label, options):
        options = list(options)
        if not options:
            raise Prune
        pos = len(self.trace)
        idx = 0
        if pos < len(self.prefix):
            plabel, idx, pn = self.prefix[pos][:3]
            if plabel != label or pn != len(options):
                raise Divergence(f"{plabel}/{pn} vs {label}/{len(options)}")
        self.trace.append((label, idx, len(options), repr(options[idx])[:80]))
        return options[idx]

    def flag(self, label):
        return self.choose(label, [False, True])


class Enough(Exception):
    """One violation was found and no more are asked for."""


class Prune(Exception):
    """Raised by a harness to discard a partial configuration (nothing to explore)."""


def enumerate_tree(body):
    """Yield (trace, config) for all leaves; afterwards .states/.transitions are counted."""
    stats = {"states": 1, "transitions": 0, "leaves": 0, "pruned": 0}

    def run():
        prefix = []
        while True:
            ch = Chooser(prefix)
            try:
                config = body(ch)
                pruned = False
            except Prune:
                config, pruned = None, True
            # nodes below the point of divergence from the previous run are new
            new = len(ch.trace) - (len(prefix) - 1 if prefix else 0)
            stats["states"] += new
            stats["transitions"] += new
            if pruned:
                stats["pruned"] += 1
            else:
                stats["leaves"] += 1
                yield ch.trace, config
            prefix = list(ch.trace)
            while prefix and prefix[-1][1] + 1 >= prefix[-1][2]:
                prefix.pop()
            if not prefix:
                return
            label, idx, n, _ = prefix[-1]
            prefix[-1] = (label, idx + 1, n, None)

    return run(), stats


class Fail:
    """One disagreement.  ``key`` identifies it for the known-findings file."""

    def __init__(self, message, key=None):
        self.message = message
        self.key = key

    def __repr__(self):
        return self.message


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout


_EXECUTORS = {}


def _run_one(job):
    name, trace, config = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        out = _EXECUTORS[name](config)
    except Timeout:
        out = [Fail(f"execution did not finish within {EXEC_TIMEOUT} s")]
    except Exception:
        out = [Fail("unexpected exception:\n" + traceback.format_exc(limit=-8))]
    finally:
        signal.alarm(0)
    steps = 1
    if isinstance(out, tuple):
        out, steps = out
    return name, trace, [(f.message, f.key) for f in out or []], steps


def value(*key, seed=SEED):
    """Generic complex number, a pure function of key and seed (never 'nice')."""
    h = hashlib.sha256(repr((seed, key)).encode()).digest()
    r = int.from_bytes(h[:6], "big") / 2**48
    i = int.from_bytes(h[6:12], "big") / 2**48
    return complex(0.25 + r, i - 0.5)


def real_value(*key, lo=0.0, hi=1.0, seed=SEED):
    h = hashlib.sha256(repr((seed, "real", key)).encode()).digest()
    return lo + (hi - lo) * int.from_bytes(h[:6], "big") / 2**48


class Check:
    level = "model_checking"

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.parts = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.extra = {}
        self.findings = load_findings(pid)
        self.scratch = Path(tempfile.mkdtemp(prefix=f"mc_{pid}_", dir=scratch_root()))
        self.only = None  # replay filter: (part, trace)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------
    def explore(self, name, body, execute, jobs=None, chunk=None):
        t0 = time.time()
        gen, stats = enumerate_tree(body)
        _EXECUTORS[name] = execute
        if self.only is not None:
            part, trace = self.only
            if part != name:
                return
            jobs_iter = [
                (name, tr, cfg) for tr, cfg in gen if [t[:2] for t in tr] == trace
            ]
        else:
            jobs_iter = [(name, tr, cfg) for tr, cfg in gen]
        n = jobs or JOBS
        before = len(self.violations)
        if n == 1 or len(jobs_iter) < 4:
            results = map(_run_one, jobs_iter)
            self._collect(results)
        else:
            if chunk is None:
                chunk = max(1, min(16, len(jobs_iter) // (n * 8)))
            with mp.get_context("fork").Pool(n) as pool:
                self._collect(pool.imap_unordered(_run_one, jobs_iter, chunksize=chunk))
        self.states += stats["states"]
        self.transitions += stats["transitions"]
        self.traces += len(jobs_iter)
        self.parts[name] = {
            "states": stats["states"],
            "transitions": stats["transitions"],
            "traces": len(jobs_iter),
            "violating": len(self.violations) - before,
            "wall_s": round(time.time() - t0, 2),
        }
        for pick in sorted({0, len(jobs_iter) // 2, len(jobs_iter) - 1}):
            if 0 <= pick < len(jobs_iter) and len(self.samples) < 12:
                self.samples.append(
                    {"part": name, "choices": [f"{t[0]}={t[3]}" for t in jobs_iter[pick][1]]}
                )

    def _collect(self, results):
        for name, trace, fails, steps in results:
            self.steps += steps
            for message, key in fails:
                if key is not None and key in self.findings:
                    self.known[key] = self.known.get(key, 0) + 1
                else:
                    self.violations.append((name, trace, message, key))
            if fails and FAIL_FAST and self.violations:
                raise Enough

    def part(self, name, states, transitions, traces, sample=None):
        """Register an exploration that was driven outside :meth:`explore`."""
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.parts[name] = {"states": states, "transitions": transitions, "traces": traces}
        if sample is not None:
            self.samples.append({"part": name, "choices": sample})

    # ------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        coverage = {
            "exhaustive": True,
            "parts": self.parts,
            "samples": self.samples or ["(none)"],
            **self.extra,
        }
        if self.level == "model_checking":
            coverage.update(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
            )
        else:
            coverage.update(
                evaluations=self.traces,
                distinct_nontrivial=self.extra.get("distinct_nontrivial", self.traces),
                rule=self.extra.get("rule", "every leaf of the choice tree"),
            )
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": SEED,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.only is None:
            (ev / f"{self.pid}.json").write_text(json.dumps(evidence, indent=1, default=str))
        for key in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.pid} {self.findings[key]} "
                  f"[{self.known[key]} traces]")
        total = sum(p["traces"] for p in self.parts.values())
        print(f"{self.pid} {self.tier}: {self.states} states, {self.transitions} transitions, "
              f"{total} traces executed, {len(self.violations)} violations, "
              f"{evidence['wall_s']} s")
        if not self.violations:
            return 0
        rdir = ev / "replay"
        rdir.mkdir(exist_ok=True)
        self.violations.sort(key=lambda v: (len(v[1]), [t[1] for t in v[1]]))
        for name, trace, message, key in self.violations[:3]:
            h = hashlib.sha256(repr((name, trace)).encode()).hexdigest()[:8]
            path = rdir / f"{self.pid}-{h}.json"
            path.write_text(json.dumps(
                {"property": self.pid, "tier": self.tier, "part": name, "key": key,
                 "trace": trace, "message": message,
                 "rerun": f"/verif/check {self.pid} {self.tier} --replay {path}"}, indent=1))
            print(f"--- {name}: " + ", ".join(f"{t[0]}={t[3]}" for t in trace))
            print("    " + message.replace("\n", "\n    "))
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def scratch_root():
    root = Path(os.environ.get("MC_SCRATCH", "/tmp/mc_scratch"))
    root.mkdir(parents=True, exist_ok=True)
    return root


def load_findings(pid):
    out = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    warnings.simplefilter("ignore")
    logging.getLogger("ampform.sympy._cache").setLevel(logging.ERROR)
    check = Check(args.pid, args.tier)
    os.environ["COMPWA_CACHE_DIR"] = str(check.scratch / "cache")
    if args.replay:
        rec = json.loads(Path(args.replay).read_text())
        check.tier = rec["tier"]
        check.only = (rec["part"], [t[:2] for t in rec["trace"]])
    try:
        module = importlib.import_module(f"checks.{args.pid.lower()}")
        check.level = getattr(module, "LEVEL", "model_checking")
        check.assumptions = list(getattr(module, "ASSUMPTIONS", []))
        module.run(check)
    except Enough:
        pass
    except Exception:
        check.violations.append(
            ("harness", [], "the code under test could not be driven:\n"
             + traceback.format_exc(), None))
    return check.finish()


# -- small helpers -----------------------------------------------------------
def expect_error(func, *args, kinds=(Exception,), **kw):
    """None if func raised, else a Fail."""
    try:
        out = func(*args, **kw)
    except kinds:
        return None
    return Fail(f"expected an error, got {out!r}")


def fork_call(func, *args):
    """Run ``func`` in a forked process (a fresh memory that shares only the disk)."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", func(*args))
            except BaseException:
                out = ("error", traceback.format_exc(limit=-8))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked process died")
    kind, value_ = pickle.loads(data)
    if kind == "error":
        raise RuntimeError("in forked process:\n" + value_)
    return value_
