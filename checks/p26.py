"""P26: processes and threads that share a cache directory do not disturb each other."""
import math
import multiprocessing as mp
import os
import shutil
import signal
import tempfile
import time
from pathlib import Path

import numpy as np

from checks.p20 import PARAMETERS, direct, evaluate, plain
from checks.p24 import Recorder, request, verify
from mc.core import EXEC_TIMEOUT, Fail, fork_call
from mc.sched import explore, run_schedule

LEVEL = "model_checking"
ASSUMPTIONS = [
    "scheduling points are the file system calls inside the cache directory; a write may reach the disk in two parts",
    "three workers, killed workers and threads: schedules up to the stated number of preemptions",
]
A1, A2, AN, B2 = ("A", "P1", "numpy"), ("A", "P2", "numpy"), ("A", "none", "numpy"), ("B", "P2", "numpy")


def worker(case, directory):
    os.environ["COMPWA_CACHE_DIR"] = directory
    f = request(case)
    return [np.asarray(evaluate(f), dtype=complex), dict(getattr(f, "parameters", {}))]


def complete_entry(case, directory):
    os.environ["COMPWA_CACHE_DIR"] = directory
    request(case)
    return Recorder(directory).snapshot()


def run(check):
    T = check.thorough
    root = str(check.scratch)
    for name in ("A", "B"):
        plain(name)
    entry = {}
    for case in (A1, A2, AN, B2):
        d = tempfile.mkdtemp(dir=root)
        entry[case] = fork_call(complete_entry, case, d)
        shutil.rmtree(d)

    def initial(directory, kind, case):
        # the directories exist, so that the schedules concentrate on the files
        for path, data in entry[case].items():
            p = Path(directory) / path
            p.parent.mkdir(parents=True, exist_ok=True)
            if kind == "complete":
                p.write_bytes(data)
            elif kind == "torn":
                p.write_bytes(data[: len(data) // 2])
            elif kind == "empty file":
                p.write_bytes(b"")

    def problem_of(results, cases, log, directory):
        for n, ((status, *info), case) in enumerate(zip(results, cases)):
            if status == "killed":
                continue
            if info[0] != "ok":
                return f"request {case} of worker {'ABC'[n]} fails: {info[1].strip().splitlines()[-1]}"
            value, parameters = info[1]
            chosen = PARAMETERS[case[1]]
            start = None if chosen is None else {s.name: v for s, v in chosen.items()}
            want = direct(case[0], start)
            if value.shape != want.shape or not np.allclose(value, want, rtol=1e-9, atol=1e-9, equal_nan=True):
                return f"request {case} of worker {'ABC'[n]} returns a wrong function: {value} instead of {want}"
            if parameters != (start or {}):
                return f"request {case} of worker {'ABC'[n]} has parameters {parameters} instead of {start}"
        later = fork_call(verify, [*dict.fromkeys(cases), B2], directory)
        return f"a later process: {later}" if later else None

    def schedule(cfg, prefix):
        kind, cases, options = cfg
        d = tempfile.mkdtemp(dir=root)
        try:
            initial(d, kind, cases[0])
            choices, results, log = run_schedule(d, worker, [(c, d) for c in cases], prefix, **options)
            problem = problem_of(results, cases, log, d)
            if problem:
                problem += f"\ndisk at first: {kind}; schedule: {', '.join(log)}"
            return choices, problem
        finally:
            shutil.rmtree(d, ignore_errors=True)

    statistics = check.extra.setdefault("schedules", {})
    started = time.monotonic()
    found = mp.get_context("fork").Value("i", 0)

    def estimate(gates, workers, bound, kills):
        """Upper estimate of the number of schedules, to choose a bound that can be completed."""
        if bound is None:
            return math.comb(gates, gates // 2) * math.factorial(workers) // 2
        n = sum(math.comb(gates, j) * (workers - 1) ** j for j in range(bound + 1))
        return n * math.factorial(workers) * (1 + 2 * gates * kills)

    def part(name, setups, fixed, until, preemptions=None, **options):
        width = max(len(c) for _, c in setups) * (2 if options.get("kills") else 1)
        deadline = started + until * (1 if not T else 12)
        bounds = {}
        for setup in setups:
            gates = [len(schedule((*setup, {**options, "preemptions": 0, "kills": 0}), p)[0]) for p in ([], [1])]
            bound = preemptions
            while estimate(max(gates), len(setup[1]), bound, options.get("kills", 0)) > (8000 if not T else 200000) and bound != 0:
                bound = 6 if bound is None else bound - 1
            bounds[setup] = bound

        def body(ch):
            kind, cases = setup = ch.choose("disk and requests", setups)
            return (kind, cases, {**options, "preemptions": bounds[setup]}), [ch.choose(f"choice{i}", list(range(width))) for i in range(fixed)]

        def execute(job):
            cfg, prefix = job
            count, edges = 0, 0

            def one(p):
                signal.alarm(EXEC_TIMEOUT)
                return schedule(cfg, p)

            for choices, problem in explore(one, prefix, fixed):
                count += 1
                edges += len(choices)
                if problem:
                    found.value = 1
                    return [Fail(problem)], 0
                if found.value and check.only is None:
                    break
                if time.monotonic() > deadline:
                    return [], (1 << 62) | (count << 32) | edges
            return [], (count << 32) | edges

        before = check.steps
        check.explore(name, body, execute, chunk=1)
        done = check.steps - before
        truncated, count, edges = done >> 62, (done >> 32) & 0x3FFFFFFF, done & 0xFFFFFFFF
        check.steps = before + edges
        if count:
            reached = {f"{kind}, {len(cases)} workers": "every schedule" if bounds[kind, cases] is None else f"{bounds[kind, cases]} preemptions" for kind, cases in setups}
            statistics[name] = {"schedules": count, "scheduling decisions": edges, "bound": reached}
            if truncated:
                statistics[name]["not completed"] = f"{truncated} of the subtrees stopped by the time limit"
            check.traces += count
            check.transitions += edges
            check.parts[name].update(schedules=count, decisions=edges)

    kinds = ["nothing", "torn", "empty file", "complete"]
    same = {k: (k, (A1, A1)) for k in kinds}
    part("two processes, every schedule", [same["nothing"], same["complete"]], 4, 150)
    part("two processes, different requests", [("nothing", (A1, A2)), ("torn", (AN, A1))], 3, 220, preemptions=2 if not T else 4)
    part("one process is killed", [same[k] for k in kinds[:2]], 3, 290, preemptions=1 if not T else 3, kills=1)
    part("two threads", [same[k] for k in kinds], 3, 360, preemptions=2 if not T else 4, threads=True)
    part("three processes", [(k, (A1, A1, A1)) for k in kinds[: 2 if not T else 4]], 4, 480, preemptions=2 if not T else 3)
    part("two processes, incomplete entry", [same["torn"], same["empty file"]], 4, 600, preemptions=3 if not T else 6)
