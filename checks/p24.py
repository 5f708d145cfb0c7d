"""P24: an interrupted cache write never poisons later lambdify calls."""
import _io
import builtins
import io
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

import ampform_dpd.io.cached as cached
from checks.p20 import DATA, PARAMETERS, direct, evaluate, expression, plain
from mc.core import Fail, fork_call

LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "a killed process leaves a prefix of the bytes it wrote, in order; completed file system operations persist",
    "writes go through Python file objects (other file system calls are crash points as a whole)",
]
WRITE_MODES = set("wax+")


class Crash(BaseException):
    pass


class Recorder:
    """File system stand-in: numbers every event below ``root`` and may crash at one.

    Events are single calls (open for writing, rename, ...) and, for writes, every byte.
    """

    def __init__(self, root, crash_at=None):
        self.root = str(root)
        self.crash_at = crash_at
        self.count = 0
        self.log = []  # (kind, path, snapshot before, data)

    def snapshot(self):
        out = {}
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with RAW["open"](p, "rb") as stream:
                    out[os.path.relpath(p, self.root)] = stream.read()
        return out

    def inside(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def within(self, path):
        return self.inside(path) or os.path.abspath(os.fspath(path)) == self.root

    def event(self, kind, path):
        if self.crash_at is not None and self.count >= self.crash_at:
            os._exit(137)
        if self.crash_at is None:
            self.log.append((self.count, kind, os.path.relpath(os.path.abspath(path), self.root), self.snapshot()))
        self.count += 1

    def write(self, stream, data):
        data = bytes(data) if not isinstance(data, str) else data
        path = os.readlink(f"/proc/self/fd/{stream.fileno()}")  # also right for temporary files
        if self.crash_at is not None and self.count + len(data) > self.crash_at:
            stream.write(data[: self.crash_at - self.count])
            stream.flush()
            os._exit(137)
        if self.crash_at is None:
            stream.flush()
            offset = stream.tell()
            before = self.snapshot()
            name = os.path.relpath(path, self.root)
            if APPEND.get(path):
                offset = len(before.get(name, b""))
            self.log.append((self.count, "write", name, before, data, offset))
        n = stream.write(data)
        stream.flush()
        self.count += len(data)
        return n


class Stream:
    def __init__(self, recorder, stream):
        self._recorder, self._stream = recorder, stream

    def write(self, data):
        return self._recorder.write(self._stream, data)

    def truncate(self, *args):
        self._stream.flush()
        self._recorder.event("truncate", os.readlink(f"/proc/self/fd/{self._stream.fileno()}"))
        return self._stream.truncate(*args)

    def __getattr__(self, name):
        return getattr(self._stream, name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._stream.close()


RAW = {"open": builtins.open, "os.open": os.open}
APPEND = {}


def install(recorder):
    """Only ever called in a forked process."""

    def opener(file, mode="r", *args, **kwargs):
        if not WRITE_MODES & set(mode):
            return RAW["open"](file, mode, *args, **kwargs)
        path = os.readlink(f"/proc/self/fd/{file}") if isinstance(file, int) else file
        if not recorder.within(path):
            return RAW["open"](file, mode, *args, **kwargs)
        if not isinstance(file, int):
            recorder.event("open", file)
        stream = RAW["open"](file, mode, *args, **kwargs)
        APPEND[os.readlink(f"/proc/self/fd/{stream.fileno()}")] = "a" in mode
        return Stream(recorder, stream)

    def low_level_open(path, flags, *args, **kwargs):
        if not isinstance(path, int) and flags & (os.O_CREAT | os.O_TRUNC) and recorder.inside(path):
            recorder.event("open", path)
        return RAW["os.open"](path, flags, *args, **kwargs)

    os.open = low_level_open

    builtins.open = io.open = _io.open = opener
    for name in ("rename", "replace", "unlink", "remove", "link", "symlink", "mkdir", "truncate"):
        raw = getattr(os, name)

        def wrapped(path, *args, _raw=raw, _name=name, **kwargs):
            if not isinstance(path, int) and recorder.inside(path):
                recorder.event(_name, path)
            return _raw(path, *args, **kwargs)

        setattr(os, name, wrapped)


def request(case):
    name, params, backend = case
    chosen = PARAMETERS[params]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if chosen is None:
            return cached.lambdify(expression(name), backend=backend)
        return cached.lambdify(expression(name), dict(chosen), backend=backend)


def record(case, directory):
    os.environ["COMPWA_CACHE_DIR"] = directory
    recorder = Recorder(directory)
    install(recorder)
    request(case)
    return recorder.count, recorder.log, recorder.snapshot()


def crash(case, directory, at):
    os.environ["COMPWA_CACHE_DIR"] = directory
    install(Recorder(directory, at))
    request(case)


def verify(cases, directory):
    """In a fresh process: every request returns a function with the right values."""
    os.environ["COMPWA_CACHE_DIR"] = directory
    for case in cases:
        name, params, _ = case
        try:
            f = request(case)
            got = np.asarray(evaluate(f), dtype=complex)
        except Exception as e:
            return f"request {case} fails with {type(e).__name__}: {e}"
        chosen = PARAMETERS[params]
        want = direct(name, None if chosen is None else {s.name: v for s, v in chosen.items()})
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True):
            return f"request {case} returns a wrong function: {got} instead of {want}"
    return None


def disk_states(count, log, final):
    """The sequence of disk contents, one for every crash point 0..count."""
    states = {}
    for entry in log:
        at, kind, path, before = entry[:4]
        if kind == "write":
            data, offset = entry[4:]
            was = before.get(path, b"").ljust(offset, b"\0")
            if isinstance(data, str):
                data = data.encode()
            for j in range(len(data)):
                states[at + j] = {**before, path: was[:offset] + data[:j] + was[offset + j:]}
        else:
            states[at] = before
    states[count] = final
    return states


def materialise(directory, state):
    for path, data in state.items():
        p = Path(directory) / path
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(data)


def run(check):
    T = check.thorough
    root = str(check.scratch)
    check.extra["rule"] = (
        "every prefix of the bytes written to the cache directory and every point between file system calls, "
        "for every request; afterwards fresh processes repeat the request twice and make another one; "
        "non-trivial: distinct disk contents that are neither empty nor complete"
    )
    for name in ("A", "B", "root", "BW", "minL"):
        plain(name)
    cases = [("A", "none", "numpy"), ("A", "P1", "numpy"), ("root", "complex", "numpy"), ("BW", "P1", "numpy")]
    if T:
        cases += [("minL", "none", "numpy"), ("A", "none", "jax"), ("A", "P1", "jax"), ("BW", "P2", "jax")]
    other = ("B", "P2", "numpy")

    recorded, points = {}, {}
    for case in cases:
        d = tempfile.mkdtemp(dir=root)
        count, log, final = fork_call(record, case, d)
        recorded[case] = disk_states(count, log, final)
        points[case] = sorted(recorded[case])
        shutil.rmtree(d)
    check.extra["distinct_nontrivial"] = len({
        (case, frozenset(state.items()))
        for case, states in recorded.items() for state in states.values() if state and state != states[points[case][-1]]
    })
    check.extra["crash_points_per_request"] = {str(c): len(p) for c, p in points.items()}

    def sandbox(func):
        d = tempfile.mkdtemp(dir=root)
        try:
            return func(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # --- every crash point, disk state reconstructed from the recorded writes
    def body_states(ch):
        case = ch.choose("request", cases)
        return case, ch.choose("crash point", points[case])

    def exec_states(cfg):
        case, at = cfg

        def go(d):
            materialise(d, recorded[case][at])
            for again in range(2):
                problem = fork_call(verify, [case, other] if again == 0 else [other, case, case], d)
                if problem:
                    return [Fail(f"{case} killed after {at} of {points[case][-1]} events, process {again + 1} later: {problem}")]
            return []

        return sandbox(go), 3

    check.explore("every crash point", body_states, exec_states)

    # --- conformance: a process that is really killed leaves exactly that disk state
    def coarse(case, n):
        p = points[case]
        step = max(1, len(p) // n)
        boundaries = {e for e in p if e < 3 or e > p[-1] - 3}
        return sorted(boundaries | set(p[::step]))

    def body_real(ch):
        case = ch.choose("request", cases)
        return case, ch.choose("crash point", coarse(case, 200 if T else 40))

    def exec_real(cfg):
        case, at = cfg

        def go(d):
            killed(case, d, at)
            got = Recorder(d).snapshot()
            if sorted(got.values()) != sorted(recorded[case][at].values()):  # names may be temporary
                return [Fail(f"{case} killed after {at} events: disk has { {k: len(v) for k, v in got.items()} } bytes, "
                             f"model { {k: len(v) for k, v in recorded[case][at].items()} }")]
            problem = fork_call(verify, [case, other, case], d)
            return [Fail(f"{case} really killed after {at} events: {problem}")] if problem else []

        return sandbox(go), 2

    # --- a second crash while the entry is stored again
    def body_twice(ch):
        case = ch.choose("request", cases[:2] if not T else cases[:4])
        return case, ch.choose("first crash", coarse(case, 7)), ch.choose("second crash", coarse(case, 7)), ch.flag("other entry present")

    def exec_twice(cfg):
        case, first, second, more = cfg

        def go(d):
            if more:
                fork_call(verify, [other], d)
            killed(case, d, first)
            killed(case, d, second)
            problem = fork_call(verify, [case, other], d)
            return [Fail(f"{case} killed after {first}, then after {second} events: {problem}")] if problem else []

        return sandbox(go), 3

    check.explore("really killed processes", body_real, exec_real)
    check.explore("killed twice", body_twice, exec_twice)


def killed(case, directory, at):
    """Run the request in a process that dies at event ``at`` (or completes)."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            crash(case, directory, at)
            code = 0
        except BaseException:
            code = 2
        finally:
            os._exit(code)
    os.waitpid(pid, 0)
