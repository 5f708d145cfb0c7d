"""Controlled scheduler: every file system operation of several workers is a scheduling point.

Workers (forked processes, or threads of one forked process) run the real code.  Before
every operation below ``root`` a worker reports the operation and waits for permission, so
that exactly one worker moves at a time and the controller decides which.  ``explore``
enumerates all schedules depth-first by re-execution, up to a bound on preemptions (moving
another worker although the last one could continue) and on killed workers.
"""
from __future__ import annotations

import builtins
import io
import os
import pickle
import select
import signal
import struct
import threading
import traceback

RAW_OPEN = builtins.open
LOCAL = threading.local()
BLOCKED_AFTER = 1.0  # s asleep without a report: the worker waits for another one (e.g. a lock)
STUCK_AFTER = 120.0


def send(fd, obj):
    data = pickle.dumps(obj)
    os.write(fd, struct.pack("<I", len(data)) + data)


def receive(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            got = os.read(fd, n - len(out))
            if not got:
                raise EOFError
            out += got
        return out

    (n,) = struct.unpack("<I", exactly(4))
    return pickle.loads(exactly(n))


def gate(op, path=""):
    channel = getattr(LOCAL, "channel", None)
    if channel is None:
        return
    up, down = channel
    send(up, ("at", op, os.path.basename(str(path))[:6]))
    if not os.read(down, 1):
        os._exit(0)


class GatedFile(io.FileIO):
    """Unbuffered file: every system call is a scheduling point, writes are split in two."""

    def readinto(self, buffer):
        gate("read", self.name)
        return super().readinto(buffer)

    def read(self, *args):
        gate("read", self.name)
        return super().read(*args)

    def readall(self):
        gate("read", self.name)
        return super().readall()

    def write(self, data):
        gate("write", self.name)
        view = memoryview(data).cast("B")
        self.halved = len(view) > 64 and not getattr(self, "halved", False)
        return super().write(view[: (len(view) + 1) // 2] if self.halved else view)

    def truncate(self, *args):
        gate("truncate", self.name)
        return super().truncate(*args)


def install(root):
    """Only ever called in a forked process."""
    root = os.path.abspath(root)

    def inside(path):
        try:
            path = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return False
        return path == root or path.startswith(root + os.sep)

    def opener(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not inside(file):
            return RAW_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        gate("open " + mode.replace("b", ""), file)
        raw = GatedFile(file, mode.replace("b", "").replace("t", ""), closefd, opener)
        if buffering == 0:
            return raw
        if "+" in mode:
            out = io.BufferedRandom(raw)
        elif "r" in mode:
            out = io.BufferedReader(raw)
        else:
            out = io.BufferedWriter(raw)
        return out if "b" in mode else io.TextIOWrapper(out, encoding, errors, newline)

    builtins.open = io.open = opener
    import _io

    _io.open = opener

    def wrap(name, directories=True):
        raw = getattr(os, name)

        def wrapped(path, *args, **kwargs):
            if not isinstance(path, int) and inside(path) and (directories or not os.path.isdir(path)):
                gate(name, path)
            return raw(path, *args, **kwargs)

        setattr(os, name, wrapped)

    isdir = os.path.isdir

    def quiet_isdir(path):
        return isdir(path)

    os.path.isdir = quiet_isdir
    raw_stat = os.stat

    def stat(path, *args, **kwargs):
        if not isinstance(path, int) and inside(path):
            try:
                directory = (raw_stat(path).st_mode & 0o170000) == 0o040000
            except OSError:
                directory = False
            if not directory:
                gate("stat", path)
        return raw_stat(path, *args, **kwargs)

    os.stat = stat
    for name in ("rename", "replace", "unlink", "remove", "link", "symlink", "truncate"):
        wrap(name)


def _work(func, args, channel, thread):
    LOCAL.channel = channel
    if thread:
        gate("start")
    try:
        out = ("ok", func(*args))
    except BaseException:
        out = ("error", traceback.format_exc(limit=-4))
    LOCAL.channel = None
    send(channel[0], ("done", *out))


def asleep(pid):
    """No thread of this child process runs or waits for the disk."""
    try:
        for task in os.listdir(f"/proc/{pid}/task"):
            with RAW_OPEN(f"/proc/{pid}/task/{task}/stat") as f:
                if f.read().rpartition(")")[2].split()[0] in "RD":
                    return False
    except OSError:
        return False
    return True


class Group:
    """Workers of one schedule."""

    def __init__(self, root, func, arglist, threads):
        n = len(arglist)
        self.up = [os.pipe() for _ in range(n)]
        self.down = [os.pipe() for _ in range(n)]
        self.pids = []
        channels = [(self.up[i][1], self.down[i][0]) for i in range(n)]
        groups = [list(range(n))] if threads else [[i] for i in range(n)]
        for members in groups:
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(0)
                    for i in range(n):
                        os.close(self.up[i][0])
                        os.close(self.down[i][1])
                        if i not in members:
                            os.close(self.up[i][1])
                            os.close(self.down[i][0])
                    install(root)
                    if len(members) == 1:
                        _work(func, arglist[members[0]], channels[members[0]], False)
                    else:
                        pool = [threading.Thread(target=_work, args=(func, arglist[i], channels[i], True)) for i in members]
                        for t in pool:
                            t.start()
                        for t in pool:
                            t.join()
                finally:
                    os._exit(0)
            self.pids.append(pid)
        for i in range(n):
            os.close(self.up[i][1])
            os.close(self.down[i][0])
        self.n, self.threads = n, threads
        self.status = ["running"] * n  # running, at, done, killed
        self.info = [None] * n
        self.log = []

    def settle(self):
        """Wait until every worker waits at a gate, is done, killed, or is blocked by another."""
        waited, slept = 0.0, 0.0
        while True:
            running = [i for i in range(self.n) if self.status[i] == "running"]
            if not running:
                return
            ready, _, _ = select.select([self.up[i][0] for i in running], [], [], 0.1)
            if not ready:
                waited += 0.1
                sleeping = all(asleep(self.pids[0 if self.threads else i]) for i in running)
                slept = slept + 0.1 if sleeping else 0.0
                if slept >= BLOCKED_AFTER and any(s == "at" for s in self.status):
                    return
                if waited >= STUCK_AFTER:
                    raise TimeoutError("no worker makes progress: " + ", ".join(self.log[-8:]))
                continue
            for i in running:
                if self.up[i][0] in ready:
                    try:
                        kind, *info = receive(self.up[i][0])
                    except EOFError:
                        kind, info = "done", ["error", "the process died"]
                    self.status[i], self.info[i] = kind, info

    def enabled(self):
        return [i for i in range(self.n) if self.status[i] == "at"]

    def step(self, i):
        self.log.append(f"{'ABC'[i]}:{' '.join(self.info[i]).strip()}")
        self.status[i] = "running"
        os.write(self.down[i][1], b"x")

    def kill(self, i):
        self.log.append(f"{'ABC'[i]} killed before {' '.join(self.info[i]).strip()}")
        self.status[i] = "killed"
        os.kill(self.pids[i], signal.SIGKILL)

    def close(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in self.pids:
            os.waitpid(pid, 0)
        for i in range(self.n):
            os.close(self.up[i][0])
            os.close(self.down[i][1])


def run_schedule(root, func, arglist, prefix, *, threads=False, preemptions=None, kills=0):
    """Execute one schedule.  Returns (choices as (index, number of options), results, log)."""
    group = Group(root, func, arglist, threads)
    choices, last, used, killed = [], None, 0, 0
    try:
        group.settle()
        while True:
            enabled = group.enabled()
            if not enabled:
                if all(s in ("done", "killed") for s in group.status):
                    break
                group.settle()
                continue
            if last in enabled:
                order = [last, *[i for i in enabled if i != last]]
                if preemptions is not None and used >= preemptions:
                    order = [last]
            else:
                order = enabled
            options = [("step", i) for i in order]
            if killed < kills and not threads:
                options += [("kill", i) for i in order]
            pos = len(choices)
            index = min(prefix[pos], len(options) - 1) if pos < len(prefix) else 0
            choices.append((index, len(options)))
            kind, i = options[index]
            if last in enabled and i != last:
                used += 1
            if kind == "kill":
                group.kill(i)
                killed += 1
            else:
                group.step(i)
                last = i
            group.settle()
        return choices, [(s, *(info or ())) for s, info in zip(group.status, group.info)], group.log
    finally:
        group.close()


def explore(run, prefix, fixed):
    """All schedules below ``prefix`` (first ``fixed`` choices stay as they are).

    ``run(prefix)`` executes one schedule and returns (choices, problem or None).
    Yields the choices and the problem; stops silently if ``prefix`` is not realisable.
    """
    prefix = list(prefix)
    while True:
        choices, problem = run(prefix)
        done = [c[0] for c in choices]
        if done[: len(prefix[:fixed])] != prefix[:fixed]:
            # fewer decisions or options than the prefix assumes: another job covers it
            return
        yield choices, problem
        while len(choices) > fixed and choices[-1][0] + 1 >= choices[-1][1]:
            choices.pop()
        if len(choices) <= fixed:
            return
        prefix = [c[0] for c in choices[:-1]] + [choices[-1][0] + 1]
