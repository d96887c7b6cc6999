"""Controlled scheduling of worker processes that share one filesystem.

Every worker is a forked process whose filesystem calls on the shared area are
sent to the scheduler, which holds the reference filesystem (vmc.memfs.MemFs)
and decides who goes next.  `explore` enumerates every interleaving of those
calls (depth-first, re-executing the workers for each schedule).
Calls on read-only areas commute with everything and are answered at once.
"""
import io
import os
import pickle
import struct

from vmc.core import HarnessError
from vmc.memfs import MemFs
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError()
        out += part
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack(">Q", _read(fd, 8))[0]))


class RpcFs(FilesystemWrapperBase):
    """Worker side: forwards calls to the scheduler, except on private copies."""

    def __init__(self, rfd, wfd, local, shared):
        self.rfd, self.wfd, self.local, self.shared = rfd, wfd, local, shared

    def _call(self, op, path, *a, **k):
        if not self.local.norm(path).startswith(self.shared):
            r = getattr(self.local, op)(path, *a, **k)
            return list(r) if op == "glob" else r
        _send(self.wfd, (op, str(path), a, k))
        kind, value = _recv(self.rfd)
        if kind == "raise":
            raise value
        return value

    def set_default_client_to_gs_client(self):
        pass

    def name(self, path):
        return self.local.name(path)

    def parent(self, path):
        return self.local.parent(path)

    def joinpath(self, *args):
        return self.local.joinpath(*args)

    def glob(self, path, pattern):
        return self._call("glob", path, pattern)

    def open(self, path, mode="r", *a, **k):
        if "r" in mode and "+" not in mode:
            text = self._call("read", path) if self.local.norm(path).startswith(self.shared) \
                else self.local.open(path).read()
            return io.StringIO(text)
        fs = self
        start = fs._call("read", path) if "a" in mode else ""
        fs._call("write_text", path, start)

        class Out(io.StringIO):
            def close(self):
                if not self.closed:
                    fs._call("write_text", path, start + self.getvalue())
                super().close()

            def __exit__(self, *exc):
                self.close()

        return Out()

    def write_text(self, path, data, *a, **k):
        return self._call("write_text", path, data)

    def mkdir(self, path, mode=0o777, parents=False, exist_ok=False):
        return self._call("mkdir", path, parents=parents, exist_ok=exist_ok)

    def unlink(self, path, missing_ok=False):
        return self._call("unlink", path, missing_ok=missing_ok)

    def exists(self, path):
        return self._call("exists", path)

    def is_dir(self, path):
        return self._call("is_dir", path)

    def is_file(self, path):
        return self._call("is_file", path)


def _perform(fs, op, path, a, k):
    try:
        if op == "read":
            with fs.open(path) as f:
                return "ok", f.read()
        r = getattr(fs, op)(path, *a, **k)
        return "ok", list(r) if op == "glob" else r
    except Exception as e:
        return "raise", e


def run(jobs, state, shared, choices):
    """Runs the jobs under the schedule `choices` (then: lowest worker first).

    jobs: functions of a filesystem, executed in forked workers.
    Returns (filesystem, results, taken choices, alternatives at each choice, ops).
    """
    fs = MemFs.load(state)
    pids, rfds, wfds = [], [], []
    for job in jobs:
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for fd in rfds + wfds:
                    os.close(fd)
                os.close(r1)
                os.close(w2)
                try:
                    out = ("ok", job(RpcFs(r2, w1, MemFs.load(state), shared)))
                except Exception as e:
                    out = ("error", f"{type(e).__name__}: {e}")
                _send(w1, ("done", out))
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        pids.append(pid)
        rfds.append(r1)
        wfds.append(w2)
    results = [None] * len(jobs)
    pending = {}
    taken, alts, ops = [], [], []
    try:
        def advance(i):
            try:
                m = _recv(rfds[i])
            except EOFError:
                raise HarnessError(f"worker {i} died")
            if m[0] == "done":
                results[i] = m[1]
                pending.pop(i, None)
            else:
                pending[i] = m

        for i in range(len(jobs)):
            advance(i)
        while pending:
            enabled = sorted(pending)
            if len(taken) < len(choices):
                i = choices[len(taken)]
                if i not in pending:
                    raise HarnessError("schedule does not replay: workers are not deterministic")
            else:
                # stay with the previous worker if possible (no preemption)
                i = taken[-1] if taken and taken[-1] in pending else enabled[0]
            taken.append(i)
            alts.append(enabled)
            m = pending[i]
            ops.append((i, m[0], m[1]))
            _send(wfds[i], _perform(fs, *m))
            advance(i)
    finally:
        for fd in rfds + wfds:
            os.close(fd)
        for pid in pids:
            os.waitpid(pid, 0)
    return fs, results, taken, alts, ops


def preemptions(taken, alts, i, at):
    """Preemptive switches in taken[:at] + [i]."""
    n = 0
    seq = list(taken[:at]) + [i]
    for k in range(1, len(seq)):
        if seq[k] != seq[k - 1] and seq[k - 1] in alts[k]:
            n += 1
    return n


LEVELS = 2


def explore(jobs, state, shared, visit, bound=None, prefix=(), slots=1, slot=0):
    """Depth-first enumeration of all schedules (up to `bound` preemptions).

    The schedules are dealt out over `slots` independent callers, so that the
    space can be explored in parallel: every caller executes the schedules with
    fewer than LEVELS deviations (visiting its share) and its share of the
    subtrees below.  Returns the number of schedules visited.
    """
    count = 0

    index = 0

    def go(choices, level):
        nonlocal count, index
        if level <= LEVELS:
            index += 1
            mine = index % slots == slot
            if level == LEVELS and not mine:
                return
        else:
            mine = True
        out = run(jobs, state, shared, choices)
        fs, results, taken, alts, ops = out
        if mine:
            visit(*out)
            count += 1
        for at in range(len(choices), len(taken)):
            for i in alts[at]:
                if i == taken[at]:
                    continue
                if bound is not None and preemptions(taken, alts, i, at) > bound:
                    continue
                go(taken[:at] + [i], level + 1)

    go(list(prefix), 0)
    return count
