"""Two calls in two threads, switched at chosen lines of the library.

Each thread is traced; before every line of the library it asks whether it may
go on.  A schedule is a list of runs (thread, ticks): the thread runs so many
lines and then stops before the next one.  A thread that cannot go on (it waits
for something the other holds) loses its turn after a moment, so that a library
with real locks is merely scheduled differently.
"""

from __future__ import annotations

import os
import pickle
import sys
import threading

PATIENCE = 0.4


class Gate:
    def __init__(self, root, schedule, n=2, opcodes=False):
        self.root, self.n, self.opcodes = root, n, opcodes
        self.runs = [list(r) for r in schedule]
        if self.runs:       # then each of the others to its end, then the one stopped last
            self.runs += [[t, 10 ** 9] for t in range(n) if t != self.runs[-1][0]]
        self.cond = threading.Condition()
        self.done = [False] * n
        self.tick_no = 0
        self.switches = 0
        self.forced = 0
        self.ticks = [0] * n
        self.where = [[] for _ in range(n)]
        self.keep = False

    def turn(self):
        """Whose turn it is: the first run of a thread that is not finished."""
        while self.runs and (self.runs[0][1] <= 0 or self.done[self.runs[0][0]]):
            self.runs.pop(0)
            self.switches += 1
        if self.runs:
            return self.runs[0][0]
        for t in range(self.n):
            if not self.done[t]:
                return t
        return None

    def tick(self, t, frame):
        with self.cond:
            seen = self.tick_no
            while self.turn() != t:
                if not self.cond.wait(PATIENCE):
                    if self.tick_no == seen:        # nobody moved: the other one is stuck
                        self.runs.insert(0, [t, 10 ** 9])
                        self.forced += 1
                        break
                    seen = self.tick_no
            self.tick_no += 1
            self.ticks[t] += 1
            if self.keep:
                self.where[t].append((frame.f_code.co_filename, frame.f_lineno))
            if self.runs and self.runs[0][0] == t:
                self.runs[0][1] -= 1
            self.cond.notify_all()

    def end(self, t):
        with self.cond:
            self.done[t] = True
            self.cond.notify_all()

    def tracer(self, t):
        root, op = self.root, self.opcodes

        def local(frame, event, arg):
            if event == ("opcode" if op else "line"):
                self.tick(t, frame)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if op:
                frame.f_trace_opcodes = True
            return local
        return trace


def together(root, fns, schedule, opcodes=False, keep=False):
    """Run the functions in threads under the schedule: their outcomes, and the gate."""
    gate = Gate(root, schedule, len(fns), opcodes)
    gate.keep = keep
    out = [("none", None)] * len(fns)
    ready = threading.Barrier(len(fns))

    def body(t, fn):
        ready.wait()
        sys.settrace(gate.tracer(t))
        try:
            out[t] = ("ok", fn())
        except BaseException as exc:  # noqa: BLE001
            out[t] = ("err", repr(exc)[:400])
        finally:
            sys.settrace(None)
            gate.end(t)
    ths = [threading.Thread(target=body, args=(t, fn), daemon=True) for t, fn in enumerate(fns)]
    for th in ths:
        th.start()
    for th in ths:
        th.join(60)
    return out, gate


def forked(fn):
    """fn() in a forked child: its value (pickled through a pipe) or None if it died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            code = 0
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def pool(jobs, fn, workers=8, until=None):
    """fn(job) for every job, each in a fork of its own, `workers` at a time."""
    import selectors

    sel = selectors.DefaultSelector()
    out = [None] * len(jobs)
    live, nxt = 0, 0
    jobs = list(jobs)
    while nxt < len(jobs) or live:
        while nxt < len(jobs) and live < workers and not (until and until(out)):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(fn(jobs[nxt]), f)
                except BaseException:  # noqa: BLE001
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            sel.register(r, selectors.EVENT_READ, (nxt, pid, bytearray()))
            nxt += 1
            live += 1
        if not live:
            break
        for key, _ in sel.select():
            i, pid, buf = key.data
            b = os.read(key.fd, 1 << 16)
            if b:
                buf += b
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            os.waitpid(pid, 0)
            live -= 1
            out[i] = pickle.loads(bytes(buf)) if buf else None
    return out
