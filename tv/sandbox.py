"""Running the real code in forked children of an unprivileged user.

The children can be stopped before any of their file-system effects or network
reads (observed through audit events, not through the code's own names), killed
there, or interleaved with each other.  The network is a script of deliveries.
"""

from __future__ import annotations

import email.message
import errno
import http.client
import io
import os
import pickle
import resource
import select
import shutil
import signal
import socket
import sys
import traceback
import urllib.error
import urllib.request
from pathlib import Path

from tv import core

NOBODY = 65534
CHUNK = 4096
SILENT = 200.0          # seconds without an effect or an end: the code does not come back
WATCHED = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate",
           "os.chmod", "os.chown", "os.utime", "shutil.move", "shutil.rmtree", "shutil.copyfile", "shutil.unpack_archive"}


def scratch_dir(ctx, name) -> Path:
    """A directory of its own that the unprivileged user owns."""
    d = ctx.scratch / name
    d.mkdir(parents=True)
    give(d)
    return d


def give(path: Path):
    if os.geteuid() == 0:
        for p in [path, *path.rglob("*")]:
            os.chown(p, NOBODY, NOBODY, follow_symlinks=False)


def wipe(path: Path):
    if path.is_symlink() or path.is_file():
        path.unlink()
    elif path.exists():
        shutil.rmtree(path)


# ---- the network -----------------------------------------------------------
class _Sock:
    def __init__(self, f):
        self.f = f

    def makefile(self, *_a, **_k):
        return self.f


class _Body(io.RawIOBase):
    """A connection: header and body bytes, then end of stream or an error."""

    def __init__(self, data, error):
        self.data, self.pos, self.error = data, 0, error

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), CHUNK, len(self.data) - self.pos)
        if n <= 0:
            if self.error is not None:
                raise self.error
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class _Response(http.client.HTTPResponse):
    step = None

    def read(self, amt=None):
        if self.step:
            self.step("net.read", ())
        return super().read(amt if amt is None or amt < 0 else min(amt, CHUNK))

    def readinto(self, b):
        if self.step:
            self.step("net.read", ())
        return super().readinto(memoryview(b)[:CHUNK])


class Network(urllib.request.BaseHandler):
    """Serves a script of deliveries, one per request; afterwards the last one."""

    handler_order = 100

    def __init__(self, script, log, step):
        self.script, self.log, self.step = list(script), log, step
        self.n = 0

    def default_open(self, req):
        d = self.script[min(self.n, len(self.script) - 1)] if self.script else dict(kind="refuse")
        self.n += 1
        self.log(("fetch", req.full_url, d.get("label", d["kind"])))
        self.step("net.request", ())
        kind = d["kind"]
        if kind == "refuse":
            raise urllib.error.URLError(ConnectionRefusedError("scripted"))
        if kind == "timeout":
            raise TimeoutError("scripted")
        body = d.get("body", b"")
        status = 503 if kind == "http" else 200
        if kind == "notHttp":
            raise http.client.BadStatusLine("scripted")     # as the standard opener passes it on
        head = f"HTTP/1.1 {status} X\r\nConnection: close\r\nContent-Type: application/octet-stream\r\n"
        if d.get("length") is not None:
            head += f"Content-Length: {d['length']}\r\n"
        if kind == "chunked":       # the size of the last chunk is never reached
            head += "Transfer-Encoding: chunked\r\n"
            body = b"%x\r\n" % (len(body) + 10) + body
        err = ConnectionResetError("scripted") if kind == "reset" else \
            (socket.timeout("scripted") if kind == "stall" else None)
        r = _Response(_Sock(io.BufferedReader(_Body(head.encode() + b"\r\n" + body, err), CHUNK)), method="GET")
        r.step = self.step
        r.begin()
        r.url = req.full_url
        r.msg = r.reason
        if status != 200:
            raise urllib.error.HTTPError(req.full_url, status, "scripted", email.message.Message(), r)
        return r


# ---- children ----------------------------------------------------------------
class Child:
    """fn(*args) in a forked child; start(), then step() or finish()."""

    def __init__(self, fn, *, script=(), root: Path, kill_at=None, gated=False, umask=0o022, fail_at=None,
                 fail_for=1, fsize=None):
        self.fn, self.script, self.root = fn, script, str(root)
        self.kill_at, self.gated = kill_at, gated
        self.fail_at, self.fail_for, self.fsize = fail_at, fail_for, fsize   # a disk that refuses
        self.refused = 0
        self.events, self.fetches, self.result = [], [], None
        self.alive = False
        self.umask = umask

    def start(self):
        # so that the children find everything imported
        import bz2, gzip, tarfile, tempfile, uuid, zlib  # noqa: E401,F401
        import torchrir.datasets  # noqa: F401
        import torchrir.io  # noqa: F401

        up_r, up_w = os.pipe()
        dn_r, dn_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(up_r)
            os.close(dn_w)
            code = 120
            try:
                code = self._child(up_w, dn_r)
            finally:
                os._exit(code)
        os.close(up_w)
        os.close(dn_r)
        self.up, self.dn = up_r, dn_w
        self.alive = True
        self._wait()
        return self

    def _child(self, up, dn):
        devnull = os.open("/dev/null", os.O_RDWR)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        if os.geteuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        if self.fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.fsize, self.fsize))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        os.umask(self.umask)
        os.chdir(self.root)
        os.environ["TMPDIR"] = self.root
        import tempfile
        tempfile.tempdir = None
        count = [0]
        busy = [True]

        def send(obj):
            b = pickle.dumps(obj)
            b = len(b).to_bytes(4, "big") + b
            while b:
                b = b[os.write(up, b):]

        def step(name, info):
            count[0] += 1
            if self.kill_at is not None and count[0] >= self.kill_at:
                send(("killed", name))
                os._exit(137)
            if self.gated:
                send(("event", name, info))
                if os.read(dn, 1) != b"g":
                    os._exit(137)

        def hook(name, args):
            if busy[0] or name not in WATCHED:
                return
            paths = [os.fsdecode(a) for a in args if isinstance(a, (str, bytes))]
            if not any(p.startswith(self.root) or not p.startswith("/") for p in paths if p):
                return
            if name == "open" and (not isinstance(args[0], (str, bytes)) or ".py" in paths[0]):
                return
            busy[0] = True
            try:
                step(name, paths[:2])
                if self.fail_at is not None and self.fail_at <= count[0] < self.fail_at + self.fail_for:
                    send(("refused", name, paths[:1]))
                    raise OSError(errno.ENOSPC, "No space left on device", *paths[:1])
            finally:
                busy[0] = False

        sys.addaudithook(hook)
        net = Network(self.script, send, step)
        urllib.request.install_opener(urllib.request.build_opener(net))
        if self.gated:
            send(("event", "start", ()))
            if os.read(dn, 1) != b"g":
                os._exit(137)
        busy[0] = False
        try:
            v = self.fn()
            out = ("ok", v)
        except Exception as exc:  # noqa: BLE001
            out = ("err", type(exc).__name__, str(exc)[:300], isinstance(exc, OSError), traceback.format_exc()[-600:])
        busy[0] = True
        send(("end", out, count[0]))
        return 0

    def _read(self, n):
        b = b""
        while len(b) < n:
            if not select.select([self.up], [], [], SILENT)[0]:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                raise core.Stuck()
            part = os.read(self.up, n - len(b))
            if not part:
                break
            b += part
        return b

    def _recv(self):
        h = self._read(4)
        if len(h) < 4:
            return None
        return pickle.loads(self._read(int.from_bytes(h, "big")))

    def _wait(self):
        """Read until the next stop, or the end."""
        while True:
            m = self._recv()
            if m is None or m[0] == "killed":
                self.result = self.result or ("killed",)
                break
            if m[0] == "fetch":
                self.fetches.append(m[1:])
            elif m[0] == "refused":
                self.refused += 1
            elif m[0] == "event":
                self.events.append(m[1:])
                return
            elif m[0] == "end":
                self.result = m[1]
                self.count = m[2]
                break
        self.alive = False
        os.close(self.up)
        os.close(self.dn)
        os.waitpid(self.pid, 0)

    def step(self):
        os.write(self.dn, b"g")
        self._wait()

    def finish(self):
        while self.alive:
            self.step()
        return self.result

    def kill(self):
        if self.alive:
            os.write(self.dn, b"k")
            self._wait()


def run(fn, **k):
    c = Child(fn, **k).start()
    c.finish()
    return c


def tree(root: Path) -> dict:
    """Relative path -> contents, 'dir' or link target, without following links."""
    out = {}
    if not os.path.lexists(root):
        return out
    for d, ds, fs in os.walk(root, followlinks=False):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = "dir"
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    out[r] = f.read()
            else:
                out[r] = "special"
    return out
