"""The simulated disk: every file operation under a scratch root is a numbered, controllable step.

Real files hold the bytes; the plan decides at which step an operation fails, the process dies or
another task runs.  Paths are reported relative to the root, with temporary names normalised.
"""
import builtins
import errno
import io
import os
import pathlib
import random
import shutil
import tempfile

from .core import SimCrash
from .sched import Patcher, cur

_open = builtins.open
_os = {n: getattr(os, n) for n in ("open", "rename", "replace", "remove", "unlink", "link", "symlink", "mkdir", "rmdir", "truncate", "chmod", "stat", "listdir", "urandom", "getpid", "fsync", "walk")}

ERRNOS = ("ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EINTR")


def oserror(name, path):
    return OSError(getattr(errno, name), os.strerror(getattr(errno, name)), path)


class Disk:
    """faults: {step: ["error", errno-name] | ["crash"]}; on_step(n, op, path) observes every step."""

    def __init__(self, st, faults=(), on_step=None, seed=0, ops=None, prefix="dst-"):
        self.st = st
        self.root = tempfile.mkdtemp(prefix=prefix)
        self.roots = [self.root]
        self.faults = {int(k): v for k, v in dict(faults).items()}
        self.on_step = on_step
        self.step = 0
        self.armed = True
        self.P = Patcher()
        self.rng = random.Random(seed)
        self.names = {}
        self.fired = []
        self.handles = []
        self.read_mode = None
        self.crash_hook = None
        self.ops = []
        self.scope = None  # only operations while scope() is true are numbered

    # ---- naming
    def rel(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = p.decode(errors="replace")
        p = os.path.join(os.getcwd(), p)
        for r in self.roots:
            if p == r or p.startswith(r + os.sep):
                return os.path.relpath(p, r)
        return None

    def norm(self, rel):
        """Stable name for logging: temporary names are numbered in order of appearance."""
        if rel in self.stable:
            return rel
        if rel not in self.names:
            self.names[rel] = "tmp%d" % len(self.names)
        return self.names[rel]

    stable = ()

    # ---- the step
    def hit(self, op, path, after=False):
        rel = self.rel(path)
        if rel is None or not self.armed:
            return
        self.step += 1
        n = self.step
        self.ops.append((n, op, rel))
        self.st.log("disk", n, op, self.norm(rel))
        self.st.op("disk:" + op.split(":")[0])
        if self.on_step is not None:
            self.armed = False
            try:
                self.on_step(n, op, rel)
            finally:
                self.armed = True
        s = cur()
        if s is not None and s.current is not None:
            s.point("disk:" + op)
        f = self.faults.get(n)
        if f is None:
            return
        self.fired.append((n, op, f[0]))
        if f[0] == "error":
            self.st.fault("%s@%s" % (f[1], op))
            raise oserror(f[1], str(path))
        if f[0] == "raise":
            self.st.fault("%s@%s" % (f[1], op))
            raise getattr(builtins, f[1])("injected")
        if f[0] == "crash":
            self.st.fault("crash@%s" % op)
            if self.crash_hook is not None:
                self.crash_hook()
            raise SimCrash()

    def _wrap1(self, name):
        real = _os.get(name) or getattr(os, name)

        def f(path, *a, **k):
            self.hit(name, path)
            r = real(path, *a, **k)
            return r

        f.__name__ = name
        return f

    def _wrap2(self, name):
        real = _os.get(name) or getattr(os, name)

        def f(src, dst, *a, **k):
            self.hit(name, dst if self.rel(dst) is not None else src)
            r = real(src, dst, *a, **k)
            if self.on_step is not None and self.armed and self.rel(dst) is not None:
                self.armed = False
                try:
                    self.on_step(self.step, name + ":done", self.rel(dst))
                finally:
                    self.armed = True
            return r

        f.__name__ = name
        return f

    def _sim_open(self, file, mode="r", *a, **k):
        if isinstance(file, int) or self.rel(file) is None:
            return _open(file, mode, *a, **k)
        writing = any(c in mode for c in "wax+")
        self.hit("open-write" if writing else "open-read", file)
        f = _open(file, mode, *a, **k)
        if self.armed:
            self.handles.append((self.rel(file), f))
            if not writing and self.read_mode is not None:
                f = self.read_mode(self, f, file, mode, a, k)
                self.handles[-1] = (self.rel(file), f)
            elif writing:
                f = self._writer(f, file, mode)
                self.handles[-1] = (self.rel(file), f)
        return f

    def _writer(self, f, file, mode):
        disk = self
        base = type(f)
        # count each write as a step by shadowing the bound method
        try:
            real = f.write

            def write(data):
                disk.hit("write", file)
                return real(data)

            f.write = write
        except AttributeError:
            pass
        return f

    def _nc_step(self, point, filename, ds):
        self.hit(point, filename)

    # ---- install / remove
    def __enter__(self):
        import iris.fileformats.netcdf as nc

        P = self.P
        for n in ("remove", "unlink", "mkdir", "rmdir", "truncate"):
            P.set(os, n, self._wrap1(n))
        for n in ("rename", "replace", "link", "symlink"):
            P.set(os, n, self._wrap2(n))
        acc = getattr(pathlib, "_NormalAccessor", None)
        if acc is not None:
            for n in ("rename", "replace", "unlink", "symlink", "mkdir", "rmdir"):
                if hasattr(acc, n):
                    P.set(acc, n, staticmethod(self._wrap2(n) if n in ("rename", "replace", "symlink") else self._wrap1(n)))
        P.set(builtins, "open", self._sim_open)
        P.set(io, "open", self._sim_open)
        P.set(os, "urandom", lambda n: bytes(self.rng.getrandbits(8) for _ in range(n)))
        P.set(nc, "STEP", self._nc_step)
        self._rand_state = random.getstate()
        random.seed(self.rng.random())
        P.set(tempfile, "_name_sequence", None)
        return self

    def __exit__(self, *exc):
        self.P.undo()
        random.setstate(self._rand_state)
        for r in self.roots:
            shutil.rmtree(r, ignore_errors=True)

    # ---- helpers used by properties
    def pause(self):
        disk = self

        class Pause:
            def __enter__(self):
                self.was = disk.armed
                disk.armed = False

            def __exit__(self, *a):
                disk.armed = self.was

        return Pause()

    def restart(self):
        """A new process on what the disk holds now: same content, new file identities."""
        with self.pause():
            new = tempfile.mkdtemp(prefix="dst-r-")
            copytree(self.root, new)
            self.roots.append(new)
            self.root = new
        return new

    def listing(self):
        out = {}
        with self.pause():
            for d, dirs, files in _os["walk"](self.root):
                for f in files:
                    p = os.path.join(d, f)
                    s = os.lstat(p)
                    out[os.path.relpath(p, self.root)] = (s.st_ino, s.st_size, s.st_mtime_ns)
        return out

    def read(self, rel):
        with _open(os.path.join(self.root, rel), "rb") as f:
            return f.read()


def copytree(src, dst):
    for d, dirs, files in os.walk(src):
        rd = os.path.relpath(d, src)
        for x in dirs:
            os.makedirs(os.path.join(dst, rd, x), exist_ok=True)
        for f in files:
            p = os.path.join(d, f)
            q = os.path.join(dst, rd, f)
            if os.path.islink(p):
                os.symlink(os.readlink(p), q)
            else:
                with _open(p, "rb") as a, _open(q, "wb") as b:
                    b.write(a.read())
