"""File operations of simulated processes: every one is a point to stop, fail or switch.

Operations inside the scratch directory are carried out on real files there;
writing anywhere else is refused.  What a killed process leaves behind is what
it had handed to the operating system, which for buffered data may be any prefix
of what it wrote.
"""
import builtins
import contextlib
import errno
import io
import os
import tempfile


from . import core

_open, _os_open, _os_write, _os_close = builtins.open, os.open, os.write, os.close
_replace, _rename, _remove, _fsync, _getpid = os.replace, os.rename, os.remove, os.fsync, os.getpid


class SimKilled(BaseException):
    """The process is gone; nothing of it runs any more."""


class Names:
    """Deterministic names for temporary files."""

    def __init__(self, disk):
        self.disk = disk

    def __iter__(self):
        return self

    def __next__(self):
        self.disk.names += 1
        return "t%05d" % self.disk.names


class WriteFile:
    """A file opened for writing by a simulated process."""

    def __init__(self, disk, path, real, proc):
        self.disk, self.path, self.real, self.proc = disk, path, real, proc
        self.flushed = self.pos = os.path.getsize(path)
        self.closed_ = False
        disk.handles.append(self)

    def _dead(self):
        return self.proc is not None and self.proc.dead

    def write(self, data):
        if self._dead():
            return len(data)
        cut = self.disk.op(self.proc, "write", self.path, len(data))
        if cut is not None:
            part = data[:int(len(data) * cut[1])]
            self.real.write(part)
            self.real.flush()
            self.pos = self.real.tell()
            self.disk.strike(self.proc, cut)
        self.real.write(data)
        self.real.flush()
        self.pos = self.real.tell()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self._dead():
            return
        self.flushed = self.pos

    def truncate(self, size=None):
        if self._dead():
            return size
        cut = self.disk.op(self.proc, "truncate", self.path, 0)
        if cut is not None:
            self.disk.strike(self.proc, cut)
        return self.real.truncate(size)

    def close(self):
        if self.closed_:
            return
        self.closed_ = True
        if self._dead():
            self.real.close()
            return
        cut = self.disk.op(self.proc, "close", self.path, 0)
        self.disk.handles.remove(self)
        if cut is not None:
            if cut[0] != "kill" and self.pos > self.flushed:
                self.real.truncate(self.flushed + int((self.pos - self.flushed) * cut[1]))
            self.real.close()
            self.disk.handles.append(self)
            try:
                self.disk.strike(self.proc, cut)
            finally:
                if self in self.disk.handles:
                    self.disk.handles.remove(self)
        self.real.close()

    @property
    def closed(self):
        return self.closed_

    @property
    def name(self):
        return self.path

    def fileno(self):
        return self.real.fileno()

    def tell(self):
        return self.real.tell()

    def seek(self, *a):
        return self.real.seek(*a)

    def read(self, *a):
        return self.real.read(*a)

    def readline(self, *a):
        return self.real.readline(*a)

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.real.close()
        except Exception:
            pass


class Disk:
    """One directory shared by simulated processes.

    `point(proc, op, path)` is called before every operation (scheduler, observer).
    """

    def __init__(self, root, point=None):
        self.root = os.path.realpath(root)
        self.point = point
        self.current = None         # process whose code is running
        self.handles = []
        self.fds = {}
        self.names = 0
        self.log = []

    def inside(self, path):
        if isinstance(path, int):
            return False
        p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.realpath(path), self.root)

    def op(self, proc, kind, path, size):
        """Announce an operation; returns the fault that hits it, if any."""
        if proc is None:
            return None
        if self.point is not None:
            self.point(proc, kind, self.rel(path))
        k = proc.ops
        proc.ops += 1
        self.log.append((proc.pid, kind, self.rel(path), size))
        f = proc.faults.get(k)
        if f is not None:
            proc.hit.append((f[0], kind, self.rel(path)))
        return f

    def strike(self, proc, fault):
        if fault[0] == "kill":
            self.kill(proc, fault[1])
            raise SimKilled()
        raise OSError(errno.ENOSPC if fault[0] == "enospc" else errno.EIO, os.strerror(errno.ENOSPC if fault[0] == "enospc" else errno.EIO))

    def kill(self, proc, part):
        """The process dies: unflushed data may be lost from the end."""
        proc.dead = True
        for h in list(self.handles):
            if h.proc is proc:
                keep = h.flushed + int((h.pos - h.flushed) * part)
                try:
                    h.real.close()
                except Exception:
                    pass
                if os.path.exists(h.path) and os.path.getsize(h.path) > keep:
                    with _open(h.path, "r+b") as f:
                        f.truncate(keep)
                self.handles.remove(h)

    def simple(self, kind, real, path, *rest, **kw):
        """An operation that happens entirely or not at all."""
        proc = self.current
        if proc is None:
            return real(path, *rest, **kw)
        if proc.dead:
            return None
        if not self.inside(path) or (rest and isinstance(rest[0], (str, bytes, os.PathLike)) and not self.inside(rest[0])):
            raise core.HarnessError("%s outside the scratch directory: %s" % (kind, path))
        f = self.op(proc, kind, rest[0] if rest and kind in ("replace", "rename") else path, 0)
        if f is not None:
            self.strike(proc, f)
        return real(path, *rest, **kw)

    # -- replacements ----------------------------------------------------------
    def open(self, file, mode="r", *args, **kw):
        proc = self.current
        if proc is None or not isinstance(mode, str):
            return _open(file, mode, *args, **kw)
        writes = any(c in mode for c in "wax+")
        if isinstance(file, int):
            if file in self.fds and writes:
                path, owner = self.fds[file]
                real = _open(file, mode, *args, **kw)
                return WriteFile(self, path, real, owner)
            return _open(file, mode, *args, **kw)
        if not writes:
            if proc.dead:
                raise SimKilled()
            if self.inside(file):
                f = self.op(proc, "read", file, 0)
                if f is not None:
                    self.strike(proc, f)
            return _open(file, mode, *args, **kw)
        if os.fspath(file) == os.devnull:
            return _open(file, mode, *args, **kw)
        if proc.dead:
            raise SimKilled()
        if not self.inside(file):
            raise core.HarnessError("writing outside the scratch directory: %s" % file)
        f = self.op(proc, "open", file, 0)
        if f is not None:
            self.strike(proc, f)
        kw.pop("opener", None)
        real = _open(file, mode, *args, **kw)
        return WriteFile(self, os.path.realpath(os.path.abspath(file)), real, proc)

    def os_open(self, path, flags, *args, **kw):
        proc = self.current
        if proc is None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return _os_open(path, flags, *args, **kw)
        if proc.dead:
            raise SimKilled()
        if not self.inside(path):
            raise core.HarnessError("writing outside the scratch directory: %s" % path)
        f = self.op(proc, "open", path, 0)
        if f is not None:
            self.strike(proc, f)
        fd = _os_open(path, flags, *args, **kw)
        self.fds[fd] = (os.path.realpath(os.path.abspath(path)), proc)
        return fd

    def os_write(self, fd, data):
        if fd not in self.fds:
            return _os_write(fd, data)
        path, proc = self.fds[fd]
        if proc.dead:
            return len(data)
        f = self.op(proc, "write", path, len(data))
        if f is not None:
            _os_write(fd, data[:int(len(data) * f[1])])
            self.strike(proc, f)
        return _os_write(fd, data)

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return _os_close(fd)

    def os_fsync(self, fd):
        proc = self.current
        if proc is None:
            return _fsync(fd)
        if proc.dead:
            return None
        path = "?"
        for h in self.handles:
            if h.proc is proc and not h.closed_ and h.real.fileno() == fd:
                h.flushed, path = h.pos, h.path
        f = self.op(proc, "fsync", path, 0) if path != "?" else None
        if f is not None:
            self.strike(proc, f)
        return None

    @contextlib.contextmanager
    def installed(self):
        new_pid = lambda: self.current.pid if self.current is not None else _getpid()  # noqa: E731
        patches = [(builtins, "open", self.open), (io, "open", self.open), (os, "open", self.os_open), (os, "write", self.os_write),
                   (os, "close", self.os_close), (os, "fsync", self.os_fsync), (os, "getpid", new_pid),
                   (os, "replace", lambda a, b, **k: self.simple("replace", _replace, a, b, **k)),
                   (os, "rename", lambda a, b, **k: self.simple("rename", _rename, a, b, **k)),
                   (os, "remove", lambda a, **k: self.simple("remove", _remove, a, **k)),
                   (os, "unlink", lambda a, **k: self.simple("remove", _remove, a, **k)),
                   (tempfile, "_name_sequence", Names(self))]
        old = [(m, n, getattr(m, n)) for m, n, _ in patches]
        for m, n, f in patches:
            setattr(m, n, f)
        try:
            yield self
        finally:
            for m, n, f in old:
                setattr(m, n, f)
