"""A faulty disk under Python's own buffering: raw files in a scratch directory whose reads and writes misbehave."""
import builtins, errno, io, os, shutil
from .seam import REAL


class Crash(BaseException):
    """The process dies here; only bytes already written to the raw file survive."""


class Disk:
    def __init__(self, root):
        self.root = root
        self.fault = None            # dict(kind=..., at=byte)
        self.fired = []
        self.bufsize = 8192
        self.opens = 0

    def inside(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        f = self.fault
        if f and f["kind"] == "open":
            self._fire("open")
            raise OSError(errno.EACCES, "Permission denied", os.fspath(file))
        raw = Raw(self, os.fspath(file), mode.replace("b", "").replace("t", ""))
        if "+" in mode:
            buf = io.BufferedRandom(raw, self.bufsize)
        elif "r" in mode:
            buf = io.BufferedReader(raw, self.bufsize)
        else:
            buf = io.BufferedWriter(raw, self.bufsize)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def _fire(self, kind):
        self.fired.append(kind)

    def __enter__(self):
        self._o, self._i = builtins.open, io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._o, self._i
        return False


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        super().__init__()
        self.disk, self.done, self.nread = disk, 0, 0
        self.f = io.FileIO(path, mode)
        self.name, self.mode = path, mode

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        d = self.disk.fault
        if d and d["kind"] == "eio-read" and self.nread + len(b) > d["at"]:
            self.disk._fire("eio-read")
            raise OSError(errno.EIO, "Input/output error")
        if d and d["kind"] == "short-read":
            self.disk._fire("short-read")
            data = self.f.read(min(len(b), 1 + d["at"] % 7))
        elif d and d["kind"] == "crash-read" and self.nread + len(b) > d["at"]:
            self.disk._fire("crash-read")
            raise Crash()
        else:
            data = self.f.read(len(b))
        b[:len(data)] = data
        self.nread += len(data)
        return len(data)

    def write(self, b):
        b = bytes(b)
        d = self.disk.fault
        k = d["kind"] if d else None
        if k in ("enospc", "eio", "crash") and self.done + len(b) > d["at"]:
            part = b[:max(0, d["at"] - self.done)]
            self.f.write(part)
            self.done += len(part)
            self.disk._fire(k)
            if k == "crash":
                d["kind"] = "dead"
                raise Crash()
            raise OSError(errno.ENOSPC if k == "enospc" else errno.EIO, "No space left on device" if k == "enospc" else "Input/output error")
        if k == "dead":                                  # nothing after the crash reaches the disk
            return len(b)
        if k == "short-write" and len(b) > 1:
            self.disk._fire("short-write")
            b = b[:max(1, len(b) // 2)]
        n = self.f.write(b)
        self.done += n
        return n

    def close(self):
        if not self.closed:
            d = self.disk.fault
            try:
                super().close()
            finally:
                self.f.close()
            if d and d["kind"] == "close" and self.mode != "r":
                self.disk._fire("close")
                raise OSError(errno.EIO, "Input/output error on close")


def scratch(tag):
    d = "/tmp/verif-%s-%d" % (tag, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
