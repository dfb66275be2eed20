"""Simulated disk: file objects of a scratch directory whose every operation is a step.

Files are real (inside a scratch directory the run creates and removes); `open` is
replaced so that each open, read, write, truncate and close is counted and can fail, be
cut short or kill the process. `fileno()` is refused, so that libraries can not write
past the seam.
"""

from __future__ import annotations

import builtins
import codecs
import errno
import io
import os
import shutil
import tempfile
from typing import Any, Callable, Optional

_real_open = io.open
_real_access = os.access
ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EDQUOT": errno.EDQUOT, "EINTR": errno.EINTR, "EROFS": errno.EROFS, "ENOENT": errno.ENOENT}


class Killed(BaseException):
    """Process killed at an I/O step (only when the disk has no kill function)."""


class Disk:
    """faults: list of {"at": step, "kind": error name | "short" | "kill" | "torn"}."""

    def __init__(self, root: str, faults: list[dict], kill: Optional[Callable[[], None]] = None,
                 short: Optional[int] = None, encoding: Optional[str] = None) -> None:
        self.root = os.path.realpath(root)
        self.faults = {f["at"]: f for f in faults if "at" in f}
        self.op_faults = {(f["op"], f["k"]): f for f in faults if "op" in f}
        #: files which can not be opened for reading all the time
        self.path_faults = {os.path.normpath(f["path"]): f for f in faults if "path" in f}
        self.per_op: dict[str, int] = {}
        self.kill = kill
        self.short = short
        self.encoding = encoding
        self.step = 0
        self.fired: list[tuple] = []
        self.log: list[tuple] = []
        self.opened_for_write: list[str] = []
        self.full = False
        self.default_encoding_uses = 0

    # -- patching
    def __enter__(self) -> "Disk":
        builtins.open = self.open
        io.open = self.open
        os.access = self.access  # type: ignore[assignment]
        if self.encoding:
            import locale

            enc = self.encoding
            self._locale = (locale.getpreferredencoding, getattr(locale, "getencoding", None))
            locale.getpreferredencoding = lambda do_setlocale=True: enc  # type: ignore[assignment]
            if self._locale[1] is not None:
                locale.getencoding = lambda: enc
        return self

    def __exit__(self, *_: object) -> None:
        builtins.open = _real_open
        io.open = _real_open
        os.access = _real_access
        if self.encoding:
            import locale

            locale.getpreferredencoding = self._locale[0]
            if self._locale[1] is not None:
                locale.getencoding = self._locale[1]

    def inside(self, file: Any) -> Optional[str]:
        if isinstance(file, int):
            return None
        try:
            p = os.path.realpath(os.fspath(file))
        except (TypeError, ValueError):
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def access(self, path: Any, mode: int, **kw: Any) -> bool:
        p = self.inside(path)
        if p is not None and mode & os.R_OK and self.barred(p, "access"):
            return False
        return _real_access(path, mode, **kw)

    def barred(self, p: str, op: str) -> Optional[str]:
        name = os.path.relpath(p, self.root)
        f = self.path_faults.get(name)
        if f is None or (op == "access" and f["kind"] != "EACCES"):
            return None
        self.fired.append((op, f["kind"], name))
        return f["kind"]

    def die(self) -> None:
        if self.kill is not None:
            self.kill()
        raise Killed

    def point(self, op: str, path: str) -> Optional[str]:
        """One I/O step; raises, kills, or returns "short"/"torn"."""
        self.step += 1
        name = os.path.relpath(path, self.root)
        self.per_op[op] = self.per_op.get(op, 0) + 1
        f = self.faults.get(self.step) or self.op_faults.get((op, self.per_op[op]))
        if op == "write" and self.full and f is None:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if f is None:
            self.log.append((op, name))
            return None
        kind = f["kind"]
        if kind in ("short", "torn") and op not in ("read", "write"):
            kind = "EIO" if kind == "torn" else "none"
        if kind == "none":
            self.log.append((op, name))
            return None
        self.fired.append((op, kind, name))
        self.log.append((op, name, kind))
        if kind == "kill":
            self.die()
        if kind in ("short", "torn"):
            return kind
        if kind == "FULL":
            self.full = True
            if op == "write":
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            return None
        e = ERR[kind]
        raise OSError(e, os.strerror(e), path)

    # -- the seam
    def open(self, file: Any, mode: str = "r", buffering: int = -1, encoding: Optional[str] = None,  # noqa: A003
             errors: Optional[str] = None, newline: Optional[str] = None, closefd: bool = True,
             opener: Any = None) -> Any:
        p = self.inside(file)
        if p is None or opener is not None:
            if "b" not in mode and encoding in (None, "locale") and self.encoding and not isinstance(file, int):
                import sys

                # files of the package itself (examples), opened by the package
                if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] in ("pygerber", "pathlib"):
                    self.default_encoding_uses += 1
                    encoding = self.encoding
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        writing = any(c in mode for c in "wax+")
        self.point("open-w" if writing else "open-r", p)
        if not writing or "+" in mode:
            bar = self.barred(p, "open-r")
            if bar:
                raise OSError(ERR[bar], os.strerror(ERR[bar]), file)
        raw = SimRaw(self, p, file, mode.replace("b", "").replace("t", ""))
        if writing:
            self.opened_for_write.append(os.path.relpath(p, self.root))
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf: Any = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        if encoding in (None, "locale"):
            self.default_encoding_uses += 1
            encoding = self.encoding or "utf-8"
        codecs.lookup(encoding)
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t


class SimRaw(io.RawIOBase):
    def __init__(self, disk: Disk, path: str, name: Any, mode: str) -> None:
        self._f = io.FileIO(path, mode)
        self._d = disk
        self._p = path
        self._w = self._f.writable()
        self.name = name
        self.mode = self._f.mode

    def readable(self) -> bool:
        return self._f.readable()

    def writable(self) -> bool:
        return self._f.writable()

    def seekable(self) -> bool:
        return True

    def readinto(self, b: Any) -> Any:
        r = self._d.point("read", self._p)
        m = memoryview(b)
        if r == "short" and len(m) > 1:
            return self._f.readinto(m[: max(1, len(m) // 977)])
        if r == "torn":
            raise OSError(errno.EIO, "Input/output error", self._p)
        if self._d.short:
            return self._f.readinto(m[: self._d.short])
        return self._f.readinto(b)

    def write(self, b: Any) -> Any:
        r = self._d.point("write", self._p)
        m = memoryview(b).cast("B")
        if r == "short" and len(m) > 1:
            return self._f.write(m[: max(1, len(m) // 3)])
        if r == "torn":
            self._f.write(m[: len(m) // 2])
            if self._d.kill is not None:
                self._d.die()
            raise OSError(errno.EIO, "Input/output error", self._p)
        if self._d.short and len(m) > self._d.short:
            return self._f.write(m[: self._d.short])
        return self._f.write(m)

    def seek(self, off: int, whence: int = 0) -> int:
        return self._f.seek(off, whence)

    def tell(self) -> int:
        return self._f.tell()

    def truncate(self, size: Optional[int] = None) -> int:
        self._d.point("truncate", self._p)
        return self._f.truncate(size)

    def close(self) -> None:
        if self.closed:
            return
        try:
            super().close()
        finally:
            self._f.close()
        # like close(2): the descriptor is gone even when an error is reported
        self._d.point("close-w" if self._w else "close-r", self._p)

    def __del__(self) -> None:
        try:
            self._f.close()
        except Exception:  # noqa: BLE001
            pass


class SimOut(io.RawIOBase):
    """Standard output: a pipe which can fail."""

    def __init__(self, fail_at: Optional[int] = None, err: str = "ENOSPC", once: bool = False) -> None:
        self.once = once
        self.data = bytearray()
        self.n = 0
        self.fail_at = fail_at
        self.err = err
        self.fired = False

    def writable(self) -> bool:
        return True

    def write(self, b: Any) -> int:
        self.n += 1
        if self.fail_at is not None and (self.n == self.fail_at if self.once else self.n >= self.fail_at):
            self.fired = True
            e = {"EPIPE": errno.EPIPE, "ENOSPC": errno.ENOSPC, "EIO": errno.EIO}[self.err]
            raise OSError(e, os.strerror(e)) if self.err != "EPIPE" else BrokenPipeError(e, os.strerror(e))
        self.data += bytes(b)
        return len(b)


class Scratch:
    def __init__(self, files: dict[str, bytes]) -> None:
        self.files = files

    def __enter__(self) -> str:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="pgsim-", dir=base))
        populate(self.d, self.files)
        return self.d

    def __exit__(self, *_: object) -> None:
        shutil.rmtree(self.d, ignore_errors=True)


def populate(d: str, files: dict[str, bytes]) -> None:
    for name, data in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real_open(p, "wb") as f:
            f.write(data)


def snapshot(d: str) -> dict[str, bytes]:
    out = {}
    for base, dirs, names in os.walk(d):
        for x in dirs:
            p = os.path.join(base, x)
            if not os.listdir(p):
                out[os.path.relpath(p, d) + "/"] = b""
        for n in names:
            p = os.path.join(base, n)
            with _real_open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
