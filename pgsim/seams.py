"""Seams installed before import of pygerber."""

from __future__ import annotations

import sys
import threading
import weakref

_real_lock = threading.Lock
_real_rlock = threading.RLock

#: set by a running simulation; object with methods on_lock_block(lock), see below
active = None


class SimDeadlock(BaseException):
    """A lock acquisition that can never succeed (deadlock)."""


class SimLock:
    """Drop-in for threading.Lock, owned by the simulator."""

    reentrant = False

    def __init__(self) -> None:
        self._owner: object = None
        self._count = 0

    def _me(self) -> object:
        return threading.get_ident()

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        while self._count:
            if self.reentrant and self._owner == self._me():
                break
            if not blocking:
                return False
            if active is None or not active.lock_blocked(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("blocking acquire of a lock nobody can release")
        self._owner = self._me()
        self._count += 1
        return True

    def release(self) -> None:
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
        if active is not None:
            active.lock_released(self)

    def locked(self) -> bool:
        return self._count > 0

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *_: object) -> None:
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _from_pygerber() -> bool:
    name = sys._getframe(2).f_globals.get("__name__", "")
    return name == "pygerber" or name.startswith("pygerber.")


def _lock(*args: object) -> object:
    return SimLock() if _from_pygerber() else _real_lock(*args)


def _rlock(*args: object) -> object:
    return SimRLock() if _from_pygerber() else _real_rlock(*args)


def install() -> None:
    threading.Lock = _lock  # type: ignore[assignment]
    threading.RLock = _rlock  # type: ignore[assignment]


# ------------------------------------------------------------------ memory layout

_real_id = id
_used: dict[int, int] = {}
_free: dict[type, list[int]] = {}
_next = [0]


def sim_id(o: object) -> int:
    """`id` for pygerber's modules: unique among live objects, deterministic, and the value of an object that
    died is given to the next object of its type at once, as allocators are free to do."""
    real = _real_id(o)
    got = _used.get(real)
    if got is not None:
        return got
    try:
        free = _free.setdefault(type(o), [])
        if free:
            n = free[-1]
        else:
            _next[0] += 16
            n = (1 << 50) + _next[0]
        weakref.finalize(o, _gone, type(o), real, n).atexit = False
        if free:
            free.pop()
        _used[real] = n
        return n
    except TypeError:  # no weak references to it
        return real


def _gone(t: type, real: int, n: int) -> None:
    if _used.pop(real, None) is not None:
        _free.setdefault(t, []).append(n)


def own_ids() -> None:
    for name, m in list(sys.modules.items()):
        if (name == "pygerber" or name.startswith("pygerber.")) and m is not None:
            vars(m).setdefault("id", sim_id)
