"""Fault injection and thread scheduling at pygerber's own code, via sys.monitoring.

Nothing here depends on how pygerber is written: points are "start of any pygerber
function" and "any pygerber source line".
"""

from __future__ import annotations

import _thread
import ast
import os
import random
import sys
from typing import Any, Callable, Optional

from pgsim import boot, seams

mon = sys.monitoring
TOOL_CALL = 3
TOOL_LINE = 4
PKG = os.path.realpath(os.path.join(boot.SRC, "pygerber")) + os.sep


class InjectedFault(RuntimeError):
    """Failure injected by the simulator."""


EXC: dict[str, Callable[[], BaseException]] = {
    "fault": lambda: InjectedFault("injected"),
    "memory": lambda: MemoryError("injected"),
    "interrupt": lambda: KeyboardInterrupt("injected"),
}

_cleanup_lines: dict[str, frozenset[int]] = {}
_CLEANUP_NAMES = {"__exit__", "__aexit__", "__del__", "close"}


def _lines_of_cleanup(filename: str) -> frozenset[int]:
    """Lines of `finally:` and `except:` bodies: a fault there is a double fault."""
    got = _cleanup_lines.get(filename)
    if got is None:
        lines: set[int] = set()
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for body in [node.finalbody, *[h.body for h in node.handlers]]:
                    for st in body:
                        lines.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
        got = _cleanup_lines[filename] = frozenset(lines)
    return got


def is_pkg(filename: str) -> bool:
    return filename.startswith(PKG)


def in_cleanup(frame: Any) -> bool:
    while frame is not None:
        code = frame.f_code
        if is_pkg(code.co_filename):
            if code.co_name in _CLEANUP_NAMES:
                return True
            if frame.f_lineno in _lines_of_cleanup(code.co_filename):
                return True
        frame = frame.f_back
    return False


class CallFaults:
    """Raises at the start of the n-th eligible pygerber function call while armed."""

    def __init__(self, exclude: tuple[str, ...] = ()) -> None:
        self.exclude = tuple(os.path.join(PKG, e) for e in exclude)
        self.count = 0
        self.target = -1
        self.kind = "fault"
        self.armed = False
        self.fired: Optional[str] = None
        self.fired_total = 0
        self.record: Optional[dict[str, dict[str, list[int]]]] = None
        self.calls: dict = {}

    def __enter__(self) -> "CallFaults":
        mon.use_tool_id(TOOL_CALL, "pgsim-call")
        mon.register_callback(TOOL_CALL, mon.events.PY_START, self._start)
        mon.set_events(TOOL_CALL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *_: object) -> None:
        mon.set_events(TOOL_CALL, 0)
        mon.register_callback(TOOL_CALL, mon.events.PY_START, None)
        mon.free_tool_id(TOOL_CALL)

    def _start(self, code: Any, _offset: int) -> Any:
        fn = code.co_filename
        if not fn.startswith(PKG) or fn.startswith(self.exclude or ("\0",)):
            return mon.DISABLE
        if not self.armed or code.co_name == "<module>":
            return None
        # exceptions of generators being closed etc. can not propagate: not eligible
        frame = sys._getframe(1)
        if self.count + 1 >= self.target > 0 and in_cleanup(frame):
            return None
        self.count += 1
        if self.record is not None:
            self._note(code, frame)
            return None
        if self.count == self.target:
            self.armed = False
            self.fired = f"{os.path.relpath(fn, PKG)}:{code.co_qualname}"
            self.fired_total += 1
            raise EXC[self.kind]()
        return None

    def arm(self, target: int, kind: str) -> None:
        self.count, self.target, self.kind = 0, target, kind
        self.fired = None
        self.armed = True

    def disarm(self) -> int:
        self.armed = False
        return self.count

    # -- faults placed by call site instead of by number
    def _note(self, code: Any, frame: Any) -> None:
        assert self.record is not None
        outer: list[str] = []
        while frame is not None:
            if is_pkg(frame.f_code.co_filename):
                outer.append(frame.f_code.co_qualname)
            frame = frame.f_back
        site = f"{os.path.relpath(code.co_filename, PKG)}:{code.co_qualname}"
        self.record.setdefault("/".join(outer[-3:]), {}).setdefault(site, []).append(self.count)
        node = self.calls
        for k in range(len(outer) - 1, -1, -1):
            if k and outer[k] == outer[k - 1]:
                continue
            node = node["kids"].setdefault(outer[k], {"at": [], "kids": {}})
        node["at"].append(self.count)

    def descend(self, rng: random.Random) -> int:
        """A call found by walking down the tree of calls, each callee of a function as likely as the others."""
        node = self.calls
        while node["kids"] and not (node["at"] and rng.random() < 0.12):
            node = node["kids"][rng.choice(sorted(node["kids"]))]
        at = node["at"]
        if not at:
            return 1
        return at[0] if rng.random() < 0.5 else rng.choice(at)

    def survey(self, fn: Callable[[], Any], where: list[float]) -> int:
        """Number of a call chosen evenly among activities, then functions, then occurrences (runs fn!)."""
        self.record = {}
        self.calls = {"at": [], "kids": {}}
        self.arm(-1, "fault")
        try:
            fn()
        except BaseException:  # noqa: BLE001
            pass
        finally:
            rec, self.record = self.record, None
            self.disarm()
        if not rec:
            return 1
        rng = random.Random(repr(where))
        if rng.random() < 0.4:
            return self.descend(rng)
        u, v, w = where
        sites = rec[sorted(rec)[int(u * len(rec))]]
        if v < 0.1:  # the activity fails as it begins
            return sorted(x for a in sites.values() for x in a)[min(int(w * 4), sum(map(len, sites.values())) - 1)]
        if v > 0.95:  # ... as it ends
            return max(a[-1] for a in sites.values())
        at = sites[sorted(sites)[int(v * len(sites))]]
        if w < 0.25:
            return at[0]
        if w < 0.4:
            return at[-1]
        return at[int((w - 0.4) / 0.6 * len(at)) % len(at)]

    def resolve(self, fault: dict, fn: Callable[[], Any]) -> int:
        """Number of the call to fail; a fault given by site is looked up in a forked rehearsal of fn."""
        if "n" in fault:
            return fault["n"]
        from pgsim import core

        kind, val = core.in_fork(lambda: self.survey(fn, fault["site"]), None)
        return val if kind == "ok" else 1


class Hang(BaseException):
    """Raised in simulated threads to end a run that can not progress."""


class Scheduler:
    """Runs real threads one at a time; who runs next is decided here only.

    `decide(step, current, runnable)` returns the index of the thread to run next. It is
    consulted at each pygerber line (or bytecode instruction).
    """

    def __init__(
        self,
        switch: dict[int, int] | None = None,
        rng: Optional[random.Random] = None,
        period: float = 0.0,
        granularity: str = "line",
        max_steps: int = 3_000_000,
    ) -> None:
        self.switch = switch
        self.rng = rng
        self.p = 1.0 / period if period else 0.0
        self.next_switch = self._draw()
        self.granularity = granularity
        self.max_steps = max_steps
        self.step = 0
        self.trace: list[tuple[int, int]] = []
        self.current = -1
        self.wake: list[Any] = []
        self.state: list[str] = []
        self.blocked_on: list[Any] = []
        self.idents: dict[int, int] = {}
        self.results: list[Any] = []
        self.done = _thread.allocate_lock()
        self.deadlock = False
        self.hung = False
        self.switches = 0
        self.lock_waits = 0
        self.observe: Any = None
        self.sites: Optional[dict[str, list[int]]] = None

    def _draw(self) -> int:
        if self.rng is None or not self.p:
            return -1
        # geometric gap: one draw per switch rather than per step
        gap = 1
        u = self.rng.random()
        import math

        gap = int(math.log(max(u, 1e-12)) / math.log(1 - self.p)) + 1 if self.p < 1 else 1
        return getattr(self, "step", 0) + max(1, gap)

    # -- seams.active interface
    def lock_blocked(self, lock: Any) -> bool:
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return False
        self.lock_waits += 1
        self.state[me] = "blocked"
        self.blocked_on[me] = lock
        nxt = self._pick(me)
        if nxt is None:
            self.deadlock = True
            self.state[me] = "run"
            return False
        self._handoff(me, nxt)
        return True

    def lock_released(self, lock: Any) -> None:
        for i, l in enumerate(self.blocked_on):
            if l is lock and self.state[i] == "blocked":
                self.state[i] = "run"
                self.blocked_on[i] = None

    def _pick(self, me: int) -> Optional[int]:
        cand = [i for i, s in enumerate(self.state) if s == "run" and i != me]
        if not cand:
            return None
        if self.switch is not None:
            want = self.switch.get(self.step)
            if want in cand:
                return want
            return cand[0]
        assert self.rng is not None
        return cand[self.rng.randrange(len(cand))]

    def _handoff(self, me: int, nxt: int) -> None:
        self.trace.append((self.step, nxt))
        self.switches += 1
        self.current = nxt
        self.wake[nxt].release()
        self.wake[me].acquire()

    def point(self) -> None:
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return
        self.step += 1
        if self.sites is not None:
            code = sys._getframe(2).f_code
            self.sites.setdefault(f"{os.path.relpath(code.co_filename, PKG)}:{code.co_qualname}", []).append(self.step)
        if self.step > self.max_steps:
            self.hung = True
            raise Hang("step limit")
        if self.switch is not None:
            nxt = self.switch.get(self.step)
            if nxt is None or nxt == me or nxt >= len(self.state) or self.state[nxt] != "run":
                return
        else:
            if self.step != self.next_switch:
                return
            self.next_switch = self._draw()
            nxt = self._pick(me)
            if nxt is None:
                return
        if self.observe is not None:
            code = sys._getframe(2).f_code
            self.observe(me, nxt, code.co_qualname)
        self._handoff(me, nxt)

    def _line(self, code: Any, _line: int) -> Any:
        if not code.co_filename.startswith(PKG):
            return mon.DISABLE
        self.point()
        return None

    def run(self, fns: list[Callable[[], Any]]) -> list[Any]:
        n = len(fns)
        self.wake = [_thread.allocate_lock() for _ in range(n)]
        for l in self.wake:
            l.acquire()
        self.state = ["run"] * n
        self.blocked_on = [None] * n
        self.results = [None] * n
        self.done.acquire()

        def body(i: int) -> None:
            self.wake[i].acquire()
            self.idents[_thread.get_ident()] = i
            try:
                self.results[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: BLE001
                self.results[i] = ("raise", e)
            self.idents.pop(_thread.get_ident(), None)
            self.state[i] = "done"
            nxt = self._pick(i)
            if nxt is None:
                blocked = [j for j, s in enumerate(self.state) if s == "blocked"]
                if blocked:
                    # nobody can ever release what they wait for
                    self.deadlock = True
                    self.state[blocked[0]] = "run"
                    nxt = blocked[0]
            if nxt is None:
                self.done.release()
            else:
                self.trace.append((self.step, nxt))
                self.current = nxt
                self.wake[nxt].release()

        ev = mon.events.INSTRUCTION if self.granularity == "instruction" else mon.events.LINE
        mon.use_tool_id(TOOL_LINE, "pgsim-line")
        mon.register_callback(TOOL_LINE, ev, self._line)
        seams.active = self
        try:
            old = _thread.stack_size(16 * 1024 * 1024)
            for i in range(n):
                _thread.start_new_thread(body, (i,))
            _thread.stack_size(old)
            first = 0
            if self.switch is not None:
                first = self.switch.get(0, 0)
            elif self.rng is not None:
                first = self.rng.randrange(n)
            self.trace.append((0, first))
            self.current = first
            mon.set_events(TOOL_LINE, ev)
            mon.restart_events()
            self.wake[first].release()
            self.done.acquire()
        finally:
            mon.set_events(TOOL_LINE, 0)
            mon.register_callback(TOOL_LINE, ev, None)
            mon.free_tool_id(TOOL_LINE)
            seams.active = None
        return self.results
