"""The language server inside a virtual-time event loop with simulated stdio.

Real code: pygerber's server, handlers, documents, parser, hover and completion logic,
pygls' endpoint and workspace, asyncio's scheduler. Simulated: clock, selector,
executor and thread pool, stdin and stdout (or the TCP byte stream).
"""

from __future__ import annotations

import asyncio
import concurrent.futures
import json
import random
import selectors
import sys
from typing import Any, Callable, Optional

from pgsim import seams


class SimStuck(BaseException):
    """The loop has nothing left to do although the server is supposed to go on."""


class _Selector(selectors.BaseSelector):
    def __init__(self) -> None:
        self.loop: Any = None
        self._map: dict = {}

    def register(self, fileobj: Any, events: int, data: Any = None) -> Any:
        key = selectors.SelectorKey(fileobj, 0, events, data)
        self._map[id(fileobj)] = key
        return key

    def unregister(self, fileobj: Any) -> Any:
        return self._map.pop(id(fileobj), None)

    def modify(self, fileobj: Any, events: int, data: Any = None) -> Any:
        return self.register(fileobj, events, data)

    def get_map(self) -> Any:
        return self._map

    def get_key(self, fileobj: Any) -> Any:
        return self._map[id(fileobj)]

    def select(self, timeout: Optional[float] = None) -> list:
        if timeout is None:
            self.loop.idle()
        elif timeout > 0:
            self.loop.now += timeout
        return []

    def close(self) -> None:
        pass


class SimLoop(asyncio.SelectorEventLoop):
    """Virtual time; FIFO order of ready callbacks is asyncio's own."""

    def __init__(self, world: "World") -> None:
        self.world = world
        self.now = 0.0
        sel = _Selector()
        super().__init__(sel)
        sel.loop = self
        self.set_exception_handler(self._on_exc)

    def _on_exc(self, _loop: Any, context: dict) -> None:
        exc = context.get("exception")
        self.world.loop_errors.append(f"{type(exc).__name__}: {exc}")

    def _make_self_pipe(self) -> None:
        self._internal_fds = 0

    def _close_self_pipe(self) -> None:
        pass

    def _write_to_self(self) -> None:
        pass

    def time(self) -> float:
        return self.now

    def idle(self) -> None:
        self.world.on_idle()

    def run_in_executor(self, executor: Any, func: Callable, *args: Any) -> Any:  # type: ignore[override]
        return asyncio.wrap_future(self.world.submit(func, *args), loop=self)

    def close(self) -> None:
        if not self.is_closed():
            super().close()


class SimExecutor:
    def __init__(self, world: "World") -> None:
        self.world = world

    def submit(self, fn: Callable, *a: Any, **k: Any) -> concurrent.futures.Future:
        return self.world.submit(fn, *a, **k)

    def shutdown(self, *_: Any, **__: Any) -> None:
        pass


class SimThreadPool:
    def __init__(self, world: "World") -> None:
        self.world = world

    def apply_async(self, fn: Callable, args: tuple = (), kwds: Optional[dict] = None,
                    callback: Any = None, error_callback: Any = None) -> None:
        def job() -> None:
            try:
                r = fn(*args, **(kwds or {}))
            except Exception as e:  # noqa: BLE001
                if error_callback:
                    error_callback(e)
            else:
                if callback:
                    callback(r)

        self.world.loop.call_later(self.world.delay(), job)

    def terminate(self) -> None:
        pass

    def join(self) -> None:
        pass


class SimStdin:
    """Bytes appear when the simulated client sends them; reads block until then."""

    def __init__(self, world: "World") -> None:
        self.world = world
        self.buf = b""
        self.eof = False
        self.closed = False
        self.waiting: Optional[tuple] = None
        self.body_reads = 0

    def feed(self, data: bytes) -> None:
        self.buf += data
        self.poll()

    def feed_eof(self) -> None:
        self.eof = True
        self.poll()

    def close(self) -> None:
        self.closed = True

    def readline(self) -> bytes:
        raise AssertionError("only through the executor")

    def read(self, n: int = -1) -> bytes:
        raise AssertionError("only through the executor")

    def request(self, kind: str, n: int, fut: concurrent.futures.Future) -> None:
        assert self.waiting is None
        self.waiting = (kind, n, fut)
        self.poll()

    def poll(self) -> None:
        if self.waiting is None:
            return
        kind, n, fut = self.waiting
        if kind == "line":
            i = self.buf.find(b"\n")
            if i < 0 and not self.eof:
                return
            cut = i + 1 if i >= 0 else len(self.buf)
        else:
            if len(self.buf) < n and not self.eof:
                return
            cut = min(n, len(self.buf))
        data, self.buf = self.buf[:cut], self.buf[cut:]
        self.waiting = None

        def done() -> None:
            if kind == "body" and len(data) == n:
                self.body_reads += 1
                self.world.delivered = self.body_reads
            if not fut.cancelled():
                fut.set_result(data)

        self.world.loop.call_later(self.world.delay(), done)


class SimStdout:
    def __init__(self, world: "World") -> None:
        self.world = world
        self.closed = False

    def write(self, data: bytes) -> int:
        self.world.received(bytes(data))
        return len(data)

    def flush(self) -> None:
        pass

    def close(self) -> None:
        self.closed = True


class World:
    """One server, one client, virtual time."""

    def __init__(self, rng: random.Random, mode: str = "stdio", max_delay: float = 0.0) -> None:
        self.rng = rng
        self.mode = mode
        self.max_delay = max_delay
        self.loop = SimLoop(self)
        self.stdin = SimStdin(self)
        self.stdout = SimStdout(self)
        self.delivered = 0
        self.fed = b""
        self.msg_ends: list[int] = []
        self.out = b""
        self.replies: list[tuple[int, float, dict]] = []
        self.notifications = 0
        self.loop_errors: list[str] = []
        self.deadlocks: list[str] = []
        self.exited: Optional[str] = None
        self.stuck = False
        self.on_reply: Optional[Callable[[dict], None]] = None
        self.idle_hook: Optional[Callable[[], bool]] = None
        self.server: Any = None
        self.ended = False

    def delay(self) -> float:
        return self.rng.random() * self.max_delay if self.max_delay else 0.0

    def submit(self, fn: Callable, *a: Any, **k: Any) -> concurrent.futures.Future:
        fut: concurrent.futures.Future = concurrent.futures.Future()
        owner = getattr(fn, "__self__", None)
        if owner is self.stdin and fn.__name__ == "readline":
            self.stdin.request("line", 0, fut)
        elif owner is self.stdin and fn.__name__ == "read":
            self.stdin.request("body", a[0], fut)
        else:

            def job() -> None:
                try:
                    r = fn(*a, **k)
                except BaseException as e:  # noqa: BLE001
                    fut.set_exception(e)
                else:
                    fut.set_result(r)

            self.loop.call_later(self.delay(), job)
        return fut

    def on_idle(self) -> None:
        if self.idle_hook is not None and self.idle_hook():
            return
        self.stuck = True
        raise SimStuck

    # -- server output
    def received(self, data: bytes) -> None:
        self.out += data
        while True:
            head, sep, rest = self.out.partition(b"\r\n\r\n")
            if not sep:
                return
            length = 0
            for line in head.split(b"\r\n"):
                if line.lower().startswith(b"content-length:"):
                    length = int(line.split(b":")[1])
            if len(rest) < length:
                return
            body, self.out = rest[:length], rest[length:]
            msg = json.loads(body)
            if "id" in msg and "method" not in msg:
                self.replies.append((self.delivered, self.loop.now, msg))
                if self.on_reply:
                    self.on_reply(msg)
            else:
                self.notifications += 1

    # -- client side
    @staticmethod
    def encode(msg: Any) -> bytes:
        body = msg if isinstance(msg, bytes) else json.dumps(msg, ensure_ascii=False).encode("utf-8")
        return b"Content-Length: %d\r\n\r\n" % len(body) + body

    def feed(self, data: bytes) -> None:
        if self.exited is not None:
            return
        if self.mode == "stdio":
            self.stdin.feed(data)
            return
        self.fed += data
        self.delivered = sum(1 for e in self.msg_ends if e <= len(self.fed))
        self.server.lsp.data_received(data)

    def end_input(self) -> None:
        if self.mode == "stdio":
            self.stdin.feed_eof()
        else:
            self.loop.stop()

    # -- run
    def run(self, script: Callable[["World"], None]) -> None:
        import pygls.server as ps

        import pygerber.gerber.language_server.__main__ as entry
        from pygerber.gerber.language_server._server.server import get_server

        saved = (asyncio.new_event_loop, ps.ThreadPoolExecutor, ps.ThreadPool, sys.stdin, sys.stdout,
                 seams.SimLock.acquire)
        world = self

        class _Std:
            def __init__(self, buffer: Any) -> None:
                self.buffer = buffer

            def write(self, *_: Any) -> int:
                return 0

            def flush(self) -> None:
                pass

        orig_acquire = seams.SimLock.acquire

        def acquire(lock: Any, blocking: bool = True, timeout: float = -1) -> bool:
            try:
                return orig_acquire(lock, blocking, timeout)
            except seams.SimDeadlock as e:
                world.deadlocks.append(str(e))
                world.loop.call_soon(world.loop.stop)
                raise

        asyncio.new_event_loop = lambda: self.loop  # type: ignore[assignment]
        ps.ThreadPoolExecutor = lambda *a, **k: SimExecutor(self)  # type: ignore[assignment,misc]
        ps.ThreadPool = lambda *a, **k: SimThreadPool(self)  # type: ignore[assignment,misc]
        seams.SimLock.acquire = acquire  # type: ignore[method-assign]
        asyncio.set_event_loop(self.loop)
        try:
            if self.mode == "stdio":
                real_out = sys.stdout
                sys.stdin = _Std(self.stdin)  # type: ignore[assignment]
                sys.stdout = _Std(self.stdout)  # type: ignore[assignment]
                self.loop.call_soon(script, self)
                try:
                    entry.main.main(args=[], standalone_mode=False)
                    self.exited = "returned"
                finally:
                    sys.stdout = real_out
            else:
                self.server = get_server()

                class T:
                    def write(self, data: bytes) -> None:
                        world.received(bytes(data))

                    def close(self) -> None:
                        pass

                self.server._stop_event = None
                self.server.lsp.connection_made(T())
                self.loop.call_soon(script, self)
                try:
                    self.loop.run_forever()
                except SystemExit:
                    pass
                self.exited = "returned"
        except SimStuck:
            self.exited = None
        except RuntimeError as e:
            # loop.stop() inside run_until_complete after a detected deadlock
            if not self.deadlocks:
                raise
            self.exited = f"deadlock: {e}"
        finally:
            (asyncio.new_event_loop, ps.ThreadPoolExecutor, ps.ThreadPool, sys.stdin, sys.stdout,
             seams.SimLock.acquire) = saved


# ---------------------------------------------------------------- reference document model
def utf16_index(line: str, units: int) -> int:
    n = 0
    for i, ch in enumerate(line):
        if n >= units:
            return i
        n += 2 if ord(ch) > 0xFFFF else 1
    return len(line)


def utf16_len(s: str) -> int:
    return sum(2 if ord(c) > 0xFFFF else 1 for c in s)


def apply_edit(text: str, edit: dict) -> str:
    if "range" not in edit:
        return edit["text"]
    lines = text.split("\n")

    def off(p: dict) -> int:
        ln = p["line"]
        if ln >= len(lines):
            return len(text)
        return sum(len(l) + 1 for l in lines[:ln]) + utf16_index(lines[ln], p["character"])

    a, b = off(edit["range"]["start"]), off(edit["range"]["end"])
    return text[:a] + edit["text"] + text[b:]


def init_message(i: int = 0) -> dict:
    return {"jsonrpc": "2.0", "id": i, "method": "initialize",
            "params": {"processId": None, "rootUri": None, "capabilities": {},
                       "clientInfo": {"name": "sim", "version": "1"}}}


def canon_reply(msg: dict) -> Any:
    if "error" in msg:
        return ["error"]
    return ["result", json.dumps(msg.get("result"), sort_keys=True, ensure_ascii=False)]


def open_message(uri: str, text: str, version: int = 1) -> dict:
    return {"jsonrpc": "2.0", "method": "textDocument/didOpen",
            "params": {"textDocument": {"uri": uri, "languageId": "gerber", "version": version, "text": text}}}


def query_message(i: Any, method: str, uri: str, line: int, char: int) -> dict:
    params: dict = {"textDocument": {"uri": uri}, "position": {"line": line, "character": char}}
    return {"jsonrpc": "2.0", "id": i, "method": f"textDocument/{method}", "params": params}


def fresh_answer(uri: str, text: Optional[str], method: str, line: int, char: int) -> Any:
    """What a newly started server answers after only opening `text` (reference)."""
    w = World(random.Random(0), mode="stream")
    msgs = [init_message(0)]
    if text is not None:
        msgs.append(open_message(uri, text))
    msgs.append(query_message(1, method, uri, line, char))

    def script(world: World) -> None:
        data = b""
        step = 0

        def nxt() -> None:
            nonlocal step
            if step < len(msgs):
                m = msgs[step]
                step += 1
                world.loop.call_later(1.0, nxt)
                world.feed(world.encode(m))
            else:
                world.loop.stop()

        del data
        nxt()

    w.run(script)
    for _, _, m in w.replies:
        if m.get("id") == 1:
            return canon_reply(m)
    return ["none"]
