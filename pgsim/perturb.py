"""Changes what a process must not depend on: clock, pid, randomness, memory, GC, environment."""

from __future__ import annotations

import datetime
import gc
import os
import random
import sys
import time
import types
from typing import Any


def gen_env(rng: random.Random) -> dict:
    return {
        "seed": rng.randrange(1 << 30),
        "clock": rng.choice([0.0, 1.0, 86399.9, 1.0e9, 1735689599.5, 4.0e9]),
        "tick": rng.choice([0.0, 1e-6, 1.0, -1.0, 3600.0]),
        "pid": rng.choice([1, 2, 4242, 99999, 4194304]),
        "gc": rng.choice([None, None, 1, 7, 50, 0]),
        "junk": rng.choice([0, 0, 1000, 20000]),
        "tz": rng.choice(["UTC", "Asia/Tokyo", "EST5EDT", "XYZ-14"]),
        "env": rng.choice([{}, {"COLUMNS": "20"}, {"LANG": "ja_JP.SJIS", "LC_ALL": "C"}, {"HOME": "/nonexistent"},
                           {"NO_COLOR": "1", "TERM": "dumb"}, {"USER": "x", "PYTHONHASHSEED": "77"}]),
        "cwd": rng.choice([None, "/", "/usr"]),
        "cpus": rng.choice([None, 1, 2, 64]),
        "host": rng.choice([None, "build-7", "x"]),
        "argv": rng.choice([None, ["/usr/bin/prog"], ["-c", "--debug", "-v"]]),
        "log": rng.random() < 0.3,
    }


class _Keep:
    junk: list = []


def apply(env: dict) -> None:
    """Irreversible; only ever used in a process forked for one observation."""
    rng = random.Random(env["seed"])
    now = [env["clock"]]

    def clock() -> float:
        now[0] += env["tick"] * rng.choice([0, 1, 1, 5])
        return now[0]

    def clock_ns() -> int:
        return int(clock() * 1e9)

    fakes: dict[Any, Any] = {
        time.time: clock, time.time_ns: clock_ns, time.monotonic: clock, time.monotonic_ns: clock_ns,
        time.perf_counter: clock, time.perf_counter_ns: clock_ns, time.process_time: clock,
    }
    real_local, real_gm = time.localtime, time.gmtime
    fakes[time.localtime] = lambda s=None: real_local(max(0.0, clock()) if s is None else s)
    fakes[time.gmtime] = lambda s=None: real_gm(max(0.0, clock()) if s is None else s)
    pid = env["pid"]
    fakes[os.getpid] = lambda: pid
    fakes[os.getppid] = lambda: pid - 1

    def urandom(n: int) -> bytes:
        return bytes(rng.randrange(256) for _ in range(n))

    fakes[os.urandom] = urandom
    if env.get("cpus"):
        fakes[os.cpu_count] = lambda: env["cpus"]
        fakes[os.sched_getaffinity] = lambda _pid: set(range(env["cpus"]))
    if env.get("host"):
        un = os.uname()
        fakes[os.uname] = lambda: os.uname_result((un.sysname, env["host"], *un[2:]))
        if "platform" in sys.modules:
            sys.modules["platform"].node = lambda: env["host"]  # type: ignore[attr-defined]
        import socket

        socket.gethostname = lambda: env["host"]
    if env.get("argv"):
        sys.argv = list(env["argv"])

    class FakeDateTime(datetime.datetime):
        @classmethod
        def now(cls, tz: Any = None) -> Any:
            return cls.fromtimestamp(max(0.0, clock()), tz)

        @classmethod
        def utcnow(cls) -> Any:
            return cls.fromtimestamp(max(0.0, clock()), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls) -> Any:
            return cls.now()

    class FakeDate(datetime.date):
        @classmethod
        def today(cls) -> Any:
            return cls.fromtimestamp(max(0.0, clock()))

    classes = {id(datetime.datetime): FakeDateTime, id(datetime.date): FakeDate}
    mods = [m for n, m in sys.modules.items() if isinstance(m, types.ModuleType) and n.split(".")[0] == "pygerber"]
    for m in [*mods, time, os, datetime, random]:
        for k, v in list(vars(m).items()):
            try:
                r = fakes.get(v)
            except TypeError:
                continue
            if r is not None:
                setattr(m, k, r)
            elif id(v) in classes:
                setattr(m, k, classes[id(v)])
    if "uuid" in sys.modules:
        sys.modules["uuid"]._generate_time_safe = None  # type: ignore[attr-defined]
    random.seed(env["seed"])
    try:
        import numpy as np

        np.random.seed(env["seed"] & 0xFFFFFFFF)
    except ImportError:
        pass
    os.environ["TZ"] = env["tz"]
    os.environ.update(env["env"])
    time.tzset()
    if env["cwd"]:
        os.chdir(env["cwd"])
    if env.get("log"):  # everything is logged, in detail
        import io
        import logging

        logging.disable(logging.NOTSET)
        logging.basicConfig(level=logging.DEBUG, stream=io.StringIO(), force=True)
    # other addresses for what is allocated next
    junk: list = [object() for _ in range(env["junk"])]
    junk += [bytearray(rng.randrange(1, 4000)) for _ in range(env["junk"] // 10)]
    for i in range(0, len(junk), 3):
        junk[i] = None
    _Keep.junk = junk
    if env["gc"] is not None:
        if env["gc"] == 0:
            gc.disable()
        else:
            gc.enable()
            gc.set_threshold(env["gc"], 2, 2)
