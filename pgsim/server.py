"""Interpreters with other hash seeds: each answers requests from a fresh fork."""

from __future__ import annotations

import importlib
import os
import subprocess
from typing import Any

from pgsim import boot, core


def serve() -> int:
    """Entry point of the other interpreter: requests on fd 0, answers on fd 1."""
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    boot.import_all()
    return loop(out)


def loop(out: int = -1) -> int:
    if out < 0:
        out = os.dup(1)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    while True:
        try:
            fn, args = core._recv(0)
        except EOFError:
            return 0
        mod, name = fn.split(":")
        f = getattr(importlib.import_module(mod), name)
        core._send(out, core.in_fork(lambda: f(*args)))


class Interpreter:
    COMMAND = "server"

    def __init__(self, hashseed: int) -> None:
        env = dict(os.environ)
        env["PGSIM_HASHSEED"] = env["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen([boot.PYTHON, "-m", "pgsim", self.COMMAND], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=boot.VERIF, env=env)
        self.w = self.p.stdin.fileno()  # type: ignore[union-attr]
        self.r = self.p.stdout.fileno()  # type: ignore[union-attr]

    def call(self, fn: str, *args: Any) -> Any:
        core._send(self.w, (fn, args))
        kind, val = core._recv(self.r)
        if kind == "ok":
            return val
        raise core.RefError(kind, val)

    def close(self) -> None:
        self.p.stdin.close()  # type: ignore[union-attr]
        self.p.stdout.close()  # type: ignore[union-attr]
        self.p.wait()


class Pool:
    """Interpreters of this worker, started when first needed."""

    def __init__(self) -> None:
        self.by_seed: dict[int, Interpreter] = {}

    def get(self, hashseed: int) -> Interpreter:
        if hashseed not in self.by_seed:
            self.by_seed[hashseed] = Interpreter(hashseed)
        return self.by_seed[hashseed]

    def close(self) -> None:
        for i in self.by_seed.values():
            i.close()
        self.by_seed.clear()
