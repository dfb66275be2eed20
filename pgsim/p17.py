"""P17: long-lived processes and server sessions do not accumulate memory."""

from __future__ import annotations

import collections
import functools
import gc
import io
import json
import linecache
import os
import random
import re
import sys
from typing import Any, Callable, Optional

from pgsim import core, disk, gen, inject, lsp, lspwork, p16, proj, work

RUNS = {"quick": 160, "thorough": 4000}
SHRINK = ["ops"]
REAL = ["all of pygerber in one process: API, parser, compiler, virtual machines, formatter, linter, builders, command line",
        "pygerber's language server with pygls endpoint and workspace", "Pillow, shapely, pyparsing, pydantic, click"]
STUB = ["event loop clock, executor and transport of the language server",
        "exceptions injected at chosen pygerber function calls, file system calls that fail"]
RULE = ("A seeded body of calls, or of messages to one language server, is repeated for dozens of cycles with sources "
        "that differ in each of them, its faults fire again in every cycle; live objects, lengths of containers and "
        "allocated blocks are counted between cycles after everything obtained was dropped.")
STATE_MEASURE = "hash of (kind of call or message, outcome of it, fault in it, what is kept between cycles)"
ASSUME = ["growth counts as accumulation if one measure grows by a unit per cycle or faster, and steadily, over each of five "
          "segments up to cycle 188; caches which stop growing before that, or have a declared bound, are allowed",
          "pygls itself keeps the futures of requests that failed: they are dropped by the harness"]
WARM, SEG, MORE = 9, 9, 34
CONTAINERS = (list, dict, set, collections.deque, collections.OrderedDict, collections.Counter, collections.defaultdict)
FRAME = type(sys._getframe())
UNIT = (1, 1, 40)  # per cycle: objects, entries of containers, blocks of memory
KEPT = ["file", "parser", "formatter", "linter", "view", "builder", "rvmc", "hover"]


def pick(rng: random.Random, bad: float, pool: int) -> int:
    """A source that does not take long."""
    return next(n for n in iter(lambda: gen.pick(rng, bad, pool) % gen.TWIN, None) if len(gen.numbered(n)) < 900)


def gen_body(rng: random.Random) -> list[dict]:
    p = rng.choice([0.0, 0.4, 0.8])
    ops: list[dict] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            op: dict = {"k": "kept", "obj": rng.choice(KEPT), "n": pick(rng, 0.15, 200), "o": rng.randrange(len(work.FORMAT_OPTS)),
                        "resilient": rng.random() < 0.4, "seed": rng.randrange(400), "po": rng.randrange(len(work.PARSER_OPTS)),
                        "m": pick(rng, 0.1, 200), "call": work.gen_call(rng), "sink": rng.randrange(1, 30) if rng.random() < 0.3 else 0}
            if rng.random() < p:
                op["fault"] = work.gen_fault(rng)
        else:
            op = shorter(rng, next(o for o in iter(lambda: p16.gen_op(rng, p), None) if o["k"] != "big"))
        ops.append(op)
    return ops


def shorter(rng: random.Random, x: Any) -> Any:
    if isinstance(x, dict):
        return {k: pick(rng, 0.1, 200) if k in ("n", "m") and isinstance(v, int) else [pick(rng, 0.0, 200) for _ in v] if k == "ns"
                else v if k in ("fault", "disk", "argv") else shorter(rng, v) for k, v in x.items()}
    return x


def gen_server(rng: random.Random) -> list[dict]:
    p = rng.choice([0.0, 0.0, 0.4])
    ops: list[dict] = []
    for _ in range(rng.choice([1, 2, 4])):
        ops.append({"m": rng.choice(["change", "change", "hover", "hover", "completion", "completion", "reopen", "unknown", "cancel",
                                     "bad", "badpos"]),
                    "edit": lspwork.gen_edit(rng), "at": rng.random(), "c": rng.randrange(4), "d": rng.randrange(2)})
        if rng.random() < p:
            ops[-1]["fault"] = {"n": rng.choice([1, 2, 3, 5, 9, 20, 60]), "kind": rng.choice(["fault", "memory"])}
    return ops


def generate(rng: random.Random, index: int, tier: str) -> dict:
    if rng.random() < 0.3:
        return {"mode": "server", "same": rng.random() < 0.6, "close": rng.random() < 0.75, "docs": rng.choice([1, 1, 2]),
                "text": [pick(rng, 0.2, 120) for _ in range(2)], "ops": gen_server(rng)}
    return {"mode": "calls", "job": proj.gen_job(rng, 0.1, 120), "src": [pick(rng, 0.15, 200) for _ in range(5)],
            "ops": gen_body(rng)}


# ------------------------------------------------------------------ measuring


def clear_other() -> None:
    """Caches with a fixed bound, and those of other packages, hide what pygerber keeps."""
    re.purge()
    linecache.clearcache()
    for o in gc.get_objects():
        if type(o) is functools._lru_cache_wrapper and (
                o.cache_info().maxsize is not None or not (getattr(o, "__module__", None) or "").startswith("pygerber")):
            o.cache_clear()


def measure() -> tuple[int, int, int]:
    clear_other()
    for _ in range(2):
        gc.collect()
    blocks = sys.getallocatedblocks()
    objs = gc.get_objects()
    n = len(objs)
    total = 0
    seen: set[int] = set()
    for o in objs:
        t = type(o)
        if t in CONTAINERS:
            total += len(o)  # type: ignore[arg-type]
        elif t is functools._lru_cache_wrapper:
            total += o.cache_info().currsize  # type: ignore[attr-defined]
        elif t is FRAME or t is tuple:
            continue
        for r in gc.get_referents(o):
            # Containers of strings and numbers are not tracked.
            if type(r) in CONTAINERS and not gc.is_tracked(r) and id(r) not in seen:
                seen.add(id(r))
                total += len(r)
            elif type(r) in (bytearray, io.StringIO, io.BytesIO) and id(r) not in seen:
                seen.add(id(r))
                total += (len(r) if isinstance(r, bytearray) else 0 if r.closed else len(r.getvalue())) // 16
    return n, total, blocks


def census() -> collections.Counter[str]:
    gc.collect()
    return collections.Counter(f"{type(o).__module__}.{type(o).__qualname__}" for o in gc.get_objects())


class Watch:
    """Decides from the measures between cycles."""

    def __init__(self) -> None:
        self.at = 0
        self.marks: list[tuple[int, tuple[int, int, int]]] = []
        self.grown: Optional[str] = None
        self.done = False
        self.first = ""

    def due(self, cycle: int) -> bool:
        if cycle <= WARM + SEG:
            return cycle in (WARM, WARM + SEG)
        return (cycle - WARM - SEG) % MORE == 0

    def cycle_over(self) -> bool:
        """True if the run can end."""
        self.at += 1
        if not self.due(self.at):
            return False
        self.marks.append((self.at, measure()))
        if len(self.marks) == 1:
            return False
        if not self.growing():
            self.done = True
            return True
        if len(self.marks) == 2:
            self.first = json.dumps(census())
            return False
        if self.at < 180:
            return False
        diff = census() - collections.Counter(json.loads(self.first))
        self.grown = ", ".join(sorted(k for k, v in diff.most_common(6) if v >= (self.at - WARM - SEG) // 2)) or "untracked objects"
        self.done = True
        return True

    def growing(self) -> bool:
        for i in range(3):
            steps = [(b[0] - a[0], b[1][i] - a[1][i]) for a, b in zip(self.marks, self.marks[1:])]
            if all(g >= UNIT[i] * n for n, g in steps) and all(
                    steps[-1][1] >= 0.6 * g for n, g in steps if n == steps[-1][0]):
                return True
        return False


# ------------------------------------------------------------------ calls


def at_cycle(x: Any, i: int) -> Any:
    if isinstance(x, dict):
        return {k: (v % gen.TWIN + gen.TWIN * (100 + i) if k in ("n", "m") and isinstance(v, int) else
                    [w % gen.TWIN + gen.TWIN * (100 + i) for w in v] if k == "ns" else
                    v if k in ("fault", "disk", "argv") else at_cycle(v, i)) for k, v in x.items()}
    return x


def make_kept(op: dict) -> Any:
    from pygerber.gerber.api import CompositeView
    from pygerber.gerber.formatter import Formatter
    from pygerber.gerber.linter import RULE_REGISTRY, Linter
    from pygerber.gerber.parser.pyparsing.parser import Parser

    k = op["obj"]
    if k == "file":
        return work.make_file({"n": op["n"]})
    if k == "parser":
        return Parser(resilient=op["resilient"])
    if k == "formatter":
        return Formatter(work.options(op["o"]))
    if k == "linter":
        return Linter([r() for r in RULE_REGISTRY.values()])
    if k == "view":
        return CompositeView([work.make_file({"n": n}) for n in (op["n"], op["m"])])
    if k == "builder":
        from pgsim import p12

        b = p12.make_builder(p12.gen_gerber(random.Random(op["seed"]), 6, 0.1))
        return b
    if k == "rvmc":
        return work.guarded(lambda: work.compiled(gen.numbered(op["n"])))
    return work.guarded(lambda: work.parse_source(gen.numbered(op["n"]), True))


def use_kept(obj: Any, op: dict, i: int) -> Any:
    k = op["obj"]
    src = lambda: gen.numbered(op["m"] % gen.TWIN + gen.TWIN * (100 + i))  # noqa: E731
    if k == "file":
        obj.set_color_map(work.color_map(i % 4))
        if i % 2:
            obj.set_parser_options(**work.parser_opts(op["po"]))
        return work.do_op(obj, op["call"])
    if k == "parser":
        return obj.parse(src(), strict=bool(op["o"] % 2))
    if k == "formatter":
        tree = work.parse_source(src(), op["resilient"])
        if op["sink"]:
            return obj.format(tree, work.FailingSink(op["sink"]))
        return obj.formats(tree)
    if k == "linter":
        return list(obj.lint(work.parse_source(src(), op["resilient"])))
    if k == "view":
        obj.set_color_map(work.color_map(i % 4))
        return obj.render_with_pillow(dpmm=3 + i % 3)
    if k == "builder":
        return obj.get_code().dumps()
    if isinstance(obj, list):
        return None
    if k == "rvmc":
        return [work.consume_rvmc(obj, {"c": "pillow", "dpmm": 4, "style": 1}), work.consume_rvmc(obj, {"c": "shapely", "style": 1})]
    return [work.consume_ast(obj, {"c": c, "o": op["o"], "i": op["seed"], "r": 0}) for c in ("hover", "state", "format", "lint")]


def run_calls(plan: dict, ctx: core.Ctx, root: str, watch: Watch) -> None:
    kept = [make_kept(op) if op["k"] == "kept" else None for op in plan["ops"]]
    sources: dict[str, int] = dict(zip(p16.cli.SOURCES, plan["src"]))
    outcome: dict = {}
    with inject.CallFaults() as cf:
        ns: list[Optional[int]] = [None] * len(plan["ops"])
        while True:
            i = watch.at
            if any(op["k"] in ("cli", "load") for op in plan["ops"]):
                for name, n in sources.items():
                    with open(os.path.join(root, "w", name), "wb") as f:
                        f.write(gen.numbered(n % gen.TWIN + gen.TWIN * (100 + i)).encode("utf-8"))
            for j, op in enumerate(plan["ops"]):
                one_call(plan, op, j, i, root, kept, cf, ns, outcome)
                sys.stdout.seek(0)
                sys.stdout.truncate()
                sys.stderr.seek(0)
                sys.stderr.truncate()
            if watch.cycle_over():
                break
    ctx.event("body", plan["ops"])
    for (j, what, fired), n in sorted(outcome.items(), key=str):
        op = plan["ops"][j]
        ctx.state(op["k"], op.get("obj"), op.get("op", {}).get("k"), what, fired)
        ctx.event(j, op["k"], what, fired, n)
        if fired:
            ctx.faults[f"{fired}_in_{op['k']}"] += n
        ctx.probes["returned" if what == "ok" else "raised"] += n


def one_call(plan: dict, op: dict, j: int, i: int, root: str, kept: list, cf: inject.CallFaults, ns: list, outcome: dict) -> None:
    d = disk.Disk(root, [dict(x) for x in op.get("disk", [])])
    if op["k"] == "kept":
        fn: Callable[[], Any] = lambda: use_kept(kept[j], op, i)  # noqa: E731
        made: list = []
    else:
        o = at_cycle(op, i)
        made = p16.given(o, root)
        fn = lambda: p16.perform(o, root, d, plan, made)  # noqa: E731
    f = op.get("fault")
    if f:
        if ns[j] is None:
            ns[j] = cf.resolve(f, fn if op["k"] == "kept" else p16.rehearsal(o, root, plan))
        cf.arm(ns[j], f["kind"])
    what = "ok"
    try:
        fn()
    except (Exception, KeyboardInterrupt, SystemExit, inject.InjectedFault) as e:  # noqa: BLE001
        what = type(e).__name__
    finally:
        cf.disarm()
    fired = f["kind"] if f and cf.fired else "disk" if d.fired else None
    for m in made:
        if hasattr(m, "closed") and not m.closed:
            m.close()
    key = (j, what, fired)
    outcome[key] = outcome.get(key, 0) + 1


# ------------------------------------------------------------------ server


def run_server(plan: dict, ctx: core.Ctx, watch: Watch) -> None:
    world = lsp.World(random.Random(0), mode="stream")
    faults = collections.Counter[str]()
    cf = inject.CallFaults()
    ids = iter(range(1, 10**9))
    uris = [lspwork.URIS[0], lspwork.URIS[2]]
    texts: dict[str, str] = {}
    answers = collections.Counter[str]()

    def send(msg: Any) -> None:
        world.feed(world.encode(msg))

    def steps(i: int) -> Any:
        """Messages of one cycle."""
        names = [u if plan["same"] else u.replace("/sim/", f"/sim{i}/") for u in uris[: plan["docs"]]]
        opened = plan["close"] or i == 0 or not plan["same"]
        for k, u in enumerate(names):
            t = gen.numbered(plan["text"][k] % gen.TWIN + gen.TWIN * (100 + i)).replace("\r\n", "\n")
            texts[u] = t
            if opened:
                yield None, lsp.open_message(u, t, 1)
            else:
                yield None, {"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                    "textDocument": {"uri": u, "version": i + 1}, "contentChanges": [{"text": t}]}}
        for op in plan["ops"]:
            u = names[op["d"] % len(names)]
            t = texts[u]
            m = op["m"]
            f = op.get("fault")
            if m == "change":
                e = lspwork.concretise_edit(t, {**op["edit"]} if op["edit"]["e"] != "back" else {"e": "same", "whole": True})
                texts[u] = lsp.apply_edit(t, e)
                yield f, {"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                    "textDocument": {"uri": u, "version": 5 + i}, "contentChanges": [e]}}
            elif m in ("hover", "completion"):
                line = int(op["at"] * (t.count("\n") + 1))
                yield f, lsp.query_message(next(ids), m, u, line, op["c"])
            elif m == "reopen":
                yield None, close(u)
                yield f, lsp.open_message(u, texts[u], 1)
            elif m == "unknown":
                yield None, {"jsonrpc": "2.0", "id": next(ids), "method": f"sim/unknown{i}", "params": {"a": [1, i]}}
            elif m == "cancel":
                n = next(ids)
                yield None, lsp.query_message(n, "hover", u, 3, 0)
                yield None, {"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": n}}
            elif m == "bad":
                yield None, lsp.query_message(next(ids), "hover", f"file:///sim/x{i}.txt", 0, 0)
            else:
                yield None, lsp.query_message(next(ids), "hover", u, -1 - i, 99999)
        if plan["close"] or not plan["same"]:
            for u in names:
                yield None, close(u)
        texts.clear()

    def close(u: str) -> dict:
        return {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": u}}}

    def script(_: Any) -> None:
        send(lsp.init_message("init"))
        world.loop.call_later(1.0, cycle)

    def cycle() -> None:
        advance(steps(watch.at))

    def advance(gen_: Any) -> None:
        if cf.armed or cf.fired:
            faults[cf.kind] += bool(cf.fired)
            cf.disarm()
            cf.fired = None
        nxt = next(gen_, None)
        if nxt is not None:
            f, msg = nxt
            if f:
                cf.arm(f["n"], f["kind"])
            world.loop.call_later(1.0, advance, gen_)
            send(msg)
            return
        for _, _, m in world.replies:
            answers["error" if "error" in m else "null" if m.get("result") is None else "answer"] += 1
        world.replies.clear()
        world.loop_errors.clear()
        pending = world.server.lsp._request_futures
        for k in [k for k, v in pending.items() if v.done()]:
            del pending[k]
        world.fed = b""
        world.loop.call_later(1.0, over)

    def over() -> None:
        if watch.cycle_over():
            world.loop.stop()
        else:
            cycle()

    with cf:
        world.run(script)
    ctx.sim_time += world.loop.now
    if not watch.done:
        raise core.Violation("stopped", f"the server stopped after {watch.at} cycles: {world.exited} {world.deadlocks[:1]}")
    for k, n in faults.items():
        ctx.faults[f"{k}_in_server"] += n
    for k, n in answers.items():
        ctx.probes[f"reply_{k}"] += n
    ctx.state("server", plan["same"], plan["close"], plan["docs"], [o["m"] for o in plan["ops"]], sorted(faults))
    ctx.event("body", plan["same"], plan["close"], plan["text"][: plan["docs"]], plan["ops"])
    ctx.event("server", sorted(answers.items()), sorted(faults.items()))


def execute(plan: dict, ctx: core.Ctx) -> None:
    watch = Watch()
    gc.unfreeze()
    if plan["mode"] == "server":
        run_server(plan, ctx, watch)
    else:
        with disk.Scratch(p16.layout(plan)) as root:
            out, err, old = sys.stdout, sys.stderr, os.getcwd()
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                os.chdir(os.path.join(root, "w"))
                run_calls(plan, ctx, root, watch)
            finally:
                sys.stdout, sys.stderr = out, err
                os.chdir(old)
    ctx.steps += watch.at
    ctx.probes["cycles"] += watch.at
    ctx.probes["looked_longer"] += watch.at > WARM + SEG
    if os.environ.get("PGSIM_LOG"):
        print("P17", watch.at, watch.marks, file=sys.stderr)
    if watch.grown:
        raise core.Violation("accumulates", f"every repetition of {plan['ops']} leaves something behind, still after {watch.at} "
                             f"cycles: {watch.grown}")
