"""P09: parser, formatter and linter objects can be reused after any failure."""

from __future__ import annotations

import io
import random
from typing import Any, Optional

from pgsim import core, gen, inject, work

RUNS = {"quick": 900, "thorough": 40000}
SHRINK = ["ops", "objs"]
REAL = ["pygerber Parser, Formatter, Linter and lint rules, syntax tree", "pyparsing"]
STUB = ["text destinations which fail at a chosen write (before or after taking part of the text)",
        "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of uses of 1-4 shared parser, formatter and linter objects over valid and invalid sources, with "
        "destinations failing at seeded writes and exceptions, memory errors and interrupts at seeded calls.")
STATE_MEASURE = "hash of (kind and options of object, kind of use, how its two previous uses ended, where a fault struck)"
ASSUME = ["reference: a newly created object handling only that source in a process that did nothing else"]

KINDS = ["parser", "parser", "formatter", "formatter", "formatter", "linter"]
RULES = [None, ["DEP001"], ["DEP002", "GRB001"], ["GRB001", "DEP001"]]


class SinkError(OSError):
    pass


class SinkInterrupt(KeyboardInterrupt):
    pass


class SinkMemory(MemoryError):
    pass


class SinkValue(ValueError):
    pass


ERRORS = {"os": SinkError, "interrupt": SinkInterrupt, "memory": SinkMemory, "value": SinkValue}


class Sink(io.StringIO):
    """Destination whose k-th write fails; `part` of the text may have been taken."""

    def __init__(self, at: Optional[int], kind: str, part: int) -> None:
        super().__init__()
        self.n = 0
        self.at = at
        self.kind = kind
        self.part = part
        self.error: Optional[BaseException] = None

    def write(self, s: str) -> int:
        self.n += 1
        if self.at is not None and self.n == self.at:
            super().write(s[: self.part])
            self.error = ERRORS[self.kind]("destination failed")
            raise self.error
        return super().write(s)

    def writelines(self, lines: Any) -> None:
        for x in lines:
            self.write(x)


def gen_obj(rng: random.Random) -> dict:
    k = rng.choice(KINDS)
    if k == "parser":
        return {"k": k, "resilient": rng.random() < 0.4, "own": rng.choice([0, 0, 0, 1, 2, 3])}
    if k == "formatter":
        return {"k": k, "o": rng.randrange(len(work.FORMAT_OPTS))}
    return {"k": k, "r": rng.randrange(len(RULES))}


def generate(rng: random.Random, index: int, tier: str) -> dict:
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    n = rng.choice([4, 8, 12]) if tier == "quick" else rng.choice([4, 8, 16, 40])
    p_fault = rng.choice([0.0, 0.25, 0.5])
    if rng.random() < 0.03:  # a long life
        n, p_fault = 45, 0.05
    ops = []
    for _ in range(n):
        j = rng.randrange(len(objs))
        op: dict = {"j": j, "n": gen.pick(rng, rng.choice([0.1, 0.5]), 300)}
        if ops and rng.random() < 0.15:
            op["n"] = gen.twin_of(rng, rng.choice(ops)["n"])
        if objs[j]["k"] == "parser":
            op["strict"] = rng.random() < 0.8
        if objs[j]["k"] == "formatter":
            op["how"] = rng.choice(["format", "format", "format", "formats", "node", "node_to"])
            op["i"] = rng.randrange(80)
            if op["how"] in ("format", "node_to") and rng.random() < 0.5:
                op["sink"] = {"at": int(10 ** (rng.random() * 2.6)), "kind": rng.choice(list(ERRORS)),
                              "part": rng.choice([0, 0, 1, 2])}
        if rng.random() < p_fault:
            op["fault"] = work.gen_fault(rng, top=3.3)
        ops.append(op)
    return {"objs": objs, "copy": rng.random() < 0.75, "ops": ops}


def make(spec: dict) -> Any:
    if spec["k"] == "parser":
        from pygerber.gerber.parser.pyparsing.parser import Parser

        return Parser(work.overrides(spec.get("own", 0)), resilient=spec["resilient"])
    if spec["k"] == "formatter":
        from pygerber.gerber.formatter import Formatter

        return Formatter(work.options(spec["o"]))
    from pygerber.gerber.linter import RULE_REGISTRY, Linter

    names = RULES[spec["r"]] or list(RULE_REGISTRY)
    return Linter([RULE_REGISTRY[r]() for r in names if r in RULE_REGISTRY])


def node_of(ast: Any, i: int) -> Any:
    nodes = work.walk(ast)
    return nodes[i % len(nodes)] if nodes else ast


def use(obj: Any, spec: dict, op: dict, ast: Any, sink: Optional[Sink]) -> tuple[Any, Any]:
    """(canonical result, object to check again later)"""
    if spec["k"] == "parser":
        t = obj.parse(gen.numbered(op["n"]), strict=op["strict"])
        return ["tree", work.tree_hash(t)], t
    if spec["k"] == "linter":
        v = obj.lint(ast)
        return ["lint", [work.tree(x) for x in v]], v
    how = op["how"]
    if how == "formats":
        return ["text", obj.formats(ast)], None
    if how == "node":
        return ["text", obj.formats_node(node_of(ast, op["i"]))], None
    assert sink is not None
    if how == "node_to":
        obj.format_node(node_of(ast, op["i"]), sink)
    else:
        obj.format(ast, sink)
    return ["text", sink.getvalue()], None


def reference_parser(spec: dict, op: dict) -> Any:
    return reference("", True, spec, op, None)


def reference(src: str, resilient: bool, spec: dict, op: dict, data: Optional[bytes]) -> Any:
    try:
        ast = None if spec["k"] == "parser" else work.fresh_tree(src, resilient, data)
        return use(make(spec), spec, op, ast, Sink(None, "os", 0))[0]
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__]


reference.needs = ("pgsim.work:ref_pickled", 2)  # type: ignore[attr-defined]


def reaches(e: Optional[BaseException], want: BaseException) -> bool:
    seen = 0
    while e is not None and seen < 20:
        if e is want:
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def execute(plan: dict, ctx: core.Ctx) -> None:
    if not plan["objs"]:
        return
    specs = plan["objs"]
    objs = [make(s) for s in specs]
    trees: dict[int, Any] = {}
    kept: list = []
    hist = [("", "") for _ in objs]
    with inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            j = op["j"] % len(objs)
            spec, obj = specs[j], objs[j]
            ast = None
            if spec["k"] != "parser":
                if op["n"] not in trees:
                    try:
                        src = gen.numbered(op["n"])
                        data = ctx.ref("pgsim.work:ref_pickled", src, True) if plan["copy"] else None
                        trees[op["n"]] = work.fresh_tree(src, True, data)
                    except Exception:  # noqa: BLE001
                        trees[op["n"]] = None
                ast = trees[op["n"]]
                if ast is None:
                    continue
            s = op.get("sink")
            sink = Sink(s["at"], s["kind"], s["part"]) if s else Sink(None, "os", 0)
            f = op.get("fault")
            if f:
                cf.arm(cf.resolve(f, lambda: use(obj, spec, op, ast, sink)), f["kind"])
            err: Optional[BaseException] = None
            got: Any = None
            obj2: Any = None
            try:
                got, obj2 = use(obj, spec, op, ast, sink)
            except (Exception, KeyboardInterrupt, inject.InjectedFault) as e:  # noqa: BLE001
                err = e
                got = ["err", type(e).__name__]
            finally:
                cf.disarm()
            fired = bool(f and cf.fired)
            label = f"use {i} of object {j} {spec}: {op}"
            ctx.steps += 1
            ctx.event(i, j, core.h(got), cf.fired if fired else "", sink.error is not None)
            end = "sink" if sink.error else "fault" if fired else got[0]
            ctx.state(spec, op.get("how"), hist[j], end, cf.fired if fired else "")
            hist[j] = (hist[j][1], end)
            bare = {k: v for k, v in op.items() if k not in ("fault", "sink", "j")}
            want = (ctx.ref("pgsim.p09:reference_parser", spec, bare) if spec["k"] == "parser"
                    else ctx.ref("pgsim.p09:reference", gen.numbered(op["n"]), True, spec, bare))
            if sink.error is not None:
                ctx.faults[f"destination_{s['kind']}"] += 1
                if err is None:
                    raise core.Violation("error-lost", f"{label}: destination raised, the call returned normally")
                if not reaches(err, sink.error):
                    raise core.Violation("error-lost", f"{label}: destination raised {sink.error!r}, caller got {err!r}")
                if want[0] == "text" and not want[1].startswith(sink.getvalue()):
                    raise core.Violation("not-a-prefix", f"{label}: written {sink.getvalue()[-200:]!r} is no prefix of "
                                         f"{want[1][:200]!r}")
                continue
            if fired:
                ctx.faults[f"{f['kind']}_in_{spec['k']}"] += 1
                if err is not None:
                    if (spec["k"] == "formatter" and want[0] == "text" and op["how"] in ("format", "node_to")
                            and not want[1].startswith(sink.getvalue())):
                        raise core.Violation("not-a-prefix", f"{label}: interrupted, but {sink.getvalue()[-200:]!r} is no "
                                             f"prefix of {want[1][:200]!r}")
                    continue
            if got != want:
                raise core.Violation("reuse-differs", f"{label} gave {str(got)[:300]}, a new object gives "
                                     f"{str(want)[:300]}")
            ctx.probes["err" if got[0] == "err" else "ok"] += 1
            if obj2 is not None:
                kept.append((i, j, got, obj2))
    for i, j, got, o in kept:
        now = ["tree", work.tree_hash(o)] if got[0] == "tree" else ["lint", [work.tree(x) for x in o]]
        if now != got:
            raise core.Violation("earlier-result-changed", f"result of use {i} of object {j} {specs[j]} was changed by a "
                                 "later use")
    ctx.probes["earlier_results_rechecked"] += len(kept)
