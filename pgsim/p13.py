"""P13: consumers never change the tree or code they are given."""

from __future__ import annotations

import random
from typing import Any

from pgsim import core, gen, inject, work

RUNS = {"quick": 1000, "thorough": 20000}
SHRINK = ["ops"]
REAL = ["pygerber parser, compiler, formatter, linter, node finder, state tracking, hover, both virtual machines"]
STUB = ["exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded sequences of consumers over one parsed tree and the code compiled from it, with injected exceptions, "
        "memory errors and interrupts at seeded calls; after each step tree and code are compared with their "
        "canonical form before it, and each result with that of a pristine copy in a pristine process.")
STATE_MEASURE = "hash of (source number, consumer, previous consumer, fault site)"
ASSUME = ["tree and code are compared by their public model fields, including source positions"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    n = rng.choice([4, 8, 12]) if tier == "quick" else rng.choice([4, 8, 12, 30])
    p_fault = rng.choice([0.0, 0.3, 0.6])
    if rng.random() < 0.03:  # a long life
        n, p_fault = 45, 0.05
    ops = []
    for _ in range(n):
        if rng.random() < 0.65:
            op = {"on": "ast", **work.gen_consumer(rng)}
        else:
            op = {"on": "rvmc", **work.gen_rvmc_consumer(rng)}
        if rng.random() < p_fault:
            op["fault"] = work.gen_fault(rng, top=3.4)
        ops.append(op)
    num = rng.randrange(330)
    if rng.random() < 0.02:
        num += gen.TWIN * rng.randrange(9, 12)
    if rng.random() < 0.12:
        for op in ops:
            if op["on"] == "ast":
                fault = op.get("fault")
                op.clear()
                op.update({"on": "rvmc", **work.gen_rvmc_consumer(rng), **({"fault": fault} if fault else {})})
        return {"n": 0, "src": f"@code:{rng.randrange(300)}", "resilient": False, "stop": False, "copy": False, "ops": ops}
    return {"n": num, "resilient": num % gen.TWIN % 11 == 7 or rng.random() < 0.15, "stop": rng.random() < 0.3,
            "copy": rng.random() < 0.75, "ops": ops}


def execute(plan: dict, ctx: core.Ctx) -> None:
    src = plan.get("src") or gen.numbered(plan["n"])
    res, stop = plan["resilient"], plan["stop"]
    data = ctx.ref("pgsim.work:ref_pickled", src, res) if plan["copy"] else None
    ctx.probes["tree_copied" if data else "tree_parsed"] += 1
    made = src.startswith("@code:")
    name = src if made else plan["n"]
    ctx.probes["made_code"] += made
    try:
        ast = None if made else work.fresh_tree(src, res, data)
    except Exception:  # noqa: BLE001
        ctx.probes["unparsable"] += 1
        return
    try:
        rvmc: Any = work.compiled(src, res, stop, data=data)
    except Exception:  # noqa: BLE001
        rvmc = None
    before = work.tree_hash(ast)
    if not made and before != ctx.ref("pgsim.work:ref_tree", src, res):
        raise core.Violation("parse-differs", f"parse of source {name} differs from a pristine process")
    rbefore = work.tree_hash(rvmc) if rvmc is not None else None
    if rvmc is not None and rbefore != ctx.ref("pgsim.work:ref_rvmc_tree", src, res, stop):
        raise core.Violation("compile-differs", f"compile of source {name} differs from a pristine process")
    prev = ""
    with inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            on_ast = op["on"] == "ast"
            if not on_ast and rvmc is None:
                continue
            call = {k: v for k, v in op.items() if k not in ("on", "fault")}

            def fn() -> Any:
                return work.consume_ast(ast, call) if on_ast else work.consume_rvmc(rvmc, call)

            if "fault" in op:
                got, raised = work.faulted(cf, op["fault"], fn, ctx, op["c"])
            else:
                got, raised = work.guarded(fn), False
            ctx.steps += 1
            ctx.event(i, op["on"], op["c"], core.h(got), raised)
            ctx.state(plan["n"], op["c"], prev, cf.fired if raised else "")
            prev = op["c"] + ("!" if raised else "")
            if work.tree_hash(ast) != before:
                raise core.Violation("tree-changed", f"{call} changed the tree of source {name} (fault={op.get('fault')})")
            if rvmc is not None and work.tree_hash(rvmc) != rbefore:
                raise core.Violation("code-changed", f"{call} changed the VM code of source {name} (fault={op.get('fault')})")
            if raised:
                continue
            ctx.probes["err" if got[0] == "err" else "ok"] += 1
            want = (ctx.ref("pgsim.work:ref_consume_ast", src, res, call) if on_ast
                    else ctx.ref("pgsim.work:ref_consume_rvmc", src, res, stop, call))
            if got != want:
                raise core.Violation(
                    "result-differs",
                    f"{call} on the shared {op['on']} of source {name} gave {str(got)[:300]}, on a fresh copy {str(want)[:300]}")
