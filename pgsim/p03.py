"""P03: results of a loaded file do not depend on earlier calls."""

from __future__ import annotations

import random
from typing import Any

from pgsim import core, gen, inject, work

RUNS = {"quick": 900, "thorough": 20000}
SHRINK = ["ops", "files"]
REAL = ["pygerber API (GerberFile), parser, compiler, both virtual machines, formatter", "Pillow, shapely, pyparsing"]
STUB = ["text destinations that fail at a chosen write", "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of render, format, hash, save, option and colour-map calls over 1-3 loaded files, with "
        "injected exceptions, memory errors and interrupts at seeded calls and destinations failing at seeded writes.")
STATE_MEASURE = "hash of (configuration of the file, call kind, kinds of the two calls before it, fault before it)"
ASSUME = ["reference is the same single call on a newly loaded file in a process that did nothing else",
          "option and colour-map setters themselves are not interrupted"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    nf = rng.choice([1, 1, 2, 3])
    files = [work.gen_spec(rng) for _ in range(nf)]
    typed = rng.random() < 0.15
    if typed:
        files = [{"n": work.gen_spec(rng)["n"] % gen.TWIN + rng.choice([12, 13, 13]) * gen.TWIN, "type": rng.choice(["INFER", "INFER_FROM_ATTRIBUTES"])}
                 for _ in range(rng.choice([1, 3, 5]))]
        nf = len(files)
    if not typed and nf > 1 and rng.random() < 0.5:
        files[1] = {**files[0], "type": rng.choice(["INFER", "COPPER"])}
        if rng.random() < 0.5:
            files[1]["n"] = gen.twin_of(rng, files[0]["n"])
    n = rng.choice([3, 6, 10]) if tier == "quick" else rng.choice([3, 6, 10, 25])
    p_fault = rng.choice([0.0, 0.25, 0.5])
    if rng.random() < 0.03:  # a long life
        n, p_fault = 45, 0.05
    p_set = rng.choice([0.1, 0.3, 0.5])
    ops = []
    done: list[dict] = []
    if typed and rng.random() < 0.6:  # the first look at each file fails, maybe while its type is worked out
        for f in range(nf):
            fault = work.gen_fault(rng, site=1.0)
            if rng.random() < 0.3:
                fault["site"][1] = round(rng.random() * 0.1, 4)
            first = {"f": f, "op": rng.choice(["pillow", "pillow", "shapely"]), "style": None}
            if first["op"] == "pillow":
                first["dpmm"] = rng.choice([4, 7])
            ops += [{**first, "fault": fault}, first]
    for _ in range(n):
        f = rng.randrange(nf)
        if ops and "fault" in ops[-1] and rng.random() < 0.5:
            ops.append({k: v for k, v in ops[-1].items() if k != "fault"})
            continue
        if done and rng.random() < 0.35:
            # the same call again, after whatever happened since
            ops.append(dict(rng.choice(done[-3:])))
            continue
        if rng.random() < p_set:
            k = rng.choice(["parser", "compiler", "colors", "colors"])
            before = [o for o in ops if "set" in o]
            if before and rng.random() < 0.6:
                # replace options given earlier
                k, f = before[-1]["set"], before[-1]["f"]
            lim = {"parser": len(work.PARSER_OPTS), "compiler": len(work.COMPILER_OPTS), "colors": 8}[k]
            ops.append({"f": f, "set": k, "v": rng.randrange(lim)})
            continue
        op = {"f": f, **work.gen_call(rng)}
        done.append(dict(op))
        if rng.random() < p_fault:
            op["fault"] = work.gen_fault(rng)
        elif rng.random() < 0.15:
            op["scribble"] = True
        ops.append(op)
    return {"files": files, "ops": ops}


def execute(plan: dict, ctx: core.Ctx) -> None:
    if not plan["files"]:
        return
    files = [work.make_file(s) for s in plan["files"]]
    conf = [[0, 0, 0] for _ in files]
    hist: list[list[str]] = [["", ""] for _ in files]
    held: list[tuple[int, Any, Any]] = []  # results the caller still holds
    with inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            j = op["f"] % len(files)
            f, c, spec = files[j], conf[j], plan["files"][j]
            if "set" in op:
                if op["set"] == "parser":
                    f.set_parser_options(**work.parser_opts(op["v"]))
                    c[0] = op["v"]
                elif op["set"] == "compiler":
                    f.set_compiler_options(**work.COMPILER_OPTS[op["v"]])
                    c[1] = op["v"]
                else:
                    f.set_color_map(work.color_map(op["v"]))
                    c[2] = op["v"]
                ctx.event("set", j, op["set"], op["v"])
                hist[j] = [hist[j][1], "set-" + op["set"]]
                continue
            keep: list = []
            call = {k: v for k, v in op.items() if k not in ("f", "fault", "scribble")}
            if "fault" in op:
                got, raised = work.faulted(cf, op["fault"], lambda: work.do_op(f, call, keep), ctx, op["op"])
            else:
                got, raised = work.guarded(lambda: work.do_op(f, call, keep)), False
            ctx.steps += 1
            ctx.event("call", i, j, op["op"], core.h(got))
            mark = op["op"] + ("!" if raised else "")
            ctx.state(tuple(c), op["op"], tuple(hist[j]), raised)
            hist[j] = [hist[j][1], mark]
            if raised:
                continue
            if op["op"] == "format_sink":
                ctx.faults["sink_error"] += got[0] == "err"
            want = ctx.ref("pgsim.work:ref_op", spec, *c, call)
            if op["op"] == "format_sink" and want[0] == "text" and got[0] == "err":
                if got[1] != "OSError":
                    raise core.Violation("wrong-error", f"destination failed with OSError, caller got {got[1]}")
                continue
            if got != want:
                raise core.Violation(
                    "history-dependent",
                    f"call {i} {call} on file {j} (source {spec}) gave {str(got)[:300]}, alone it gives {str(want)[:300]}")
            ctx.probes["err_result" if got[0] == "err" else "ok_result"] += 1
            if op.get("scribble") and keep and hasattr(keep[0], "get_image"):
                # the caller draws on the image it was given
                ctx.probes["caller_drew_on_result"] += 1
                keep[0].get_image().paste((1, 2, 3, 4), (0, 0, 3, 3))
            elif keep:
                held.append((i, keep[0], got))
    for i, img, got in held:
        now = work.again(img)
        if now != got:
            raise core.Violation("result-changed", f"image returned by call {i} {plan['ops'][i]} is different at the end: "
                                 f"{str(got)[:200]} became {str(now)[:200]}")
    ctx.probes["results_held"] += len(held)
