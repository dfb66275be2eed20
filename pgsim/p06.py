"""P06: commands never destroy data they were not able to replace."""

from __future__ import annotations

import random
import re
from typing import Any

from pgsim import cli, core, disk, work
from pgsim.p05 import REAL, STUB  # noqa: F401

RUNS = {"quick": 3000, "thorough": 80000}
SHRINK = ["cmds"]
RULE = ("Seeded histories of 1-4 commands over one directory (existing outputs, in-place formatting, missing, unreadable "
        "and invalid sources and configurations) with I/O errors, kills at seeded I/O steps and injected processing "
        "failures; the whole directory is compared byte for byte before and after each command.")
STATE_MEASURE = "hash of (command, format, operation faulted, fault kind, status, whether output existed, where it failed)"
ASSUME = ["a run that failed while or after writing its complete result may leave the output in any state",
          "an injected failure counts as failing processing when it fires inside parser, tree, compiler, formatter, "
          "linter or virtual machine code other than functions named save, write, dump or open"]

PROCESSING = re.compile(r"^(gerber/(parser|ast|compiler|formatter|linter)|vm)/")
SAVING = re.compile(r"save|write|dump|open|flush|close|store|output", re.I)


def generate(rng: random.Random, index: int, tier: str) -> dict:
    files = cli.gen_files(rng, 0.3)
    cmds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c: dict = {"argv": cli.gen_command(rng)}
        r = rng.random()
        if r < 0.45:
            c["faults"] = cli.gen_disk_faults(rng, rng.choice([3, 6, 10]), argv=c["argv"])
        elif r < 0.8:
            c["call"] = work.gen_fault(rng, ("fault", "memory", "interrupt"), 3.9)
        cmds.append(c)
    return {"files": files, "cmds": cmds}


def execute(plan: dict, ctx: core.Ctx) -> None:
    initial = cli.materialise(plan["files"])
    with disk.Scratch(initial) as root:
        for i, c in enumerate(plan["cmds"]):
            argv = c["argv"]
            out = cli.output_of(argv)
            before = disk.snapshot(root)
            rep = cli.run(root, argv, faults=c.get("faults", []), call=cli.resolve(ctx, plan["files"], argv, c.get("call")))
            after = disk.snapshot(root)
            for op, kind, _n in rep["fired"]:
                ctx.faults[f"{kind}_{op}"] += 1
            if rep["site"]:
                ctx.faults[f"{rep['fault_kind']}_call"] += 1
            ctx.steps += rep["steps"]
            ctx.event(argv, rep["status"], rep["killed"], rep["fired"], rep["site"])
            why = early(rep)
            ctx.state(argv[1:3], [f[:2] for f in rep["fired"]], rep["status"], rep["killed"], out in before, why)
            for name in sorted(set(before) | set(after)):
                if name == out or before.get(name) == after.get(name):
                    continue
                what = "created" if name not in before else "removed" if name not in after else "modified"
                if what == "created" and out and name.startswith(out + "/"):
                    continue
                raise core.Violation("bystander", f"command {i} {argv} {what} {name} (asked to write {out}); "
                                     f"faults {rep['fired']} {rep['site']}")
            if out in before and why and before[out] != after.get(out):
                raise core.Violation(
                    "output-destroyed", f"command {i} {argv} failed ({why}) but {out} changed from "
                    f"{cli.json_bytes(before[out])} to {cli.json_bytes(after.get(out))} (length, hash)")
            ctx.probes["early_failure" if why else "ok" if rep["status"] == 0 else "late_failure"] += 1
            if why and out in before:
                ctx.probes["early_failure_with_existing_output"] += 1
            disk.populate(root, {k: v for k, v in initial.items() if k == out and k in cli.SOURCES})


def early(rep: dict) -> Any:
    """Why the run can not have had a complete result (None: it may have had one)."""
    if rep["killed"]:
        op = rep["fired"][-1][0]
        first_w = next((x for x in rep["log"] if x[0] in ("open-w", "write", "truncate")), None)
        if op in ("open-r", "read", "access") and first_w is None:
            return f"killed at {op}"
        if op == "open-w" and not rep["opened"]:
            return "killed before opening output"
        return None
    if rep["status"] == 0:
        return None
    fatal = [f for f in rep["fired"] if f[1] not in ("short", "FULL")]
    full = [f for f in rep["fired"] if f[1] == "FULL"]
    if not rep["fired"] and not rep["site"]:
        return f"on its own: {rep.get('exc') or rep['status']}"
    if rep["site"] and not fatal and not full:
        file, name = rep["site"].split(":", 1)
        if PROCESSING.match(file) and not SAVING.search(name):
            return f"injected failure in {rep['site']}"
        return None
    if fatal and all(f[0] in ("open-r", "read", "access") for f in fatal) and not full:
        return f"reading failed: {fatal[0]}"
    return None
