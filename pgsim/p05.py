"""P05: a command that reports success produced its complete output."""

from __future__ import annotations

import os
import random
from typing import Any

from pgsim import cli, core, disk, work

RUNS = {"quick": 1200, "thorough": 60000}
SHRINK = ["cmds"]
REAL = ["pygerber command line (click), API, parser, compiler, virtual machines, formatter, linter",
        "Pillow encoders, shapely, Python buffered and text I/O", "real files in a scratch directory"]
STUB = ["open/read/write/truncate/close of scratch files: each is a step which can fail, be short, torn or kill",
        "standard output: a pipe which can fail", "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of 1-4 commands over one directory with I/O errors, full disk, short and torn writes, kills "
        "at seeded I/O steps, failing standard output and injected processing failures; each followed by an "
        "undisturbed rerun.")
STATE_MEASURE = "hash of (command, format, operation faulted, fault kind, status, whether output existed)"
ASSUME = ["a kill loses Python buffers but nothing handed to the operating system",
          "sources overwritten in place by a disturbed run are restored before the rerun"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    files = cli.gen_files(rng, 0.04)
    cmds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c: dict = {"argv": cli.gen_command(rng, 0.12)}
        r = rng.random()
        if c["argv"][1] in ("lint", "list-lint-rules") and r < 0.5:
            c["out_fault"] = {"fail_at": rng.choice([1, 1, 2, 2, 3, 5]), "err": rng.choice(["EPIPE", "ENOSPC", "EIO"]),
                              "once": rng.random() < 0.5}
        elif r < 0.6:
            c["faults"] = cli.gen_disk_faults(rng, rng.choice([4, 8, 14]), argv=c["argv"])
        elif r < 0.8:
            c["call"] = work.gen_fault(rng, ("fault", "memory", "interrupt"), 3.9)
        named = [x for x in c["argv"] if x in cli.SOURCES or x in cli.CONFIGS]
        if named and rng.random() < 0.08:
            c["gone"] = rng.choice(named)
        if rng.random() < 0.25:
            c["left"] = rng.choice(["same", "near", "prefix", "longer"])
        if rng.random() < 0.2:
            c["short"] = rng.choice([1, 7, 100])
        cmds.append(c)
    return {"files": files, "cmds": cmds}


def execute(plan: dict, ctx: core.Ctx) -> None:
    initial = cli.materialise(plan["files"])
    with disk.Scratch(initial) as root:
        for i, c in enumerate(plan["cmds"]):
            argv = c["argv"]
            out = cli.output_of(argv)
            want = ctx.ref("pgsim.cli:reference", plan["files"], argv)
            if c.get("left") and out and isinstance(want["output"], bytes) and out not in cli.SOURCES:
                # at the output lies what resembles the result, left by whatever was run before
                disk.populate(root, {out: resembling(want["output"], c["left"])})
                ctx.faults[f"output_left_{c['left']}"] += 1
            before = disk.snapshot(root)
            if c.get("gone"):
                os.rename(os.path.join(root, c["gone"]), root + ".gone")
            rep = cli.run(root, argv, faults=c.get("faults", []), call=cli.resolve(ctx, plan["files"], argv, c.get("call")),
                          out_fault=c.get("out_fault"), short=c.get("short"))
            if c.get("gone"):
                rep["fired"] = [*rep["fired"], ("file", "missing", c["gone"])]
                if c["gone"] == out and os.path.exists(os.path.join(root, out)):
                    os.unlink(root + ".gone")
                else:
                    os.rename(root + ".gone", os.path.join(root, c["gone"]))
            judge(ctx, i, c, rep, want, root, out)
            for op, kind, _n in rep["fired"]:
                ctx.faults[f"{kind}_{op}"] += 1
            if rep["site"]:
                ctx.faults[f"{rep['fault_kind']}_call"] += 1
            if c.get("short"):
                ctx.faults["all_transfers_short"] += 1
            ctx.steps += rep["steps"]
            ctx.event(argv, rep["status"], rep["killed"], rep["fired"], rep["site"], core.h(rep["out"]))
            ctx.state(argv[1:3], [f[:2] for f in rep["fired"]], rep["status"], rep["killed"], out in before)
            # sources are what they were (P06 judges changes); an in-place target is restored
            disk.populate(root, {k: v for k, v in initial.items() if k == out and k in cli.SOURCES})
            again = cli.run(root, argv)
            if again["status"] == 0 or want["status"] == 0:
                judge(ctx, i, c, again, want, root, out, "rerun")
            ctx.probes["status_%s" % ("killed" if rep["killed"] else "0" if rep["status"] == 0 else "error")] += 1
            disk.populate(root, {k: v for k, v in initial.items() if k == out and k in cli.SOURCES})


def resembling(data: bytes, how: str) -> bytes:
    if how == "same":
        return bytes(len(data))
    if how == "near" and data:
        i = len(data) * 2 // 3
        return data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
    return data[: len(data) * 3 // 4] if how == "prefix" else data + b"\n"


def judge(ctx: core.Ctx, i: int, c: dict, rep: dict, want: dict, root: str, out: Any, label: str = "run") -> None:
    if rep["killed"]:
        return
    if rep["status"] != 0:
        if label == "rerun" or not (rep["fired"] or rep["site"]):
            if want["status"] == 0:
                raise core.Violation(
                    f"{label}-failed", f"command {i} {c['argv']} undisturbed {label} after a disturbance exits with "
                    f"{rep['status']} ({rep.get('exc')}), alone it exits with 0")
        return
    if want["status"] != 0:
        raise core.Violation("false-success", f"command {i} {c['argv']} ({label}) exits with 0, an undisturbed run fails "
                             f"({want['exc']})")
    if rep["out"] != want["out"]:
        raise core.Violation("output-incomplete", f"command {i} {c['argv']} ({label}) exits with 0 after {rep['fired']} "
                             f"{rep['site']} but printed {rep['out'][:200]!r} instead of {want['out'][:200]!r}")
    if out is not None:
        got = disk.snapshot(root).get(out)
        if got != want["output"]:
            raise core.Violation(
                "output-incomplete", f"command {i} {c['argv']} ({label}) exits with 0 after {rep['fired']} {rep['site']} "
                f"but {out} is {cli.json_bytes(got)} instead of {cli.json_bytes(want['output'])} (length, hash)")
    ctx.probes[f"complete_{label}"] += 1
