"""P08: same input gives identical output in every process."""

from __future__ import annotations

import os
import random
from typing import Any, Optional

from pgsim import cli, core, gen, inject, perturb, server, work

RUNS = {"quick": 480, "thorough": 40000}
SHRINK = ["history", "ops"]
REAL = ["pygerber parser, compiler, both virtual machines, formatter, linter, builders, command line",
        "separate Python interpreters started with other hash seeds"]
STUB = ["wall, monotonic and performance clocks (offsets, jumps, standing still, running backwards)", "process id",
        "processor count, host name, program arguments, log level",
        "os.urandom, random and numpy random state", "garbage-collection thresholds, memory layout (junk allocations)",
        "environment variables, time zone and working directory",
        "exceptions injected at chosen pygerber function calls of earlier work"]
RULE = ("Seeded observation lists (tree, VM code, images, text, diagnostics, command output) evaluated in an interpreter "
        "with another hash seed, perturbed clock, pid, randomness, memory, garbage collection and environment, after a "
        "seeded history of other work some of which is made to fail.")
STATE_MEASURE = "hash of (source, observation, hash seed, clock, collector setting, length of history)"
ASSUME = ["reference: same observation in a fresh process with hash seed 0 and nothing perturbed",
          "only the type, not the text, of errors is compared"]
HASHSEEDS = {"quick": [1, 2, 3, 4, 5, 6], "thorough": list(range(1, 25))}
OBSERVE = ["ast", "rast", "compile", "compile", "compile_stop", "compile_meta", "json", "pillow", "shapely", "png", "svg",
           "format", "format", "lint", "state", "hover", "view", "builder", "rvmcbuilder", "cli", "file", "own"]

_pool: Optional[server.Pool] = None


def worker_init(plan: dict) -> None:
    global _pool
    if _pool is None:
        _pool = server.Pool()
    _pool.get(plan["hash"])


def worker_done() -> None:
    global _pool
    if _pool is not None:
        _pool.close()
        _pool = None


def gen_ops(rng: random.Random, n: int, bad: float) -> list[dict]:
    out = []
    for _ in range(n):
        k = rng.choice(OBSERVE)
        op: dict = {"k": k, "n": gen.pick(rng, bad, 300)}
        if k == "format":
            op["o"] = rng.randrange(len(work.FORMAT_OPTS))
        if k == "own":
            op["own"], op["resilient"] = rng.randrange(1, work.OVERRIDES), rng.random() < 0.2
        if k == "lint":
            op["r"] = rng.randrange(8)
        if k == "hover":
            op["i"] = rng.randrange(60)
        if k in ("view",):
            op["ns"] = [gen.pick(rng, 0.0, 300) for _ in range(rng.choice([2, 3]))]
        if k in ("builder", "rvmcbuilder"):
            op["seed"] = rng.randrange(400)
        if k == "cli":
            op["argv"] = cli.gen_command(rng, 0.1)
        out.append(op)
    return out


def generate(rng: random.Random, index: int, tier: str) -> dict:
    history = [x for x in gen_ops(rng, rng.choice([0, 0, 1, 3, 6] if rng.random() < 0.97 else [25]), 0.3) if x["k"] != "cli"]
    ops = gen_ops(rng, rng.choice([3, 5, 8]), 0.08)
    for hop in history:
        if rng.random() < 0.3:
            # the same source handled before, perhaps otherwise
            hop["n"] = rng.choice(ops)["n"]
        elif rng.random() < 0.5:
            # one nearly the same, in the same way
            o = rng.choice(ops)
            hop["n"] = gen.twin_of(rng, o["n"])
            if o["k"] not in ("cli", "view", "builder", "rvmcbuilder"):
                hop.update({k: v for k, v in o.items() if k != "n"})
    for hop in history:
        if rng.random() < 0.3:
            hop["fault"] = work.gen_fault(rng)
    return {"hash": rng.choice(HASHSEEDS[tier]), "env": perturb.gen_env(rng), "history": history,
            "ops": ops}


def observe(op: dict) -> Any:
    return work.guarded(lambda: _observe(op))


def _observe(op: dict) -> Any:
    k = op["k"]
    src = gen.numbered(op["n"])
    if k == "ast":
        return work.tree_hash(work.parse_source(src))
    if k == "own":
        t = work.parse_source(src, op["resilient"], op["own"])
        return [work.tree_hash(t), work.consume_ast(t, {"c": "format", "o": 0})]
    if k == "rast":
        return work.tree_hash(work.parse_source(src, True))
    if k in ("compile", "compile_stop", "compile_meta", "format", "lint", "state", "hover"):
        return work.consume_ast(work.parse_source(src), {"c": k, "o": op.get("o", 0), "i": op.get("i", 0), "r": op.get("r", 0)})
    if k == "json":
        return core.h(work.compiled(src).to_json())
    if k == "pillow":
        return work.consume_rvmc(work.compiled(src), {"c": "pillow", "dpmm": 5, "style": 1})
    if k == "shapely":
        return work.consume_rvmc(work.compiled(src), {"c": "shapely", "style": 1})
    if k in ("png", "svg", "file"):
        f = work.make_file({"n": op["n"]})
        if k == "png":
            return [work.do_op(f, {"op": "save", "fmt": x, "dpmm": 5}) for x in ("png", "jpeg", "bmp", "tiff", "webp")]
        if k == "svg":
            return work.do_op(f, {"op": "shapely"})
        return [work.do_op(f, {"op": "sha"}), work.do_op(f, {"op": "formats", "o": 1}),
                work.do_op(f, {"op": "pillow", "dpmm": 4}), f.file_type.name]
    if k == "view":
        from pgsim import proj
        from pygerber.gerber.api import CompositeView

        return proj.render_view(CompositeView([work.make_file({"n": n}) for n in op["ns"]]), 4)
    if k == "builder":
        from pgsim import p12

        return core.h(p12.build_text(p12.gen_gerber(random.Random(op["seed"]), 12, 0.1)))
    if k == "rvmcbuilder":
        from pgsim import p12

        return p12.rvmc_digest(op["seed"])
    if k == "cli":
        files = {s: {"n": (op["n"] + 7 * i) % 300} for i, s in enumerate(cli.SOURCES)}
        files.update({c: {"text": t} for c, t in cli.CONFIGS.items()})
        r = cli.reference(files, op["argv"])
        return [r["status"], core.h(r["out"]), core.h(r["output"])]
    raise ValueError(k)


def disturbed(env: dict, history: list[dict], ops: list[dict]) -> Any:
    """Runs in the other interpreter."""
    perturb.apply(env)
    fired = 0
    with inject.CallFaults() as cf:
        for hop in history:
            f = hop.get("fault")
            bare = {k: v for k, v in hop.items() if k != "fault"}
            if f:
                cf.arm(cf.resolve(f, lambda: _observe(bare)), f["kind"])
            try:
                _observe(bare)
            except (Exception, KeyboardInterrupt, inject.InjectedFault):  # noqa: BLE001
                pass
            finally:
                cf.disarm()
            fired += bool(f and cf.fired)
    return [observe(op) for op in ops], fired, os.environ.get("PGSIM_HASHSEED")


def execute(plan: dict, ctx: core.Ctx) -> None:
    assert _pool is not None
    env = plan["env"]
    got, fired, hs = _pool.get(plan["hash"]).call("pgsim.p08:disturbed", env, plan["history"], plan["ops"])
    assert hs == str(plan["hash"])
    ctx.faults[f"hash_seed_{plan['hash']}"] += 1
    ctx.faults["clock_" + {0: "stopped", -1.0: "backwards", 3600.0: "jumping"}.get(env["tick"], "offset")] += 1
    ctx.faults[f"gc_{env['gc']}"] += 1
    ctx.faults["junk_memory"] += bool(env["junk"])
    ctx.faults["failed_earlier_work"] += fired
    ctx.faults["earlier_work"] += len(plan["history"])
    for op, g in zip(plan["ops"], got):
        want = ctx.ref("pgsim.p08:observe", op)
        ctx.steps += 1
        ctx.event(op["k"], op["n"], core.h(g))
        ctx.state(op["n"], op["k"], plan["hash"], env["clock"], env["gc"], len(plan["history"]))
        ctx.probes["err" if isinstance(g, list) and g[:1] == ["err"] else "ok"] += 1
        if g != want:
            raise core.Violation(
                "process-dependent", f"{op} gave {str(g)[:300]} in a process with hash seed {plan['hash']}, {env} after "
                f"{len(plan['history'])} other calls; in a fresh process {str(want)[:300]}")
