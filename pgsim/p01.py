"""P01: language server answers reflect the current document text."""

from __future__ import annotations

import random
from typing import Any

from pgsim import core, lsp, lspwork

RUNS = {"quick": 420, "thorough": 8000}
SHRINK = ["ops"]
REAL = ["pygerber language server entry point, handlers, document cache, parser, hover, completion",
        "pygls JSON-RPC endpoint and workspace", "asyncio task scheduling"]
STUB = ["clock and selector (virtual time)", "executor and thread pool", "stdin/stdout or TCP stream", "client"]
RULE = ("Seeded histories of open/change/close/reopen/hover/completion over 1-4 documents, sent as a byte "
        "stream with seeded batching, fragmentation and delays, over stdio or a TCP-like stream.")
STATE_MEASURE = "hash of (transport, operation kind, open documents, number of texts the answer may reflect, answer kind)"
ASSUME = ["reference answers come from a newly started server in a process that handled nothing else",
          "client obeys the protocol: no change of closed documents, no second open"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    ndocs = rng.choice([1, 1, 2, 3, 4])
    n = rng.choice([4, 8, 14]) if tier == "quick" else rng.choice([4, 8, 14, 30])
    uris = rng.sample(lspwork.URIS, ndocs)
    if rng.random() < 0.15:
        uris[-1] = rng.choice(lspwork.BAD_URIS)
    ops = lspwork.gen_ops(rng, n + ndocs, ndocs)
    if rng.random() < 0.08:
        uris, ops = lspwork.gen_scale(rng, 140)
    return {
        "mode": rng.choice(["stdio", "stream"]),
        "max_delay": rng.choice([0.0, 0.0005, 0.2]),
        "seed": rng.randrange(1 << 30),
        "frag": rng.choice([0, 0, 7, 50]),
        "uris": uris,
        "ops": ops,
    }


def execute(plan: dict, ctx: core.Ctx) -> None:
    model = lspwork.Model(plan["uris"])
    rng = random.Random(plan["seed"])
    world = lsp.World(rng, plan["mode"], plan["max_delay"])
    first = lsp.init_message("init")
    model.add(first)
    groups: list[dict] = [{"gap": 0.0, "data": world.encode(first)}]
    pos = len(groups[0]["data"])
    world.msg_ends.append(pos)
    for op in plan["ops"]:
        msg = model.step(op)
        if msg is None:
            continue
        data = world.encode(msg)
        pos += len(data)
        world.msg_ends.append(pos)
        if op["gap"] == 0.0 and len(groups) > 1:
            groups[-1]["data"] += data
        else:
            groups.append({"gap": op["gap"] or 0.001, "data": data})
        ctx.event("send", op["m"], op["d"], op["gap"])

    world.run(lambda w: lspwork.schedule(w, groups, plan["frag"], rng, w.end_input))
    ctx.sim_time += world.loop.now
    if world.deadlocks:
        raise core.Violation("deadlock", f"server blocked on its own lock: {world.deadlocks[0]}")
    if not any(m.get("id") == "init" for _, _, m in world.replies):
        raise core.Violation("no-init", "the server did not answer initialize")
    for delivered, when, msg in world.replies:
        qid = msg.get("id")
        q = model.queries.get(qid)
        got = lsp.canon_reply(msg)
        ctx.event("reply", qid, delivered, round(when, 6), core.h(got))
        if q is None:
            continue
        ctx.steps += 1
        texts = model.states_between(q["d"], q["index"], delivered)
        uniq: list = []
        for t in texts:
            if t not in uniq:
                uniq.append(t)
        ctx.probes[f"window_{min(len(uniq), 3)}"] += 1
        ctx.probes[f"{q['method']}_{got[0] if got[0] == 'error' else ('null' if got[1] == 'null' else 'answer')}"] += 1
        ctx.state(plan["mode"], q["method"], sum(t is not None for t in model.text), len(uniq), got[0], got[1:] == ["null"])
        want = []
        ok = False
        for t in uniq:
            w = ctx.ref("pgsim.lsp:fresh_answer", q["uri"], t, q["method"], q["line"], q["char"])
            want.append(w)
            if w == got:
                ok = True
                break
        if not ok:
            raise core.Violation(
                "stale-answer",
                f"{q['method']} id={qid} on {q['uri']} at {q['line']}:{q['char']} answered {str(got)[:400]} "
                f"but a fresh server with the current text answers {str(want[0])[:400]}")
