"""P02: exactly one reply per request, and nothing stops the server from serving."""

from __future__ import annotations

import random
from typing import Any

from pgsim import core, inject, lsp, lspwork

RUNS = {"quick": 480, "thorough": 12000}
SHRINK = ["ops"]
REAL = ["pygerber language server entry point, handlers, locks, document cache, parser, hover, completion",
        "pygls JSON-RPC endpoint and workspace", "asyncio task scheduling"]
STUB = ["clock and selector (virtual time)", "executor and thread pool", "stdin/stdout or TCP stream",
        "threading.Lock of pygerber (simulated: an acquire nobody can satisfy is a deadlock, not a hang)", "client"]
RULE = ("Seeded histories of documents, queries, cancellations, malformed, unknown and unsupported messages and "
        "protocol-violating open/close/change, with exceptions injected at seeded function calls of the analysis "
        "code, input ending at a seeded byte, and shutdown/exit.")
STATE_MEASURE = "hash of (transport, last operation kind, fault site, how the session ended, reply kind)"
ASSUME = ["failures hit the analysis of documents, not the server's own message plumbing",
          "output is always writable; at most one failure is pending at a time",
          "requests whose parameters do not match the protocol are outside (pygls discards them)"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    ndocs = rng.choice([1, 2, 3])
    n = rng.choice([5, 10, 16]) if tier == "quick" else rng.choice([5, 10, 16, 40])
    uris = rng.sample(lspwork.URIS, ndocs)
    base = lspwork.gen_ops(rng, n + ndocs, ndocs)
    if rng.random() < 0.03:
        uris, base = lspwork.gen_scale(rng, 18)
        ndocs = len(uris)
    p_odd = rng.choice([0.0, 0.15, 0.4])
    p_fault = rng.choice([0.0, 0.2, 0.4])
    ops: list[dict] = []
    for op in base:
        if rng.random() < p_odd:
            k = rng.choice(["malformed", "unknown_req", "unknown_note", "bad_doc", "cancel", "cancel", "cancel",
                            "cancel_any", "reopen", "close_closed", "change_closed", "query_closed"])
            odd: dict = {"d": rng.randrange(ndocs), "gap": rng.choice([0.0, 0.0, 0.01]), "m": k,
                         "r": rng.randrange(1 << 16)}
            if k in ("reopen",):
                odd["text"] = lspwork.small_doc(rng)
            ops.append(odd)
            if k == "cancel":
                # directly behind a query in the same chunk: hits it before it started
                q = {"d": odd["d"], "gap": 0.01, **lspwork.gen_query(rng)}
                ops.insert(-1, q)
                odd["gap"] = rng.choice([0.0, 0.0, 0.0001])
        if rng.random() < p_fault:
            op["fault"] = {"n": int(10 ** (rng.random() * 3.6)), "kind": rng.choice(["fault", "memory"])}
        ops.append(op)
    if rng.random() < 0.15:
        # the analysis of one document fails again and again, then it is fine
        d = rng.randrange(ndocs)
        burst, site = [], int(10 ** (rng.random() * 3.4))
        for i in range(rng.choice([3, 4, 6, 9])):
            burst.append({"d": d, "gap": 0.01, "m": "change", "dv": 1, "edits": [lspwork.gen_edit(rng)],
                          "fault": {"n": site + rng.choice([0, 0, 0, 1, 7]), "kind": rng.choice(["fault", "memory"])}})
        burst.append({"d": d, "gap": 0.01, "m": "change", "dv": 1, "edits": [lspwork.gen_edit(rng)]})
        burst += [{"d": d, "gap": 0.01, **lspwork.gen_query(rng)} for _ in range(4)]
        at = rng.randrange(ndocs, len(ops) + 1)
        ops[at:at] = burst
    end = rng.choice(["quiet", "quiet", "cut", "exit", "exit_only", "shutdown_eof"])
    return {
        "mode": rng.choice(["stdio", "stdio", "stream"]),
        "max_delay": rng.choice([0.0, 0.0005, 0.2]),
        "seed": rng.randrange(1 << 30),
        "frag": rng.choice([0, 0, 7, 50]),
        "end": end,
        "cut": rng.random(),
        "uris": uris,
        "ops": ops,
    }


MALFORMED = [b"{bad json", b"{\"jsonrpc\": \"2.0\", \"method\": ", b"{\"jsonrpc\": \"1.0\", \"id\": 5, \"method\": \"x\"}",
             b"{\"a\": [}]", b"{}", b"{\"jsonrpc\": \"2.0\", \"params\": 3}", b"{\xff\xfe}"]


class Session:
    def __init__(self, plan: dict, ctx: core.Ctx) -> None:
        self.plan = plan
        self.ctx = ctx
        self.model = lspwork.Model(plan["uris"])
        self.rng = random.Random(plan["seed"])
        self.world = lsp.World(self.rng, plan["mode"], plan["max_delay"])
        self.groups: list[dict] = []
        self.pos = 0
        self.requests: list[Any] = []
        self.cancelled: set[Any] = set()
        self.nocheck: set[Any] = set()
        self.split_next = False
        self.wait_next = False
        # per document: message index from which its answers are checked again
        self.dirty: list[list[tuple[int, bool]]] = [[(0, False)] for _ in plan["uris"]]
        self.faults: list[tuple[dict, int, int]] = []
        self.cf: Any = None

    def put(self, data: bytes, gap: float, alone: bool = False, hooks: Any = None) -> None:
        self.pos += len(data)
        self.world.msg_ends.append(self.pos)
        if self.wait_next:
            gap, self.wait_next = max(gap, 100.0), False
        if self.split_next and gap == 0.0:
            gap = 0.001
        self.split_next = alone
        if gap == 0.0 and len(self.groups) > 1 and hooks is None:
            self.groups[-1]["data"] += data
            return
        g = {"gap": gap or 0.001, "data": data}
        if hooks:
            g.update(hooks)
        self.groups.append(g)


def execute(plan: dict, ctx: core.Ctx) -> None:
    s = Session(plan, ctx)
    world, model = s.world, s.model
    first = lsp.init_message("init")
    model.add(first)
    s.requests.append("init")
    s.put(world.encode(first), 0.0, alone=True)
    with inject.CallFaults(exclude=("gerber/language_server/__main__", "gerber/language_server/status",
                                    "gerber/language_server/errors", "gerber/language_server/_server/server",
                                    "gerber/language_server/_server/document")) as cf:
        s.cf = cf
        for op in plan["ops"]:
            add(s, op)
        finish(s)
        world.run(lambda w: lspwork.schedule(w, s.groups, plan["frag"], s.rng, s.end))  # type: ignore[attr-defined]
    ctx.sim_time += world.loop.now
    judge(s)


def add(s: Session, op: dict) -> None:
    model, world, d = s.model, s.world, op["d"] % len(s.plan["uris"])
    uri = s.plan["uris"][d]
    m = op["m"]
    gap = op["gap"]
    s.ctx.event("send", m, d, gap)
    if m in ("open", "change", "close", "hover", "completion"):
        msg = model.step(op)
        if msg is None:
            return
        is_q = m in ("hover", "completion")
        if is_q:
            s.requests.append(msg["id"])
        hooks = None
        if "fault" in op:
            gap = max(gap, 100.0)
            f = op["fault"]
            idx = len(model.msgs)
            rec = {"fired": None, "d": d, "idx": idx, "m": m, "id": msg.get("id")}
            s.faults.append((rec, f["n"], idx))

            def begin(f: dict = f) -> None:
                s.cf.arm(f["n"], f["kind"])

            def fin(rec: dict = rec, f: dict = f) -> None:
                s.cf.disarm()
                rec["fired"] = s.cf.fired
                s.cf.fired = None
                if rec["fired"]:
                    s.ctx.faults[f"analysis_{f['kind']}_in_{rec['m']}"] += 1

            hooks = {"begin": begin, "finish": fin}
        s.put(world.encode(msg), gap, hooks=hooks, alone=bool(hooks))
        if hooks:
            s.wait_next = True
        return
    s.ctx.faults[m] += 1
    if m == "malformed":
        body = MALFORMED[op["r"] % len(MALFORMED)]
        model.add(body)
        s.put(world.encode(body), gap, alone=True)
    elif m == "unknown_req":
        qid = f"u{len(s.requests)}"
        s.requests.append(qid)
        s.nocheck.add(qid)
        msg = {"jsonrpc": "2.0", "id": qid, "method": ["foo/bar", "$/whatever", "textDocument/nope"][op["r"] % 3], "params": {}}
        model.add(msg)
        s.put(world.encode(msg), gap)
    elif m == "unknown_note":
        msg = {"jsonrpc": "2.0", "method": ["$/foo", "foo/changed"][op["r"] % 2], "params": {"x": 1}}
        model.add(msg)
        s.put(world.encode(msg), gap)
    elif m == "bad_doc":
        bad = lspwork.BAD_URIS[op["r"] % len(lspwork.BAD_URIS)]
        k = op["r"] % 5
        if k == 0:
            msg = lsp.open_message(bad, "G04 x*\n", 1)
        elif k == 1:
            msg = {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": bad}}}
        else:
            qid = f"b{len(s.requests)}"
            s.requests.append(qid)
            s.nocheck.add(qid)
            msg = lsp.query_message(qid, "hover" if k < 4 else "completion", bad, 0, 0)
        model.add(msg)
        s.put(world.encode(msg), gap)
    elif m in ("cancel", "cancel_any"):
        if len(s.requests) < 2:
            return
        i = -1 if m == "cancel" else 1 + op["r"] % (len(s.requests) - 1)
        s.cancelled.add(s.requests[i])
        msg = {"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": s.requests[i]}}
        model.add(msg)
        s.put(world.encode(msg), gap)
    elif m == "reopen":
        if model.text[d] is None:
            return
        model.text[d] = op["text"]
        model.ver[d] = 1
        msg = lsp.open_message(uri, op["text"], 1)
        model.add(msg)
        model.note(d)
        s.put(world.encode(msg), gap)
    elif m == "close_closed":
        if model.text[d] is not None:
            return
        msg = {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}
        model.add(msg)
        s.put(world.encode(msg), gap)
    elif m == "change_closed":
        if model.text[d] is not None:
            return
        msg = {"jsonrpc": "2.0", "method": "textDocument/didChange",
               "params": {"textDocument": {"uri": uri, "version": 3}, "contentChanges": [{"text": "G04 ghost*\n"}]}}
        model.add(msg)
        # undefined by the protocol: answers about this document count again once it is opened
        s.dirty[d].append((len(model.msgs), True))
        s.put(world.encode(msg), gap)
    elif m == "query_closed":
        if model.text[d] is not None:
            return
        qid = f"c{len(s.requests)}"
        s.requests.append(qid)
        s.nocheck.add(qid)
        msg = lsp.query_message(qid, "hover", uri, 0, 0)
        model.add(msg)
        s.put(world.encode(msg), gap)


def finish(s: Session) -> None:
    """Append the way the session ends."""
    world, plan = s.world, s.plan
    end = plan["end"]
    s.must_exit = plan["mode"] == "stdio" or end in ("exit", "exit_only")  # type: ignore[attr-defined]
    s.end = world.end_input  # type: ignore[attr-defined]
    if end == "cut":
        # a last message of which only a part arrives
        msg = lsp.query_message("cut", "hover", plan["uris"][0], 0, 0)
        data = world.encode(msg)
        k = int(plan["cut"] * len(data))
        if k:
            s.ctx.faults["input_ends_mid_message"] += 1
            s.groups.append({"gap": 100.0, "data": data[:k]})
    elif end in ("exit", "shutdown_eof"):
        s.model.add({})
        s.requests.append("bye")
        s.nocheck.add("bye")
        s.put(world.encode({"jsonrpc": "2.0", "id": "bye", "method": "shutdown", "params": None}), 100.0, alone=True)
        s.ctx.faults["shutdown"] += 1
    if end in ("exit", "exit_only"):
        s.model.add({})
        s.put(world.encode({"jsonrpc": "2.0", "method": "exit", "params": None}), 100.0, alone=True)
        s.ctx.faults["exit"] += 1


def judge(s: Session) -> None:
    world, model, ctx, plan = s.world, s.model, s.ctx, s.plan
    if world.deadlocks:
        raise core.Violation("deadlock", f"server blocked on its own lock: {world.deadlocks[0]}")
    if world.stuck or (s.must_exit and world.exited is None):  # type: ignore[attr-defined]
        raise core.Violation("no-exit", f"server does not terminate (session end: {plan['end']})")
    counts: dict[Any, int] = {}
    for _, when, msg in world.replies:
        counts[msg.get("id")] = counts.get(msg.get("id"), 0) + 1
        ctx.event("reply", msg.get("id"), round(when, 6), core.h(lsp.canon_reply(msg)))
    for rid in s.requests:
        ctx.steps += 1
        c = counts.get(rid, 0)
        if c == 0:
            raise core.Violation("no-reply", f"request {rid} was never answered (end={plan['end']}, mode={plan['mode']})")
        if c > 1:
            raise core.Violation("duplicate-reply", f"request {rid} was answered {c} times")
    known = set(s.requests)
    for rid in counts:
        if rid is not None and rid not in known:
            raise core.Violation("phantom-reply", f"reply with id {rid!r} that was never requested")
    for rec, _, _ in s.faults:
        ctx.event("fault", rec["m"], rec["d"], rec["fired"])
        if rec["fired"]:
            s.dirty[rec["d"]].append((rec["idx"], True))
            if rec["id"] is not None:
                s.nocheck.add(rec["id"])
    # a document is answered correctly again after its next change or open that met no failure
    for d in range(len(plan["uris"])):
        bad = sorted(i for i, x in s.dirty[d] if x)
        marks = []
        updates = [i for i, t in model.history[d] if t is not None and i not in bad]
        for b in bad:
            nxt = next((u for u in updates if u > b), None)
            marks.append((b, nxt if nxt is not None else 1 << 60))
        s.dirty[d] = marks
    last = plan["ops"][-1]["m"] if plan["ops"] else ""
    for delivered, when, msg in world.replies:
        qid = msg.get("id")
        q = model.queries.get(qid)
        got = lsp.canon_reply(msg)
        if q is None or qid in s.nocheck:
            continue
        if qid in s.cancelled and got[0] == "error":
            ctx.probes["cancelled_before_run"] += 1
            continue
        if any(lo <= q["index"] < hi or lo <= delivered < hi for lo, hi in s.dirty[q["d"]]):
            ctx.probes["answer_after_failed_analysis"] += 1
            continue
        if any(lo < q["index"] for lo, _ in s.dirty[q["d"]]):
            ctx.probes["answer_after_recovery"] += 1
        uniq = []
        for t in model.states_between(q["d"], q["index"], delivered):
            if t not in uniq:
                uniq.append(t)
        want = [ctx.ref("pgsim.lsp:fresh_answer", q["uri"], t, q["method"], q["line"], q["char"]) for t in uniq]
        ctx.state(plan["mode"], q["method"], plan["end"], last, got[0])
        if got not in want:
            raise core.Violation(
                "wrong-after-failure",
                f"{q['method']} id={qid} on {q['uri']} answered {str(got)[:300]} but a fresh server answers {str(want[0])[:300]}")
    for rec, _, _ in s.faults:
        if rec["fired"]:
            ctx.state("fault", rec["m"], rec["fired"], plan["mode"])
    ctx.probes[f"end_{plan['end']}_{plan['mode']}"] += 1
