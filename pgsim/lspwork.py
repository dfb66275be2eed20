"""Workload model shared by P01 and P02: documents, edits, queries, timelines."""

from __future__ import annotations

import random
from typing import Any, Optional

from pgsim import gen, lsp

URIS = [
    "file:///sim/a.gbr",
    "file:///sim/A.gbr",
    "file:///sim/b.grb",
    "file:///other/a.gbr",
    "file:///sim/c.gko",
    "file:///sim/a%20b.gbr",
    "file:///sim/a.gbr.gtl",
    "untitled:Untitled-1.gbr",
]
BAD_URIS = ["file:///sim/notes.txt", "file:///sim/readme"]
TOKENS = ["G", "D", "%", "G0", "D1", "%AD", "D10*", "G01*\n", "X", "*", "M02*\n", "%ADD55C,0.7*%\n",
          "%ADD77R,1X2*%\n", "garbage", "G04 😀 x*\n", "\n", "%LPC*%\n", "D55*\nX0Y0D03*\n", "G", "D", "%"]


def small_doc(rng: random.Random) -> str:
    k = rng.random()
    if k < 0.08:
        return ""
    if k < 0.16:
        return "G04 empty doc*\n%\nG\nD\nM02*\n"
    src = gen.source(rng, size=3, kind=rng.choice(["valid"] * 6 + ["syntax", "runtime", "nofs"]),
                     ascii_only=rng.random() < 0.6)
    lines = src.split("\n")
    for _ in range(rng.randrange(0, 4)):
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(["G", "D", "%", "D1", "G0"]))
    r = rng.random()
    if r < 0.1:
        return "\r\n".join(lines)
    if r < 0.12:  # long: one comment, or many lines
        more = ["G04 " + "long comment " * 6000 + "*"] if rng.random() < 0.5 else ["G04*"] * 1100
        at = rng.randrange(len(lines) + 1)
        lines[at:at] = more
    return "\n".join(lines)


def gen_edit(rng: random.Random) -> dict:
    k = rng.random()
    if k < 0.08:
        return {"e": "full", "text": small_doc(rng)}
    if k < 0.13:  # the whole text is sent, only one character of it is new
        return {"e": "wholedigit", "at": rng.random(), "d": rng.randrange(10)}
    if k < 0.17:  # back to a text this document, or another one, had before
        return {"e": "back", "at": rng.random(), "other": rng.random() < 0.3}
    if k < 0.2:  # text unchanged
        return {"e": "same", "whole": rng.random() < 0.5}
    if k < 0.45:
        return {"e": "insert", "at": rng.random(), "bol": rng.random() < 0.7, "tok": rng.choice(TOKENS)}
    if k < 0.6:
        return {"e": "delline", "at": rng.random(), "n": rng.randrange(1, 3)}
    if k < 0.75:
        return {"e": "digit", "at": rng.random(), "d": rng.randrange(10)}
    if k < 0.9:
        return {"e": "delete", "at": rng.random(), "n": rng.randrange(1, 6)}
    return {"e": "append", "tok": rng.choice(TOKENS)}


def position(text: str, off: int) -> dict:
    before = text[:off]
    line = before.count("\n")
    col = before.rsplit("\n", 1)[-1]
    return {"line": line, "character": lsp.utf16_len(col)}


def place(text: str, u: float) -> int:
    """Offset in the text; in a long one, outside of what makes it long."""
    if len(text) < 5000:
        return min(int(u * (len(text) + 1)), len(text))
    offs, at = [], 0
    for line in text.split("\n"):
        if len(line) < 1000 and line != "G04*":
            offs += range(at, at + len(line) + 1)
        at += len(line) + 1
    return offs[int(u * len(offs))] if offs else len(text) // 2


def concretise_edit(text: str, e: dict, past: Any = ()) -> dict:
    if e["e"] == "full":
        return {"text": e["text"]}
    if e["e"] == "wholedigit":
        return {"text": lsp.apply_edit(text, concretise_edit(text.replace("\r\n", "\n"), {**e, "e": "digit"}))
                if "\r" not in text else text.replace("\r\n", "\n")}
    if e["e"] == "back":
        return {"text": past[int(e["at"] * len(past)) % len(past)] if past else text}
    if e["e"] == "same" and (e["whole"] or "\r" in text):
        return {"text": text}
    if e["e"] == "same":
        p = position(text, len(text) // 2)
        return {"range": {"start": p, "end": p}, "text": ""}
    if "\r" in text:
        # keep range arithmetic trivial: line ends are replaced as whole text
        text2 = text.replace("\r\n", "\n")
        return {"text": lsp.apply_edit(text2, concretise_edit(text2, e))}
    if e["e"] == "append":
        p = position(text, len(text))
        return {"range": {"start": p, "end": p}, "text": e["tok"]}
    off = place(text, e["at"])
    if e["e"] == "insert":
        if e["bol"]:
            off = text.rfind("\n", 0, off) + 1
        p = position(text, off)
        tok = e["tok"] + ("\n" if e["bol"] and not e["tok"].endswith("\n") else "")
        return {"range": {"start": p, "end": p}, "text": tok}
    if e["e"] == "delline":
        a = text.rfind("\n", 0, off) + 1
        b = a
        for _ in range(e["n"]):
            i = text.find("\n", b)
            b = len(text) if i < 0 else i + 1
        return {"range": {"start": position(text, a), "end": position(text, b)}, "text": ""}
    if e["e"] == "digit":
        for i in list(range(off, len(text))) + list(range(off)):
            if text[i].isdigit():
                return {"range": {"start": position(text, i), "end": position(text, i + 1)}, "text": str(e["d"])}
        return {"text": text + str(e["d"])}
    a, b = off, min(len(text), off + e["n"])
    return {"range": {"start": position(text, a), "end": position(text, b)}, "text": ""}


def query_pos(text: Optional[str], q: dict) -> tuple[int, int]:
    if not text:
        return 0, q.get("c", 0)
    lines = text.split("\n")
    want = q.get("tok")
    if want:
        hits = [i for i, l in enumerate(lines) if l.startswith(want)]
        if q["m"] == "completion":
            hits = [i for i in hits if "*" not in lines[i]] or hits
        if hits:
            i = hits[int(q["at"] * len(hits)) % len(hits)]
            return i, min(q.get("c", 0), max(0, len(lines[i])))
    if len(text) >= 5000:
        i = text.count("\n", 0, place(text, q["at"]))
    else:
        i = int(q["at"] * len(lines)) % len(lines)
    return i, min(int(q["at2"] * (len(lines[i]) + 1)), len(lines[i]))


def gen_query(rng: random.Random) -> dict:
    again = rng.choice([1, 2]) if rng.random() < 0.3 else 0
    if rng.random() < 0.5:
        return {"m": "completion", "again": again, "at": rng.random(), "at2": rng.random(),
                "tok": rng.choice(["G", "D", "%", "D", "%", None]), "c": rng.randrange(0, 2)}
    return {"m": "hover", "again": again, "at": rng.random(), "at2": rng.random(),
            "tok": rng.choice([None, None, "X", "%AD", "D1", "G0", "%"]), "c": rng.randrange(0, 3)}


def gen_ops(rng: random.Random, n: int, ndocs: int, bad: float = 0.0) -> list[dict]:
    """Swarm: mix of operations differs per run."""
    w = {"open": rng.choice([1, 2, 4]), "change": rng.choice([2, 5, 8]), "close": rng.choice([0.3, 1, 2]),
         "query": rng.choice([4, 8, 12])}
    batch = rng.choice([0.0, 0.3, 0.7])
    ops = []
    for i in range(n):
        kind = rng.choices(list(w), list(w.values()))[0] if i >= ndocs else "open"
        d = i if i < ndocs else rng.randrange(ndocs)
        op: dict = {"d": d, "gap": 0.0 if rng.random() < batch else round(rng.choice([0.001, 0.05, 1.0]), 3)}
        if kind == "open":
            op.update(m="open", text=small_doc(rng), v=rng.choice([0, 1, 1, 7]))
        elif kind == "change":
            op.update(m="change", edits=[gen_edit(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                      dv=rng.choice([1, 1, 1, 3]))
        elif kind == "close":
            op.update(m="close")
        else:
            op.update(gen_query(rng))
        ops.append(op)
        if kind in ("change", "open") and rng.random() < 0.5:
            ops.append({"d": d, "gap": rng.choice([0.0, 0.001]), **gen_query(rng)})
    return ops


def gen_scale(rng: random.Random, most: int) -> tuple[list[str], list[dict]]:
    """Many documents open at once, one document changed many times, or long documents."""
    r = rng.random()
    if r < 0.35:
        uris = rng.sample(URIS, 2)
        ops: list[dict] = []
        for d in range(2):
            lines = small_doc(rng).split("\n")
            for _ in range(3):
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(["D", "G", "%", "%ADD66C,0.6*%"]))
            at = rng.choice([0, 0, rng.randrange(len(lines) + 1)])
            lines[at:at] = ["G04 " + "long comment " * rng.choice([800, 3000, 6000]) + "*"] if rng.random() < 0.7 else ["G04*"] * 1100
            ops.append({"d": d, "gap": 0.05, "m": "open", "v": 1, "text": "\n".join(lines)})
        q = gen_query(rng)
        for _ in range(6):
            if rng.random() < 0.5:
                q = gen_query(rng)
            ops.append({"d": int(rng.random() < 0.2), "gap": rng.choice([0.0, 0.05]), **q})
            ops.append({"d": int(rng.random() < 0.2), "gap": 0.05, "m": "change", "dv": 1,
                        "edits": [gen_edit(rng) for _ in range(rng.choice([1, 1, 2]))]})
            ops.append({"d": int(rng.random() < 0.2), "gap": rng.choice([0.0, 0.05]), **q})
        return uris, ops
    if r < 0.75:
        nd = rng.choice([x for x in (9, 18, 35, 70, 140) if x <= most])
        uris = [f"file:///sim/many{i}.gbr" for i in range(nd)]
        ops = [{"d": i, "gap": rng.choice([0.0, 0.001]), "m": "open", "v": 1,
                            "text": f"%MOMM*%\n%ADD{10 + i % 5}C,{1 + i % 7}*%\nD\nG\n%\n"} for i in range(nd)]
        for _ in range(14):
            d = rng.choice([0, 1, 2, rng.randrange(nd)])
            if rng.random() < 0.3:
                ops.append({"d": d, "gap": 0.05, "m": "change", "edits": [gen_edit(rng)], "dv": 1})
            ops.append({"d": d, "gap": rng.choice([0.0, 0.05]), **gen_query(rng)})
        return uris, ops
    uris = rng.sample(URIS, 2)
    ops = [{"d": d, "gap": 0.05, "m": "open", "v": 1, "text": small_doc(rng)} for d in range(2)]
    batch = rng.choice([0.0, 0.7, 1.0])
    for i in range(rng.choice([40, 110])):
        ops.append({"d": int(rng.random() < 0.1), "gap": 0.0 if rng.random() < batch else 0.02, "m": "change",
                    "edits": [gen_edit(rng)], "dv": 1})
        if rng.random() < 0.12:
            ops.append({"d": int(rng.random() < 0.1), "gap": rng.choice([0.0, 0.02]), **gen_query(rng)})
    ops += [{"d": d, "gap": 1.0, **gen_query(rng)} for d in (0, 1, 0)]
    return uris, ops


class Model:
    """Reference: plain texts per document; builds the concrete messages."""

    def __init__(self, uris: list[str]) -> None:
        self.uris = uris
        self.text: list[Optional[str]] = [None] * len(uris)
        self.ver = [0] * len(uris)
        self.msgs: list[Any] = []
        # history[doc] = list of (message index after which it holds, text)
        self.history: list[list[tuple[int, Optional[str]]]] = [[(0, None)] for _ in uris]
        self.queries: dict[int, dict] = {}
        self.next_id = 1
        self.asked: list[tuple[str, int, int]] = []

    def add(self, msg: Any) -> int:
        self.msgs.append(msg)
        return len(self.msgs)

    def note(self, d: int) -> None:
        self.history[d].append((len(self.msgs), self.text[d]))

    def step(self, op: dict) -> Optional[Any]:
        """Returns the message for op, or None if it is not legal now."""
        d = op["d"] % len(self.uris)
        uri = self.uris[d]
        m = op["m"]
        if m == "open":
            if self.text[d] is not None:
                return None
            self.text[d] = op["text"]
            self.ver[d] = op["v"]
            msg: Any = lsp.open_message(uri, op["text"], op["v"])
            self.add(msg)
            self.note(d)
            return msg
        if m == "change":
            if self.text[d] is None:
                return None
            changes = []
            for e in op["edits"]:
                who = range(len(self.uris)) if e.get("other") else [d]
                past = [t for w in who for _, t in self.history[w] if t is not None] if e["e"] == "back" else ()
                c = concretise_edit(self.text[d], e, past)
                self.text[d] = lsp.apply_edit(self.text[d], c)
                changes.append(c)
            self.ver[d] += op["dv"]
            msg = {"jsonrpc": "2.0", "method": "textDocument/didChange",
                   "params": {"textDocument": {"uri": uri, "version": self.ver[d]}, "contentChanges": changes}}
            self.add(msg)
            self.note(d)
            return msg
        if m == "close":
            if self.text[d] is None:
                return None
            self.text[d] = None
            msg = {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}
            self.add(msg)
            self.note(d)
            return msg
        if op.get("again") and self.asked:
            # same position as an earlier question, maybe about another document
            m, line, char = self.asked[-1] if op["again"] == 1 else self.asked[int(op["at"] * len(self.asked))]
        else:
            line, char = query_pos(self.text[d], op)
        self.asked.append((m, line, char))
        qid = self.next_id
        self.next_id += 1
        msg = lsp.query_message(qid, m, uri, line, char)
        idx = self.add(msg)
        self.queries[qid] = {"d": d, "uri": uri, "index": idx, "method": m, "line": line, "char": char,
                             "text": self.text[d]}
        return msg

    def states_between(self, d: int, lo: int, hi: int) -> list[Optional[str]]:
        """Texts document d had after message lo up to after message hi."""
        hist = self.history[d]
        cur: Optional[str] = None
        out: list[Optional[str]] = []
        for idx, text in hist:
            if idx <= lo:
                cur = text
            elif idx <= hi:
                out.append(text)
        return [cur, *out]


def schedule(world: lsp.World, groups: list[dict], frag: int, rng: random.Random, end: Any) -> None:
    """Feed groups of bytes at seeded virtual times; optional begin/finish hooks per group."""
    loop = world.loop
    t = loop.time()
    pending_finish: Any = None
    for g in groups:
        t += g["gap"]
        if pending_finish is not None:
            loop.call_at(t - 2e-5, pending_finish)
            pending_finish = None
        if g.get("begin"):
            loop.call_at(t - 1e-5, g["begin"])
            pending_finish = g.get("finish")
        data = g["data"]
        cuts = [len(data)]
        if frag:
            cuts, pos = [], 0
            while pos < len(data):
                pos = min(len(data), pos + rng.randrange(1, frag * 4))
                cuts.append(pos)
        pos = 0
        for c in cuts:
            loop.call_at(t, world.feed, data[pos:c])
            pos = c
            t += 0.0001 * rng.randrange(1, 4)
    t += 1000.0
    if pending_finish is not None:
        loop.call_at(t - 1e-5, pending_finish)
    loop.call_at(t, end)
