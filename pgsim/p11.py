"""P11: loading yields the complete content or an error."""

from __future__ import annotations

import io
import os
import random
from pathlib import Path
from typing import Any, Optional

from pgsim import core, disk, gen, inject, proj, work

RUNS = {"quick": 6000, "thorough": 100000}
SHRINK = ["ops"]
REAL = ["pygerber GerberFile, GerberJobFile and Project loading", "Python text I/O and decoding, pathlib, pydantic",
        "real files in a scratch directory"]
STUB = ["open/read/close of scratch files: each is a step which can fail or be short", "readable buffers given by the user",
        "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of loads of sources (small, large, non-ASCII, not UTF-8), job files and projects (some with "
        "missing or damaged files) from paths, strings and buffers with seeded read fragmentation, open and read errors "
        "and injected exceptions; each failed load is repeated undisturbed. Between loads sources and whole projects are "
        "replaced by others of the same names, sizes and modification times.")
STATE_MEASURE = "hash of (what is loaded, how, fragmentation, fault and where it struck, outcome)"
ASSUME = ["reference for sources: the bytes of the file decoded as UTF-8 with universal newlines",
          "reference for job files and projects: an undisturbed load in a process that did nothing else",
          "a load which recovers from an error and yields the complete content is accepted"]

HOW = ["str", "path", "rel", "string", "stringio", "file", "textio", "object", "object"]


class Buffer:
    """Only a read method; k-th read fails."""

    def __init__(self, text: str, fail_at: Optional[int], short: Optional[int]) -> None:
        self.s = io.StringIO(text)
        self.short = short
        self.n = 0
        self.fail_at = fail_at
        self.failed = False

    def read(self, size: int = -1) -> str:
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            raise OSError(5, "Input/output error")
        if self.short and size is not None and size > 0:
            size = min(size, self.short)
        return self.s.read(size)


def gen_source(rng: random.Random) -> dict:
    r = rng.random()
    s: dict = {"n": gen.pick(rng, 0.1, 200)}
    if r < 0.25:
        s["pad"] = rng.choice([3000, 8150, 8192, 20000, 70000, 140000])
        s["wide"] = rng.random() < 0.6
    elif r < 0.33:
        s["bad_at"] = rng.randrange(0, 400)
        s["bad"] = rng.choice(["ff", "c3 28", "e2 82", "f0 9f 98"])
    elif r < 0.36:
        s = {"raw": rng.choice(["", "c5 bc", "ef bb bf 4d 30 32 2a"])}
    return s


def source_bytes(s: dict) -> bytes:
    if "raw" in s:
        return bytes.fromhex(s["raw"])
    b = gen.numbered(s["n"]).encode("utf-8")
    if s.get("pad"):
        line = "G04 zażółć gęślą jaźń 日本 😀*\n" if s["wide"] else "G04 padding padding padding*\n"
        lb = line.encode("utf-8")
        b = lb * (s["pad"] // len(lb)) + b
    if "bad_at" in s:
        at = min(s["bad_at"], len(b))
        b = b[:at] + bytes.fromhex(s["bad"]) + b[at:]
    return b


def text_of(b: bytes) -> Any:
    try:
        return ["src", b.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")]
    except UnicodeDecodeError:
        return ["err"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    files = {f"s{i}.gbr": gen_source(rng) for i in range(3)}
    job = proj.gen_job(rng, 0.1, 160)
    job["missing"] = rng.randrange(len(job["files"])) if rng.random() < 0.12 else None
    job["cut"] = rng.randrange(1, 400) if rng.random() < 0.08 else None
    # another project at the same place: same layers, some files differ
    job2 = {**job, "files": {k: {"n": rng.choice([gen.pick(rng, 0.1, 160), gen.twin_of(rng, v["n"])])} if rng.random() < 0.5 else v
                             for k, v in job["files"].items()}, "cut": None, "missing": None}
    if rng.random() < 0.3:
        job2["attrs"] = job["attrs"][1:] + job["attrs"][:1]
    ops = []
    p = rng.choice([0.2, 0.6])
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice(["gerber", "gerber", "gerber", "job", "project", "project", "kept", "kept", "rewrite", "swap"])
        op: dict = {"k": k, "how": rng.choice(HOW if k == "gerber" else HOW[:3])}
        if k in ("rewrite", "swap"):
            ops.append({"k": k, "s": rng.choice(sorted(files)), "at": rng.random()})
            continue
        if k == "gerber":
            op["s"] = rng.choice(sorted(files))
            op["type"] = rng.choice(["INFER", "COPPER", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES"])
        op["short"] = rng.choice([None, None, 1, 3, 7, 100, 4096])
        if rng.random() < p:
            r = rng.random()
            if r < 0.75:
                op["disk"] = [{"op": rng.choice(["open-r", "read", "read", "read", "close-r"]),
                               "k": rng.choice([1, 1, 2, 3, 4, 7]),
                               "kind": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT", "EINTR", "torn", "short"])}]
                op["fail_at"] = rng.choice([1, 2])
            else:
                op["fault"] = work.gen_fault(rng, top=2.0)
        ops.append(op)
    return {"files": files, "job": job, "job2": job2, "ops": ops}


def layout(plan: dict) -> dict[str, bytes]:
    out = {k: source_bytes(v) for k, v in plan["files"].items()}
    out.update(project_layout(plan["job"]))
    return out


def project_layout(job: dict) -> dict[str, bytes]:
    out: dict[str, bytes] = {}
    out.update(proj.files_of(job))
    if job.get("missing") is not None:
        out.pop("job/" + sorted(job["files"])[job["missing"] % len(job["files"])], None)
    if job.get("cut") is not None:
        out["job/board.gbrjob"] = out["job/board.gbrjob"][: job["cut"]]
    return out


def load(root: str, op: dict, plan: dict, d: disk.Disk, buf: list, kept: Any = None) -> Any:
    from pygerber.gerber.api import FileTypeEnum, GerberFile, GerberJobFile

    if op["k"] == "kept":
        return ["project", proj.dump_project(kept.to_project())]
    how = op["how"]
    name = op["s"] if op["k"] == "gerber" else "job/board.gbrjob"
    full = os.path.join(root, name)
    arg: Any = full if how == "str" else Path(full) if how == "path" else name
    if op["k"] == "job":
        return ["job", proj.dump_job(GerberJobFile.from_file(arg))]
    if op["k"] == "project":
        return ["project", proj.dump_project(GerberJobFile.from_file(arg).to_project())]
    ft = FileTypeEnum[op["type"]]
    if how in ("str", "path", "rel"):
        f = GerberFile.from_file(arg, ft)
    elif how == "file":
        with io.open(full, encoding="utf-8") as h:
            f = GerberFile.from_buffer(h, ft)
    else:
        text = buf[1]
        if how == "string":
            f = GerberFile.from_str(text, ft)
        else:
            f = GerberFile.from_buffer(buf[0], ft)
    return ["src", f.source_code]


def load_on(d: disk.Disk, root: str, op: dict, plan: dict, buf: list, kept: Any = None) -> Any:
    with d:
        return load(root, op, plan, d, buf, kept)


def put(root: str, content: dict[str, bytes]) -> None:
    """Write files, all with one modification time."""
    for name, data in content.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with disk._real_open(path, "wb") as h:
            h.write(data)
        os.utime(path, (1_700_000_000, 1_700_000_000))


def altered(data: bytes, at: float) -> bytes:
    """Same size, one digit differs."""
    digits = [i for i, c in enumerate(data) if 48 <= c <= 57]
    if not digits:
        return data
    i = digits[int(at * len(digits))]
    return data[:i] + bytes([48 + (data[i] - 48 + 1) % 10]) + data[i + 1:]


def reference(job: dict, op: dict) -> Any:
    plan = {"files": {}, "job": job}
    with disk.Scratch(layout(plan)) as root:
        d = disk.Disk(root, [])
        return work.guarded(lambda: load(root, {**op, "how": "str"}, plan, d, []))


ORDER = ["COPPER", "MASK", "SOLDERMASK", "PASTE", "SILK", "LEGEND", "PROFILE"]


def model(job: dict) -> dict:
    """Which file belongs into which view, from the job file alone (later files replace earlier of same kind)."""
    top: dict = {}
    bottom: dict = {}
    inner: dict = {}
    everywhere = []
    for a in job["attrs"]:
        parts = a["fn"].upper().split(",")
        b = gen.numbered(job["files"][a["path"]]["n"]).replace("\r\n", "\n").replace("\r", "\n")
        entry = [parts[0], work.sha(b.encode("utf-8")), len(b)]
        layer = next((p[1:] for p in parts if p[0] == "L" and p[1:].isdigit()), None)
        if parts[0] == "PROFILE":
            everywhere.append(entry)
        elif "TOP" in parts:
            top[parts[0]] = entry
        elif "BOT" in parts:
            bottom[parts[0]] = entry
        elif layer:
            inner.setdefault(layer, {})[parts[0]] = entry
    for e in everywhere:
        for v in [top, bottom, *inner.values()]:
            v["PROFILE"] = e

    def view(v: dict) -> list:
        return [v[t] for t in ORDER if t in v]

    return {"top": view(top), "inner": [view(inner[k]) for k in sorted(inner)], "bottom": view(bottom)}


def make_buffer(op: dict, data: bytes, fail: bool) -> list:
    how = op["how"]
    if how not in ("string", "stringio", "textio", "object"):
        return []
    t = text_of(data)
    if how == "textio":
        # decoded while being read, in fragments
        return [io.TextIOWrapper(io.BufferedReader(Fragments(data, op.get("short") or 8192), 16), "utf-8"), None]
    if t[0] == "err":
        return []
    if how == "string":
        return [None, t[1]]
    if how == "stringio":
        return [io.StringIO(t[1]), t[1]]
    return [Buffer(t[1], op.get("fail_at") if fail else None, op.get("short")), t[1]]


class Fragments(io.RawIOBase):
    def __init__(self, data: bytes, n: int) -> None:
        self.data, self.n, self.p = data, n, 0

    def readable(self) -> bool:
        return True

    def readinto(self, b: Any) -> int:
        k = min(len(b), self.n, len(self.data) - self.p)
        b[:k] = self.data[self.p : self.p + k]
        self.p += k
        return k


def execute(plan: dict, ctx: core.Ctx) -> None:
    from pygerber.gerber.api import GerberJobFile

    content = layout(plan)
    old = os.getcwd()
    state = {"job": plan["job"], "kept": None}
    with disk.Scratch(content) as root, inject.CallFaults() as cf:
        put(root, content)
        os.chdir(root)
        try:
            for i, op in enumerate(plan["ops"]):
                if op["k"] == "rewrite":
                    content[op["s"]] = altered(content[op["s"]], op["at"])
                    put(root, {op["s"]: content[op["s"]]})
                    ctx.faults["source_replaced"] += 1
                    ctx.event(i, "rewrite")
                elif op["k"] == "swap":
                    for name in project_layout(state["job"]):
                        os.unlink(os.path.join(root, name))
                    state = {"job": plan["job2"] if state["job"] is plan["job"] else plan["job"], "kept": None}
                    put(root, project_layout(state["job"]))
                    ctx.faults["project_replaced"] += 1
                    ctx.event(i, "swap")
                else:
                    if op["k"] == "kept" and state["kept"] is None:
                        try:
                            state["kept"] = GerberJobFile.from_file(os.path.join(root, "job/board.gbrjob"))
                        except Exception:  # noqa: BLE001
                            continue
                    one(state["job"], op, i, ctx, content, root, cf, state["kept"])
        finally:
            os.chdir(old)


def one(job: dict, op: dict, i: int, ctx: core.Ctx, content: dict, root: str, cf: inject.CallFaults, kept: Any) -> None:
    plan = {"job": job}
    as_project = {"kept": "project"}.get(op["k"], op["k"])
    data = content[op["s"]] if op["k"] == "gerber" else b""
    want = (text_of(data) if op["k"] == "gerber"
            else ctx.ref("pgsim.p11:reference", job, {"k": as_project}))
    if op["k"] != "gerber" and want[0] != "err":
        # nothing is lost even when undisturbed
        if as_project == "project":
            m = model(job)
            if want[1] != m:
                raise core.Violation("project-incomplete", f"project loaded without disturbance is {want[1]}, its job file "
                                     f"{job['attrs']} describes {m}")
            ctx.probes["project_as_described"] += 1
    for attempt in ("disturbed", "again"):
        dist = attempt == "disturbed"
        buf = make_buffer(op, data, dist) if op["k"] == "gerber" else []
        if op["how"] in ("string", "stringio", "object") and not buf:
            return
        d = disk.Disk(root, op.get("disk", []) if dist else [], short=op.get("short"))
        f = op.get("fault") if dist else None
        if f:
            rd = disk.Disk(root, [], short=op.get("short"))
            rb = make_buffer(op, data, False) if op["k"] == "gerber" else []
            cf.arm(cf.resolve(f, lambda: load_on(rd, root, op, plan, rb, kept)), f["kind"])
        try:
            got = load_on(d, root, op, plan, buf, kept)
        except (Exception, KeyboardInterrupt, inject.InjectedFault) as e:  # noqa: BLE001
            got = ["err", type(e).__name__]
        finally:
            cf.disarm()
        failed = bool(buf and getattr(buf[0], "failed", False))
        hit = [a for a in d.fired if a[1] != "short"]
        fired = bool(f and cf.fired)
        label = f"load {i} ({attempt}) {op}"
        ctx.steps += d.step + 1
        ctx.event(i, attempt, core.h(got), d.fired, fired, failed)
        ctx.state(op["k"], op["how"], op.get("short"), [a[:2] for a in d.fired], failed, cf.fired if fired else "", got[0])
        if dist:
            for a in d.fired:
                ctx.faults[f"{a[1]}_{a[0]}"] += 1
            ctx.faults["buffer_read_error"] += failed
            ctx.faults["fragmented_reads"] += bool(op.get("short"))
            if fired:
                ctx.faults[f"{f['kind']}_call"] += 1
        if got[0] == "err":
            if want[0] != "err" and not (hit or fired or failed):
                raise core.Violation("spurious-error", f"{label} raised {got[1]} though no read failed")
            if want[0] == "err" and op["k"] != "gerber" and not (hit or fired) and got[1] != want[1]:
                raise core.Violation("other-error", f"{label} raised {got[1]}, undisturbed it raises {want[1]}")
            ctx.probes["error_" + attempt] += 1
            continue
        if want[0] == "err":
            raise core.Violation("error-lost", f"{label} succeeded though its content can not be loaded: {str(got)[:300]}")
        if got[:2] != want[:2]:
            raise core.Violation(
                "incomplete", f"{label} with reads {d.fired} {failed} gave {str(got)[:200]} ({len(str(got))} characters), "
                f"complete is {str(want)[:200]} ({len(str(want))} characters)")
        ctx.probes["complete_" + attempt] += 1
