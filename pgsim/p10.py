"""P10: saving gives the same bytes to every kind of destination."""

from __future__ import annotations

import io
import os
import random
from pathlib import Path
from typing import Any, Optional

from pgsim import core, disk, gen, inject, work

RUNS = {"quick": 1700, "thorough": 40000}
SHRINK = ["ops"]
REAL = ["pygerber images, results and composite images of both back ends, SVG writer, formatter, builder code",
        "Pillow encoders, shapely, Python buffered I/O, real files in a scratch directory"]
STUB = ["writable objects of several kinds, some failing at a chosen write", "open/write/close of scratch files",
        "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of saves of one rendered image, SVG, formatted file or built code to paths, buffers, open files "
        "at seeded positions and minimal writable objects, with write, close and disk-full errors and injected "
        "exceptions between them.")
STATE_MEASURE = "hash of (what is saved, format, options, destination kind, position, fault and where it struck)"
ASSUME = ["reference: one save to an empty in-memory buffer in a process that did nothing else",
          "a write of a destination takes all it is given or raises",
          "errors which an open file reports only when its owner flushes or closes it are the owner's to handle"]

WHAT = ["image", "image", "result", "view", "svg", "svg", "svgresult", "text", "text", "code"]
FMTS: list[tuple[str, dict]] = [
    ("png", {}), ("png", {"optimize": True}), ("jpeg", {}), ("jpeg", {"quality": 30}), ("bmp", {}), ("webp", {}),
    ("webp", {"lossless": True}), ("tiff", {}), ("tiff", {"compression": "tiff_lzw"}), ("tiff", {"compression": "packbits"}),
    ("tiff", {"compression": "jpeg", "quality": 50}), ("tiff", {"compression": "tiff_adobe_deflate"}), ("PNG", {}), ("jpeg", {"quality": 95}), ("webp", {"quality": 10}),
    ("png", {"compress_level": 0}), ("bmp", {}),
]
DEST = ["str", "path", "relpath", "buffer", "buffer", "file", "update", "append", "unbuffered", "object", "object",
        "readable_object", "subclass", "writer"]
OLD = b"0123456789" * 40


class DestinationError(OSError):
    pass


class Obj:
    """Only what it needs: a write method."""

    def __init__(self, fail_at: Optional[int]) -> None:
        self.data = bytearray()
        self.n = 0
        self.fail_at = fail_at
        self.failed = False

    def write(self, b: Any) -> int:
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            raise DestinationError(28, "No space left on device")
        if isinstance(b, str):
            b = b.encode("utf-8")
        self.data += b
        return len(b)


class ReadableObj(Obj):
    """An object that has more than it needs, much of it refusing to work."""

    def read(self, n: int = -1) -> bytes:
        raise io.UnsupportedOperation("read")

    def seek(self, *_: Any) -> int:
        raise io.UnsupportedOperation("seek")

    def tell(self) -> int:
        raise io.UnsupportedOperation("tell")

    def fileno(self) -> int:
        raise io.UnsupportedOperation("fileno")

    def flush(self) -> None:
        pass


class Sub(io.BytesIO):
    def __init__(self, data: bytes, fail_at: Optional[int]) -> None:
        super().__init__(data)
        self.n = 0
        self.fail_at = fail_at
        self.failed = False

    def write(self, b: Any) -> int:
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            raise DestinationError(28, "No space left on device")
        return super().write(b)


class Raw(io.RawIOBase):
    """Backing of a buffered writer given by the user."""

    def __init__(self) -> None:
        self.data = bytearray()

    def writable(self) -> bool:
        return True

    def write(self, b: Any) -> int:
        self.data += bytes(b)
        return len(b)


def gen_what(rng: random.Random) -> dict:
    w: dict = {"w": rng.choice(WHAT), "n": gen.pick(rng, 0.0, 200)}
    if w["w"] == "view":
        w["m"] = gen.pick(rng, 0.0, 200)
    if w["w"] == "text":
        w["o"] = rng.randrange(len(work.FORMAT_OPTS))
    if w["w"] == "code":
        w["seed"] = rng.randrange(300)
    return w


def generate(rng: random.Random, index: int, tier: str) -> dict:
    what = gen_what(rng)
    ops = []
    p_fault = rng.choice([0.0, 0.3, 0.6])
    for _ in range(rng.choice([2, 4, 7])):
        op: dict = {"dest": rng.choice(DEST), "pos": rng.choice([0, 0, 7, 100, 400])}
        op["long"] = rng.random() < 0.5
        op["fill"] = rng.choice([None, None, "same", "near", "longer"])
        if what["w"] in ("image", "result", "view"):
            op["f"] = rng.randrange(len(FMTS))
        if rng.random() < p_fault:
            r = rng.random()
            if r < 0.35:
                op["fault"] = work.gen_fault(rng, top=1.6, site=0.0)
            elif op["dest"] in ("object", "readable_object", "subclass"):
                op["fail_at"] = rng.choice([1, 1, 2, 3, 5, 8])
            else:
                op["disk"] = [{"op": rng.choice(["open-w", "write", "write", "close-w"]), "k": rng.choice([1, 1, 2]),
                               "kind": rng.choice(["EIO", "ENOSPC", "FULL", "torn", "short"])}]
                if op["dest"] == "unbuffered" and op["disk"][0]["kind"] == "short":
                    op["disk"][0]["kind"] = "EIO"
        ops.append(op)
    return {"what": what, "ops": ops}


def subject(w: dict) -> Any:
    k = w["w"]
    if k == "code":
        from pgsim import p12

        g = p12.Gerber()
        for op in p12.gen_gerber(random.Random(w["seed"]), 10, 0.0):
            try:
                if op["op"] != "code":
                    g.step(op)
            except Exception:  # noqa: BLE001
                pass
        return g.b.get_code()
    if k in ("result", "svgresult"):
        from pygerber.vm import render

        rvmc = work.compiled(gen.numbered(w["n"]))
        return render(rvmc, backend="pillow", dpmm=6) if k == "result" else render(rvmc, backend="shapely")
    f = work.make_file({"n": w["n"]})
    if k == "view":
        from pygerber.gerber.api import CompositeView

        return CompositeView([f, work.make_file({"n": w["m"]})]).render_with_pillow(dpmm=6)
    if k == "image":
        return f.render_with_pillow(dpmm=6)
    if k == "svg":
        return f.render_with_shapely()
    return f


def save(x: Any, w: dict, op: dict, dest: Any) -> None:
    k = w["w"]
    if k in ("image", "view"):
        fmt, kw = FMTS[op["f"]]
        if op["f"] % 2:
            getattr(x, f"save_{fmt.lower()}")(dest, **kw)
        else:
            x.save(dest, fmt, **kw)
    elif k == "result":
        fmt, kw = FMTS[op["f"]]
        x.save(dest, fmt, **kw)
    elif k == "svg":
        x.save(dest)
    elif k == "svgresult":
        x.save(dest, "svg")
    elif k == "text":
        x.format(dest, work.options(w["o"]))
    else:
        x.dump(dest)


def is_text(w: dict) -> bool:
    return w["w"] in ("text", "code")


def reference(w: dict, f: Optional[int]) -> Any:
    def go() -> Any:
        x = subject(w)
        if is_text(w):
            t = io.StringIO()
            save(x, w, {"f": f}, t)
            return ["bytes", t.getvalue().encode("utf-8")]
        b = io.BytesIO()
        save(x, w, {"f": f}, b)
        return ["bytes", b.getvalue()]

    return work.guarded(go)


class Target:
    """A destination and how to see what arrived in it."""

    def __init__(self, op: dict, root: str, d: disk.Disk, text: bool, index: int) -> None:
        self.k = op["dest"]
        self.text = text
        self.pos = 0
        self.before = b""
        self.d = d
        self.path = os.path.join(root, f"out{index % 3}.bin")
        self.obj: Any = None
        k = self.k
        old = OLD * (120 if op.get("long") else 1)
        if text and k in ("str", "path", "relpath", "unbuffered"):
            k = self.k = "file"
        fail = op.get("fail_at")
        self.armed_obj = fail is not None
        if k == "str":
            self.arg: Any = self.path
        elif k == "path":
            self.arg = Path(self.path)
        elif k == "relpath":
            os.chdir(root)
            self.arg = os.path.basename(self.path)
        elif k in ("buffer", "subclass"):
            self.before = old if op["pos"] or op.get("long") else b""
            self.pos = op["pos"]
            if text:
                self.arg = io.StringIO(self.before.decode()) if k == "buffer" else FailText(self.before.decode(), fail)
            else:
                self.arg = io.BytesIO(self.before) if k == "buffer" else Sub(self.before, fail)
            self.arg.seek(self.pos)
        elif k in ("file", "update", "append", "unbuffered"):
            with open(self.path, "wb") as f:
                f.write(old)
            mode = {"file": "w", "update": "r+", "append": "a", "unbuffered": "w"}[k] + ("" if text else "b")
            kw: dict = {"encoding": "utf-8", "newline": ""} if text else {"buffering": 0} if k == "unbuffered" else {}
            d.faults, d.op_faults, d.full = {}, {}, False
            with d:
                self.arg = io.open(self.path, mode, **kw)
            self.before = b"" if mode[0] == "w" else old
            if k == "update":
                self.pos = op["pos"]
                self.arg.seek(self.pos)
            elif k == "append":
                self.pos = len(old)
        elif k == "writer":
            self.raw = Raw()
            self.arg = io.BufferedWriter(self.raw, 64)
            if text:
                self.arg = io.TextIOWrapper(self.arg, "utf-8", newline="")
        else:
            self.arg = (Obj if k == "object" else ReadableObj)(fail)

    def is_path(self) -> bool:
        return self.k in ("str", "path", "relpath")

    def still_open(self) -> bool:
        return self.is_path() or not getattr(self.arg, "closed", False)

    def failed(self) -> bool:
        return bool(getattr(self.arg, "failed", False))

    def content(self) -> bytes:
        k = self.k
        if self.is_path():
            with disk._real_open(self.path, "rb") as f:
                return f.read()
        if k in ("buffer", "subclass"):
            v = self.arg.getvalue()
            return v.encode("utf-8") if self.text else v
        if k in ("file", "update", "append", "unbuffered"):
            self.arg.flush()
            with disk._real_open(self.path, "rb") as f:
                return f.read()
        if k == "writer":
            self.arg.flush()
            return bytes(self.raw.data)
        return bytes(self.arg.data)

    def position(self) -> Optional[int]:
        if self.is_path() or self.k in ("object", "readable_object", "writer", "append") or self.text:
            return None
        return self.arg.tell()

    def expected(self, data: bytes) -> bytes:
        if self.text:
            b, t = self.before.decode(), data.decode("utf-8")
            if self.k in ("buffer", "subclass"):
                b = b.ljust(self.pos, "\0") if self.pos > len(b) else b
                return (b[: self.pos] + t + b[self.pos + len(t):]).encode("utf-8")
        b2 = self.before.ljust(self.pos, b"\0")
        return b2[: self.pos] + data + b2[self.pos + len(data):]

    def dispose(self) -> None:
        if self.is_path() or isinstance(self.arg, Obj):
            return
        try:
            self.arg.close()
        except Exception:  # noqa: BLE001
            pass


class FailText(io.StringIO):
    def __init__(self, data: str, fail_at: Optional[int]) -> None:
        super().__init__(data)
        self.n = 0
        self.fail_at = fail_at
        self.failed = False

    def write(self, s: str) -> int:
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            raise DestinationError(28, "No space left on device")
        return super().write(s)


def execute(plan: dict, ctx: core.Ctx) -> None:
    w = plan["what"]
    try:
        x = subject(w)
    except Exception:  # noqa: BLE001
        ctx.probes["nothing_to_save"] += 1
        return
    text = is_text(w)
    old = os.getcwd()
    with disk.Scratch({"out0.bin": OLD}) as root, inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            want = ctx.ref("pgsim.p10:reference", w, op.get("f"))
            d = disk.Disk(root, [])
            t = Target(op, root, d, text, i)
            if t.is_path() and want[0] == "bytes" and op.get("fill"):
                # what lies at the path already resembles what is to be saved
                w0 = bytearray(want[1])
                if op["fill"] == "same":
                    w0 = bytearray(len(w0))
                elif op["fill"] == "near" and w0:
                    w0[len(w0) * 2 // 3] ^= 1
                else:
                    w0 += OLD
                with disk._real_open(t.path, "wb") as pre:
                    pre.write(w0)
            fs = op.get("disk", [])
            d.op_faults = {(f["op"], f["k"]): f for f in fs}
            d.per_op.clear()
            d.fired.clear()
            f = op.get("fault")
            if f:
                cf.arm(f["n"], f["kind"])
            err: Optional[BaseException] = None
            try:
                with d:
                    save(x, w, op, t.arg)
            except (Exception, KeyboardInterrupt, inject.InjectedFault) as e:  # noqa: BLE001
                err = e
            finally:
                cf.disarm()
                os.chdir(old)
            fired = bool(f and cf.fired)
            hit = [a for a in d.fired if a[1] not in ("short",)]
            d.faults, d.op_faults = {}, {}
            label = f"save {i} of {w} {FMTS[op['f']] if 'f' in op else ''} to {t.k} {op}"
            ctx.steps += 1
            ctx.event(i, t.k, type(err).__name__, fired, [a[:2] for a in d.fired], t.failed())
            ctx.state(w["w"], op.get("f"), t.k, t.pos, [a[:2] for a in d.fired], t.failed(), cf.fired if fired else "")
            for a in d.fired:
                ctx.faults[f"{a[1]}_{a[0]}"] += 1
            if fired:
                ctx.faults[f"{f['kind']}_call"] += 1
            if t.failed():
                ctx.faults["object_write_error"] += 1
            if not t.still_open():
                raise core.Violation("closed", f"{label}: the destination was closed")
            if t.failed() or (hit and t.is_path() and any(a[1] != "FULL" or a[0] == "write" for a in hit)):
                if err is None:
                    raise core.Violation("error-lost", f"{label}: destination failed {hit}, the call returned normally")
            elif err is None and not (hit and not t.is_path()):
                if want[0] == "err":
                    raise core.Violation("differs", f"{label} succeeded, saving to a buffer raises {want[1]}")
                if d.full:
                    d.full = False
                    if hit and not t.is_path():
                        t.dispose()
                        continue
                got, exp = t.content(), t.expected(want[1])
                if got != exp:
                    raise core.Violation(
                        "differs", f"{label} left {len(got)} bytes {got[:80]!r}, expected {len(exp)} bytes {exp[:80]!r} "
                        f"(first difference at {first_diff(got, exp)})")
                p = t.position()
                if p is not None and p != t.pos + len(want[1]):
                    raise core.Violation("position", f"{label}: position afterwards is {p}, started at {t.pos} and "
                                         f"wrote {len(want[1])} bytes")
                ctx.probes[f"same_{t.k}"] += 1
            elif err is not None and not (fired or hit or t.failed()):
                if want[0] != "err":
                    raise core.Violation("failed", f"{label} raised {type(err).__name__}: {str(err)[:200]}, saving to a "
                                         "buffer works")
            d.full = False
            t.dispose()
    last = ctx.ref("pgsim.p10:reference", w, plan["ops"][-1].get("f")) if plan["ops"] else None
    if last and last[0] == "bytes":
        b: Any = io.StringIO() if text else io.BytesIO()
        save(x, w, plan["ops"][-1], b)
        v = b.getvalue().encode("utf-8") if text else b.getvalue()
        if v != last[1]:
            raise core.Violation("resave", f"saving {w} again after {len(plan['ops'])} saves gives other bytes")


def first_diff(a: bytes, b: bytes) -> int:
    return next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
