"""Runs command-line commands of pygerber on the simulated disk, and generates them."""

from __future__ import annotations

import io
import json
import os
import random
import sys
from typing import Any, Optional

from pgsim import core, disk, gen, inject

#: names of files in the scratch directory
SOURCES = ["a.gtl", "b.gts", "c.gbr", "d.xyz", "sub/e.gto"]
CONFIGS: dict[str, str] = {
    "cfg.json": '{"d01_indent": 2, "macro_param_indent": 2, "float_decimal_places": 3}',
    "bad.json": '{"d01_indent": ',
    "odd.json": '{"no_such_option": 1, "float_decimal_places": "many"}',
    "cfg.toml": "d01_indent = 2\n",
}
BYSTANDERS = {"notes.txt": b"keep me\n", "sub/old.png": b"\x89PNG old", "output.bak": b"1"}
OLD = b"previous output " * 700


def gen_files(rng: random.Random, bad: float) -> dict[str, Any]:
    """name -> source number or literal text"""
    out: dict[str, Any] = {}
    for s in SOURCES:
        out[s] = {"n": gen.pick(rng, bad, 160)}
    if rng.random() < 0.15:
        out["c.gbr"] = {"bytes": rng.choice(["ff fe 00 41", "c3 28", ""])}
    for k, v in CONFIGS.items():
        out[k] = {"text": v}
    for k, b in BYSTANDERS.items():
        out[k] = {"bytes": b.hex(" ")}
    for o in ["output.png", "output.gbr", "output.jpg", "out.bin"]:
        if rng.random() < 0.6:
            out[o] = {"old": 1}
    return out


def materialise(files: dict[str, Any]) -> dict[str, bytes]:
    out = {}
    for k, v in files.items():
        if "n" in v:
            out[k] = gen.numbered(v["n"]).encode("utf-8")
        elif "text" in v:
            out[k] = v["text"].encode("utf-8")
        elif "old" in v:
            out[k] = OLD
        else:
            out[k] = bytes.fromhex(v["bytes"])
    return out


COMPRESSIONS = ["lzma", "packbits", "tiff_lzw", "tiff_adobe_deflate", "jpeg", "nosuch"]  # group3, zstd crash libtiff at random


def gen_command(rng: random.Random, odd: float = 1.0) -> list[str]:
    """odd: weight of options and paths which make the command fail on its own."""
    for _ in range(20):
        a = _gen_command(rng)
        strange = any(x in ODD for x in a) or (a[1] in ("lint", "merge-convert") and not any(x in SOURCES for x in a))
        if not strange or rng.random() < odd:
            return a
    return a


ODD = {"missing.gbr", "NOPE", "zz", "nosuch", "nodir/x.gbr", "nodir/x.bin", "sub", "bad.json", "odd.json",
       "cfg.toml", "missing.json", "{", '{"float_decimal_places": "x"}', "1"}


def _gen_command(rng: random.Random) -> list[str]:
    k = rng.choice(["convert", "convert", "convert", "format", "format", "format", "merge", "lint", "rules"])
    src = rng.choice(SOURCES) if rng.random() < 0.96 else "missing.gbr"
    if k == "convert":
        fmt = rng.choice(["png", "jpeg", "tiff", "bmp", "webp", "svg", "svg"])
        a = ["gerber", "convert", fmt, src]
        o = gen_output(rng)
        if o:
            a += ["-o", o]
        if fmt != "svg":
            a += ["-d", str(rng.choice([1, 3, 8] if rng.random() < 0.93 else [40]))]
        if rng.random() < 0.3:
            a += ["-t", rng.choice(["COPPER", "mask", "INFER", "infer_from_extension", "NOPE"])]
        if rng.random() < 0.3:
            a += rng.choice([["-s", "copper"], ["-s", "CUSTOM", "-f", "#112233", "-b", "#ffffff"],
                             ["-s", "custom", "-f", "zz", "-b", "#000000"], ["-s", "CUSTOM"]])
        if fmt == "tiff":
            a += ["-c", rng.choice(COMPRESSIONS)]
        if fmt in ("jpeg", "webp", "tiff") and rng.random() < 0.4:
            a += ["-q", rng.choice(["10", "95"])]
        if fmt == "webp" and rng.random() < 0.4:
            a += ["-l"]
        return a
    if k == "format":
        a = ["gerber", "format", src]
        o = rng.choice([None, "out.bin", "output.gbr", src, src, "sub/new.gbr", "nodir/x.gbr"])
        if o:
            a += ["-o", o]
        r = rng.random()
        if r < 0.35:
            a += ["-c", rng.choice([*CONFIGS, "missing.json"])]
        elif r < 0.5:
            a += ["-i", rng.choice(['{"d02_indent": 1}', "{", '{"float_decimal_places": "x"}', "{}"])]
        return a
    if k == "merge":
        fmt = rng.choice(["png", "jpeg"])
        a = ["gerber", "merge-convert", fmt, *[rng.choice(SOURCES) for _ in range(rng.choice([0, 1, 2, 3]))]]
        o = gen_output(rng)
        if o:
            a += ["-o", o]
        return [*a, "-d", str(rng.choice([3, 8]))]
    if k == "lint":
        a = ["gerber", "lint", *[rng.choice(SOURCES) for _ in range(rng.choice([0, 1, 2, 3]))]]
        if rng.random() < 0.3:
            a += ["-r", rng.choice(["DEP001,DEP002", "DEP007", "NOPE"])]
        return a
    return ["gerber", "list-lint-rules", *rng.choice([[], ["-q"]])]


def gen_output(rng: random.Random) -> Optional[str]:
    return rng.choice([None, "out.bin", "out.bin", "sub/new.bin", "nodir/x.bin", "sub"])


DEFAULT_OUT = {"png": "output.png", "jpeg": "output.jpg", "tiff": "output.tiff", "bmp": "output.bmp",
               "webp": "output.webp", "svg": "output.svg"}


def output_of(argv: list[str]) -> Optional[str]:
    """Path the command was asked to write."""
    if argv[1] in ("lint", "list-lint-rules"):
        return None
    if "-o" in argv:
        return os.path.normpath(argv[argv.index("-o") + 1])
    if argv[1] == "format":
        return "output.gbr"
    return DEFAULT_OUT[argv[2]]


def run(root: str, argv: list[str], *, faults: list[dict] = (), call: Optional[dict] = None,  # type: ignore[assignment]
        out_fault: Optional[dict] = None, cwd: Optional[str] = None, encoding: Optional[str] = None,
        short: Optional[int] = None, raw_paths: bool = False) -> dict:
    """Run one command in its own (forked) process on the directory `root`."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rep: dict = {"status": None, "out": b"", "fired": [], "log": [], "opened": [], "killed": False, "site": None}
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            saved = os.dup(2)
            os.dup2(null, 2)  # messages of native libraries
            out = disk.SimOut(**(out_fault or {}))
            err = disk.SimOut()
            d = disk.Disk(root, list(faults), short=short, encoding=encoding)

            def finish() -> None:
                rep["fired"], rep["log"], rep["opened"] = d.fired, d.log, d.opened_for_write
                rep["steps"] = d.step
                rep["default_encoding_uses"] = d.default_encoding_uses
                text = bytes(out.data)
                if not raw_paths:
                    text = text.replace(root.encode(), b"<ROOT>")
                rep["out"] = text
                rep["err"] = bytes(err.data)[-400:]
                if out.fired:
                    rep["fired"] = [*rep["fired"], ("stdout", out.err, "")]
                core._send(w, rep)

            def kill() -> None:
                rep["killed"] = True
                finish()
                os._exit(0)

            d.kill = kill
            os.chdir(os.path.join(root, cwd) if cwd else root)
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(out), "utf-8", line_buffering=False)
            sys.stderr = io.TextIOWrapper(io.BufferedWriter(err), "utf-8", errors="backslashreplace")
            rep["status"] = _main(argv, d, call, rep)
            finish()
        except BaseException:  # noqa: BLE001
            import traceback

            os.write(saved, traceback.format_exc().encode())
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    rep = None
    try:
        rep = core._recv(r)
    except EOFError:
        pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if rep is None:  # crashed in native code, or the harness failed
        if os.WIFEXITED(st):
            raise RuntimeError("command process ended without a report")
        rep = {"status": 128 + os.WTERMSIG(st), "out": b"", "err": b"", "fired": [], "log": [], "opened": [],
               "killed": False, "site": None, "steps": 0, "exc": f"signal {os.WTERMSIG(st)}", "default_encoding_uses": 0}
    return rep


def _main(argv: list[str], d: disk.Disk, call: Optional[dict], rep: dict) -> int:
    from pygerber.console.commands import main

    cf = inject.CallFaults()
    status: Any = 0
    with cf, d:
        if call and call.get("survey"):
            rep["n"] = cf.survey(lambda: main(args=list(argv), prog_name="pygerber", standalone_mode=True), call["survey"])
            return 0
        if call:
            cf.arm(call["n"], call["kind"])
        try:
            main(args=list(argv), prog_name="pygerber", standalone_mode=True)
        except SystemExit as e:
            status = e.code
        except BaseException as e:  # noqa: BLE001
            rep["exc"] = f"{type(e).__name__}: {str(e)[:200]}"
            status = 1
        cf.disarm()
        if cf.fired:
            rep["site"] = cf.fired
            rep["fault_kind"] = call["kind"] if call else ""
        # what the interpreter does at exit
        import gc

        gc.collect()
        try:
            sys.stdout.flush()
        except Exception:  # noqa: BLE001
            status = 120 if not status else status
    if status is None:
        status = 0
    return status if isinstance(status, int) else 1


def run_here(root: str, argv: list[str]) -> dict:
    """Run one command undisturbed in this process, which may have a history."""
    from pygerber.console.commands import main

    old = os.getcwd()
    out, err = sys.stdout, sys.stderr
    os.chdir(root)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    rep: dict = {"status": 0}
    try:
        with disk.Disk(root, []):
            main(args=list(argv), prog_name="pygerber", standalone_mode=True)
    except SystemExit as e:
        rep["status"] = e.code if isinstance(e.code, int) else 1 if e.code else 0
    except Exception as e:  # noqa: BLE001
        rep = {"status": 1, "exc": f"{type(e).__name__}: {str(e)[:200]}"}
    finally:
        sys.stdout, sys.stderr = out, err
        os.chdir(old)
    return rep


def reference(files: dict[str, Any], argv: list[str]) -> dict:
    """The undisturbed run, in a fresh directory and a process that did nothing else."""
    with disk.Scratch(materialise(files)) as root:
        rep = run(root, argv)
        after = disk.snapshot(root)
    o = output_of(argv)
    return {"status": rep["status"], "out": rep["out"], "output": after.get(o) if o else None, "steps": rep["steps"],
            "log": rep["log"], "exc": rep.get("exc")}


def survey(files: dict[str, Any], argv: list[str], where: list[float]) -> int:
    """Number of the call to fail in this command for a fault given by site."""
    with disk.Scratch(materialise(files)) as root:
        return run(root, argv, call={"survey": where}).get("n", 1)


def resolve(ctx: core.Ctx, files: dict[str, Any], argv: list[str], call: Optional[dict]) -> Optional[dict]:
    if call is None or "n" in call:
        return call
    return {"n": ctx.ref("pgsim.cli:survey", files, argv, call["site"]), "kind": call["kind"]}


def gen_disk_faults(rng: random.Random, steps: int, kill: bool = True, write: float = 0.5,
                    argv: Optional[list[str]] = None) -> list[dict]:
    kinds = ["EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "short", "short", "torn", "torn", "FULL"]
    if kill:
        kinds += ["kill", "kill", "kill"]
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(kinds)
        if argv and rng.random() < 0.12:
            named = [x for x in argv if x in SOURCES or x in CONFIGS]
            if named:
                out.append({"path": rng.choice(named), "kind": rng.choice(["EACCES", "EACCES", "EIO", "ENOENT", "EMFILE"])})
                continue
        r = rng.random()
        if r < write:
            op = rng.choice(["open-w", "write", "write", "write", "close-w", "close-w"])
            out.append({"op": op, "k": rng.choice([1, 1, 1, 2, 3, 5]), "kind": kind})
        elif r < write + (1 - write) * 0.6:
            op = rng.choice(["open-r", "read", "read", "close-r"])
            out.append({"op": op, "k": rng.choice([1, 1, 2, 3]), "kind": kind})
        else:
            out.append({"at": rng.randrange(1, steps + 2), "kind": kind})
    return out


def json_bytes(b: Optional[bytes]) -> Any:
    return None if b is None else [len(b), core.h(b)]


_ = json
