"""P07: results do not depend on locale or working directory."""

from __future__ import annotations

import io
import os
import random
from typing import Any

from pgsim import cli, core, disk, gen, proj, work

RUNS = {"quick": 950, "thorough": 30000}
SHRINK = ["ops"]
REAL = ["pygerber command line, API loaders, job files, formatter, linter, both virtual machines",
        "Python text I/O, click, real files in a scratch directory"]
STUB = ["platform default text encoding (open, pathlib and locale queries)", "working directory and spelling of paths"]
RULE = ("Seeded histories of commands and API calls over one directory with non-ASCII sources, file names, job files and "
        "configurations; each step under a seeded default encoding, working directory and path spelling.")
STATE_MEASURE = "hash of (kind of step, command, default encoding, working directory, path spelling, outcome)"
ASSUME = ["reference: the same step with UTF-8 as default encoding, absolute paths and the scratch root as directory",
          "standard output of the process is UTF-8; relative paths are given relative to the current directory"]

ENCODINGS = ["ascii", "latin-1", "cp1252", "utf-16", "shift_jis", "cp037", "cp037", "utf-8", "utf-7", "gb18030"]
AS = ["latin-1", "latin-1", "latin-1", "cut", "bom", "utf-16", "utf-7", "gb18030", "cp037"]
CWDS = ["", "sub", "sub/deep", "job"]
SPELL = ["abs", "rel", "dot", "up", "dotdot"]
UNI = {"b.gts": "płytka.gts", "sub/e.gto": "sub/日本 語.gto"}
PATHS = {*cli.SOURCES, *cli.CONFIGS, "missing.gbr", "missing.json", "nodir/x.gbr", "nodir/x.bin", "sub", "sub/new.gbr",
         "sub/new.bin", "out.bin", "output.gbr"}
API = ["load", "load", "format", "save", "svg", "job", "project", "project", "buffer", "example"]


DECOY = b"%FSLAX24Y24*%\n%MOMM*%\n%ADD10C,0.5*%\nD10*\nX0Y0D03*\nM02*\n"


def generate(rng: random.Random, index: int, tier: str) -> dict:
    files = {}
    for s in cli.SOURCES:
        n = gen.pick(rng, 0.05, 160)
        if rng.random() < 0.8:
            n = n // 5 * 5
        files[UNI.get(s, s)] = {"n": n}
        if rng.random() < 0.12:
            files[UNI.get(s, s)]["as"] = rng.choice(AS)
    job = proj.gen_job(rng)
    if rng.random() < 0.12:
        job["as"] = rng.choice(AS)
    if rng.random() < 0.15:
        job["gone"] = [rng.choice(sorted(job["files"]))]
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op: dict = {"enc": rng.choice(ENCODINGS), "cwd": rng.choice(CWDS), "sp": rng.choice(SPELL)}
        if rng.random() < 0.5:
            a = cli.gen_command(rng, 0.2)
            if cli.output_of(a) is not None and "-o" not in a:
                a += ["-o", "out.bin"]
            op["cmd"] = [UNI.get(x, x) for x in a]
            op["paths"] = [i for i, x in enumerate(a) if x in PATHS and i >= 2 and a[i - 1] not in ("-i", "-r")]
        else:
            op["api"] = rng.choice(API)
            op["src"] = rng.choice(sorted(files))
            op["o"] = rng.randrange(len(work.FORMAT_OPTS))
            op["ch"] = rng.choice([None, "sub", ""])
            op["i"] = rng.randrange(8)
        ops.append(op)
    return {"files": files, "job": job, "ops": ops}


def layout(files: dict, job: dict) -> dict[str, bytes]:
    out = cli.materialise(files)
    for k, v in cli.CONFIGS.items():
        out[k] = v.encode()
    out["notes.txt"] = b"keep me"
    out["sub/deep/x"] = b""
    # decoys: same names relative to other directories, other content
    for d in ("sub", "sub/deep", "job"):
        for k in files:
            if "/" not in k:
                out.setdefault(f"{d}/{k}", DECOY)
    # ... and of what is missing where it is looked for
    for d in ("sub", "sub/deep", "job"):
        for k in (*(job["files"] if d != "job" else ()), "missing.gbr", "missing.json"):
            out.setdefault(f"{d}/{k}", DECOY if k != "missing.json" else b"{}")
    out.update(proj.files_of(job))
    for k in job.get("gone", ()):
        del out[f"job/{k}"]
    for k, v in files.items():
        if "as" in v:
            out[k] = foreign(out[k], v["as"])
    if "as" in job:
        out["job/board.gbrjob"] = foreign(out["job/board.gbrjob"], job["as"])
    return out


def foreign(data: bytes, how: str) -> bytes:
    """What other software wrote: not UTF-8, or UTF-8 with a mark at its start."""
    text = data.decode("utf-8")
    if how == "bom":
        return b"\xef\xbb\xbf" + data
    if how in ("utf-16", "utf-7", "gb18030", "cp037"):
        return text.encode(how, "replace")
    if how == "cut":
        return data + "G04 \u00e9".encode("utf-8")[:-1]
    # one byte above 127 in a comment, in front of everything or where a line ends
    at = data.find(b"\n") + 1
    return data[:at] + b"G04 caf\xe9 \xb5m*\n" + data[at:]


def spell(root: str, cwd: str, name: str, how: str) -> str:
    p = os.path.join(root, name)
    if how == "abs":
        return p
    here = os.path.normpath(os.path.join(root, cwd))
    rel = os.path.relpath(p, here)
    if how == "dot":
        return os.path.join(".", rel)
    if how == "up":
        return os.path.join("..", os.path.basename(here), rel)
    if how == "dotdot":
        return os.path.join(root, "sub", "..", name)
    return rel


def reference(files: dict, job: dict, op: dict) -> Any:
    base = {**op, "enc": "utf-8", "cwd": "", "sp": "abs", "ch": None}
    with disk.Scratch(layout(files, job)) as root:
        return step(root, base)


def step(root: str, op: dict) -> Any:
    if "cmd" in op:
        argv = [spell(root, op["cwd"], x, op["sp"]) if i in op["paths"] else x for i, x in enumerate(op["cmd"])]
        rep = cli.run(root, argv, cwd=op["cwd"] or None, encoding=op["enc"])
        out = cli.output_of(op["cmd"])
        after = disk.snapshot(root)
        if rep["status"] != 0:
            return {"status": rep["status"]}
        return {"status": 0, "out": rep["out"], "file": after.get(out) if out else None,
                "others": sorted((k, work.sha(v)) for k, v in after.items() if k != out)}
    d = disk.Disk(root, [], encoding=op["enc"])
    old = os.getcwd()
    os.chdir(os.path.join(root, op["cwd"]))
    try:
        with d:
            return work.guarded(lambda: api(root, op))
    finally:
        os.chdir(old)


def api(root: str, op: dict) -> Any:
    from pygerber.gerber.api import GerberFile, GerberJobFile

    def path(name: str) -> str:
        return spell(root, op["cwd"], name, op["sp"])

    def wander() -> None:
        if op["ch"] is not None:
            os.chdir(os.path.join(root, op["ch"]))

    k = op["api"]
    if k == "load":
        f = GerberFile.from_file(path(op["src"]))
        wander()
        r = f.render_with_pillow(dpmm=4)
        return [f.sha256, f.formats(work.options(op["o"])), f.file_type.name, work.pil(r.get_image())]
    if k == "buffer":
        with open(path(op["src"]), encoding="utf-8") as b:
            f = GerberFile.from_buffer(b)
        return [f.sha256, f.formats(work.options(op["o"]))]
    if k == "format":
        f = GerberFile.from_file(path(op["src"]))
        b = io.StringIO()
        f.format(b, work.options(op["o"]))
        return b.getvalue()
    if k in ("save", "svg"):
        f = GerberFile.from_file(path(op["src"]))
        if k == "svg":
            f.render_with_shapely().save(path("out.bin"))
        else:
            f.render_with_pillow(dpmm=4).save_png(path("out.bin"))
        return disk.snapshot(root)["out.bin"]
    if k == "job":
        return proj.dump_job(GerberJobFile.from_file(path("job/board.gbrjob")))
    if k == "project":
        p = GerberJobFile.from_file(path("job/board.gbrjob")).to_project()
        wander()
        res: list = [proj.dump_project(p)]
        vs = proj.views(p)
        res.append(work.guarded(lambda: proj.render_view(vs[op["i"] % len(vs)], 3)))
        return res
    if k == "example":
        from pygerber.examples import ExamplesEnum, load_example

        ex = list(ExamplesEnum)
        return core.h(load_example(ex[op["i"] % len(ex)]))
    raise ValueError(k)


def as_text(files: dict, name: str) -> str:
    """What a text file holds: its bytes are UTF-8, each line end is one newline."""
    data = cli.materialise(files)[name]
    if "as" in files[name]:
        data = foreign(data, files[name]["as"])
    return data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")


def absolute(files: dict, job: dict, op: dict) -> Any:
    """The part of the answer known without reading any file (None: nothing known)."""
    if "as" in job and op.get("api") in ("job", "project"):
        return None
    try:
        return _absolute(files, job, op)
    except UnicodeDecodeError:  # not UTF-8: nothing is promised about what is read
        return None


def _absolute(files: dict, job: dict, op: dict) -> Any:
    import json

    from pygerber.gerber.api import GerberFile
    from pygerber.gerber.formatter import Options

    if "cmd" in op:
        a = op["cmd"]
        if a[1] == "format":
            o = None
            if "-c" in a:
                o = Options(**json.loads(cli.CONFIGS[a[a.index("-c") + 1]]))
            elif "-i" in a:
                o = Options(**json.loads(a[a.index("-i") + 1]))
            return ["file", GerberFile.from_str(as_text(files, a[2])).formats(o).encode("utf-8")]
        if a[1] == "lint":
            from pygerber.gerber.linter import lint
            from pygerber.gerber.parser import parse

            end = a.index("-r") if "-r" in a else len(a)
            rules = a[end + 1].split(",") if "-r" in a else None
            out = []
            for n in a[2:end]:
                for v in lint(parse(as_text(files, n)), rules):
                    out.append(f"<ROOT>/{n}:{v.line}:{v.column} {v.rule_id}: {v.title}\n")
            return ["out", "".join(out).encode("utf-8")]
        return None
    k = op["api"]
    if k in ("load", "buffer", "format"):
        f = GerberFile.from_str(as_text(files, op["src"]))
        t = f.formats(work.options(op["o"]))
        return ["eq", t] if k == "format" else ["head", [f.sha256, t]]
    if k == "project":
        if "gone" in job:
            return None
        return ["shas", sorted(work.sha(gen.numbered(v["n"]).replace("\r\n", "\n").encode("utf-8"))
                               for v in job["files"].values())]
    if k == "job":
        return ["contains", [job["name"], "Śim", "µm Ω", *[x["path"] for x in job["attrs"]]]]
    return None


def known(ctx: core.Ctx, i: int, op: dict, got: Any, plan: dict) -> None:
    exp = ctx.ref("pgsim.p07:absolute", plan["files"], plan["job"],
                  {k: v for k, v in op.items() if k not in ("enc", "cwd", "sp", "ch")})
    if exp is None:
        return
    kind, val = exp
    if kind in ("file", "out"):
        bad = got[kind] != val
    elif kind == "eq":
        bad = got != val
    elif kind == "head":
        bad = got[:2] != val
    elif kind == "shas":
        d = got[0]
        bad = any(f[1] not in val for v in [d["top"], *d["inner"], d["bottom"]] for f in v)
    else:
        bad = any(repr(x) not in repr(got) for x in val)
    if bad:
        raise core.Violation("not-utf8", f"step {i} {op.get('cmd') or op['api']}: text was not handled as UTF-8: "
                             f"{str(got)[:300]} instead of {str(val)[:300]}")
    ctx.probes["text_known_in_advance"] += 1


def execute(plan: dict, ctx: core.Ctx) -> None:
    for i, op in enumerate(plan["ops"]):
        want = ctx.ref("pgsim.p07:reference", plan["files"], plan["job"],
                       {k: v for k, v in op.items() if k not in ("enc", "cwd", "sp", "ch")})
        with disk.Scratch(layout(plan["files"], plan["job"])) as root:
            got = step(root, op)
        ctx.steps += 1
        what = " ".join(op["cmd"]) if "cmd" in op else op["api"]
        ctx.faults["default_encoding_" + op["enc"]] += 1
        ctx.faults["cwd_" + (op["cwd"] or "root")] += 1
        ctx.faults["paths_" + op["sp"]] += 1
        ctx.event(what, op["enc"], op["cwd"], op["sp"], core.h(got))
        ctx.state(op.get("cmd", [op.get("api")] * 3)[1:3], op["enc"], op["cwd"], op["sp"], core.h(got))
        ok = not (isinstance(got, list) and got[:1] == ["err"]) and not (isinstance(got, dict) and got["status"])
        ctx.probes["ok" if ok else "error"] += 1
        if got != want:
            raise core.Violation(
                "environment-dependent", f"step {i} {what} with default encoding {op['enc']}, directory "
                f"{op['cwd'] or '.'!r}, {op['sp']} paths gave {str(got)[:300]}, with UTF-8 and absolute paths "
                f"{str(want)[:300]}")
        if ok:
            known(ctx, i, op, got, plan)
