"""P15: absent or broken optional packages and the order of imports affect only what needs them."""

from __future__ import annotations

import os
import random
import shutil
import sys
import tempfile
from typing import Any, Optional

from pgsim import boot, cli, core, gen, p08, proj, server, work

RUNS = {"quick": 260, "thorough": 8000}
SHRINK = ["first", "ops", "absent"]
REAL = ["pygerber imported anew from its sources in every run, all of it", "Python import system, real site-packages entries",
        "every package that is present"]
STUB = ["site-packages: a directory of links to the packages present in that run; packages absent are not in it",
        "broken package: one whose import raises, or of which only an empty directory is left"]
RULE = ("Seeded sets of absent optional packages, a broken or half-removed shapely, every package that is not a declared "
        "dependency absent, seeded pygerber modules imported first and in seeded order, then seeded observations in "
        "seeded order.")
STATE_MEASURE = "hash of (absent set, broken, first module imported, observation)"
ASSUME = ["reference: same observation in a process with every package, where all modules were imported in one fixed order",
          "packages do not appear or vanish while the process runs",
          "pygls, lsprotocol and pygments are either complete or absent"]
OPTIONAL = ["shapely", "pygls", "lsprotocol", "drawsvg", "pygments"]
EXTRA = ["server", "available", "available", "lexer", "lsp", "project", "import", "svgcli", "vmshapely", "status"]
BROKEN = ["", "", "", "oserror", "importerror", "leftover"]

_pool: Optional["Bare"] = None


# ------------------------------------------------------------------ interpreter without pygerber


class Bare(server.Interpreter):
    COMMAND = "bare"


def serve() -> int:
    """Requests answered by forks which have not imported pygerber yet."""
    import click.testing  # noqa: F401
    import numpy  # noqa: F401
    import PIL.Image
    import pydantic  # noqa: F401
    import pyparsing  # noqa: F401

    PIL.Image.init()
    assert not any(m.split(".")[0] in ("pygerber", *OPTIONAL) for m in sys.modules)
    return server.loop()


def declared() -> set[str]:
    """Distributions pygerber may use: declared dependencies and what they need."""
    import importlib.metadata as md
    import re
    import tomllib

    with open(os.path.join(boot.REPO, "pyproject.toml"), "rb") as f:
        deps = list(tomllib.load(f)["tool"]["poetry"]["dependencies"])
    seen: set[str] = set()
    while deps:
        d = re.sub(r"[-_.]+", "-", deps.pop()).lower()
        if d == "python" or d in seen:
            continue
        try:
            req = md.requires(d) or []
        except md.PackageNotFoundError:
            continue
        seen.add(d)
        deps += [re.split(r"[^A-Za-z0-9_.-]", r)[0] for r in req if "extra" not in r]
    return seen


def entries() -> list[tuple[str, str, str]]:
    """(distribution, name in site-packages, full path) of each declared dependency."""
    import importlib.metadata as md
    import re

    ok = declared()
    out = []
    for dist in md.distributions():
        name = re.sub(r"[-_.]+", "-", dist.metadata["Name"]).lower()
        if name not in ok:
            continue
        tops = {f.parts[0] for f in dist.files or [] if f.parts[0] not in ("..", "__pycache__")}
        for t in sorted(tops):
            full = os.path.join(str(dist.locate_file("")), t)
            if os.path.exists(full):
                out.append((name, t, full))
    return out


def furnish(absent: list[str], broken: str) -> str:
    """Make this process see only packages which are installed in the run; gives the directory."""
    d = tempfile.mkdtemp(prefix="pgsim-site-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    for dist, name, full in entries():
        if dist in absent or (broken and dist == "shapely"):
            continue
        os.symlink(full, os.path.join(d, name))
    if broken and "shapely" not in absent:
        os.mkdir(os.path.join(d, "shapely"))
        if broken != "leftover":
            what = {"oserror": "OSError('libgeos_c.so.1: cannot open shared object file')",
                    "importerror": "ImportError('DLL load failed while importing lib')"}[broken]
            with open(os.path.join(d, "shapely", "__init__.py"), "w", encoding="utf-8") as f:
                f.write(f"raise {what}\n")
        else:
            os.mkdir(os.path.join(d, "shapely", "__pycache__"))
    sys.path[:] = [p for p in sys.path if "site-packages" not in p and "dist-packages" not in p]
    sys.path.insert(0, boot.SRC)
    sys.path.append(d)
    import importlib

    importlib.invalidate_caches()
    return d


def modules() -> list[str]:
    root = os.path.join(boot.SRC, "pygerber")
    out = []
    for base, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        rel = os.path.relpath(base, boot.SRC).replace(os.sep, ".")
        for n in sorted(names):
            if n.endswith(".py") and n != "__main__.py":
                out.append(rel if n == "__init__.py" else f"{rel}.{n[:-3]}")
    return sorted(out)


# ------------------------------------------------------------------ runs


def worker_init(plan: dict) -> None:
    global _pool
    if _pool is None:
        _pool = Bare(0)


def worker_done() -> None:
    global _pool
    if _pool is not None:
        _pool.close()
        _pool = None


def gen_ops(rng: random.Random, n: int) -> list[dict]:
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            out += p08.gen_ops(rng, 1, 0.1)
            continue
        k = rng.choice(EXTRA)
        op: dict = {"k": k, "n": gen.pick(rng, 0.05, 300)}
        if k == "lsp":
            op.update(method=rng.choice(["hover", "completion"]), line=rng.randrange(12), char=rng.randrange(8))
        if k == "project":
            op["job"] = proj.gen_job(rng)
        if k == "import":
            op["m"] = rng.random()
        if k == "svgcli":
            op["k"], op["argv"] = "cli", ["gerber", "convert", "svg", rng.choice(cli.SOURCES), "-o", "out.bin"]
        out.append(op)
    return out


def generate(rng: random.Random, index: int, tier: str) -> dict:
    r = rng.random()
    if r < 0.25:
        absent = list(OPTIONAL)
    elif r < 0.65:
        absent = [rng.choice(OPTIONAL)]
    elif r < 0.9:
        absent = [p for p in OPTIONAL if rng.random() < 0.5]
    else:
        absent = []
    broken = "" if "shapely" in absent else rng.choice(BROKEN)
    return {"absent": absent, "broken": broken, "first": [rng.random() for _ in range(rng.choice([0, 1, 1, 2, 5]))],
            "ops": gen_ops(rng, rng.choice([3, 5, 8]))}


def needs(op: dict) -> set[str]:
    k = op["k"]
    if k in ("shapely", "svg", "vmshapely"):
        return {"shapely"}
    if k == "cli" and op["argv"][1:3] == ["convert", "svg"]:
        return {"shapely"}
    if k in ("server", "lsp", "hover"):
        return {"pygls", "lsprotocol"}
    if k == "lexer":
        return {"pygments"}
    return set()


def observe(op: dict) -> Any:
    return work.guarded(lambda: _observe(op))


def _observe(op: dict) -> Any:
    k = op["k"]
    if k == "server":
        from pygerber.gerber.language_server._server.server import get_server

        return type(get_server()).__name__
    if k == "available":
        with work_dir() as root:
            rep = cli.run(root, ["is-language-server-available"])
        return [rep["status"], core.h(rep["out"])]
    if k == "status":
        from pygerber.gerber.language_server.status import is_language_server_available
        from pygerber.gerber.pygments import is_pygments_available
        from pygerber.vm.shapely.vm import is_shapely_available

        return {"server": is_language_server_available(), "shapely": is_shapely_available(),
                "pygments": is_pygments_available(), "check_only": check_only()}
    if k == "lexer":
        from pygerber.gerber.pygments import GerberLexer

        return core.h([(str(t), v) for t, v in GerberLexer().get_tokens(gen.numbered(op["n"]))])
    if k == "lsp":
        from pgsim import lsp

        return lsp.fresh_answer("file:///a.gbr", gen.numbered(op["n"]), op["method"], op["line"], op["char"])
    if k == "project":
        return project(op["job"])
    if k == "import":
        import importlib

        ms = modules()
        m = importlib.import_module(ms[int(op["m"] * len(ms))])
        return [m.__name__]
    if k == "vmshapely":
        from pygerber.vm import render

        return work.space(render(work.compiled(gen.numbered(op["n"])), backend="shapely"))
    return p08._observe(op)


def check_only() -> bool:
    """Exit status of the language server's own check."""
    from pygerber.gerber.language_server.__main__ import main

    try:
        main(args=["--check-only"], standalone_mode=True)
    except SystemExit as e:
        return e.code in (0, None)
    return True


def work_dir() -> Any:
    from pgsim import disk

    return disk.Scratch({})


def project(job: dict) -> Any:
    from pathlib import Path

    from pgsim import disk
    from pygerber.gerber.api import GerberJobFile

    with disk.Scratch(proj.files_of(job)) as root:
        j = GerberJobFile.from_file(Path(root) / "job" / "board.gbrjob")
        p = j.to_project()
        return [core.h(proj.dump_job(j)), core.h(str(proj.dump_project(p)).replace(str(root), "<ROOT>"))]


def elsewhere(absent: list[str], broken: str, first: list[float], ops: list[dict]) -> Any:
    """Runs in the process with fewer packages."""
    import importlib
    import logging
    import warnings

    from pgsim import seams

    seams.install()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    d = furnish(absent, broken)
    imported = []
    try:
        ms = modules()
        for f in first:
            m = ms[int(f * len(ms))]
            try:
                importlib.import_module(m)
            except Exception as e:  # noqa: BLE001
                return {"import": [m, f"{type(e).__name__}: {e}"], "imported": imported}
            imported.append(m)
        got = [observe(op) for op in ops]
        import pygerber

        assert os.path.realpath(pygerber.__file__).startswith(os.path.realpath(boot.SRC)), pygerber.__file__
        return {"got": got, "imported": imported,
                "loaded": sorted({m.split(".")[0] for m in sys.modules} & set(OPTIONAL))}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def err(x: Any) -> Optional[str]:
    return x[1] if isinstance(x, list) and x[:1] == ["err"] else None


def execute(plan: dict, ctx: core.Ctx) -> None:
    assert _pool is not None
    absent, broken = plan["absent"], plan["broken"]
    if "shapely" in absent:
        broken = ""
    where = f"without {', '.join(absent) or 'nothing'}" + (f", shapely broken ({broken})" if broken else "")
    rep = _pool.call("pgsim.p15:elsewhere", absent, broken, plan["first"], plan["ops"])
    for a in absent:
        ctx.faults["absent_" + a] += 1
    if broken:
        ctx.faults["shapely_" + broken] += 1
    ctx.faults["undeclared_packages_absent"] += 1
    ctx.faults["imported_first"] += len(rep["imported"])
    ctx.event(absent, broken, rep["imported"])
    if "import" in rep:
        m, e = rep["import"]
        raise core.Violation("import-failed", f"{where}: import of {m} after {rep['imported']} failed: {e}")
    for op, g in zip(plan["ops"], rep["got"]):
        ctx.steps += 1
        ctx.event(op["k"], op["n"], core.h(g))
        ctx.state(absent, broken, rep["imported"][:1], op["k"])
        ctx.probes["err" if err(g) else "ok"] += 1
        label = f"{where}, after imports of {rep['imported']}: {op['k']} {op.get('argv', op['n'])}"
        if op["k"] == "status":
            have = not {"pygls", "lsprotocol"} & set(absent)
            exp = {"server": have, "shapely": "shapely" not in absent, "pygments": "pygments" not in absent,
                   "check_only": have}
            if g != exp and not (broken and isinstance(g, dict) and g | {"shapely": True} == exp):
                raise core.Violation("wrong-availability", f"{label} gave {g}, installed: {exp}")
            continue
        if op["k"] == "available":
            want = ctx.ref("pgsim.p15:observe", op)
            have = not {"pygls", "lsprotocol"} & set(absent)
            if (g == want) != have or err(g):
                raise core.Violation("wrong-availability", f"{label} gave {str(g)[:200]}, with everything {want}")
            continue
        want = ctx.ref("pgsim.p15:observe", op)
        lack = needs(op) & (set(absent) | ({"shapely"} if broken else set()))
        if not lack:
            if g != want:
                raise core.Violation("absent-package-matters", f"{label} gave {str(g)[:300]}, with every package "
                                     f"{str(want)[:300]}")
            continue
        ctx.probes["needs_absent_package"] += 1
        if op["k"] == "cli":
            bad = g[0] == 0 or (g[2] != core.h(None))
        elif err(want):
            bad = not err(g)
        elif broken or op["k"] in ("lexer", "hover", "lsp"):
            bad = not err(g) and g != want
        else:
            bad = err(g) != ("ShapelyNotInstalledError" if "shapely" in lack else "LanguageServerNotAvailableError")
        if bad:
            raise core.Violation("absence-not-reported", f"{label} needs {', '.join(sorted(lack))} and gave {str(g)[:300]}")
