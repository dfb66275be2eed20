"""Process set-up: fixes what the simulator must own before pygerber is imported.

* interpreter is re-executed with a fixed PYTHONHASHSEED (PGSIM_HASHSEED, default 0)
* `threading.Lock`/`RLock` are replaced by a factory which gives pygerber code (only) a
  lock known to the simulator
* the code under test is imported from /repo/src (the working tree), nothing else
"""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("PGSIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"


def ensure_env() -> None:
    want = os.environ.get("PGSIM_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != want or os.environ.get("PGSIM_BOOT") != "1":
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = want
        env["PGSIM_BOOT"] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONPATH"] = VERIF + os.pathsep + SRC
        env.pop("PYTHONWARNDEFAULTENCODING", None)
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[k] = "1"
        os.execve(PYTHON, [PYTHON, "-m", "pgsim", *sys.argv[1:]], env)


_imported = False


def import_all() -> None:
    """Import the system under test, with simulator seams in place."""
    global _imported
    if _imported:
        return
    _imported = True
    from pgsim import seams

    seams.install()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import importlib
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    for name in [
        "pygerber.gerber.api",
        "pygerber.gerber.api._composite_view",
        "pygerber.gerber.api._project",
        "pygerber.gerber.api._gerber_job_file",
        "pygerber.gerber.parser",
        "pygerber.gerber.parser.pyparsing.parser",
        "pygerber.gerber.compiler",
        "pygerber.gerber.formatter",
        "pygerber.gerber.linter",
        "pygerber.gerber.ast.node_finder",
        "pygerber.builder.gerber",
        "pygerber.builder.rvmc",
        "pygerber.console.commands",
        "pygerber.vm",
        "pygerber.vm.pillow",
        "pygerber.vm.shapely",
        "pygerber.gerber.language_server._server.server",
        "pygerber.gerber.language_server.__main__",
        "PIL.PngImagePlugin",
        "PIL.JpegImagePlugin",
        "PIL.BmpImagePlugin",
        "PIL.TiffImagePlugin",
        "PIL.WebPImagePlugin",
        "shapely",
        "asyncio",
        "click.testing",
    ]:
        try:
            importlib.import_module(name)
        except ModuleNotFoundError as e:
            # only a warm-up list: private modules may move; what is needed fails later
            if not (e.name or "").startswith("pygerber.") or "._" not in name:
                raise
    import PIL.Image
    import pygerber
    import pyparsing as pp

    # pyparsing's class-wide locks: same mutual exclusion, known to the scheduler
    pp.ParserElement.packrat_cache_lock = seams.SimRLock()
    pp.ParserElement.recursion_lock = seams.SimRLock()

    got = os.path.realpath(os.path.dirname(pygerber.__file__))
    want = os.path.realpath(os.path.join(SRC, "pygerber"))
    if got != want:
        raise RuntimeError(f"wrong pygerber imported: {got} (wanted {want})")
    PIL.Image.init()
    if os.environ.get("PGSIM_COV"):
        from pgsim import cov

        cov.install(REPO, os.environ["PGSIM_COV"])
    seams.own_ids()
    import gc

    gc.collect()
    gc.freeze()
