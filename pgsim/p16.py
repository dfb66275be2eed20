"""P16: every call leaves the process as it found it."""

from __future__ import annotations

import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import warnings
from pathlib import Path
from typing import Any, Callable, Optional

from pgsim import cli, core, disk, gen, inject, p08, p10, proj, work

RUNS = {"quick": 650, "thorough": 30000}
SHRINK = ["ops"]
REAL = ["all of pygerber called in one process: loading, parsing, compiling, rendering, formatting, linting, building, "
        "saving, command-line commands", "Python's and the libraries' process-wide settings", "real file descriptors"]
STUB = ["open/read/write/close of scratch files: each is a step which can fail", "text destinations failing at a chosen write",
        "exceptions injected at chosen pygerber function calls"]
RULE = ("Seeded histories of calls in a process whose settings the caller has seeded values for, with injected exceptions, "
        "memory errors, interrupts, failing files and destinations; settings, descriptors, threads, child processes and "
        "files are compared before and after each call, while its result or exception is still held.")
STATE_MEASURE = "hash of (call kind, fault and where it struck, outcome, caller's settings)"
ASSUME = ["an exception raised inside cleanup code (finally, except, __exit__) itself may leave something behind",
          "importing modules, registering Pillow plugins and filling caches are not changes of settings",
          "objects passed by the caller are the caller's to close"]
KINDS = ["observe", "observe", "observe", "big", "save", "save", "load", "load", "job", "cli", "cli", "sink"]


class CallerWarning(UserWarning):
    pass


def gen_settings(rng: random.Random) -> dict:
    return {
        "prec": rng.choice([28, 9, 50]), "rounding": rng.choice([decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN]),
        "traps": rng.random() < 0.3, "recursion": rng.choice([1000, 1500, 3000]), "umask": rng.choice([0o022, 0o077]),
        "warn": [rng.choice(["ignore", "default", "always"] + (["error"] if j in (0, 4) or rng.random() < 0.1 else []))
                 for j in range(5)],
        "log": rng.choice([logging.WARNING, logging.DEBUG, logging.CRITICAL]), "nolog": rng.choice([0, 0, logging.INFO]), "loghandler": rng.random() < 0.5,
        "np": rng.choice(["warn", "ignore"]), "digits": rng.choice([3, 8, 12]), "pixels": rng.choice([None, 89478485, 10**9]),
        "truncated": rng.random() < 0.5, "gc": rng.choice([[700, 10, 10], [50, 5, 5], None]),
        "switch": rng.choice([0.005, 0.001]), "timeout": rng.choice([None, 30.0]), "ints": rng.choice([4300, 0, 20000]),
        "seed": rng.randrange(1000), "handler": rng.random() < 0.5, "hooks": rng.random() < 0.5,
        "loggers": rng.choice([[], ["PIL", "pygerber"], ["PIL.PngImagePlugin", "asyncio", "pygerber.gerber"]]),
        "env": rng.choice([{}, {"COLUMNS": "70"}, {"MKDOCS_MODE": "0"}, {"LC_NUMERIC": "C"}]),
    }


def gen_op(rng: random.Random, p: float) -> dict:
    k = rng.choice(KINDS)
    op: dict = {"k": k}
    if k == "observe":
        op["op"] = next(o for o in iter(lambda: p08.gen_ops(rng, 1, 0.2)[0], None) if o["k"] != "cli")
    elif k == "save":
        op["what"] = p10.gen_what(rng)
        op["f"] = rng.randrange(len(p10.FMTS))
        op["dest"] = rng.choice(["str", "path", "relpath", "file", "buffer"])
    elif k == "load":
        op["s"] = rng.choice(["a.gtl", "b.gts", "missing.gbr", "sub", "bad.gbr"])
        op["then"] = rng.choice([None, "formats", "sha", "pillow"])
    elif k == "job":
        op["job"] = rng.choice(["job/board.gbrjob"] * 6 + ["missing.gbrjob", "cut.gbrjob"])
        op["then"] = rng.choice(["job", "project", "render"])
    elif k == "big":  # images of a million pixels and more
        op["n"] = gen.pick(rng, 0.0, 200) % gen.TWIN
        op["pixels"] = rng.choice([300, 1100] if rng.random() < 0.85 else [2200] if rng.random() < 0.9 else [4500])
        op["view"] = rng.random() < 0.6
    elif k == "cli":
        op["argv"] = cli.gen_command(rng, 0.3)
    else:
        op["n"], op["o"], op["at"] = gen.pick(rng, 0.1, 200), rng.randrange(len(work.FORMAT_OPTS)), rng.randrange(1, 400)
    if rng.random() < p:
        if k in ("load", "job", "cli", "save") and rng.random() < 0.6:
            w = k in ("cli", "save") and rng.random() < 0.6
            kinds = ["open-w", "write", "write", "close-w"] if w else ["open-r", "read", "read", "close-r"]
            op["disk"] = [{"op": rng.choice(kinds), "k": rng.choice([1, 1, 2, 3]),
                           "kind": rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE", "torn"])}]
        else:
            op["fault"] = work.gen_fault(rng)
    return op


def generate(rng: random.Random, index: int, tier: str) -> dict:
    p = rng.choice([0.1, 0.4, 0.7])
    job = proj.gen_job(rng, 0.1, 120)
    return {"set": gen_settings(rng), "job": job, "src": [gen.pick(rng, 0.15, 200) for _ in range(5)],
            "ops": [gen_op(rng, p) for _ in range(rng.choice([2, 4, 6]) if rng.random() < 0.97 else 25)]}


# ------------------------------------------------------------------ caller's settings


class Keep:
    handler: Any = None
    signal_handler: Any = staticmethod(lambda *_: None)
    hook: Any = staticmethod(lambda *_: None)


def establish(s: dict, root: str) -> None:
    """The caller's values of process-wide settings (this process serves one run only)."""
    import numpy as np
    import PIL.Image
    import PIL.ImageFile

    c = decimal.getcontext()
    c.prec, c.rounding = s["prec"], s["rounding"]
    c.traps[decimal.Inexact] = s["traps"]
    sys.setrecursionlimit(s["recursion"])
    os.umask(s["umask"])
    for cat, action in zip(CATEGORIES, s["warn"]):
        warnings.simplefilter(action, cat)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    if s.get("loghandler", True):
        Keep.handler = logging.StreamHandler(io.StringIO())
        logging.getLogger().addHandler(Keep.handler)
    logging.getLogger().setLevel(s["log"])
    logging.disable(s["nolog"])
    for name in s.get("loggers", []):
        logging.getLogger(name).setLevel(s["log"])
    np.seterr(all=s["np"])
    np.set_printoptions(precision=s["digits"])
    np.random.seed(s["seed"])
    random.seed(s["seed"])
    PIL.Image.init()
    PIL.Image.MAX_IMAGE_PIXELS = s["pixels"]
    PIL.ImageFile.LOAD_TRUNCATED_IMAGES = s["truncated"]
    if s["gc"] is None:
        gc.disable()
    else:
        gc.enable()
        gc.set_threshold(*s["gc"])
    sys.setswitchinterval(s["switch"])
    socket.setdefaulttimeout(s["timeout"])
    sys.set_int_max_str_digits(s["ints"])
    if s["handler"]:
        for sig in (signal.SIGUSR1, signal.SIGALRM, signal.SIGTERM, signal.SIGPIPE):
            signal.signal(sig, Keep.signal_handler)
    if s["hooks"]:
        sys.excepthook = threading.excepthook = sys.unraisablehook = Keep.hook
    os.environ.update(s["env"])
    for d in ("tmp", "home"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(root, "tmp")
    os.environ["HOME"] = os.environ["XDG_CACHE_HOME"] = os.environ["XDG_CONFIG_HOME"] = os.path.join(root, "home")
    os.chdir(os.path.join(root, "w"))


CATEGORIES = [UserWarning, DeprecationWarning, RuntimeWarning, ResourceWarning, CallerWarning]


def probe_warnings() -> list:
    out = []
    for cat in CATEGORIES:
        seen: list = []
        old = warnings.showwarning
        warnings.showwarning = lambda *a, **k: seen.append(1)
        try:
            for _ in range(2):
                warnings.warn_explicit("of the caller", cat, "caller.py", 1, "caller", registry={})
            out.append(len(seen))
        except cat:
            out.append("error")
        finally:
            warnings.showwarning = old
    return out


def descriptors() -> dict:
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[fd] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
    return {k: v for k, v in out.items() if not v.endswith("/fd")}


def loggers() -> dict:
    """What named loggers were told (those as Python makes them are left out)."""
    out = {}
    for name, g in sorted(logging.getLogger().manager.loggerDict.items()):
        if isinstance(g, logging.Logger):
            v = [g.level, [id(h) for h in g.handlers], g.propagate, g.disabled, len(g.filters)]
            if v != [0, [], True, False, 0]:
                out[name] = v
    return out


def settings() -> dict:
    import builtins

    import numpy as np
    import PIL.Image
    import PIL.ImageFile
    import pyparsing
    import resource

    c = decimal.getcontext()
    root = logging.getLogger()
    um = os.umask(0)
    os.umask(um)
    return {
        "decimal context": [c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(k.__name__ for k, v in c.traps.items() if v)],
        "recursion limit": sys.getrecursionlimit(), "umask": um, "warning filters": probe_warnings(),
        "warning hook": id(warnings.showwarning),
        "logging": [root.level, sorted(id(h) for h in root.handlers), root.manager.disable, root.disabled, logging.raiseExceptions,
                    len(root.filters), logging.lastResort is None, id(logging.getLogRecordFactory()), id(logging.getLoggerClass()), loggers()],
        "numpy": [sorted(np.geterr().items()), repr(np.geterrcall()), repr(sorted(np.get_printoptions().items(), key=repr))],
        "random state": core.h([repr(random.getstate()), repr([x if isinstance(x, (str, int, float)) else x.tobytes()
                                                               for x in np.random.get_state()])]),
        "Pillow limits": [PIL.Image.MAX_IMAGE_PIXELS, PIL.ImageFile.LOAD_TRUNCATED_IMAGES, PIL.ImageFile.MAXBLOCK],
        "garbage collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)],
        "switch interval": sys.getswitchinterval(), "socket timeout": socket.getdefaulttimeout(),
        "integer digits": sys.get_int_max_str_digits(),
        "signal handlers": [repr(signal.getsignal(x)) for x in sorted(signal.valid_signals())],
        "signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])), "timers": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "hooks": [id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(sys.breakpointhook)],
        "trace functions": [sys.gettrace() is None, sys.getprofile() is None],
        "standard streams": [[id(x), getattr(x, "encoding", None), getattr(x, "errors", None), getattr(x, "closed", None)]
                             for x in (sys.stdin, sys.stdout, sys.stderr)],
        "sys": [list(sys.path), list(sys.argv), sys.dont_write_bytecode, [id(x) for x in sys.meta_path]],
        "builtins": [id(getattr(builtins, n)) for n in ("open", "print", "input", "__import__", "str", "float", "round")],
        "environment": dict(os.environ), "working directory": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL),
        "resource limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                            resource.RLIMIT_CPU, resource.RLIMIT_CORE)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "temporary directory": tempfile.tempdir,
        "pyparsing": [pyparsing.ParserElement.DEFAULT_WHITE_CHARS],
        "threads": sorted(t.name for t in threading.enumerate()), "threads of the system": len(os.listdir("/proc/self/task")),
        "child processes": children(), "open files": descriptors(),
    }


def children() -> list:
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as f:
                out += f.read().split()
        except OSError:
            pass
    return sorted(out)


class Written:
    """Paths outside the scratch directory opened for writing or created."""

    def __init__(self, root: str) -> None:
        self.root, self.on = root, False
        self.paths: list[str] = []
        sys.addaudithook(self.hook)

    def hook(self, event: str, args: tuple) -> None:
        if not self.on:
            return
        if event == "open":
            path, _mode, flags = args
            if isinstance(path, (int, type(None))) or not isinstance(flags, int):
                return
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
        elif event in ("os.mkdir", "os.symlink", "os.link", "os.rename"):
            path = args[0] if event == "os.mkdir" else args[1]
        else:
            return
        p = os.path.abspath(os.fsdecode(path))
        if not p.startswith((self.root + os.sep, "/dev/", "/proc/")):
            self.paths.append(p)


# ------------------------------------------------------------------ calls


def perform(op: dict, root: str, d: disk.Disk, plan: dict, made: list) -> Any:
    """The call itself; what is returned is held by the caller while the process is compared."""
    from pygerber.gerber.api import GerberFile, GerberJobFile

    k = op["k"]
    if k == "observe":
        return p08._observe(op["op"])
    if k == "save":
        x = p10.subject(op["what"])
        with d:
            p10.save(x, op["what"], op, made[0])
        return x
    if k == "load":
        with d:
            f = GerberFile.from_file(op["s"])
        if op["then"]:
            work.do_op(f, {"op": op["then"], "o": 0, "dpmm": 4})
        return f
    if k == "job":
        with d:
            j = GerberJobFile.from_file(op["job"])
            if op["then"] == "job":
                return j
            p = j.to_project()
        if op["then"] == "project":
            return [j, p]
        return [j, p, [v.render_with_pillow(dpmm=3) for v in proj.views(p) if v.files]]
    if k == "big":
        from pygerber.gerber.api import CompositeView

        f = work.make_file({"n": op["n"]})
        space = f.render_with_pillow(dpmm=1).get_image_space()
        dpmm = max(1, int(op["pixels"] / max(space.width_mm, space.height_mm, 0.01)))
        if op["view"]:
            return CompositeView([f]).render_with_pillow(dpmm=dpmm)
        return f.render_with_pillow(dpmm=dpmm)
    if k == "cli":
        from pygerber.console.commands import main

        with d:
            return main(args=list(op["argv"]), prog_name="pygerber", standalone_mode=False)
    f = work.make_file({"n": op["n"]})
    f.format(made[0], work.options(op["o"]))
    return f


def outputs(op: dict) -> set[str]:
    if op["k"] == "cli":
        o = cli.output_of(op["argv"])
        return {os.path.normpath(os.path.join("w", o))} if o else set()
    return {"w/saved.bin"} if op["k"] == "save" else set()


def given(op: dict, root: str) -> list:
    """Objects the caller gives to the call."""
    if op["k"] == "sink":
        return [work.FailingSink(op["at"])]
    if op["k"] != "save":
        return []
    text, dest = p10.is_text(op["what"]), op["dest"]
    path = os.path.join(root, "w", "saved.bin")
    if dest == "buffer":
        return [io.StringIO() if text else io.BytesIO()]
    if text or dest == "file":
        return [disk._real_open(path, "w" if text else "wb", **({"encoding": "utf-8"} if text else {}))]
    return [{"str": path, "path": Path(path), "relpath": "saved.bin"}[dest]]


def layout(plan: dict) -> dict[str, bytes]:
    out: dict[str, bytes] = {"w/a.gtl": b"", "w/bad.gbr": b"G04 \xff*\n", "w/cut.gbrjob": b'{"Header": {'}
    for name, n in zip(cli.SOURCES, plan["src"]):
        out["w/" + name] = gen.numbered(n).encode("utf-8")
    for k, v in cli.CONFIGS.items():
        out["w/" + k] = v.encode("utf-8")
    out.update({"w/" + k: v for k, v in proj.files_of(plan["job"]).items()})
    return out


def differences(a: dict, b: dict) -> list[str]:
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        if isinstance(a[k], dict):
            new = {x: y for x, y in b[k].items() if a[k].get(x) != y}
            gone = {x: y for x, y in a[k].items() if x not in b[k]}
            out.append(f"{k}: now {new}" + (f", no longer {gone}" if gone else ""))
        else:
            out.append(f"{k}: {str(a[k])[:200]} became {str(b[k])[:200]}")
    return out


def execute(plan: dict, ctx: core.Ctx) -> None:
    with disk.Scratch(layout(plan)) as root:
        out, err = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        old = os.getcwd()
        try:
            establish(plan["set"], root)
            run(plan, ctx, root)
        finally:
            sys.stdout, sys.stderr = out, err
            os.chdir(old)


def run(plan: dict, ctx: core.Ctx, root: str) -> None:
    audit = Written(root)
    held: list[Any] = []
    with inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            d = disk.Disk(root, op.get("disk", []))
            made = given(op, root)
            f = op.get("fault")
            n = cf.resolve(f, rehearsal(op, root, plan)) if f else 0
            files = disk.snapshot(root)
            before = settings()
            if f:
                cf.arm(n, f["kind"])
            audit.paths.clear()
            audit.on = True
            exc: Optional[BaseException] = None
            res: Any = None
            try:
                res = perform(op, root, d, plan, made)
            except (Exception, KeyboardInterrupt, SystemExit, inject.InjectedFault) as e:  # noqa: BLE001
                exc = e
            finally:
                cf.disarm()
                audit.on = False
            after = settings()
            fired = cf.fired if f else None
            label = f"call {i} {op} ({'raised ' + type(exc).__name__ if exc else 'returned'})"
            ctx.steps += 1
            ctx.event(i, op["k"], type(exc).__name__, fired, [a[:2] for a in d.fired])
            ctx.state(op["k"], op.get("op", {}).get("k"), fired, [a[:2] for a in d.fired], type(exc).__name__, core.h(plan["set"]))
            for a in d.fired:
                ctx.faults[f"{a[1]}_{a[0]}"] += 1
            if fired:
                ctx.faults[f"{f['kind']}_in_{op['k']}"] += 1
            if op["k"] == "sink" and made[0].failed:
                ctx.faults["destination_error"] += 1
            diff = differences(before, after)
            if diff:
                raise core.Violation("left-behind", f"{label} left the process changed: {'; '.join(diff)[:600]}")
            now = disk.snapshot(root)
            allowed = outputs(op)
            for name in sorted(set(files) | set(now)):
                if name not in allowed and not (name.endswith("/") and any(o.startswith(name) for o in allowed)) \
                        and files.get(name) != now.get(name):
                    what = "created" if name not in files else "removed" if name not in now else "changed"
                    raise core.Violation("file-left", f"{label} {what} {name}")
            extra = [p for p in audit.paths if os.path.lexists(p)]
            if extra:
                raise core.Violation("file-left", f"{label} wrote {extra[:3]}")
            ctx.probes["raised" if exc else "returned"] += 1
            for m in made:
                if hasattr(m, "closed") and not m.closed:
                    m.close()
            held.append((res, exc))
            if len(held) > 3:
                held.pop(0)


def rehearsal(op: dict, root: str, plan: dict) -> Callable[[], Any]:
    """Runs in a fork, before the files are compared."""
    return lambda: perform(op, root, disk.Disk(root, []), plan, given(op, root))
