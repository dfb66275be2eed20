"""Development aid (PGSIM_COV=<directory>): which lines of pygerber a check reaches.

Off unless the variable is set; used to find parts of the code the workloads never
enter (`python -m pgsim.cov report <directory>`)."""

from __future__ import annotations

import os
import sys

TOOL = 2


def install(root: str, out: str) -> None:
    mon = sys.monitoring
    prefix = os.path.realpath(os.path.join(root, "src", "pygerber")) + os.sep
    fds: dict[int, int] = {}
    seen: set = set()
    real_open, real_write, getpid = os.open, os.write, os.getpid

    def line(code, n):  # type: ignore[no-untyped-def]
        if code.co_filename.startswith(prefix):
            k = (code.co_filename, n)
            if k not in seen:
                seen.add(k)
                pid = getpid()
                if pid not in fds:
                    fds.clear()
                    fds[pid] = real_open(os.path.join(out, str(pid)), os.O_CREAT | os.O_APPEND | os.O_WRONLY)
                real_write(fds[pid], f"{code.co_filename[len(prefix):]}:{n}\n".encode())
        return mon.DISABLE

    os.makedirs(out, exist_ok=True)
    mon.use_tool_id(TOOL, "pgsim-cov")
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)


def report(out: str, root: str, only: str = "") -> None:
    hit: dict[str, set] = {}
    for f in os.listdir(out):
        for ln in open(os.path.join(out, f)):
            p, n = ln.rsplit(":", 1)
            hit.setdefault(p, set()).add(int(n))
    base = os.path.join(root, "src", "pygerber")
    for p in sorted(hit):
        if only and only not in p:
            continue
        src = open(os.path.join(base, p)).read()
        want: set = set()

        def walk(co, top):  # type: ignore[no-untyped-def]
            if not top:
                want.update(n for _, _, n in co.co_lines() if n and n != co.co_firstlineno)
            for c in co.co_consts:
                if hasattr(c, "co_code"):
                    walk(c, not c.co_flags & 1)  # bodies of functions only

        walk(compile(src, p, "exec"), True)
        lines = src.splitlines()
        miss = sorted(n for n in want - hit[p] if not lines[n - 1].strip().startswith(('"""', "class ", "def ", "@")))
        if miss:
            print(f"== {p} hit {len(want & hit[p])}/{len(want)}")
            for n in miss:
                print(f"   {n}: {lines[n - 1].strip()[:110]}")


if __name__ == "__main__":
    report(sys.argv[2], os.environ.get("PGSIM_REPO", "/repo"), *(sys.argv[3:4]))
