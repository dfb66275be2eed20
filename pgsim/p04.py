"""P04: concurrent use from threads equals use one at a time."""

from __future__ import annotations

import copy
import os
import random
import shutil
import tempfile
from typing import Any, Iterator, Optional

from pgsim import core, gen, inject, p12, work

RUNS = {"quick": 360, "thorough": 20000}
SHRINK = ["switch"]
REAL = ["pygerber API, parser, compiler, virtual machines, formatter, linter, builders in real Python threads",
        "Pillow, shapely, pyparsing (run without a switch point inside)"]
STUB = ["thread scheduling: one thread runs at a time, handed over at seeded pygerber lines or bytecodes",
        "locks of pygerber and pyparsing are known to the scheduler"]
RULE = ("Seeded interleavings of 2-4 threads, each doing library operations on its own objects or reading shared "
        "ones. Half of the runs switch at random, with a mean distance of 3 to 3000 pygerber lines or bytecodes; the "
        "others stop one thread in a pygerber function chosen evenly among those it executes, run another one (to its "
        "end or into the same function) and continue the first.")
STATE_MEASURE = "hash of (kinds of jobs of the two threads at a switch, pygerber function switched out of)"
ASSUME = ["threads are switched only between pygerber lines or bytecodes, not inside pyparsing, Pillow or shapely",
          "sharing means reading: no thread sets options of an object another thread uses"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    nt = rng.choice([2, 2, 2, 3, 3, 4]) if rng.random() < 0.95 else rng.choice([6, 9])
    nshared = rng.choice([1, 1, 1, 2])
    shared = []
    for _ in range(nshared):
        k = rng.choice(["file", "file", "file", "view", "ast", "ast", "rvmc", "project"])
        if k in ("ast", "rvmc"):
            shared.append({"k": k, "n": gen.pick(rng, 0.1) % gen.TWIN})
        elif k == "file":
            shared.append({"k": k, "spec": small_spec(rng, 0.12), "po": rng.choice([0, 0, 0, 1, 2]),
                           "co": rng.choice([0, 0, 1]), "cm": rng.randrange(3)})
        else:
            shared.append({"k": k, "specs": [small_spec(rng, 0.04) for _ in range(rng.choice([1, 2, 3]))],
                           "dup": rng.random() < 0.3})
    p_shared = rng.choice([0.0, 0.7, 1.0])
    same = rng.random() < 0.4
    jobs = []
    for t in range(nt):
        if same and t:
            j = copy.deepcopy(jobs[0])
            if rng.random() < 0.5:
                # the same work on sources nearly the same
                for x in j:
                    where = x.get("spec", x)
                    if "n" in where:
                        where["n"] = gen.twin_of(rng, where["n"])
        else:
            j = [gen_task(rng, shared, p_shared) for _ in range(rng.choice([1, 1, 2, 3]))]
        jobs.append(j)
    plan = {"shared": shared, "jobs": jobs, "seed": rng.randrange(1 << 30),
            "period": rng.choice([3, 30, 30, 300, 300, 3000]),
            "gran": rng.choice(["line", "line", "instruction"])}
    if rng.random() < 0.5:
        plan["site"] = [rng.random() for _ in range(5)]
    return plan


def small_spec(rng: random.Random, bad: float) -> dict:
    s = work.gen_spec(rng, bad)
    return {**s, "n": s["n"] % gen.TWIN}


def gen_task(rng: random.Random, shared: list, p_shared: float) -> dict:
    if rng.random() < p_shared:
        s = rng.randrange(len(shared))
        k = shared[s]["k"]
        if k == "file":
            op = work.gen_call(rng)
            if op["op"] == "format_sink":
                op["op"] = "formats"
            return {"on": "sfile", "s": s, "op": op}
        if k == "ast":
            return {"on": "sast", "s": s, "op": work.gen_consumer(rng)}
        if k == "rvmc":
            return {"on": "srvmc", "s": s, "op": work.gen_rvmc_consumer(rng)}
        if k == "view":
            return {"on": "sview", "s": s, "dpmm": rng.choice([4, 8])}
        return {"on": "sproject", "s": s, "dpmm": rng.choice([4, 8]), "side": rng.choice(["top", "bottom", "inner"])}
    k = rng.choice(["file", "file", "ast", "build", "rbuild", "lint", "resilient"])
    if k == "file":
        op = work.gen_call(rng)
        if op["op"] == "format_sink":
            op["op"] = "formats"
        return {"on": "file", "spec": small_spec(rng, 0.12), "op": op, "disk": rng.random() < 0.3}
    if k == "ast":
        return {"on": "ast", "n": gen.pick(rng, 0.1) % gen.TWIN, "res": False, "op": work.gen_consumer(rng)}
    if k == "lint":
        return {"on": "ast", "n": gen.pick(rng, 0.1) % gen.TWIN, "res": False, "op": {"c": "lint"}}
    if k == "resilient":
        return {"on": "ast", "n": rng.randrange(220), "res": True, "op": work.gen_consumer(rng)}
    if k == "build":
        return {"on": "build", "ops": p12.gen_gerber(rng, rng.choice([4, 10]), rng.choice([0.0, 0.2]))}
    return {"on": "rbuild", "ops": [p12.gen_shape(rng, 0.1) for _ in range(rng.choice([3, 8]))]}


def make_shared(s: dict) -> Any:
    from pygerber.gerber.api import CompositeView

    Project = work.project_class()

    if s["k"] == "file":
        return work.configured(s["spec"], s["po"], s["co"], s["cm"])
    if s["k"] == "ast":
        return _try(lambda: work.parse_source(gen.numbered(s["n"])))
    if s["k"] == "rvmc":
        return _try(lambda: work.compiled(gen.numbered(s["n"])))
    files = [work.make_file(sp) for sp in s["specs"]]
    if s["dup"]:
        files.append(files[0])
    if s["k"] == "view":
        return CompositeView(files)
    return Project(top=CompositeView(files), inner=[CompositeView(files[:1])], bottom=CompositeView(files[::-1]))


def _try(fn: Any) -> Any:
    try:
        return fn()
    except Exception:  # noqa: BLE001
        return None


def composite(img: Any) -> list:
    return ["composite", work.pil(img.get_image()), [[work.pil(i.get_image()), work.space(i)] for i in img.get_sub_images()]]


def task(t: dict, shared: list, scratch: Optional[str]) -> Any:
    on = t["on"]
    if on == "sfile":
        return work.do_op(shared[t["s"]], t["op"])
    if on == "sast":
        if shared[t["s"]] is None:
            return None
        return work.consume_ast(shared[t["s"]], t["op"])
    if on == "srvmc":
        if shared[t["s"]] is None:
            return None
        return work.consume_rvmc(shared[t["s"]], t["op"])
    if on == "sview":
        return composite(shared[t["s"]].render_with_pillow(dpmm=t["dpmm"]))
    if on == "sproject":
        p = shared[t["s"]]
        v = {"top": p.top, "bottom": p.bottom, "inner": p.inner[0]}[t["side"]]
        return composite(v.render_with_pillow(dpmm=t["dpmm"]))
    if on == "file":
        if t.get("disk") and scratch:
            from pygerber.gerber.api import FileTypeEnum, GerberFile

            f = GerberFile.from_file(os.path.join(scratch, disk_name(t["spec"])), FileTypeEnum[t["spec"]["type"]])
        else:
            f = work.make_file(t["spec"])
        return work.do_op(f, t["op"])
    if on == "ast":
        return work.consume_ast(work.parse_source(gen.numbered(t["n"]), t["res"]), t["op"])
    if on == "build":
        return p12.build_text(t["ops"])
    if on == "rbuild":
        from pygerber.builder.rvmc import RvmcBuilder

        b = RvmcBuilder()
        with b.layer() as layer:
            with layer.layer("sub") as sub:
                for op in t["ops"]:
                    a = [tuple(v) if isinstance(v, list) else v for v in op["a"]]
                    work.guarded(lambda: getattr(sub, op["k"])(*a, is_negative=op["neg"]))  # noqa: B023
            layer.paste(sub, (0, 0), is_negative=False)
        return ["rvmc", work.tree_hash(b.get_rvmc())]
    raise ValueError(on)


def disk_name(spec: dict) -> str:
    return f"{spec['n']}-{spec.get('name') or 'x.gbr'}"


def alone(shared: list, job: list) -> Any:
    """Reference: this thread's operations with nothing else running."""
    with Scratch(job) as d:
        objs = [make_shared(s) for s in shared]
        return [work.guarded(lambda: task(t, objs, d)) for t in job]  # noqa: B023


def survey(shared: list, job: list, gran: str) -> dict:
    """At which steps each pygerber function runs when this thread runs alone (a few steps of each)."""
    sch = inject.Scheduler(switch={}, granularity=gran)
    sch.sites = {}
    with Scratch(job) as d:
        objs = [make_shared(s) for s in shared]
        sch.run([lambda: [work.guarded(lambda: task(t, objs, d)) for t in job]])  # noqa: B023
    out = {}
    for name, at in sch.sites.items():
        keep = {at[0], at[-1], at[len(at) // 2], *at[:4]}
        rng = random.Random(len(at))
        out[name] = sorted(keep | {rng.choice(at) for _ in range(8)})
    return out


def placed(plan: dict, ctx: core.Ctx) -> dict[int, int]:
    """Switches: the first thread is stopped in a chosen function, the second runs, the first continues."""
    u, v, u2, v2, how = plan["site"]
    a = ctx.ref("pgsim.p04:survey", plan["shared"], plan["jobs"][0], plan["gran"])
    if not a:
        return {0: 0}
    name = sorted(a)[int(u * len(a))]
    at = a[name][int(v * len(a[name]))]
    out = {0: 0, at: 1}
    if how < 0.6:
        b = ctx.ref("pgsim.p04:survey", plan["shared"], plan["jobs"][1], plan["gran"])
        if b:
            other = name if name in b and how < 0.45 else sorted(b)[int(u2 * len(b))]
            out[at + b[other][int(v2 * len(b[other]))]] = 0
    ctx.probes["placed_switch"] += 1
    return out


class Scratch:
    def __init__(self, tasks: list) -> None:
        self.specs = [t["spec"] for t in tasks if t.get("disk")]
        self.d: Optional[str] = None

    def __enter__(self) -> Optional[str]:
        if self.specs:
            self.d = tempfile.mkdtemp(prefix="pgsim-")
            for s in self.specs:
                with open(os.path.join(self.d, disk_name(s)), "w", encoding="utf-8", newline="") as f:
                    f.write(work.source_of(s))
        return self.d

    def __exit__(self, *_: object) -> None:
        if self.d:
            shutil.rmtree(self.d, ignore_errors=True)


def execute(plan: dict, ctx: core.Ctx) -> None:
    want = [ctx.ref("pgsim.p04:alone", plan["shared"], j) for j in plan["jobs"]]
    with Scratch([t for j in plan["jobs"] for t in j]) as d:
        objs = [make_shared(s) for s in plan["shared"]]
        if plan.get("switch") is not None:
            sch = inject.Scheduler(switch={a: b for a, b in plan["switch"]}, granularity=plan["gran"])
        elif plan.get("site") and len(plan["jobs"]) > 1:
            sch = inject.Scheduler(switch=placed(plan, ctx), granularity=plan["gran"])
        else:
            sch = inject.Scheduler(rng=random.Random(plan["seed"]), period=plan["period"], granularity=plan["gran"])
        kinds = ["+".join(t["on"] for t in j) for j in plan["jobs"]]
        sch.observe = lambda a, b, fn: ctx.state(kinds[a], kinds[b], fn)

        def body(j: list) -> Any:
            return [work.guarded(lambda: task(t, objs, d)) for t in j]  # noqa: B023

        results = sch.run([lambda j=j: body(j) for j in plan["jobs"]])
    ctx.steps += sch.step
    ctx.faults["thread_switch"] += sch.switches
    ctx.faults["lock_wait"] += sch.lock_waits
    ctx.extra["trace"] = sch.trace
    ctx.event("trace", core.h(sch.trace), sch.step)
    if sch.deadlock:
        raise core.Violation("deadlock", "threads wait for each other forever")
    if sch.hung:
        raise core.Violation("hang", "threads stopped making progress")
    for i, (r, w) in enumerate(zip(results, want)):
        ctx.event("result", i, core.h(r))
        if r[0] != "ok":
            raise core.Violation("thread-died", f"thread {i} ended with {r[1]!r}")
        for k, (a, b) in enumerate(zip(r[1], w)):
            ctx.probes["err_result" if a and a[0] == "err" else "ok_result"] += 1
            if a != b:
                raise core.Violation("interleaving-dependent",
                                     f"thread {i} operation {k} {str(plan['jobs'][i][k])[:300]} gave {str(a)[:300]}, "
                                     f"alone it gives {str(b)[:300]}")


def explicit(plan: dict, out: dict) -> Optional[dict]:
    tr = out.get("extra", {}).get("trace")
    if not tr or plan.get("switch") is not None:
        return None
    p = copy.deepcopy(plan)
    p["switch"] = [list(x) for x in tr]
    return p


def simplify(plan: dict) -> Iterator[dict]:
    for i, j in enumerate(plan["jobs"]):
        if not j:
            continue
        p = copy.deepcopy(plan)
        p["jobs"][i] = []
        yield p
        for k in range(len(j)):
            p = copy.deepcopy(plan)
            del p["jobs"][i][k]
            yield p
