"""P14: composite views render the same regardless of history and faults."""

from __future__ import annotations

import io
import random
from typing import Any

from pgsim import cli, core, disk, gen, inject, proj, work

RUNS = {"quick": 420, "thorough": 20000}
SHRINK = ["ops", "views"]
REAL = ["pygerber CompositeView, Project, GerberFile, GerberJobFile, parser, compiler, Pillow virtual machine, "
        "merge-convert commands", "Pillow, pyparsing"]
STUB = ["exceptions injected at chosen pygerber function calls", "files of merge-convert on the simulated disk"]
RULE = ("Seeded histories of renderings of views and projects sharing member files, of members alone, of colour-map "
        "changes through views and files and of merge-convert commands, with exceptions, memory errors and interrupts at "
        "seeded calls, failing members, and callers drawing on the images they got.")
STATE_MEASURE = "hash of (members of the view, their colour maps, resolution, last two operations, fault)"
ASSUME = ["reference: newly loaded members in a process that renders only that view, once",
          "colour-map setters themselves are not interrupted"]


def generate(rng: random.Random, index: int, tier: str) -> dict:
    nf = rng.choice([2, 3, 4])
    bad = rng.choice([0.0, 0.0, 0.25])
    files = []
    for _ in range(nf):
        s = work.gen_spec(rng, bad, 160)
        if files and rng.random() < 0.15:
            s = {**files[0], "n": gen.twin_of(rng, files[0]["n"])}
        files.append(s)
    views = []
    for _ in range(rng.choice([1, 2, 3])):
        views.append([rng.randrange(nf) for _ in range(rng.choice([1, 2, 2, 3, 4]))])
    if rng.random() < 0.03:
        views.append([])
    if rng.random() < 0.04:  # many members
        views.append([rng.randrange(nf) for _ in range(rng.choice([9, 17, 33]))])
    n = rng.choice([3, 6, 10]) if tier == "quick" else rng.choice([3, 6, 10, 25])
    p_fault = rng.choice([0.0, 0.25, 0.5])
    if rng.random() < 0.03:  # a long life
        n, p_fault = 40, 0.05
    ops: list = []
    for _ in range(n):
        if ops and rng.random() < (0.5 if "fault" in ops[-1] else 0.15):
            # once more, after whatever happened since
            old = rng.choice(ops[-3:]) if "fault" not in ops[-1] else ops[-1]
            ops.append({k: v for k, v in old.items() if k != "fault"})
            continue
        r = rng.random()
        if r < 0.5:
            op: dict = {"op": "view", "v": rng.randrange(len(views)), "dpmm": rng.choice([3, 5, 8]),
                        "p": rng.random() < 0.3}
        elif r < 0.65:
            op = {"op": "member", "f": rng.randrange(nf), **{"call": work.gen_call(rng)}}
        elif r < 0.8:
            op = {"op": "colors", "v": rng.randrange(len(views)), "c": rng.choice([0, 1, 2, 3, 4, 2, 3, 6, 7])}
            if rng.random() < 0.35:
                op = {"op": "fcolors", "f": rng.randrange(nf), "c": rng.choice([0, 1, 2, 3, 4, 2, 3, 6, 7])}
        elif r < 0.88:
            op = {"op": "merge", "fs": [rng.randrange(nf) for _ in range(rng.choice([1, 2, 3]))],
                  "fmt": rng.choice(["png", "jpeg"]), "dpmm": rng.choice([3, 5])}
        else:
            op = {"op": "save", "v": rng.randrange(len(views)), "dpmm": 4,
                  "fmt": rng.choice(["png", "jpeg", "bmp", "tiff", "webp"])}
        if op["op"] in ("view", "member", "save") and rng.random() < p_fault:
            op["fault"] = work.gen_fault(rng, top=3.9)
        elif op["op"] == "view" and rng.random() < 0.3:
            op["scribble"] = rng.randrange(3)
        ops.append(op)
    return {"files": files, "views": views, "ops": ops}


def build(specs: list, cms: list, members: list) -> Any:
    from pygerber.gerber.api import CompositeView

    fs = [work.configured(specs[i], 0, 0, cms[i]) if i in members else None for i in range(len(specs))]
    return CompositeView([fs[i] for i in members])


def ref_view(specs: list, cms: list, members: list, dpmm: int) -> Any:
    return work.guarded(lambda: proj.render_view(build(specs, cms, members), dpmm))


def ref_member(spec: dict, cm: int, dpmm: int) -> Any:
    f = work.configured(spec, 0, 0, cm)
    return work.guarded(lambda: [work.pil((r := f.render_with_pillow(dpmm=dpmm)).get_image()), work.space(r)])


def ref_save(specs: list, cms: list, members: list, dpmm: int, fmt: str) -> Any:
    return work.guarded(lambda: saved(build(specs, cms, members), dpmm, fmt))


def saved(v: Any, dpmm: int, fmt: str) -> Any:
    b = io.BytesIO()
    v.render_with_pillow(dpmm=dpmm).save(b, fmt)
    return ["bytes", work.sha(b.getvalue())]


def merge_names(plan: dict) -> list[str]:
    return [f"m{i}" + (("." + s["name"].split(".")[1]) if s.get("name") else ".gbr") for i, s in enumerate(plan["files"])]


def ref_merge(specs: list, names: list, fs: list, fmt: str, dpmm: int) -> Any:
    """What merge-convert has to write: rendering of newly loaded files, saved."""
    from pathlib import Path

    from pygerber.gerber.api import CompositeView, GerberFile

    with disk.Scratch({names[i]: work.source_of(specs[i]).encode("utf-8") for i in fs}) as root:
        def go() -> Any:
            return saved(CompositeView([GerberFile.from_file(Path(root) / names[i]) for i in fs]), dpmm, fmt)

        return work.guarded(go)


def execute(plan: dict, ctx: core.Ctx) -> None:
    from pygerber.gerber.api import CompositeView

    specs = plan["files"]
    if not plan["views"]:
        return
    files = [work.configured(s, 0, 0, 0) for s in specs]
    cms = [0] * len(files)
    vs = [CompositeView(files[i] for i in m) for m in plan["views"]]
    projects = [work.project_class()(top=v, inner=vs, bottom=vs[-1]) for v in vs]
    prev = ("", "")
    held: list = []  # images the caller still holds
    with inject.CallFaults() as cf:
        for i, op in enumerate(plan["ops"]):
            k = op["op"]
            ctx.steps += 1
            if k == "colors":
                j = op["v"] % len(vs)
                vs[j].set_color_map(work.color_map(op["c"]))
                for m in plan["views"][j]:
                    cms[m] = op["c"]
                ctx.event("colors", j, op["c"])
                prev = (prev[1], k)
                continue
            if k == "fcolors":
                files[op["f"]].set_color_map(work.color_map(op["c"]))
                cms[op["f"]] = op["c"]
                ctx.event("fcolors", op["f"], op["c"])
                prev = (prev[1], k)
                continue
            if k == "merge":
                merge(plan, op, ctx, i)
                continue
            keep: list = []
            if k == "member":
                f = files[op["f"]]
                call = op["call"]

                def fn() -> Any:
                    return work.do_op(f, call)

                want = ctx.ref("pgsim.work:ref_op", specs[op["f"]], 0, 0, cms[op["f"]], call)
                label = f"operation {i}: member {op['f']} alone {call}"
                members: list = [op["f"]]
            else:
                j = op["v"] % len(vs)
                members = plan["views"][j]
                view = projects[j].top if op.get("p") else vs[j]
                if k == "save":

                    def fn() -> Any:
                        return saved(view, op["dpmm"], op["fmt"])

                    want = ctx.ref("pgsim.p14:ref_save", specs, relevant(cms, members), members, op["dpmm"], op["fmt"])
                else:

                    def fn() -> Any:
                        r = view.render_with_pillow(dpmm=op["dpmm"])
                        keep.append(r)
                        return ["view", work.pil(r.get_image()), [work.pil(s.get_image()) for s in r.get_sub_images()],
                                [work.space(s) for s in r.get_sub_images()]]

                    want = ctx.ref("pgsim.p14:ref_view", specs, relevant(cms, members), members, op["dpmm"])
                label = f"operation {i}: view {j} of members {members} {op}"
            if "fault" in op:
                got, raised = work.faulted(cf, op["fault"], fn, ctx, k)
            else:
                got, raised = work.guarded(fn), False
            ctx.event(k, i, core.h(got), raised)
            ctx.state(members, [cms[m] for m in members], op.get("dpmm"), prev, raised and cf.fired)
            prev = (prev[1], k + ("!" if raised else ""))
            if raised:
                continue
            if k == "member" and op["call"]["op"] == "format_sink" and got[0] == "err" and want[0] == "text":
                continue
            if got != want:
                raise core.Violation("history-dependent", f"{label} gave {str(got)[:300]}, newly loaded members give "
                                     f"{str(want)[:300]}")
            ctx.probes["err" if got[0] == "err" else "ok"] += 1
            if k == "view":
                alone = [ctx.ref("pgsim.p14:ref_member", specs[m], cms[m], op["dpmm"]) for m in members]
                if any(a[0] == "err" for a in alone):
                    if got[0] != "err":
                        raise core.Violation("member-lost", f"{label}: a member can not be rendered alone, the view was")
                    ctx.probes["failing_member"] += 1
                elif got[0] != "err":
                    if got[2] != [a[0] for a in alone] or got[3] != [a[1] for a in alone]:
                        raise core.Violation("member-lost", f"{label}: sub-images are not what its members render alone")
                    if op.get("scribble") is not None:
                        ctx.probes["caller_drew_on_result"] += 1
                        r = keep[0]
                        if op["scribble"]:
                            r.get_image().paste((1, 2, 3, 4), (0, 0, 4, 4))
                        else:
                            for s in r.get_sub_images():
                                s.get_image().paste((9, 2, 3, 4), (0, 0, 4, 4))
                    else:
                        held.append((label, keep[0], got))
    for label, img, got in held:
        if work.again(img) != got:
            raise core.Violation("result-changed", f"image obtained by {label} is different at the end")
    ctx.probes["results_held"] += len(held)


def relevant(cms: list, members: list) -> list:
    """Colour maps of other files can not matter; dropping them lets references be shared."""
    return [c if i in members else 0 for i, c in enumerate(cms)]


def merge(plan: dict, op: dict, ctx: core.Ctx, i: int) -> None:
    names = merge_names(plan)
    specs = plan["files"]
    want = ctx.ref("pgsim.p14:ref_merge", specs, names, op["fs"], op["fmt"], op["dpmm"])
    with disk.Scratch({n: work.source_of(s).encode("utf-8") for n, s in zip(names, specs)}) as root:
        argv = ["gerber", "merge-convert", op["fmt"], *[names[x] for x in op["fs"]], "-o", "out", "-d", str(op["dpmm"])]
        rep = cli.run_here(root, argv)
        out = disk.snapshot(root).get("out")
    got = ["err"] if rep["status"] else ["bytes", work.sha(out or b"")]
    ctx.event("merge", i, op["fs"], core.h(got))
    if got[0] != want[0] or (got[0] == "bytes" and got != want):
        raise core.Violation("merge-differs", f"operation {i}: {argv} gave {got} ({rep.get('exc')}), rendering newly loaded "
                             f"files gives {want}")
    ctx.probes["merge_" + got[0]] += 1


_ = gen
