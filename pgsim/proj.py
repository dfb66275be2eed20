"""Projects: job files with their Gerber files, and canonical dumps of what was loaded."""

from __future__ import annotations

import json
import random
from typing import Any

from pgsim import gen, work

FUNCTIONS = [
    "Copper,L1,Top", "SolderMask,Top", "Paste,Top", "Legend,Top", "Profile", "Copper,L2,Inr", "Copper,L3,Inr",
    "Copper,L4,Bot", "SolderMask,Bot", "Paste,Bot", "Legend,Bot", "Mask,Top", "Silk,Bot", "Profile,NP",
    "SolderMask,L2", "Glue,Top", "Other,Drawing",
]
NAMES = ["F_Cu.gtl", "F_Mask.gts", "płytka.gbr", "日本 語.gto", "sub/inner.g2", "In3.g3", "B_Cu.gbl", "edge.gm1", "x.xyz"]


def gen_job(rng: random.Random, bad: float = 0.05, pool: int = 120, ascii_only: bool = False) -> dict:
    fs = []
    for fn in rng.sample(FUNCTIONS, rng.choice([2, 3, 4, 6, 8] if rng.random() < 0.96 else [12, 17])):
        names = [n for n in NAMES if not ascii_only or n.isascii()]
        fs.append({"path": rng.choice(names), "fn": fn})
    files = {f["path"]: {"n": gen.pick(rng, bad, pool)} for f in fs}
    return {"attrs": fs, "files": files, "name": rng.choice(["board", "płytka", "基板"]), "esc": rng.random() < 0.3}


def job_bytes(job: dict) -> bytes:
    doc = {
        "Header": {"CreationDate": "2024-01-01T00:00:00", "GenerationSoftware": {
            "Vendor": "pgsim", "Application": "Śim", "Version": "1"}},
        "GeneralSpecs": {"ProjectId": {"Name": job["name"], "GUID": "1", "Revision": "rev"},
                         "Size": {"X": 1.5, "Y": 2.5}, "LayerNumber": 4, "BoardThickness": 1.6, "Finish": "ENIG"},
        "FilesAttributes": [{"Path": a["path"], "FileFunction": a["fn"], "FilePolarity": "Positive"}
                            for a in job["attrs"]],
        "MaterialStackup": [{"Name": "F.Cu", "Type": "Copper", "Thickness": 0.035, "Notes": "µm Ω"}],
    }
    return json.dumps(doc, ensure_ascii=job["esc"], indent=1).encode("utf-8")


def files_of(job: dict, where: str = "job") -> dict[str, bytes]:
    out = {f"{where}/board.gbrjob": job_bytes(job)}
    for k, v in job["files"].items():
        out[f"{where}/{k}"] = gen.numbered(v["n"]).encode("utf-8")
    return out


def dump_job(j: Any) -> Any:
    return work.tree(j)


def dump_project(p: Any) -> Any:
    """Everything loaded: files of each view in order, with their type and whole source."""
    def view(v: Any) -> list:
        return [[f.file_type.name, work.sha(f.source_code.encode("utf-8", "backslashreplace")), len(f.source_code)]
                for f in v.files]

    return {"top": view(p.top), "inner": [view(v) for v in p.inner], "bottom": view(p.bottom)}


def views(p: Any) -> list:
    return [p.top, *p.inner, p.bottom]


def render_view(v: Any, dpmm: int) -> Any:
    r = v.render_with_pillow(dpmm=dpmm)
    return ["view", work.pil(r.get_image()), [work.pil(s.get_image()) for s in r.get_sub_images()],
            [work.space(s) for s in r.get_sub_images()]]
