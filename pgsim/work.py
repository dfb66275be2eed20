"""Operations on pygerber's public API with canonical results, shared by the scenarios."""

from __future__ import annotations

import functools
import hashlib
import io
import math
import random
from pathlib import Path
from typing import Any, Callable, Optional

from pgsim import gen, inject

PARSER_OPTS: list[dict] = [{}, {"strict": False}, {"resilient": True}, {"ast_node_class_overrides": 1},
                           {"ast_node_class_overrides": 2}, {"resilient": True, "ast_node_class_overrides": 3},
                           {"ast_node_class_overrides": 4}]
OVERRIDES = 5
COMPILER_OPTS: list[dict] = [{}, {"ignore_program_stop": True}]
NAMES = ["a.gtl", "b.gts", "c.gbr", "d.gto", "e.xyz", "f.g2", "g.GBP"]
FORMAT_OPTS: list[Optional[dict]] = [
    None,
    {"macro_split_mode": "split_on_parameters", "macro_body_indent": 2, "macro_param_indent": 4},
    {"macro_split_mode": "no_split", "indent_character": "\t", "layer_polarity_indent": 1},
    {"float_decimal_places": 2, "float_trim_trailing_zeros": "enable", "empty_line_before_polarity_switch": "enable"},
    {"remove_g54": "enable", "remove_g55": "enable", "block_aperture_body_indent": 3, "step_and_repeat_body_indent": 1},
    {"keep_non_standalone_codes": "separate_codes", "strip_whitespace": "enable"},
    {"explicit_parenthesis": "enable", "d01_indent": 1, "d02_indent": "  ", "d03_indent": 2, "line_end": "\n"},
]


@functools.lru_cache(maxsize=None)
def overrides(i: int) -> Any:
    """Node classes a user puts in place of pygerber's own (some of them draw and print nothing)."""
    if i == 0:
        return None
    import pygerber.gerber.ast.nodes as nodes

    def sub(name: str, quiet: bool) -> Any:
        base = getattr(nodes, name)
        ns: dict = {"__module__": __name__}
        if quiet:
            ns["visit"] = lambda self, visitor: self
        return type(f"{'Quiet' if quiet else 'Own'}{name}", (base,), ns)

    return {1: {"D03": sub("D03", True)}, 2: {"D03": sub("D03", False)},
            3: {"D03": sub("D03", False), "D01": sub("D01", True), "G04": sub("G04", True)},
            4: {"TF_FileFunction": sub("TF_FileFunction", True)}}[i]


def parser_opts(i: int) -> dict:
    o = dict(PARSER_OPTS[i])
    if "ast_node_class_overrides" in o:
        o["ast_node_class_overrides"] = overrides(o["ast_node_class_overrides"])
    return o


def sha(b: bytes) -> str:
    return hashlib.sha256(b).hexdigest()[:20]


def options(i: int) -> Any:
    from pygerber.gerber.formatter import Options

    o = FORMAT_OPTS[i % len(FORMAT_OPTS)]
    if o is None:
        return None
    known = Options.model_fields
    enums: dict[str, Any] = {}
    for k, v in o.items():
        if k not in known:
            continue
        enums[k] = _coerce(known[k].annotation, v)
    return Options(**enums)


def _coerce(ann: Any, v: Any) -> Any:
    """Options take enum members; accept names independent of their spelling."""
    import enum

    if isinstance(ann, type) and issubclass(ann, enum.Enum):
        want = str(v).replace("_", "").lower()
        for m in ann:
            if m.name.replace("_", "").lower() == want or str(m.value).replace("_", "").lower() == want:
                return m
        return list(ann)[0]
    return v


def style(i: Optional[int]) -> Any:
    if i is None:
        return None
    from pygerber.gerber.api import Color, Style

    cols = ["#ff0000ff", "#00ff0080", "#00000000", "#123456ff"]
    return Style(foreground=Color.from_hex(cols[i % 4]), background=Color.from_hex(cols[(i // 4 + 2) % 4]))


def color_map(i: int) -> Any:
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP

    if i == 0:
        return DEFAULT_ALPHA_COLOR_MAP
    if i == 1:
        return DEFAULT_COLOR_MAP
    m = {k: style((j + i) % 8) for j, k in enumerate(DEFAULT_COLOR_MAP)}
    if i >= 6:  # does not name all types
        m = {k: v for j, (k, v) in enumerate(m.items()) if (j * 7 + i) % 3}
    return m


def source_of(spec: dict) -> str:
    return spec["src"] if "src" in spec else gen.numbered(spec["n"])


def make_file(spec: dict) -> Any:
    from pygerber.gerber.api import FileTypeEnum, GerberFile

    ft = FileTypeEnum[spec.get("type", "INFER")]
    src = source_of(spec)
    if spec.get("name"):
        return GerberFile(src, ft, Path(spec["name"]))
    if spec.get("buffer"):
        return GerberFile.from_buffer(io.StringIO(src), ft)
    return GerberFile.from_str(src, ft)


def gen_spec(rng: random.Random, bad: float = 0.2, pool: int = 220) -> dict:
    s: dict = {"n": gen.pick(rng, bad, pool)}
    if rng.random() < 0.7:
        # few variants of each source, so that references can be shared
        rng = random.Random(f"spec:{s['n']}")
    k = rng.random()
    if k < 0.3:
        s["name"] = rng.choice(NAMES)
    elif k < 0.4:
        s["buffer"] = True
    s["type"] = rng.choice(["INFER", "INFER", "INFER_FROM_ATTRIBUTES", "COPPER", "SILK", "INFER_FROM_EXTENSION"])
    return s


def space(img: Any) -> list:
    s = img.get_image_space()
    return [s.units.value, s.min_x, s.min_y, s.max_x, s.max_y, s.dpmm, s.width_mm, s.height_mm, s.min_x_pixels,
            s.max_y_pixels]


def pil(im: Any) -> list:
    return [im.mode, list(im.size), sha(im.tobytes())]


def svg_bytes(img: Any) -> bytes:
    b = io.BytesIO()
    img.save(b)
    return b.getvalue()


class FailingSink(io.StringIO):
    """Text destination whose k-th write raises."""

    def __init__(self, fail_at: int) -> None:
        super().__init__()
        self.n = 0
        self.fail_at = fail_at
        self.failed = False

    def write(self, s: str) -> int:
        self.n += 1
        if self.n == self.fail_at:
            self.failed = True
            raise OSError(28, "No space left on device")
        return super().write(s)


def again(img: Any) -> Any:
    """Canonical form of an image obtained earlier, as it is now."""
    if hasattr(img, "get_sub_images"):
        return ["view", pil(img.get_image()), [pil(s.get_image()) for s in img.get_sub_images()],
                [space(s) for s in img.get_sub_images()]]
    if hasattr(img, "get_image"):
        return ["pillow", pil(img.get_image()), space(img)]
    return ["shapely", sha(svg_bytes(img)), space(img)]


def do_op(f: Any, op: dict, keep: Optional[list] = None) -> Any:
    """One call on a GerberFile; canonical result (exceptions propagate)."""
    k = op["op"]
    if k == "pillow":
        img = f.render_with_pillow(style=style(op.get("style")), dpmm=op["dpmm"])
        if keep is not None:
            keep.append(img)
        return ["pillow", pil(img.get_image()), space(img)]
    if k == "shapely":
        img = f.render_with_shapely(style=style(op.get("style")))
        if keep is not None:
            keep.append(img)
        return ["shapely", sha(svg_bytes(img)), space(img)]
    if k == "formats":
        return ["text", f.formats(options(op["o"]))]
    if k == "format":
        out = io.StringIO()
        f.format(out, options(op["o"]))
        return ["text", out.getvalue()]
    if k == "format_sink":
        sink = FailingSink(op["k"])
        f.format(sink, options(op["o"]))
        return ["text", sink.getvalue()]
    if k == "sha":
        return ["sha", f.sha256, str(f), f.source_code == f.source_code]
    if k == "save":
        b = io.BytesIO()
        f.render_with_pillow(dpmm=op["dpmm"]).save(b, op["fmt"])
        return ["bytes", sha(b.getvalue())]
    raise ValueError(k)


def guarded(fn: Callable[[], Any]) -> Any:
    """Result or canonical exception of product code."""
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__]


def configured(spec: dict, po: int, co: int, cm: int) -> Any:
    f = make_file(spec)
    if po:
        f.set_parser_options(**parser_opts(po))
    if co:
        f.set_compiler_options(**COMPILER_OPTS[co])
    f.set_color_map(color_map(cm))
    return f


def ref_op(spec: dict, po: int, co: int, cm: int, op: dict) -> Any:
    """Reference: a newly loaded file in a process which did nothing else."""
    f = configured(spec, po, co, cm)
    if op["op"] == "format_sink":
        op = {**op, "op": "format"}
    return guarded(lambda: do_op(f, op))


def gen_call(rng: random.Random) -> dict:
    k = rng.choice(["pillow", "pillow", "pillow", "shapely", "formats", "format", "format_sink", "sha", "save"])
    op: dict = {"op": k}
    if k in ("pillow", "save"):
        op["dpmm"] = rng.choice([4, 7, 10])
    if k in ("pillow", "shapely"):
        op["style"] = rng.choice([None, None, None, 0, 1, 5])
    if k in ("formats", "format", "format_sink"):
        op["o"] = rng.randrange(len(FORMAT_OPTS))
    if k == "format_sink":
        op["k"] = rng.randrange(1, 40)
    if k == "save":
        op["fmt"] = rng.choice(["png", "jpeg", "bmp"])
    return op


def faulted(cf: inject.CallFaults, fault: dict, fn: Callable[[], Any], ctx: Any, label: str) -> tuple[Any, bool]:
    """Run fn with a fault armed: (result, fault reached the caller as an exception)."""
    cf.arm(cf.resolve(fault, fn), fault["kind"])
    try:
        res: Any = fn()
        raised = False
    except inject.InjectedFault:
        res, raised = ["err", "InjectedFault"], True
    except KeyboardInterrupt:
        res, raised = ["err", "KeyboardInterrupt"], True
    except Exception as e:  # noqa: BLE001
        res, raised = ["err", type(e).__name__], True
    finally:
        cf.disarm()
    if cf.fired:
        ctx.faults[f"{fault['kind']}_in_{label}"] += 1
        ctx.event("fired", cf.fired)
        ctx.extra.setdefault("sites", []).append(cf.fired)
        return res, raised
    return res, False


def gen_fault(rng: random.Random, kinds: tuple[str, ...] = ("fault", "memory", "interrupt"), top: float = 3.7,
              site: float = 0.6) -> dict:
    if rng.random() < site:
        return {"site": [round(rng.random(), 4) for _ in range(3)], "kind": rng.choice(kinds)}
    return {"n": int(10 ** (rng.random() * top)), "kind": rng.choice(kinds)}


# ---------------------------------------------------------------- trees and code
def tree(x: Any) -> Any:
    """Canonical dump of a syntax tree or VM code: public fields only, recursively."""
    import enum

    from pydantic import BaseModel

    if isinstance(x, BaseModel):
        if type(x).__name__ == "SourceInfo":
            return ["SI", getattr(x, "location", None), getattr(x, "length", None), sha(x.source.encode("utf-8", "replace"))]
        return [type(x).__name__, *[[k, tree(getattr(x, k))] for k in type(x).model_fields]]
    if isinstance(x, enum.Enum):
        return ["E", type(x).__name__, x.name]
    if isinstance(x, dict):
        return ["D", *[[tree(k), tree(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return ["L", *[tree(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ["S", *sorted(repr(tree(v)) for v in x)]
    if isinstance(x, float):
        return repr(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return ["O", type(x).__name__]


def rule_list(i: int) -> Any:
    from pygerber.gerber.linter import RULE_REGISTRY

    ids = sorted(RULE_REGISTRY)
    if i == 0:
        return None
    k = i % len(ids)
    return [ids[k:] + ids[:k], ids[::-1], ids[k:], ids + ids[:1]][i % 4]


def tree_hash(x: Any) -> str:
    return sha(repr(tree(x)).encode("utf-8", "backslashreplace"))


AST_CONSUMERS = ["compile", "compile_stop", "compile_meta", "format", "format_sink", "lint", "state", "state_stop", "find", "hover",
                 "visit"]
RVMC_CONSUMERS = ["pillow", "shapely", "json", "view"]


def parse_source(src: str, resilient: bool = False, own: int = 0) -> Any:
    from pygerber.gerber.parser import parse

    if own:
        return parse(src, resilient=resilient, ast_node_class_overrides=overrides(own))
    return parse(src, resilient=resilient)


def walk(ast: Any) -> list:
    out = []

    def rec(n: Any) -> None:
        out.append(n)
        for attr in ("open", "nodes", "primitives", "close"):
            v = getattr(n, attr, None)
            if isinstance(v, (list, tuple)):
                for c in v:
                    rec(c)
            elif v is not None and hasattr(v, "visit"):
                rec(v)

    for n in ast.nodes:
        rec(n)
    return out


def consume_ast(ast: Any, op: dict) -> Any:
    k = op["c"]
    if k in ("compile", "compile_stop"):
        from pygerber.gerber.compiler import compile

        rvmc = compile(ast, ignore_program_stop=k == "compile_stop")
        return ["rvmc", tree_hash(rvmc), len(rvmc.commands)]
    if k == "compile_meta":
        from pygerber.gerber.compiler import Compiler

        return ["rvmc", tree_hash(Compiler(include_metadata=True).compile(ast))]
    if k == "format":
        from pygerber.gerber.formatter import formats

        return ["text", formats(ast, options(op.get("o", 0)))]
    if k == "format_sink":
        from pygerber.gerber.formatter import format as fmt

        # the u-part of the way through all writes, the destination fails
        count = FailingSink(-1)
        fmt(ast, count, options(op.get("o", 0)))
        sink = FailingSink(1 + int(op["u"] * count.n))
        try:
            fmt(ast, sink, options(op.get("o", 0)))
        except OSError:
            return ["sink", sink.getvalue()]
        return ["text", sink.getvalue()]
    if k == "lint":
        from pygerber.gerber.linter import lint

        return ["lint", [tree(v) for v in lint(ast, rule_list(op.get("r", 0)))]]
    if k in ("state", "state_stop"):
        from pygerber.gerber.ast import StateTrackingVisitor, get_final_state

        if k == "state":
            return ["state", tree_hash(get_final_state(ast))]
        v = StateTrackingVisitor(ignore_program_stop=True)
        ast.visit(v)
        return ["state", tree_hash(v.state)]
    if k == "find":
        from pygerber.gerber.ast.node_finder import NodeFinder, ZeroBasedPosition

        out = []
        for line, col in op["at"]:
            n = NodeFinder(ast).find_node(ZeroBasedPosition(line=line, column=col).to_one_based())
            out.append([type(n).__name__, tree(getattr(n, "source_info", None))])
        return ["find", out]
    if k == "hover":
        from pygerber.gerber.language_server._server.hover.gerber import GerberHoverCreator

        nodes = walk(ast)
        if not nodes:
            return ["hover", None]
        node = nodes[op["i"] % len(nodes)]
        return ["hover", sha(GerberHoverCreator(ast).create_hover_markdown(node).encode())]
    if k == "visit":
        from pygerber.gerber.ast import AstVisitor

        ast.visit(AstVisitor())
        return ["visit"]
    raise ValueError(k)


def gen_consumer(rng: random.Random) -> dict:
    op: dict = {"c": rng.choice(AST_CONSUMERS)}
    if op["c"] in ("format", "format_sink"):
        op["o"] = rng.randrange(len(FORMAT_OPTS))
    if op["c"] == "format_sink":
        op["u"] = round(rng.random(), 4)
    if op["c"] == "lint":
        op["r"] = rng.choice([0, 0, rng.randrange(8)])
    if op["c"] == "find":
        op["at"] = [[rng.randrange(0, 25), rng.randrange(0, 12)] for _ in range(3)]
    if op["c"] == "hover":
        op["i"] = rng.randrange(60)
    return op


def consume_rvmc(rvmc: Any, op: dict) -> Any:
    from pygerber.vm import render

    k = op["c"]
    if k == "pillow":
        res = render(rvmc, backend="pillow", dpmm=op["dpmm"])
        return ["pillow", pil(res.get_image(style=style(op["style"]))), tree(res.main_box)]
    if k == "shapely":
        res = render(rvmc, backend="shapely")
        b = io.BytesIO()
        res.save_svg(b, style(op["style"]))
        return ["svg", sha(b.getvalue()), tree(res.main_box)]
    if k == "json":
        return ["json", sha(rvmc.to_json().encode())]
    raise ValueError(k)


def gen_rvmc_consumer(rng: random.Random) -> dict:
    k = rng.choice(["pillow", "pillow", "shapely", "json"])
    op: dict = {"c": k}
    if k == "pillow":
        op["dpmm"] = rng.choice([4, 8])
    if k != "json":
        op["style"] = rng.randrange(0, 8)
    return op


def ref_pickled(src: str, resilient: bool) -> Optional[bytes]:
    """Freshly parsed tree of a process that did nothing else, for reuse by other references."""
    import pickle

    try:
        ast = parse_source(src, resilient)
        data = pickle.dumps(ast)
        return data if tree_hash(pickle.loads(data)) == tree_hash(ast) else None
    except Exception:  # noqa: BLE001
        return None


def fresh_tree(src: str, resilient: bool, data: Optional[bytes]) -> Any:
    import pickle

    if data is None:
        return parse_source(src, resilient)
    return pickle.loads(data)


def made_code(seed: int) -> Any:
    """VM code nothing compiled: uneven arcs, open shapes, shared commands, layers in any order."""
    from pygerber.vm.commands import Arc, EndLayer, Line, PasteLayer, Shape, StartLayer
    from pygerber.vm.rvmc import RVMC
    from pygerber.vm.types import Box, LayerID, Vector

    rng = random.Random(f"code:{seed}")

    def v(r: float = 4.0) -> Any:
        return Vector(x=round(rng.uniform(-r, r), 3), y=round(rng.uniform(-r, r), 3))

    def arc(start: Any, center: Any) -> Any:
        rel = start - center
        a, k = rng.uniform(0.2, 6.0), rng.choice([1.0, 1.0, 1.0005, 1.01, 0.8, 1.3])
        end = center + Vector(x=(rel.x * math.cos(a) - rel.y * math.sin(a)) * k, y=(rel.x * math.sin(a) + rel.y * math.cos(a)) * k)
        return Arc(start=start, end=end, center=center, clockwise=rng.random() < 0.5)

    def shape() -> Any:
        at = first = v()
        segs: list = []
        for _ in range(rng.randrange(1, 5)):
            segs.append(arc(at, v()) if rng.random() < 0.5 else Line(start=at, end=v()))
            at = segs[-1].end
        if rng.random() < 0.8:
            segs.append(Line(start=at, end=first))
        return Shape(commands=segs, is_negative=rng.random() < 0.25,
                     **({"metadata": {"a": "b"}} if rng.random() < 0.2 else {}))

    box = Box(min_x=-6.0, min_y=-6.0, max_x=6.0, max_y=6.0)
    cmds: list = []
    layers: list = []
    for i in range(rng.randrange(0, 3)):
        layers.append(LayerID(id=f"l{i}"))
        cmds.append(StartLayer(id=layers[-1], box=box if rng.random() < 0.3 else None, origin=v(1.0)))
        cmds += [shape() for _ in range(rng.randrange(0 if rng.random() < 0.1 else 1, 3))]
        cmds.append(EndLayer())
    cmds.append(StartLayer(id=LayerID(id="%main%"), box=box if rng.random() < 0.3 else None, origin=v(1.0)))
    seen: list = []
    for _ in range(rng.randrange(1, 6)):
        if layers and rng.random() < 0.4:
            seen.append(PasteLayer(source_layer_id=rng.choice(layers), center=v(), is_negative=rng.random() < 0.2))
        elif seen and rng.random() < 0.2:
            seen.append(rng.choice(seen))
        else:
            seen.append(shape())
    return RVMC(commands=[*cmds, *seen, EndLayer()])


def compiled(src: str, resilient: bool = False, stop: bool = False, meta: bool = False,
             data: Optional[bytes] = None) -> Any:
    from pygerber.gerber.compiler import Compiler

    if src.startswith("@code:"):
        return made_code(int(src[6:]))
    return Compiler(ignore_program_stop=stop, include_metadata=meta).compile(fresh_tree(src, resilient, data))


def ref_consume_ast(src: str, resilient: bool, op: dict, data: Optional[bytes] = None) -> Any:
    return guarded(lambda: consume_ast(fresh_tree(src, resilient, data), op))


def ref_consume_rvmc(src: str, resilient: bool, stop: bool, op: dict, data: Optional[bytes] = None) -> Any:
    return guarded(lambda: consume_rvmc(compiled(src, resilient, stop, data=data), op))


ref_consume_ast.needs = ref_consume_rvmc.needs = ("pgsim.work:ref_pickled", 2)  # type: ignore[attr-defined]


def ref_tree(src: str, resilient: bool) -> Any:
    return guarded(lambda: tree_hash(parse_source(src, resilient)))


def ref_rvmc_tree(src: str, resilient: bool, stop: bool) -> Any:
    return guarded(lambda: tree_hash(compiled(src, resilient, stop)))


def project_class() -> Any:
    import pygerber.gerber.api as api

    if hasattr(api, "Project"):
        return api.Project
    import importlib

    return importlib.import_module("pygerber.gerber.api._project").Project
