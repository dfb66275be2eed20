"""P12: builder output draws exactly the calls that succeeded."""

from __future__ import annotations

import random
import re
from typing import Any, Iterator, Optional

from pgsim import core, work

RUNS = {"quick": 18000, "thorough": 400000}
SHRINK = ["ops"]
REAL = ["GerberX3Builder, PadCreator, CustomPadCreator, RegionCreator, GerberCode, Formatter",
        "RvmcBuilder and LayerBuilder, Shape constructors"]
STUB = ["arguments which raise when they are read for the k-th time", "text destinations failing at a chosen write"]
RULE = ("Seeded histories of builder calls with failing calls mixed in (wrong pads, unrepresentable or malformed "
        "coordinates, arguments raising while being read, too short outlines, abandoned nested layers); code is "
        "obtained at seeded moments and interpreted by an independent interpreter of the emitted text.")
STATE_MEASURE = "hash of (call kind, whether it failed, kinds and outcomes of the two calls before it)"
ASSUME = ["apertures and macros that no drawn object uses are not part of what is drawn"]


class Evil(tuple):
    """Location which raises when read for the k-th time."""

    k = 0

    def __getitem__(self, i: Any) -> Any:
        self.k -= 1
        if self.k == 0:
            raise ArgFault("argument failed while being read")
        return tuple.__getitem__(self, i)


class ArgFault(RuntimeError):
    pass


# ------------------------------------------------------------------ generation
BAD_LOC: list[Any] = [[10000.0, 0], [0, -12345.5], ["a", 0], [1], [1, 2, 3], None, [0, "nan"], ["inf", 1]]
BAD_NUM: list[Any] = ["x", None, [1], "nan?"]


def loc(rng: random.Random) -> list:
    k = rng.random()
    if k < 0.7:
        return [rng.randrange(-40, 40) * 0.25, rng.randrange(-40, 40) * 0.25]
    if k < 0.85:
        return [0.0, 0.0] if rng.random() < 0.5 else [rng.randrange(3), rng.randrange(3)]
    if k < 0.93:
        # nearly the same place as others
        return [rng.randrange(-2, 3) * 0.25 + rng.choice([0, 3e-6, 4e-4]), rng.randrange(-2, 3) * 0.25 + rng.choice([0, -3e-6])]
    return [round(rng.uniform(-90, 90), 7), round(rng.uniform(-900, 900), 4)]


def arg_loc(rng: random.Random, bad: float, refs: bool = False) -> dict:
    k = rng.random()
    if k < bad:
        if rng.random() < 0.4:
            return {"evil": rng.randrange(1, 6), "v": loc(rng)}
        return {"bad": rng.choice(BAD_LOC)}
    if refs and rng.random() < 0.45:
        return {"ref": rng.randrange(12)}
    return {"v": loc(rng)}


def dia(rng: random.Random) -> float:
    v = rng.choice([0.1, 0.25, 0.5, 1, 1.0, 2.5, 3.125])
    # nearly the size of another one
    return round(v + rng.choice([1e-5, 1e-4, 4e-4, -4e-3]), 6) if rng.random() < 0.15 else v


def gen_gerber(rng: random.Random, n: int, bad: float) -> list:
    ops: list = [{"op": "newpad", "k": "circle", "a": [1.5]}]
    for _ in range(n):
        k = rng.choice(["newpad", "pad", "pad", "pad", "cut", "cut", "line", "line", "line", "cw", "ccw", "region",
                        "attr", "code"])
        op: dict = {"op": k}
        if k == "newpad":
            kk = rng.choice(["circle", "rectangle", "rounded_rectangle", "regular_polygon", "custom", "custom"])
            op["k"] = kk
            if kk == "custom":
                op["prims"] = [gen_prim(rng, bad) for _ in range(rng.randrange(1, 4))]
                op["again"] = rng.random() < 0.15
            else:
                nargs = {"circle": 1, "rectangle": 2, "rounded_rectangle": 2, "regular_polygon": 3}[kk]
                a: list = [dia(rng) for _ in range(nargs)]
                if kk == "regular_polygon":
                    a = [dia(rng), rng.randrange(3, 9), float(rng.randrange(0, 90))]
                if rng.random() < 0.3:
                    a.append(0.05)
                if rng.random() < bad:
                    a[rng.randrange(len(a))] = rng.choice(["x", "?"])
                op["a"] = a
        elif k in ("pad", "cut"):
            op["p"] = rng.choice(["creator", "custom", "none"]) if rng.random() < bad * 0.5 else rng.randrange(8)
            op["at"] = arg_loc(rng, bad, True)
            kw: dict = {}
            if rng.random() < 0.35:
                kw["rotation"] = rng.choice([0.0, 30.0, 45, 90, -15.5, 30.25, 30.004, 360.0, 0.25])
            if rng.random() < 0.3:
                kw["mirror_x"] = rng.random() < 0.6
            if rng.random() < 0.3:
                kw["mirror_y"] = rng.random() < 0.6
            if rng.random() < 0.3:
                kw["scale"] = rng.choice([1.0, 2.0, 0.5, 1.25, 1.0004, 1.254])
            if rng.random() < bad * 0.5:
                kw[rng.choice(["rotation", "scale"])] = "x"
            op["kw"] = kw
        elif k in ("line", "cw", "ccw"):
            op["w"] = rng.choice(["x", None]) if rng.random() < bad * 0.4 else dia(rng)
            op["b"] = arg_loc(rng, bad, True)
            op["e"] = arg_loc(rng, bad, True)
            if k != "line":
                op["c"] = arg_loc(rng, bad)
        elif k == "region":
            op["b"] = arg_loc(rng, bad * 0.5)
            m = rng.choice([1, 2, 3, 3, 4, 5])
            op["segs"] = [{"k": rng.choice(["line", "line", "cw", "ccw"]), "to": arg_loc(rng, bad * 0.5),
                           "c": arg_loc(rng, bad * 0.3)} for _ in range(m)]
            op["early"] = rng.random() < 0.2
            op["closed"] = rng.random() < 0.3
        elif k == "attr":
            op["p"] = rng.randrange(8)
            op["a"] = rng.choice([["fun", "ViaDrill"], ["fun", "Profile"], ["fun", "NoSuchFunction"],
                                  ["tol", 0.5, 0.25], ["tol", "x", 0.25], ["user", "myAttr", "v1", "v2"],
                                  ["user", "other", "z"]])
        elif k == "code":
            op["use"] = rng.choice(["", "", "compile", "lint", "sink"])
            op["n"] = rng.randrange(1, 30)
        ops.append(op)
    return ops


def gen_prim(rng: random.Random, bad: float) -> dict:
    k = rng.choice(["circle", "circle", "vector_line", "center_line", "outline", "polygon", "thermal"])
    p: dict = {"k": k, "add": rng.random() < 0.7, "rot": rng.choice([0.0, 0.0, 30.0])}
    p["c"] = arg_loc(rng, bad * 0.5)
    p["d"] = arg_loc(rng, bad * 0.5)
    p["w"] = dia(rng)
    p["h"] = dia(rng)
    p["pts"] = [[round(v, 4) for v in loc(rng)] for _ in range(rng.choice([2, 3, 4]))]
    return p


SHAPES = ["circle", "rectangle", "obround", "polygon", "line", "cross", "x"]


def gen_rvmc(rng: random.Random, n: int, bad: float) -> list:
    ops: list = []
    depth = 0
    nid = 0
    for _ in range(n):
        k = rng.choice(["shape", "shape", "shape", "shape", "open", "close", "close", "abandon", "paste", "old"])
        op: dict = {"op": k}
        if k == "shape":
            op.update(gen_shape(rng, bad))
            op["up"] = rng.random() < 0.2
        elif k == "open":
            nid += 1
            op["id"] = f"L{nid}"
            op["origin"] = rng.choice([None, None, [1, 2], ["x", 0] if rng.random() < bad else [0, 0]])
            op["busy"] = rng.random() < 0.15
            if rng.random() < 0.25:
                op["box"] = [-30, -30, 30, 30]
            depth += 1
        elif k == "paste":
            op["l"] = rng.randrange(6)
            op["at"] = rng.choice([[0, 0], [1.5, -2], ["a", 0]]) if rng.random() < bad else [rng.randrange(4), 2]
            op["neg"] = rng.random() < 0.3
        ops.append(op)
    ops.append({"op": "end", "how": rng.choice(["close", "close", "close", "abandon", "early"])})
    return ops


def gen_shape(rng: random.Random, bad: float) -> dict:
    k = rng.choice(SHAPES)
    c = [rng.randrange(-5, 5), rng.randrange(-5, 5) * 0.5]
    c2 = [rng.randrange(-5, 5) + 20, rng.randrange(-5, 5) * 0.5]
    a: list = {"circle": [c, dia(rng)], "rectangle": [c, dia(rng), dia(rng)], "obround": [c, 2.0 + dia(rng), dia(rng)],
               "polygon": [c, dia(rng), rng.randrange(3, 8), 15.0], "line": [c, c2, dia(rng)],
               "cross": [c, dia(rng), dia(rng), 0.1], "x": [c, dia(rng), 0.1]}[k]
    if rng.random() < bad:
        a[rng.randrange(len(a))] = rng.choice(["q", None])
    op = {"k": k, "a": a, "neg": rng.random() < 0.3}
    if rng.random() < bad:
        op["evil"] = rng.randrange(1, 10)
    return op


def shape_args(op: dict) -> list:
    """Arguments of the call; locations may raise when read for the k-th time."""
    out: list = []
    for v in op["a"]:
        if isinstance(v, list):
            e = Evil(v)
            e.k = op.get("evil", 0)
            out.append(e if "evil" in op else tuple(v))
        else:
            out.append(v)
    return out


def generate(rng: random.Random, index: int, tier: str) -> dict:
    n = rng.choice([4, 8, 16]) if tier == "quick" else rng.choice([4, 8, 16, 60])
    bad = rng.choice([0.0, 0.15, 0.3])
    if rng.random() < 0.04:  # much to draw
        n = rng.choice([60, 120, 240])
    if rng.random() < 0.65:
        return {"mode": "gerber", "ops": gen_gerber(rng, n, bad)}
    return {"mode": "rvmc", "ops": gen_rvmc(rng, n, bad), "box": [-30, -30, 30, 30] if rng.random() < 0.3 else None,
            "render": rng.random() < 0.3}


# ------------------------------------------------------------------ reference interpreter
def tokens(text: str) -> Iterator[tuple[str, list[str]]]:
    i = 0
    while i < len(text):
        ch = text[i]
        if ch in "\r\n\t ":
            i += 1
        elif ch == "%":
            j = text.index("%", i + 1)
            yield "ext", [s.strip() for s in text[i + 1 : j].split("*") if s.strip()]
            i = j + 1
        else:
            j = text.index("*", i)
            yield "cmd", [text[i:j].strip()]
            i = j + 1


def num(s: str) -> float:
    return float(s)


def interpret(text: str) -> list:
    """Drawn objects of the code, by the rules of the Gerber specification."""
    macros: dict[str, list] = {}
    apers: dict[str, list] = {}
    attrs: dict[str, list] = {}
    cur: Optional[str] = None
    pol, rot, mir, sc = "D", 0.0, "N", 1.0
    mode = None
    x = y = 0
    region: Optional[list] = None
    contour: list = []
    out: list = []
    ended = False
    for kind, parts in tokens(text):
        if ended:
            raise ValueError("commands after end of file")
        if kind == "ext":
            c = parts[0]
            if c.startswith("FS"):
                if c != "FSLAX46Y46":
                    raise ValueError(c)
            elif c.startswith("MO"):
                if c != "MOMM":
                    raise ValueError(c)
            elif c.startswith("AM"):
                macros[c[2:]] = [[num(v) for v in re.split(r",", p.replace("\n", ""))] for p in parts[1:]]
            elif c.startswith("AD"):
                m = re.fullmatch(r"AD(D\d+)([^,]+)(?:,(.*))?", c)
                assert m, c
                if m[1] in apers:
                    raise ValueError(f"aperture {m[1]} defined twice")
                prm = [num(v) for v in m[3].split("X")] if m[3] else []
                shape: list = [m[2], prm] if m[2] not in macros else ["macro", macros[m[2]]]
                apers[m[1]] = [shape, {k: list(v) for k, v in attrs.items()}]
            elif c.startswith("TA"):
                f = c[2:].split(",")
                attrs[f[0]] = f[1:]
            elif c.startswith("TD"):
                if c == "TD":
                    attrs.clear()
                else:
                    attrs.pop(c[2:], None)
            elif c.startswith("LP"):
                pol = c[2:]
            elif c.startswith("LR"):
                rot = num(c[2:])
            elif c.startswith("LM"):
                mir = c[2:]
            elif c.startswith("LS"):
                sc = num(c[2:])
            else:
                raise ValueError(f"unexpected command {c}")
            continue
        c = parts[0]
        if c in ("G01", "G02", "G03"):
            mode = c
        elif c == "G75":
            pass
        elif c == "G36":
            region, contour = [], []
        elif c == "G37":
            if region is None:
                raise ValueError("G37 outside region")
            out.append(["region", pol, contour])
            region = None
        elif c == "M02":
            ended = True
        elif re.fullmatch(r"D\d\d+", c) and int(c[1:]) >= 10:
            if c not in apers:
                raise ValueError(f"selects undefined aperture {c}")
            cur = c
        else:
            m = re.fullmatch(r"(?:X([+-]?\d+))?(?:Y([+-]?\d+))?(?:I([+-]?\d+))?(?:J([+-]?\d+))?D0([123])", c)
            if not m:
                raise ValueError(f"unexpected command {c}")
            nx = int(m[1]) if m[1] else x
            ny = int(m[2]) if m[2] else y
            if m[5] == "3":
                if cur is None:
                    raise ValueError("flash without aperture")
                out.append(["flash", apers[cur], pol, rot, mir, sc, [nx, ny]])
            elif m[5] == "1":
                ij = [int(m[3] or 0), int(m[4] or 0)] if mode != "G01" else None
                if mode is None:
                    raise ValueError("draw without plot mode")
                if region is not None:
                    contour.append([mode, [x, y], [nx, ny], ij])
                else:
                    if cur is None:
                        raise ValueError("draw without aperture")
                    out.append(["draw", apers[cur], pol, rot, mir, sc, mode, [x, y], [nx, ny], ij])
            elif region is not None and contour:
                raise ValueError("second contour in region")
            x, y = nx, ny
    if not ended:
        raise ValueError("no end of file command")
    return out


def same(a: Any, b: Any, path: str = "") -> Optional[str]:
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        tol = 1 if isinstance(a, int) and isinstance(b, int) else 1e-6
        return None if abs(a - b) <= tol else f"{path}: {a} != {b}"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items, expected {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            r = same(p, q, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{path}: attributes {sorted(a)} != {sorted(b)}"
        for k in a:
            r = same(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"


# ------------------------------------------------------------------ execution
def make(v: Any) -> Any:
    """Turn a location argument of the plan into the value passed to pygerber."""
    if "bad" in v:
        b = v["bad"]
        if isinstance(b, list):
            return tuple(float(x) if x in ("nan", "inf") else x for x in b)
        return b
    if "evil" in v:
        e = Evil(v["v"])
        e.k = v["evil"]
        return e
    return tuple(v["v"])


def pk(p: Any) -> list:
    out = []
    for v in (tuple.__getitem__(p, 0), tuple.__getitem__(p, 1)):
        out.append(int(f"{v:.6f}".replace(".", "")))
    return out


def offset(c: Any, b: Any) -> list:
    return [int(f"{tuple.__getitem__(c, i) - tuple.__getitem__(b, i):.6f}".replace(".", "")) for i in (0, 1)]


def ok_arg(v: dict) -> bool:
    return "bad" not in v and "evil" not in v


class Gerber:
    """Drives a builder and the list of objects it has to draw."""

    def __init__(self) -> None:
        from pygerber.builder.gerber import GerberX3Builder

        self.b = GerberX3Builder()
        self.pads: list = []  # (Pad, model)
        self.drawn: list = []
        self.draws: list = []  # (draw object, begin, end) of pads and traces
        self.valid = True

    def pad(self, i: Any) -> Any:
        return self.pads[i % len(self.pads)]

    def place(self, a: dict, what: str) -> tuple[Any, Any]:
        """(argument for pygerber, location it stands for)"""
        if "ref" in a:
            cand = [d for d in self.draws if what != "at" or d[3] == "trace"]
            if not cand:
                return (0.0, 0.0), (0.0, 0.0)
            d = cand[a["ref"] % len(cand)]
            return d[0], (d[1] if what == "e" else d[2])
        if not ok_arg(a):
            self.valid = False
        v = make(a)
        return v, v

    def step(self, op: dict) -> None:
        k = op["op"]
        b = self.b
        self.valid = True
        if k == "newpad":
            self.newpad(op)
        elif k in ("pad", "cut"):
            at, where = self.place(op["at"], "at")
            kw = op["kw"]
            if "x" in (kw.get("rotation"), kw.get("scale")):
                self.valid = False
            if isinstance(op["p"], str):
                self.valid = False
                pad: Any = {"creator": b.new_pad(), "custom": b.new_pad().custom(), "none": None}[op["p"]]
                model = None
            else:
                if not self.pads:
                    return
                pad, model = self.pad(op["p"])
            d = (b.add_pad if k == "pad" else b.add_cutout_pad)(pad, at, **kw)
            mir = ("X" if kw.get("mirror_x") else "") + ("Y" if kw.get("mirror_y") else "") or "N"
            self.drawn.append(["flash", model, "D" if k == "pad" else "C", float(kw.get("rotation", 0.0)), mir,
                               float(kw.get("scale", 1.0)), pk(where)])
            self.draws.append((d, where, where, "pad"))
        elif k in ("line", "cw", "ccw"):
            beg, bw = self.place(op["b"], "b")
            end, ew = self.place(op["e"], "e")
            if isinstance(op["w"], str) or op["w"] is None:
                self.valid = False
            if k == "line":
                d = b.add_line_trace(op["w"], beg, end)
                ij = None
            else:
                cen, cw = self.place(op["c"], "c")
                f = b.add_clockwise_arc_trace if k == "cw" else b.add_counter_clockwise_arc_trace
                d = f(op["w"], beg, end, cen)
                ij = offset(cw, bw)
            mode = {"line": "G01", "cw": "G02", "ccw": "G03"}[k]
            self.drawn.append(["draw", [["C", [float(op["w"])]], {}], "D", 0.0, "N", 1.0, mode, pk(bw), pk(ew), ij])
            self.draws.append((d, bw, ew, "trace"))
        elif k == "region":
            self.region(op)
        elif k == "attr":
            if not self.pads:
                return
            pad, model = self.pad(op["p"])
            a = op["a"]
            if a[0] == "fun":
                self.valid = a[1] != "NoSuchFunction"
                pad.set_aperture_function(a[1])
                model[1][".AperFunction"] = [a[1]]
            elif a[0] == "tol":
                self.valid = a[1] != "x"
                pad.set_drill_tolerance(a[1], a[2])
                model[1][".DrillTolerance"] = [float(a[1]), float(a[2])]
            else:
                pad.set_custom_attribute(a[1], *a[2:])
                model[1][a[1]] = a[2:]

    def newpad(self, op: dict) -> None:
        c = self.b.new_pad()
        if op["k"] != "custom":
            self.valid = not any(isinstance(v, str) for v in op["a"])
            pad = getattr(c, op["k"])(*op["a"])
            letter = {"circle": "C", "rectangle": "R", "rounded_rectangle": "O", "regular_polygon": "P"}[op["k"]]
            self.pads.append((pad, [[letter, [float(v) for v in op["a"]]], {}]))
            return
        cp = c.custom()
        model: list = []
        for p in op["prims"]:
            try:
                self.prim(cp, p, model)
            except core.Violation:
                raise
            except Exception as e:  # noqa: BLE001
                if self.valid:
                    raise core.Violation("refused", f"primitive {p} of a custom pad refused: {e!r}") from e
            self.valid = True
        if not model:
            return
        pad = cp.create()
        self.pads.append((pad, [["macro", model], {}]))
        if op.get("again"):
            # creator is single use
            for f in (cp.create, lambda: cp.add_circle(1.0, (0.0, 0.0))):
                try:
                    f()
                except RuntimeError:
                    continue
                raise core.Violation("reused-creator", "finalized custom pad creator accepted another call")

    def prim(self, cp: Any, p: dict, model: list) -> None:
        c, cw = self.place(p["c"], "c")
        d, dw = self.place(p["d"], "c") if p["k"] == "vector_line" else (None, None)
        pre = "add_" if p["add"] else "cut_"
        exp = 1.0 if p["add"] else 0.0
        f = lambda i: float(tuple.__getitem__(cw, i))  # noqa: E731
        r = p["rot"]
        k = p["k"]
        # a macro coordinate has no fixed format: any number is representable
        if "bad" in p["c"] and k != "outline":
            v = p["c"]["bad"]
            if isinstance(v, list) and len(v) >= 2 and all(isinstance(q, (int, float)) for q in v[:2]):
                self.valid = k != "vector_line" or "evil" not in p["d"]
            elif isinstance(v, list) and ("nan" in v or "inf" in v):
                return  # not a finite number: outside what the property speaks about
        if k == "circle":
            getattr(cp, pre + "circle")(p["w"], c, r)
            m = [1, exp, p["w"], f(0), f(1), r]
        elif k == "vector_line":
            if "bad" in p["d"]:
                v = p["d"]["bad"]
                if isinstance(v, list) and ("nan" in v or "inf" in v):
                    return
                self.valid = False
            getattr(cp, pre + "vector_line")(p["w"], c, d, r)
            m = [20, exp, p["w"], f(0), f(1), float(tuple.__getitem__(dw, 0)), float(tuple.__getitem__(dw, 1)), r]
        elif k == "center_line":
            getattr(cp, pre + "center_line")(p["w"], p["h"], c, r)
            m = [21, exp, p["w"], p["h"], f(0), f(1), r]
        elif k == "outline":
            pts = [tuple(q) for q in p["pts"]]
            self.valid = len(pts) >= 3
            getattr(cp, pre + "outline")(pts, r)
            m = [4, exp, len(pts), *[v for q in [*pts, pts[0]] for v in q], r]
        elif k == "polygon":
            getattr(cp, pre + "polygon")(5, c, p["w"], r)
            m = [5, exp, 5, f(0), f(1), p["w"], r]
        else:
            cp.add_thermal(c, 4.0, 3.0, 0.5, r)
            m = [7, f(0), f(1), 4.0, 3.0, 0.5, r]
        model.append([float(v) for v in m])

    def region(self, op: dict) -> None:
        beg, bw = self.place(op["b"], "b")
        rc = self.b.new_region(beg)
        pts: list = []
        prev = bw
        poisoned = not self.valid  # begin or an accepted segment can not be represented

        def create() -> None:
            rc.create()
            mode = {"line": "G01", "cw": "G02", "ccw": "G03"}
            segs = []
            last = bw
            for kk, to, cc, frm in pts:
                segs.append([mode[kk], pk(last), pk(to), None if kk == "line" else offset(cc, frm)])
                last = to
            if tuple(last) != tuple(bw):
                segs.append(["G01", pk(last), pk(bw), None])
            self.drawn.append(["region", "D", segs])

        for i, s in enumerate(op["segs"]):
            self.valid = True
            kk = s["k"]
            to, tw = self.place(s["to"], "b") if "ref" not in s["to"] else ((0.0, 0.0), (0.0, 0.0))
            if op.get("closed") and i == len(op["segs"]) - 1:
                to = tw = bw
                self.valid = not poisoned
            if kk == "line":
                call = lambda: rc.add_line(to)  # noqa: E731,B023
                cw = None
            else:
                c, cw = self.place(s["c"], "c")
                f = rc.add_clockwise_arc if kk == "cw" else rc.add_counterclockwise_arc
                call = lambda: f(to, c)  # noqa: E731,B023
            was = self.valid and not poisoned
            try:
                call()
            except Exception as e:  # noqa: BLE001
                if was:
                    raise core.Violation("refused", f"segment {s} refused: {e!r}") from e
            else:
                if not was:
                    poisoned = True
                pts.append((kk, tw, cw, prev))
                prev = tw
            if op.get("early") and len(pts) < 3:
                try:
                    rc.create()
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise core.Violation("short-region", "region of less than 3 points was accepted")
        self.valid = len(pts) >= 3 and not poisoned
        create()

    def expected(self) -> list:
        return self.drawn


def check_code(g: Gerber, ctx: core.Ctx, use: str, n: int, i: int) -> None:
    code = g.b.get_code()
    if use == "sink":
        s = work.FailingSink(n)
        try:
            code.dump(s)
        except OSError:
            ctx.faults["sink_error"] += 1
    elif use == "compile":
        from pygerber.gerber.compiler import compile

        work.guarded(lambda: compile(code.raw))
    elif use == "lint":
        from pygerber.gerber.linter import lint

        work.guarded(lambda: list(lint(code.raw)))
    text = code.dumps()
    ctx.event("code", i, core.h(text))
    try:
        got = [norm(o) for o in interpret(text)]
    except (ValueError, AssertionError) as e:
        raise core.Violation("bad-code", f"code after call {i} can not be interpreted: {e}") from e
    diff = same(got, [norm(o) for o in g.expected()])
    if diff:
        raise core.Violation("drawn-differs", f"code obtained after call {i}: {diff}")
    ctx.probes["objects_compared"] += len(got)


def closed(prim: list) -> list:
    """An outline may start at any of its points."""
    if prim[0] != 4 or len(prim) < 8:
        return prim
    v = [round(x, 4) for x in prim[3:-1]]
    pts = [v[i : i + 2] for i in range(0, len(v), 2)]
    if pts[0] != pts[-1]:
        raise ValueError("outline is not closed")
    pts = pts[:-1]
    best = min(pts[i:] + pts[:i] for i in range(len(pts)))
    return [*prim[:3], *[x for q in best for x in q], prim[-1]]


def norm(o: list) -> list:
    """Attribute values compare as text or numbers; the rest as it is."""
    if o[0] in ("flash", "draw"):
        shape, attrs = o[1]
        conv = {}
        for k, v in attrs.items():
            conv[k] = [float(x) if re.fullmatch(r"[+-]?\d+(\.\d+)?", str(x)) else x for x in v]
        prm = [closed(list(map(float, x))) for x in shape[1]] if shape[0] == "macro" else list(map(float, shape[1]))
        return [o[0], [[shape[0], prm], conv], *o[2:]]
    return o


def run_gerber(plan: dict, ctx: core.Ctx) -> None:
    g = Gerber()
    hist = ("", "")
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        if k == "code":
            check_code(g, ctx, op["use"], op["n"], i)
            continue
        n = len(g.drawn)
        try:
            g.step(op)
            ok = True
        except core.Violation:
            raise
        except Exception as e:  # noqa: BLE001
            ok = False
            if g.valid:
                raise core.Violation("refused", f"valid call {i} {op} was refused: {e!r}") from e
            ctx.faults["argument_raised" if isinstance(e, ArgFault) else f"refused_{k}"] += 1
            del g.drawn[n:]
        ctx.steps += 1
        ctx.event(k, ok)
        ctx.state(k, ok, hist)
        hist = (hist[1], k + ("" if ok else "!"))
    check_code(g, ctx, "", 1, len(plan["ops"]))


# ------------------------------------------------------------------ RVMC builder
def shape_alone(k: str, a: list, neg: bool) -> Any:
    """Commands a fresh layer records for this single call."""
    from pygerber.builder.rvmc import RvmcBuilder

    b = RvmcBuilder()
    try:
        with b.layer() as layer:
            n = len(layer.commands)
            getattr(layer, k)(*[tuple(v) if isinstance(v, list) else v for v in a], is_negative=neg)
            return ["ok", [work.tree(c) for c in list(layer.commands)[n:]]]
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__]


def box_of(v: Any) -> Any:
    from pygerber.vm.types import Box

    return Box(min_x=v[0], min_y=v[1], max_x=v[2], max_y=v[3]) if v else None


def start_alone(id_: Optional[str], origin: Any, box: Any) -> Any:
    from pygerber.builder.rvmc import RvmcBuilder

    b = RvmcBuilder()
    try:
        with b.layer(box=box_of(box if id_ is None else None)) as layer:
            if id_ is None:
                return ["ok", work.tree(list(layer.commands)[0])]
            with layer.layer(id_, box=box_of(box), origin=tuple(origin) if origin else None) as sub:
                return ["ok", work.tree(list(sub.commands)[0])]
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__]


class Abandon(Exception):
    pass


def run_rvmc(plan: dict, ctx: core.Ctx) -> None:
    from pygerber.builder.rvmc import LockedBuilderError, RvmcBuilder

    b = RvmcBuilder()
    cm0 = b.layer(box=box_of(plan.get("box")))
    # stack of [context manager, LayerBuilder, expected commands, id]
    stack: list = [[cm0, cm0.__enter__(), [ctx.ref("pgsim.p12:start_alone", None, None, plan.get("box"))[1]], "main"]]
    done: list = []  # finished layers: (LayerBuilder, id)
    dead: list = []  # abandoned ones
    hist = ("", "")

    def close(how: str) -> None:
        cm, lb, exp, id_ = stack.pop()
        if how == "abandon":
            e = Abandon()
            try:
                swallowed = cm.__exit__(Abandon, e, None)
            except Abandon:
                swallowed = False
            if swallowed:
                raise core.Violation("swallowed", "exception raised inside a layer block did not leave it")
            dead.append(lb)
            ctx.faults["abandoned_layer"] += 1
            return
        cm.__exit__(None, None, None)
        done.append((lb, id_))
        if stack:
            stack[-1][2].extend([*exp, ["EndLayer"]])

    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        ok = True
        if k == "shape":
            ent = stack[-2] if op.get("up") and len(stack) > 1 else stack[-1]
            want = ctx.ref("pgsim.p12:shape_alone", op["k"], op["a"], op["neg"])
            a = shape_args(op)
            got = work.guarded(lambda: getattr(ent[1], op["k"])(*a, is_negative=op["neg"]))
            ok = not (isinstance(got, list) and got[:1] == ["err"])
            if not ok and got[1] == "ArgFault":
                ctx.faults["argument_raised"] += 1
            elif ok != (want[0] == "ok"):
                raise core.Violation("refused", f"call {i} {op}: {got}, alone it gives {want[0]}")
            if ok:
                ent[2].extend(want[1])
            else:
                ctx.faults["refused_shape"] += 1
        elif k == "open":
            if op.get("busy") and len(stack) > 1:
                # parent already has an open nested layer: must be refused, changing nothing
                try:
                    cm = stack[-2][1].layer("busy")
                    cm.__enter__()
                except RuntimeError:
                    ctx.faults["refused_layer"] += 1
                else:
                    raise core.Violation("second-open-layer", "second nested layer opened while one is open")
            want = ctx.ref("pgsim.p12:start_alone", op["id"], op["origin"], op.get("box"))
            cm = stack[-1][1].layer(op["id"], box=box_of(op.get("box")), origin=tuple(op["origin"]) if op["origin"] else None)
            try:
                lb = cm.__enter__()
            except Exception as e:  # noqa: BLE001
                ok = False
                if want[0] == "ok":
                    raise core.Violation("refused", f"opening nested layer at call {i} refused: {e!r}") from e
                ctx.faults["refused_layer"] += 1
            else:
                stack.append([cm, lb, [want[1]], op["id"]])
        elif k in ("close", "abandon"):
            if len(stack) > 1:
                close(k)
        elif k == "paste":
            if not done:
                continue
            lb, id_ = done[op["l"] % len(done)]
            at = tuple(op["at"])
            got = work.guarded(lambda: stack[-1][1].paste(lb, at, is_negative=op["neg"]))
            ok = not (isinstance(got, list) and got[:1] == ["err"])
            if not ok and not isinstance(at[0], str):
                raise core.Violation("refused", f"paste at call {i} refused: {got}")
            if ok:
                stack[-1][2].append(["PASTE", id_, [float(at[0]), float(at[1])], op["neg"]])
        elif k == "old":
            # finished layers refuse further shapes
            if done:
                lb = done[0][0]
                got = work.guarded(lambda: lb.circle((0, 0), 1.0, is_negative=False))
                if not (isinstance(got, list) and got[:1] == ["err"]):
                    raise core.Violation("finished-layer", "finished layer accepted a shape")
                ctx.faults["refused_finished"] += 1
        elif k == "end":
            while len(stack) > 1:
                close("close")
            main = stack[-1]
            how = op["how"]
            if how == "early":
                b.get_rvmc()
                try:
                    main[0].__exit__(None, None, None)
                except LockedBuilderError:
                    expected: list = []
                else:
                    raise core.Violation("not-locked", "layer finished after code was obtained was accepted")
            else:
                close(how)
                expected = [*main[2], ["EndLayer"]] if how == "close" else []
            for again in range(2):
                rvmc = b.get_rvmc()
                got = [canon(c) for c in rvmc.commands]
                diff = same(got, expected)
                if diff:
                    raise core.Violation("code-differs", f"virtual machine code (obtained {again + 1} times): {diff}")
            ctx.probes["commands_compared"] += len(got)
            ctx.event("rvmc", core.h(got))
            if plan.get("render"):
                check_rendered(rvmc, ctx)
        ctx.steps += 1
        ctx.event(k, ok)
        ctx.state("rvmc", k, ok, len(stack), hist)
        hist = (hist[1], k + ("" if ok else "!"))


def check_rendered(rvmc: Any, ctx: core.Ctx) -> None:
    """Layers in which nothing was drawn and which were not pasted change nothing of the image."""
    from pygerber.vm.commands import EndLayer, PasteLayer, StartLayer
    from pygerber.vm.rvmc import RVMC

    pasted = {c.source_layer_id.id for c in rvmc.commands if isinstance(c, PasteLayer)}
    keep: list = []
    for c in rvmc.commands:
        if isinstance(c, EndLayer) and keep and isinstance(keep[-1], StartLayer) and len(keep) > 1 \
                and keep[-1].id.id not in pasted:
            keep.pop()
        else:
            keep.append(c)
    if len(keep) == len(rvmc.commands):
        return
    for be in ({"c": "pillow", "dpmm": 4, "style": 1}, {"c": "shapely", "style": 1}):
        got = work.guarded(lambda: work.consume_rvmc(rvmc, be))  # noqa: B023
        want = work.guarded(lambda: work.consume_rvmc(RVMC(commands=keep), be))  # noqa: B023
        ctx.probes["rendered"] += 1
        ctx.event(be["c"], core.h(got))
        if got != want and want[:1] != ["err"]:
            raise core.Violation("image-differs", f"with empty layers {be['c']} gives {str(got)[:200]}, without "
                                 f"{str(want)[:200]}")


def canon(c: Any) -> Any:
    n = type(c).__name__
    if n == "EndLayer":
        return ["EndLayer"]
    if n == "PasteLayer":
        return ["PASTE", c.source_layer_id.id, [float(c.center.x), float(c.center.y)], c.is_negative]
    return work.tree(c)


def execute(plan: dict, ctx: core.Ctx) -> None:
    if plan["mode"] == "gerber":
        run_gerber(plan, ctx)
    else:
        run_rvmc(plan, ctx)


# for other scenarios: code built by one thread
def build_text(ops: list) -> Any:
    return ["code", make_builder(ops).get_code().dumps()]


def make_builder(ops: list) -> Any:
    g = Gerber()
    for op in ops:
        if op["op"] == "code":
            g.b.get_code().dumps()
            continue
        try:
            g.step(op)
        except Exception:  # noqa: BLE001
            pass
    return g.b


def rvmc_digest(seed: int) -> Any:
    """VM code with several named layers, built without faults."""
    from pygerber.builder.rvmc import RvmcBuilder

    rng = random.Random(seed)
    b = RvmcBuilder()
    with b.layer() as layer:
        for i in range(rng.randrange(1, 5)):
            with layer.layer(f"layer{rng.randrange(1000)}x{i}") as sub:
                for _ in range(rng.randrange(1, 4)):
                    s = gen_shape(rng, 0.0)
                    getattr(sub, s["k"])(*[tuple(v) if isinstance(v, list) else v for v in s["a"]], is_negative=s["neg"])
        s = gen_shape(rng, 0.0)
        getattr(layer, s["k"])(*[tuple(v) if isinstance(v, list) else v for v in s["a"]], is_negative=s["neg"])
    return ["rvmc", work.tree_hash(b.get_rvmc())]
