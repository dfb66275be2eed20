"""Seeded generator of Gerber sources (small images, wide feature coverage)."""

from __future__ import annotations

import random
import re
from functools import lru_cache
from typing import Any

TF = [
    "%TF.FileFunction,Copper,L1,Top*%",
    "%TF.FileFunction,Copper,L2,Bot*%",
    "%TF.FileFunction,Soldermask,Top*%",
    "%TF.FileFunction,Legend,Top*%",
    "%TF.FileFunction,Paste,Bot*%",
    "%TF.FileFunction,Profile,NP*%",
    "%TF.FilePolarity,Positive*%",
    "%TF.Part,Single*%",
    "%TF.SameCoordinates,Original*%",
    "%TFMyAttr,alpha,beta*%",
    "%TF.GenerationSoftware,pgsim,gen,1.0*%",
    "%TF.FileFunction,Plated,1,2,PTH*%",
    "%TF.FileFunction,Legend,Bot*%",
    "%TF.FileFunction,Copper,L3,Inr*%",
    "%TF.FileFunction,Glue,Top*%",
    "%TF.FilePolarity,Negative*%",
    "%TF.CreationDate,2024-01-01T00:00:00+01:00*%",
    "%TF.ProjectId,name,guid,rev*%",
    "%TF.MD5,6ab9e892830469cdff7e3e346331d404*%",
]
TA = [
    "%TA.AperFunction,ComponentPad*%",
    "%TA.AperFunction,Conductor*%",
    "%TA.AperFunction,ViaPad*%",
    "%TA.DrillTolerance,0.1,0.2*%",
    "%TAMyTag,1,2*%",
] + [f"%TA.AperFunction,{x}*%" for x in (
    "SMDPad,CuDef BGAPad,CuDef ConnectorPad HeatsinkPad TestPad CastellatedPad FiducialPad,Global ThermalReliefPad "
    "WasherPad AntiPad OtherPad,x EtchedComponent NonConductor CopperBalancing Border OtherCopper,x ComponentMain "
    "ComponentOutline,Body ComponentPin Profile Material NonMaterial Other,x ViaDrill BackDrill ComponentDrill "
    "MechanicalDrill Slot CutOut Cavity").split()] + ["%TA.FlashText,text,C,R,name,3,c*%"]
TO = ["%TO.N,GND*%", "%TO.C,R1*%", "%TO.P,R1,1*%", "%TO.CVal,10k*%", "%TOuser,7*%", "%TO.P,U1,2,clk*%", "%TO.CRot,90*%",
      "%TO.CMfr,ACME*%", "%TO.CMPN,X1*%", "%TO.CMnt,SMD*%", "%TO.CFtp,f*%", "%TO.CPgN,a*%", "%TO.CHgt,1.2*%",
      "%TO.CLbN,l*%", "%TO.CPgD,d e*%", "%TO.CLbD,d f*%", "%TOnet,a,b*%", "%TO.CSup,SN,SPN*%", "%TO.N,GND,VCC*%", "%TDuser*%", "%TD.N*%"]
DEPRECATED = ["G90*", "%INname*%", "%LNlayer*%", "%IPPOS*%", "%ASAXBY*%", "%IR0*%", "%MIA0B0*%", "%OFA0B0*%",
              "%SFA1B1*%", "M01*", "G75*", "G01*", "M00*", "%SFA1.5B0.5*%", "%IPNEG*%", "%IR90*%", "%MIA1B0*%",
              "%OFA0.5B0*%", "%ASAYBX*%"]
COMMENTS = ["hello", "layer one", "zażółć gęślą jaźń", "日本語", "Ω±µm", "smile 😀 here", "a b  c"]


class G:
    def __init__(self, rng: random.Random, ascii_only: bool = True) -> None:
        self.r = rng
        self.out: list[str] = []
        self.dec = 6
        self.unit = "MM"
        self.apertures: list[str] = []
        self.line_ok: list[str] = []
        self.next = 10
        self.macros: list[str] = []
        self.sel = False
        self.trailing = False
        self.whole = 2
        self.partial = rng.choice([0.0, 0.0, 0.3])
        self.last = (99, 99)
        self.moved = False
        self.rich = rng.random() < 0.6
        self.comments = COMMENTS[:2] + ["a b  c"] if ascii_only else COMMENTS

    def c(self, v: float) -> str:
        n = int(round(v * 10**self.dec))
        if not self.trailing:
            return str(n)
        # trailing zeros omitted: leading ones are written
        return ("-" if n < 0 else "") + (str(abs(n)).rjust(self.whole + self.dec, "0").rstrip("0") or "0")

    def xy(self) -> str:
        s = 4.0 if self.unit == "MM" else 0.16
        q = s / 16
        while True:
            x, y = self.r.randrange(-8, 17), self.r.randrange(-8, 17)
            if (x, y) != self.last:
                break
        part = self.r.random() < self.partial
        if part and x != self.last[0] and y == self.last[1]:
            out = f"X{self.c(x * q)}"
        elif part and self.moved:
            # one coordinate stays as it was
            x = self.last[0]
            y = y if y != self.last[1] else y + 1
            out = f"Y{self.c(y * q)}"
        else:
            out = f"X{self.c(x * q)}Y{self.c(y * q)}"
        self.last = (x, y)
        self.moved = True
        return out

    def num(self, lo: float = 0.2, hi: float = 1.6) -> str:
        k = 1.0 if self.unit == "MM" else 0.04
        v = self.r.randrange(int(lo * 20), int(hi * 20)) / 20 * k
        if self.rich and self.r.random() < 0.12:
            v += self.r.choice([1e-4, 4e-4, -4e-3]) * k  # nearly the size of another one
        return f"{v:.4f}".rstrip("0").rstrip(".") or "0.1"

    def header(self, fs: bool = True) -> None:
        r = self.r
        if r.random() < 0.3:
            self.out.append(f"G04 {r.choice(self.comments)}*")
        i, d = r.choice([(2, 4), (3, 5), (4, 6), (3, 4)])
        self.dec, self.whole = d, i
        self.unit = r.choice(["MM", "MM", "MM", "IN"])
        if fs:
            self.trailing = r.random() < 0.12
            self.out.append(f"%FS{'T' if self.trailing else 'L'}AX{i}{d}Y{i}{d}*%")
        if r.random() < 0.12:
            self.out.append("G71*" if self.unit == "MM" else "G70*")
        else:
            self.out.append(f"%MO{self.unit}*%")
        for t in r.sample(TF, r.randrange(0, 3)):
            self.out.append(t)

    def aperture(self) -> None:
        r = self.r
        code = f"D{self.next}"
        self.next += r.choice([1, 1, 1, 3])
        ta = []
        if r.random() < 0.25:
            ta = r.sample(TA, r.randrange(1, 3))
            self.out.extend(ta)
        k = r.randrange(7)
        hole = f"X{self.num(0.05, 0.15)}" if r.random() < 0.2 else ""
        if k <= 1:
            self.out.append(f"%AD{code}C,{self.num()}{hole}*%")
            self.line_ok.append(code)
        elif k == 2:
            self.out.append(f"%AD{code}R,{self.num()}X{self.num()}{hole}*%")
            if self.rich:
                self.line_ok.append(code)
        elif k == 3:
            self.out.append(f"%AD{code}O,{self.num()}X{self.num()}{hole}*%")
            if self.rich:
                self.line_ok.append(code)
        elif k == 4:
            rot = f"X{r.choice([r.randrange(0, 90), 30, 30.4])}" if hole or r.random() < 0.8 else ""
            self.out.append(f"%AD{code}P,{self.num()}X{r.randrange(3, 9)}{rot}{hole}*%")
            if self.rich:
                self.line_ok.append(code)
        elif k == 5:
            self.macro()
            m = r.choice(self.macros)
            if m.startswith("PRM"):
                extra = "".join("X" + self.num(0.1, 0.4) for _ in range(r.choice([0, 0, 0, 1, 2])))
                self.out.append(f"%AD{code}{m},{self.num()}X{self.num(0.1, 0.4)}{extra}*%")
            else:
                self.out.append(f"%AD{code}{m}*%")
        else:
            if not self.apertures:
                self.out.append(f"%AD{code}C,{self.num()}*%")
                self.line_ok.append(code)
            else:
                self.out.append(f"%AB{code}*%")
                self.out.append(f"{r.choice(self.apertures)}*")
                for _ in range(r.randrange(1, 3)):
                    if r.random() < 0.3 and r.random() < 0.5:
                        self.out.append(r.choice(["%LPC*%", "%LPD*%"]))
                    if r.random() < 0.2:
                        self.out.append(r.choice(TO))
                    self.out.append(f"{self.xy()}D03*")
                if self.rich and self.line_ok and r.random() < 0.4:
                    self.line()
                if self.rich and r.random() < 0.2:
                    self.region()
                self.out.append("%LPD*%")
                self.out.append("%AB*%")
                self.blocks = True
                if ta:
                    self.out.append("%TD*%")
                # blocks are only used directly (nested sharing of blocks is avoided)
                self.block_codes = getattr(self, "block_codes", [])
                self.block_codes.append(code)
                return
        if ta:
            self.out.append("%TD*%")
        self.apertures.append(code)

    def macro(self) -> None:
        r = self.r
        if self.macros and r.random() < 0.4:
            return
        n = self.num
        prims = [
            f"1,1,{n()},0,0*",
            f"1,1,{n()},0.1,0.1,30*",
            f"21,1,{n()},{n()},0,0,{r.randrange(0, 90)}*",
            f"20,1,{n(0.1, 0.4)},0,0,{n()},{n()},0*",
            "4,1,3,0,0,0.5,0,0.5,0.5,0,0,0*",
            f"5,1,{r.randrange(3, 9)},0,0,{n()},0*",
            "0 macro comment*",
            f"7,0,0,1.0,0.6,0.1,{r.randrange(0, 90)}*",
            f"2,1,{n(0.1, 0.4)},0,0,{n()},{n()},0*",
            f"22,1,{n()},{n()},0,0,0*",
            "4,1,4,0,0,1,0,1,1,0,1,0,0,30*",
            "1,0,0.3,0,0,0*",
            f"6,0,0,2,0.1,0.2,{r.randrange(1, 4)},0.05,2.2,{r.randrange(0, 45)}*",
            f"6,0.1,0,1,0.1,0.1,{r.randrange(1, 3)},0,0,0*",
            f"1,+1,+{n()},0,0*",
        ]
        if r.random() < 0.45:
            name = f"PRM{len(self.macros)}"
            body = r.choice([
                "$3=$1x0.5*1,1,$1,0,0*21,1,$3,$2,0,0,0*",
                "$4=($1+$2)/2*1,1,$4,0,0*20,1,$2,0-$1,0,$1,0,15*",
                "1,1,$1+0.1,0,0*1,0,$2/2,0,0*",
                "$3=-$2*7,0,0,$1,$1x0.5,$2x0.25,45*",
            ])
        else:
            name = f"MAC{len(self.macros)}"
            body = r.choice(prims[:6] + prims[7:10] + prims[12:]) + "".join(r.sample(prims, r.randrange(0, 3)))
        self.macros.append(name)
        self.out.append(f"%AM{name}*{body}%")

    def line(self) -> None:
        r = self.r
        self.out.append(f"{r.choice(self.line_ok)}*")
        self.out.append("G01*")
        self.out.append(f"{self.xy()}D02*")
        for _ in range(r.randrange(1, 4)):
            self.out.append(f"{self.xy()}D01*")

    def region(self) -> None:
        """One or two outlines, some with arcs."""
        r = self.r
        s = 0.5 if self.unit == "MM" else 0.02
        self.out.append("G36*")
        for _ in range(r.choice([1, 1, 2])):
            x, y = r.randrange(-4, 6) * s, r.randrange(-4, 6) * s
            self.out.append(f"X{self.c(x)}Y{self.c(y)}D02*")
            k = r.randrange(4)
            if k == 0:
                # full circle
                self.out += ["G75*", r.choice(["G02*", "G03*"]), f"X{self.c(x)}Y{self.c(y)}I{self.c(s)}J0D01*", "G01*"]
                continue
            self.out.append("G01*")
            w, hh = r.randrange(1, 4) * s, r.randrange(1, 4) * s
            self.out.append(f"X{self.c(x + w)}Y{self.c(y)}D01*")
            if k == 1:
                self.out += ["G75*", "G03*", f"X{self.c(x + w)}Y{self.c(y + 2 * s)}I0J{self.c(s)}D01*", "G01*"]
                self.out.append(f"X{self.c(x)}Y{self.c(y + 2 * s)}D01*")
            else:
                self.out.append(f"X{self.c(x + w)}Y{self.c(y + hh)}D01*")
                self.out.append(f"X{self.c(x)}Y{self.c(y + hh)}D01*")
            self.out.append(f"X{self.c(x)}Y{self.c(y)}D01*")
        self.out.append("G37*")
        self.last = (99, 99)
        self.moved = False

    def draw(self, depth: int = 0) -> None:
        r = self.r
        k = r.randrange(13)
        allc = self.apertures + getattr(self, "block_codes", [])
        if k <= 2 and self.line_ok:
            self.line()
        elif k <= 5 and allc:
            self.out.append(f"{r.choice(allc)}*")
            for _ in range(r.randrange(1, 3)):
                self.out.append(f"{self.xy()}D03*")
            if self.rich and r.random() < 0.1:
                self.out.append("D03*")
        elif k == 6 and self.line_ok:
            s = 1.0 if self.unit == "MM" else 0.04
            rad = r.choice([0.5, 1.0]) * s
            x, y = r.randrange(0, 3) * s, r.randrange(0, 3) * s
            self.out.append(f"{r.choice(self.line_ok)}*")
            self.out.append("G75*")
            self.out.append(f"X{self.c(x)}Y{self.c(y)}D02*")
            self.out.append(r.choice(["G02*", "G03*"]))
            to = x if self.rich and r.random() < 0.3 else x + 2 * rad
            self.out.append(f"X{self.c(to)}Y{self.c(y)}I{self.c(rad)}J0D01*")
            self.out.append("G01*")
            self.last = (99, 99)
            self.moved = False
        elif k == 7:
            self.region()
        elif k == 8:
            self.out.append(
                r.choice(["%LPC*%", "%LPD*%", "%LPD*%", "%LR45*%", "%LR0*%", "%LMX*%", "%LMN*%",
                          "%LS1.5*%", "%LS1*%", "%LMY*%", "%LMXY*%", "%LR-30.5*%", "%LS0.75*%", "%LR45.3*%", "%LS1.54*%"])
            )
        elif k == 9:
            self.out.append(r.choice(TO))
            if r.random() < 0.5:
                self.out.append("%TD*%")
        elif k == 12 and r.random() < 0.5:
            self.out.append(r.choice(DEPRECATED))
        elif k == 10:
            self.out.append(f"G04 {r.choice(self.comments)}*")
        elif k == 11 and depth == 0 and self.apertures and r.random() < 0.6:
            s = 3.0 if self.unit == "MM" else 0.12
            self.out.append(f"%SRX{r.randrange(1, 3)}Y{r.randrange(1, 3)}I{s}J{s}*%")
            self.out.append(f"{r.choice(self.apertures)}*")
            self.out.append(f"{self.xy()}D03*")
            if self.rich and self.line_ok and r.random() < 0.4:
                self.line()
            if self.rich and r.random() < 0.3:
                self.region()
            self.out.append("%SR*%")
        elif self.apertures:
            self.out.append(f"{r.choice(['G54', ''])}{r.choice(self.apertures)}*")
            if r.random() < 0.3:
                self.out.append("G55*")
            self.out.append(f"{self.xy()}D03*")


def source(rng: random.Random, size: int = 8, kind: str = "valid", ascii_only: bool = True) -> str:
    """kind: valid | syntax | runtime | nofs | midstop | empty | zero"""
    g = G(rng, ascii_only)
    if kind == "empty":
        return rng.choice(["", "\n", "G04 nothing*\nM02*\n"])
    g.header(fs=kind != "nofs")
    if kind == "zero":
        # nothing of it has an area
        g.out += ["%ADD10R,0X0.5*%", "D10*", f"{g.xy()}D03*", "M02*"]
        return "\n".join(g.out) + "\n"
    for _ in range(rng.randrange(1, 3 + size // 4)):
        g.aperture()
    if rng.random() < 0.5:
        g.out.append("G01*")
    for _ in range(rng.randrange(1, max(2, size))):
        g.draw()
        if rng.random() < 0.1:
            g.aperture()
    if g.apertures:
        g.out.append(f"{g.apertures[0]}*")
        g.out.append(f"{g.xy()}D03*")
    if kind == "runtime":
        at = rng.randrange(len(g.out) // 2, len(g.out) + 1)
        k = rng.randrange(6)
        if k == 3 and g.trailing:
            k = 0
        g.out[at:at] = [["D99*", "X0Y0D03*"], ["G74*", "G03*", "X0Y0D02*", "X100Y100I100J0D01*"], ["G91*", f"{g.xy()}D03*"],
                        ["X123456789012Y0D03*"], ["%ADD97NOSUCH,1*%", "D97*", "X0Y0D03*"], ["D99*", "X0Y0D03*"]][k]
        if k == 5:
            # nothing is selected yet
            g.out.insert(next((i for i, c in enumerate(g.out) if c.startswith("%MO") or c in ("G70*", "G71*")), 0) + 1,
                         "X0Y0D03*")
    if kind == "syntax":
        at = rng.randrange(0, len(g.out) + 1)
        g.out.insert(at, rng.choice(["garbage", "%ADD*%", "D", "%", "G", "X1Y1D77777*", "%LPQ*%", "\x00"]))
    if kind == "midstop":
        at = rng.randrange(len(g.out) // 2, len(g.out) + 1)
        g.out.insert(at, "M02*")
    if rng.random() < 0.9:
        g.out.append("M02*")
    sep = rng.choice(["\n", "\n", "\n", "\n", "\r\n", "\n\n", ""] if g.rich else ["\n"])
    return sep.join(g.out) + rng.choice(["\n", ""])


TWIN = 10000
_DECIMAL = re.compile(r"-?\d*\.\d+")
_TRANSFORM = re.compile(r"%L([RS])(-?\d+(?:\.\d*)?)\*%")
_AD = re.compile(r"%ADD(\d+)([^*]*)\*%")
_AM = re.compile(r"%AM[^%]*%")
_XY = re.compile(r"([XY])(-?\d+)")


def _add(text: str, eps: float) -> str:
    return f"{float(text) + eps:.9f}".rstrip("0").rstrip(".")


def twin(text: str, k: int) -> str:
    """A source nearly like another one: what separates them is only a little of the given kind."""
    if k <= 4:  # all sizes, rotations and scales are nearly the same
        eps = {1: 1e-5, 2: 3e-4, 3: 2e-7, 4: -2e-3}[k]
        text = _AD.sub(lambda m: _DECIMAL.sub(lambda x: _add(x[0], eps), m[0]), text)
        return _TRANSFORM.sub(lambda m: f"%L{m[1]}{_add(m[2], eps)}*%", text)
    if k == 5:  # aperture codes name each other's shapes
        found = _AD.findall(text)
        if len(found) < 2 or found[0][0] == found[1][0]:
            return text
        swap = {found[0][0]: found[1][1], found[1][0]: found[0][1]}
        return _AD.sub(lambda m: f"%ADD{m[1]}{swap.get(m[1], m[2])}*%", text)
    if k == 6:  # same macros by name, with another body
        return _AM.sub(lambda m: _DECIMAL.sub(lambda x: _add(x[0], 0.05), m[0]), text)
    if k == 7:  # one digit of the coordinates
        def digit(m: Any) -> str:
            return m[1] + m[2][:-1] + str((int(m[2][-1]) + 1) % 10)

        return "\n".join(line if "%" in line else _XY.sub(digit, line) for line in text.split("\n"))
    if k == 8:  # comments
        return re.sub(r"G04 (\w)", lambda m: "G04 " + ("x" if m[1] != "x" else "y"), text)
    if k in (12, 13):  # what tells the kind of file comes late, or after something the parser does not know
        lines = [line for line in text.split("\n") if "%TF.FileFunction" not in line]
        at = max(len(lines) - 3, 1)
        lines[at:at] = ["FOO*"] * (k == 12) + ["%TF.FileFunction,Copper,L1,Top*%"]
        return "\n".join(lines)
    return large(text, k)


def large(text: str, k: int) -> str:
    """The source made long: by one comment, by many lines or by many drawing commands."""
    lines = text.split("\n")
    at = max(1, len(lines) // 2)
    if k == 9:
        lines.insert(at, "G04 " + "0123456789 long µ comment " * 4000 + "*")
    elif k == 10:
        lines[at:at] = [f"G04 line {i}*" for i in range(1100)]
    else:
        last = next((i for i in range(len(lines) - 1, -1, -1) if lines[i].endswith("D03*") and len(lines[i]) < 60), None)
        if last is not None:
            more = [_XY.sub(lambda m, i=i: f"{m[1]}{m[2][:-1]}{i % 10}", lines[last]) for i in range(300)]
            lines[last:last] = more
    return "\n".join(lines)


def twin_of(rng: random.Random, n: int) -> int:
    return n % TWIN + TWIN * rng.randrange(1, 9)


def vary(text: str, i: int) -> str:
    """The i-th source of a long series with the same structure: sizes, coordinates and a comment differ."""
    text = _AD.sub(lambda m: _DECIMAL.sub(lambda x: _add(x[0], 1e-6 * (i + 1)), m[0]), text)
    text = "\n".join(line if "%" in line or "G04" in line else
                     _XY.sub(lambda m: m[1] + m[2][:-1] + str((int(m[2][-1]) + i) % 10), line) for line in text.split("\n"))
    return f"G04 number {i}*\n" + text


def numbered(n: int) -> str:
    if n >= 100 * TWIN:
        return vary(_numbered(n % TWIN), n // TWIN - 100)
    return _numbered(n)


@lru_cache(maxsize=4096)
def _numbered(n: int) -> str:
    """Source number n of a fixed, seed-independent pool (references memoise well)."""
    if n >= TWIN:
        return twin(numbered(n % TWIN), n // TWIN)
    rng = random.Random(f"pool:{n}")
    kind = "valid"
    if n % 11 == 7:
        kind = "syntax"
    elif n % 11 == 9:
        kind = "runtime"
    elif n % 7 == 4:
        kind = "midstop"
    elif n % 37 == 5:
        kind = "nofs"
    elif n % 53 == 3:
        kind = "empty"
    elif n % 29 == 20:
        kind = "zero"
    return source(rng, size=rng.choice([3, 8, 16, 24]), kind=kind, ascii_only=n % 5 != 0)


def is_expected_bad(n: int) -> bool:
    n %= TWIN
    return n % 11 in (7, 9) or n % 37 == 5 or n % 53 == 3 or n % 29 == 20


def pick(rng: random.Random, bad: float = 0.15, pool: int = 220) -> int:
    for _ in range(50):
        n = rng.randrange(pool)
        if is_expected_bad(n) == (rng.random() < bad):
            return n if rng.random() < 0.98 else n + TWIN * rng.randrange(9, 12)
    return 0
