"""Regular grids: the points of one-, two- and three-dimensional and ring-shaped grids."""
import math
import os
import re
import subprocess
import tempfile

from . import classes, concrete
from . import terms as T
from .blocks import ROOT, obj
from .concrete import Case, EvalError
from .contract import Unit
from .ir import Unsupported
from .sym import Eff, Ptr, UNDEF
from .terms import *

TU = "src/io/mesh_input/quick_grid/QuickGrid.cxx"
DRIVER = os.path.join(ROOT, "drivers/grid_driver.cpp")
N = {a: sym("n" + a, True) for a in "xyz"}
X0 = {a: sym("x0" + a) for a in "xyz"}
L = {a: sym("L" + a) for a in "xyz"}


def h_array(ex, name, a, i):
    r = ex.fresh("grid")
    ex.array(r)
    ex.regions[r].heap = True
    ex.regions[a[0].region].holds = r
    return UNDEF


def h_get(ex, name, a, i):
    r = getattr(ex.regions[a[0].region], "holds", None)
    if r is None:
        raise Unsupported("array %s" % a[0].region)
    return Ptr(r, ZERO)


HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^_ZN9UTILITIES5ArrayI[di]EC[12]Em$", h_array),
    (r"^_ZNK?9UTILITIES5ArrayI[di]E3getEv$", h_get),
    (r"^_ZN9UTILITIES5ArrayI[di]ED[12]Ev$", lambda ex, n, a, i: UNDEF),
]]


NRI, NRA, NCELL = sym("numRings", True), sym("numRays", True), sym("numCells", True)
RI, RO = sym("rI"), sym("r0")


def h_ring(ex, name, a, i):
    """the points of the ring by the contract of that function: any values, one point after another"""
    ex.array("ring")
    ex.regions[a[0].region].holds = "ring"
    return UNDEF


SIGNATURE = {"line": "RKNS_6Spec1DE", "square": "RKNS_6Spec1DES2_", "box": "RKNS_6Spec1DES2_S2_", "ring": "RKNS_10SpecRing2DE",
             "tube": "RKNS_10SpecRing2DERKNS_6Spec1DE"}
ENTRY = "_ZN9QUICKGRID17getDiscretizationE"
_exe = []


def run(lines):
    if not _exe:
        _exe.append(concrete.link(concrete.compile_all([DRIVER, TU])))
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([_exe[0], f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV)
    finally:
        os.unlink(f.name)
    if r.returncode:
        raise EvalError("the driver exited with status %d: %s" % (r.returncode, r.stderr.decode()[-400:]))
    return [[float(x) for x in l.split()] for l in r.stdout.decode().split("\n")][:len(lines)]


def spec(c, rng, a, most=5):
    c.scalars.update({"n" + a: rng.randint(1, most), "x0" + a: rng.uniform(-2, 2), "L" + a: rng.uniform(0.1, 3)})
    return "%d %.17g %.17g" % (c.scalars["n" + a], c.scalars["x0" + a], c.scalars["L" + a])


def ring(c, rng):
    ri = rng.choice([rng.uniform(0.2, 2), 0.25])
    c.scalars.update(c0=rng.uniform(-2, 2), c1=rng.uniform(-2, 2), c2=rng.uniform(-2, 2), rI=ri, r0=ri + rng.uniform(0.2, 2), numRings=rng.randint(1, 4))
    return " ".join("%.17g" % c.scalars[k] for k in "c0 c1 c2 rI r0".split()) + " %d" % c.scalars["numRings"]


class Points_(Unit):
    """the points of a grid along the axes, or of a ring, or of a ring along an axis"""
    entry = "getDiscretization"

    def __init__(self, kind, params):
        self.kind, self.params, self.name = kind, params, kind

    def sources(self):
        return [TU]

    def build_key(self):
        return ("grid",)

    def build(self):
        pass

    def sym(self):
        c = classes.Class("", [TU])
        hs = HANDLERS
        if self.kind == "tube":
            hs = [(re.compile("^%s%s$" % (ENTRY, SIGNATURE["ring"])), h_ring)] + hs
        ex = c.exec(hs)
        ex.cls = c
        T.NONNEG.update("nx ny nz Lx Ly Lz numRings numRays numCells rI r0".split())
        ex.row = {"line": 1, "square": 2}.get(self.kind, 3)
        T.WIDTHS[:] = {"ring": [NRI], "tube": [NCELL]}.get(self.kind, [N["x"], N["y"]])
        args = []
        for p in self.params:
            r = "@spec:" + p
            obj(ex, r)
            vals = [N[p], X0[p], L[p]] if p != "r" else [sym("c0"), sym("c1"), sym("c2"), RI, RO, NRI, NRA, NCELL]
            for k, v in enumerate(vals):
                ex.mem[r].append(Eff([], ONE, P(8 * k), 0, v))
            args.append(Ptr(r, ZERO))
        obj(ex, "@result")
        ex.run_function(ex.mods[0].function(ENTRY + SIGNATURE[self.kind]), [Ptr("@result", ZERO)] + args)
        r = ex.regions["@result"].holds
        ex.regions["points"] = ex.regions[r]
        ex.mem["points"] = ex.mem[r]
        return ex

    def conc(self, rng):
        c = Case()
        text = " ".join(ring(c, rng) if p == "r" else spec(c, rng, p) for p in self.params)
        got, = run(["%s %s" % (self.kind, text)])
        if "r" in self.params:
            c.scalars["numRays"], got = int(got[0]), got[1:]
            c.scalars["numCells"] = c.scalars["numRays"] * c.scalars["numRings"]
        if self.kind == "tube":
            c.arrays["ring"] = run(["ring " + text])[0][1:]
        c.arrays["points"] = [0.0] * len(got)
        return c, {"points": got}


class Cells_(Unit):
    """cells of a mesh generator over any number of parts; concrete only"""
    entry = "computePdGridData"

    def __init__(self, kind, after_core=False):
        self.kind, self.name, self.after_core = kind, kind, after_core

    def sources(self):
        return [TU]

    def build_key(self):
        return ("cells",)

    def build(self):
        pass

    def conc(self, rng):
        c = Case()
        s = c.scalars
        while True:
            procs = rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 11])
            if self.kind == "cells":
                text = "%d %.17g " % (procs, rng.uniform(0.1, 2)) + " ".join(spec(c, rng, a, 4) for a in "xyz")
            elif self.kind == "cylinder":
                text = "%d %.17g " % (procs, rng.uniform(0.1, 1)) + ring(c, rng) + " " + spec(c, rng, "z", 4)
            else:
                s.update(R=rng.uniform(0.3, 2), numRings=rng.randint(1, 3), x0z=rng.uniform(-2, 2), Lz=rng.uniform(0.2, 3))
                text = "%d %.17g %d %.17g %.17g" % (procs, s["R"], s["numRings"], s["x0z"], s["Lz"])
            got, = run(["%s %s" % (self.kind, text)])
            if self.kind == "cylinder":
                s["numRays"], got = int(got[0]), got[1:]
            rows = sorted([got[i:i + 6] for i in range(0, len(got), 6)], key=lambda r: r[1])
            want = self.cells(s)
            if self.kind != "solid":
                break
            # a part that ends just after the cell on the axis
            each = len(want) // procs
            disc = int(len(want) / s["nz"])
            if any(m * each % disc == 1 for m in range(1, procs)) == self.after_core:
                break
        n = max(len(want), len(rows))
        inf = float("inf")
        s["n"] = n
        c.parts = text
        names = "id x y z volume".split()
        outs = {}
        for k, nm in enumerate(names):
            c.arrays["want " + nm] = [float(w[k]) for w in want] + [inf] * (n - len(want))
            outs["got " + nm] = [r[k + 1] for r in rows] + [-inf] * (n - len(rows))
            c.arrays["got " + nm] = [0.0] * n
        c.arrays["want total"], c.arrays["got total"] = [self.body(s)], [0.0]
        outs["got total"] = [math.fsum(r[5] for r in rows)]
        return c, outs

    def cells(self, s):
        """every cell: identifier, point, volume"""
        mid = lambda a, i: s["x0" + a] + (i + 0.5) * s["L" + a] / s["n" + a]
        if self.kind == "cells":
            v = s["Lx"] / s["nx"] * s["Ly"] / s["ny"] * s["Lz"] / s["nz"]
            ijk = [(i, j, k) for k in range(s["nz"]) for j in range(s["ny"]) for i in range(s["nx"])]
            return [(g, mid("x", i), mid("y", j), mid("z", k), v) for g, (i, j, k) in enumerate(ijk)]
        if self.kind == "solid":
            ri = s["R"] / s["numRings"] / math.sqrt(math.pi)
            ro, c0, c1 = s["R"], 0, 0
            s["numRays"] = int(2 * math.pi / (2 * math.sqrt(math.pi) / (math.sqrt(math.pi) * s["numRings"] + 1))) + 1
            s["nz"] = int(s["Lz"] / ((ro - ri) / s["numRings"])) + 1
        else:
            ri, ro, c0, c1 = s["rI"], s["r0"], s["c0"], s["c1"]
        dr, dt, dz = (ro - ri) / s["numRings"], 2 * math.pi / s["numRays"], s["Lz"] / s["nz"]
        out = []
        for k in range(s["nz"]):
            if self.kind == "solid":
                out.append((len(out), 0, 0, mid("z", k), math.pi * ri * ri * dz))
            for j in range(s["numRays"]):
                for i in range(s["numRings"]):
                    r, t = ri + (i + 0.5) * dr, (j + 0.5) * dt
                    out.append((len(out), c0 + r * math.cos(t), c1 + r * math.sin(t), mid("z", k), r * dr * dt * dz))
        return out

    def body(self, s):
        if self.kind == "cells":
            return s["Lx"] * s["Ly"] * s["Lz"]
        if self.kind == "solid":
            return math.pi * s["R"] ** 2 * s["Lz"]
        return math.pi * (s["r0"] ** 2 - s["rI"] ** 2) * s["Lz"]
