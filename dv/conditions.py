"""Boundary and initial conditions: objects that assign values to the entries of vectors named by node sets."""
import os
import re
import subprocess
import tempfile

from . import classes, concrete, steps
from . import terms as T
from .blocks import ROOT, SLOTS, obj, virt
from .classes import data_of, put_str, strval, vec_obj
from .concrete import Case, EvalError
from .contract import Unit
from .ir import Unsupported
from .steps import LAYOUT, at, setter, vectors, width, void
from .sym import Eff, Ptr, UNDEF
from .terms import *

BC, MANAGER, DOF = "src/core/Peridigm_BoundaryCondition.cpp", "src/core/Peridigm_BoundaryAndInitialConditionManager.cpp", "src/core/Peridigm_DegreesOfFreedomManager.cpp"
ENUMS = "src/core/Peridigm_Enums.cpp"
TYPES = "PRESCRIBED_DISPLACEMENT INITIAL_DISPLACEMENT INITIAL_VELOCITY PRESCRIBED_FLUID_PRESSURE_U INITIAL_FLUID_PRESSURE_U INITIAL_TEMPERATURE PRESCRIBED_TEMPERATURE THERMAL_FLUX BODY_FORCE".split()


def listed(name):
    """position named by the entry at ANY of a node set in a map with one element per point"""
    return rd("LID", rd("nodes:" + name, T.ANY, True), True)


def inset(name, p):
    return T.member(listed(name), sym("n:" + name, True), p)


def node_set(ex, name):
    r = "@set:" + name
    if r not in ex.regions:
        ex.obj(r)
        ex.array("nodes:" + name, isint=True, esz=4)
        T.NONNEG.update(["n:" + name, "nodes:" + name])
        for k, off in ((0, ZERO), (1, sym("n:" + name, True)), (2, sym("n:" + name, True))):
            ex.mem[r].append(Eff([], ONE, P(64 + 8 * k), 0, Ptr("nodes:" + name, 4 * off)))
    return Ptr(r, ZERO)


def h_find(ex, name, a, i):
    n = strval(ex, a[1])
    return node_set(ex, n) if n in ex.cfg.get("sets", ()) else Ptr("@set:none", ZERO)


def h_map(ex, name, a, i):
    r = "@map:" + data_of(ex, a[0])
    return obj(ex, r)


def h_virtual(ex, name, a, i):
    n = virt(name)
    if n != "Map":
        raise Unsupported("virtual function %s of a vector" % n)
    return h_map(ex, name, a, i)


def h_lid(ex, name, a, i):
    """local position of a point; of a degree of freedom of a point, in maps that list them point by point"""
    n = ex.cfg.get("per point", 1)
    if n == 1:
        return rd("LID", a[1], True)
    ex.assumed.add("nodes of the node sets are local; degrees of freedom are numbered point by point")
    c = a[1].t.get((), 0)
    return n * rd("LID", (a[1] - c).scale(T.Fraction(1, n)), True) + c


def h_elsize(ex, name, a, i):
    return P(ex.cfg.get("element size", width(a[0].region[5:])))


def h_tidy(ex, name, a, i):
    put_str(ex, a[0], strval(ex, a[0]).upper().strip(" ").replace(" ", "_"))
    return UNDEF


def text(ex, what):
    v = ex.cfg["values"].get(what)
    if not isinstance(v, str):
        raise Unsupported("value of %s" % what)
    return v.upper().strip(" ").replace(" ", "_")


def h_type(ex, name, a, i):
    ex.assumed.add("names of conditions and coordinates: read as the enumerators of the same name")
    return P(TYPES.index(text(ex, "Type")))


def h_coord(ex, name, a, i):
    return P("XYZ".index(text(ex, "Coordinate"))) if "Coordinate" in ex.cfg["values"] else ZERO


def h_istype(ex, name, a, i):
    return ONE if isinstance(ex.cfg["values"].get(strval(ex, a[1])), Poly) else ZERO


# streams: the text of a number stands for the number where enough digits are written, for a rounded one otherwise
def stream(ex, p):
    return ex.__dict__.setdefault("streams", {}).setdefault(p.region, {"text": "", "digits": 6})


def h_stream(ex, name, a, i):
    ex.__dict__.setdefault("streams", {})[a[0].region] = {"text": "", "digits": 6}
    ex.regions[a[0].region].vtype = "stream"
    obj(ex, "@VT:stream")
    ex.mem["@VT:stream"] = [Eff([], ONE, P(-24), 0, ZERO)]
    return UNDEF


def h_digits(ex, name, a, i):
    stream(ex, a[0])["digits"] = int(a[1].const())
    return a[0]


def h_number(ex, name, a, i):
    st = stream(ex, a[0])
    ns = ex.__dict__.setdefault("numbers", [])
    ns.append(a[1] if st["digits"] >= 17 else fn("rounded", a[1], P(st["digits"])))
    st["text"] += "number %d" % (len(ns) - 1)
    return a[0]


def h_content(ex, name, a, i):
    put_str(ex, a[0], stream(ex, a[1])["text"])
    return UNDEF


def h_setstr(ex, name, a, i):
    n = strval(ex, a[1])
    ex.cfg["values"][n] = strval(ex, a[2])
    if "param:" + n in ex.regions:
        put_str(ex, Ptr("param:" + n, ZERO), strval(ex, a[2]))
    return a[0]


def h_exec(ex, name, a, i):
    st = classes.rtc(ex, a[0])
    m = re.match(r"value *= *number (\d+)$", st["body"])
    if not m:
        return classes.h_rtc_exec(ex, name, a, i)
    st["out"]["value"] = ex.numbers[int(m.group(1))]
    return ONE


STREAM = r"NSt7__cxx111\d+basic_(o|i|)stringstreamIcSt11char_traitsIcESaIcEE"
HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^_ZNSt3mapINSt7__cxx1112basic_string.*St6vectorIiSaIiEE.*E4findERS", h_find),
    (r"^_ZNSt3mapINSt7__cxx1112basic_string.*St6vectorIiSaIiEE.*E3endEv$", lambda ex, n, a, i: obj(ex, "@set:none")),
    (r"^_ZNK17Epetra_DistObject3MapEv$", h_map),
    (r"^virt:Epetra_Vector:", h_virtual),
    (r"^_ZNK15Epetra_BlockMap3LIDEi$", h_lid),
    (r"^_ZNK15Epetra_BlockMap11ElementSizeEv$", h_elsize),
    (r"^_ZNK7Teuchos13ParameterList6isTypeIdEE", h_istype),
    (r"^_ZN7Teuchos13ParameterList3setINSt7__cxx1112basic_string", h_setstr),
    (r"^_Z" + STREAM + r"C[12]E", h_stream),
    (r"^_ZNK" + STREAM[1:] + r"3strEv", h_content),
    (r"^_ZNSolsEd$", h_number),
    (r"^_ZStls.*St13_Setprecision|^_ZNSt8ios_base9precisionEl$", h_digits),
    (r"^_ZN18PG_RuntimeCompiler8Function7executeE", h_exec),
    (r"^_Z18create_string_mapsv$", void),
    (r"^_Z11tidy_string", h_tidy),
    (r"^_Z26to_boundary_condition_typeRKN7Teuchos13ParameterListE$", h_type),
    (r"^_Z21to_spatial_coordinateRKN7Teuchos13ParameterListE$", h_coord),
    (r"^_ZN10PeridigmNS23DegreesOfFreedomManager4selfEv$", lambda ex, n, a, i: obj(ex, "@dof")),
    (r"^_ZNK?10PeridigmNS5Timer", void),
]]


def vector(ex, r):
    """reference-counted pointer to a vector"""
    n = "@rcp:vec:" + r
    ex.obj(n)
    for k, v in enumerate((vec_obj(ex, r), Ptr(None, ZERO), ONE)):
        ex.mem[n].append(Eff([], ONE, P(8 * k), 0, v))
    ex.regions["vec:" + r].vtype = "Epetra_Vector"
    return Ptr(n, ZERO)


DRIVER = os.path.join(ROOT, "drivers/condition_driver.cpp")
LINK = [BC, MANAGER, DOF, ENUMS, "src/core/Peridigm_Timer.cpp"]
_exe = []
# functions a user may write, as text and as what the text means
FUNCTIONS = [("1.5*x + y*t - 0.7*z", lambda x, y, z, t, v: 1.5 * x + y * t - 0.7 * z), ("0.25", lambda x, y, z, t, v: 0.25),
             ("value = x*t*t - z", lambda x, y, z, t, v: x * t * t - z), ("y - 0.5*x*z", lambda x, y, z, t, v: y - 0.5 * x * z)]


class Run:
    """the real code on vectors over a few points, through drivers/condition_driver.cpp"""
    local_sets = False
    wide = {}

    def exe(self):
        if not _exe:
            _exe.append(concrete.link(concrete.compile_all([DRIVER] + LINK)))
        return _exe[0]

    def case(self, rng, sets):
        c = Case()
        c.N = rng.randint(2, 5)
        ids = rng.sample(range(c.N + 3), c.N)
        c.ids = ids
        lid = [-1] * (c.N + 3)
        for k, g in enumerate(ids):
            lid[g] = k
        c.arrays["LID"] = lid
        c.scalars["len1"] = c.N
        c.scalars["t0"] = rng.choice([0.0, 0.5, rng.uniform(0.1, 1.0)])
        c.scalars["t"] = c.scalars["t0"] if rng.random() < 0.15 else c.scalars["t0"] + rng.uniform(0.1, 1.0)
        for n in sets:
            pool = ids if self.local_sets else range(c.N + 3)
            c.arrays["nodes:" + n] = [g for g in pool if rng.random() < 0.6]
            c.scalars["n:" + n] = len(c.arrays["nodes:" + n])
        for r in steps.VECTORS + [r for r in steps.SCALARS if r not in ("fluxDivergence", "concentrationFluxDivergence", "fluidFlow")] + ["reaction"]:
            c.arrays[r] = [rng.uniform(-1.5, 1.5) for _ in range(c.N * self.wide.get(r, width(r)))]
        c.lines = []
        return c

    def go(self, c, sets, flat=()):
        ls = ["ids|" + " ".join(map(str, c.ids))]
        for r, v in c.arrays.items():
            if r in steps.VECTORS + steps.SCALARS + ["reaction"]:
                ls.append("vec|%s|%d|%s|%s" % (r, self.wide.get(r, width(r)), "flat" if r in flat else "", " ".join("%.17g" % x for x in v)))
        ls += ["set|%s|%s" % (n, " ".join(map(str, c.arrays["nodes:" + n]))) for n in sets]
        ls += ["times|%.17g|%.17g" % (c.scalars["t"], c.scalars["t0"])] + c.lines
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write("\n".join(ls) + "\n")
        try:
            r = subprocess.run([self.exe(), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV, cwd=tempfile.gettempdir())
        finally:
            os.unlink(f.name)
        if r.returncode:
            raise EvalError("the driver exited with status %d: %s" % (r.returncode, r.stderr.decode()[-400:]))
        outs, c.applied = {}, []
        for ln in r.stdout.decode().split("\n"):
            f = ln.split("|")
            if f[0] == "OUT":
                outs[f[1]] = [float(x) for x in f[3].split()]
            elif f[0] == "APPLIED":
                c.applied.append((int(f[1]), P(Fraction(float(f[2]))), P(Fraction(float(f[3])))))
        return outs


class Condition_(Run, Unit):
    """a condition from its constructor on, applied at arbitrary times to arbitrary vectors"""

    def __init__(self, cls, target, values, extra=(), cfg=None, name=None):
        self.cls, self.target, self.extra = cls, target, list(extra)
        self.cfg = dict(cfg or {})
        self.cfg["values"] = dict(values)
        self.cfg.setdefault("present", {})["Coordinate"] = "Coordinate" in values
        self.cfg.setdefault("sets", (values["Node Set"].upper(),))
        self.tus = [BC, ENUMS]
        self.name = name or cls

    def sources(self):
        return self.tus + [LAYOUT, SLOTS]

    def build_key(self):
        return ("condition",)

    def build(self):
        pass

    def conc(self, rng):
        v = self.cfg["values"]
        sets = [v["Node Set"].upper()]
        c = self.case(rng, sets)
        txt, f = rng.choice(FUNCTIONS)
        c.funcs["rtc:value:value = f"] = f
        c.scalars.update({k: rng.uniform(-1, 1) for k in ("ca", "cb", "number")})
        for n, x in v.items():
            c.lines.append("double|%s|%.17g" % (n, c.scalars["number"]) if isinstance(x, Poly) else "string|%s|%s" % (n, txt if n == "Value" else x))
        c.lines.append("extra|" + " ".join("%.17g" % (e.const() if isinstance(e, Poly) else c.scalars[e]) for e in self.extra))
        c.lines.append("class|%s|%s" % (self.cls, self.target))
        return c, self.go(c, sets)

    def sym(self):
        c = classes.Class(self.cls, self.tus, self.cfg)
        ex = c.exec(HANDLERS)
        ex.cls = c
        ex.vecs, ex.fspec = {}, {}
        ex.obj("@peridigm")
        vectors(ex, "@peridigm")
        ex.obj("@name")
        put_str(ex, Ptr("@name", ZERO), "condition")
        ex.obj("@rcp:to")
        for k, v in enumerate((vec_obj(ex, self.target), Ptr(None, ZERO), ONE)):
            ex.mem["@rcp:to"].append(Eff([], ONE, P(8 * k), 0, v))
        args = [Ptr("this", ZERO), Ptr("@name", ZERO), Ptr("PL", ZERO), Ptr("@rcp:to", ZERO), Ptr("@peridigm", ZERO)]
        args += [e if isinstance(e, Poly) else c.byref(ex, e) for e in self.extra]
        c.call(ex, self.cls, args, len(args))
        c.call(ex, "apply", [Ptr("this", ZERO), c.rcp(ex, "sets"), c.byref(ex, "t"), c.byref(ex, "t0")], 4)
        return ex


def h_apply(ex, name, a, i):
    """a condition of the list is applied: arbitrary effect on its vector"""
    if virt(name) != "apply":
        raise Unsupported("virtual function of a condition")
    k = int(a[0].region[3:])
    to = ex.cfg["conditions"][k - 1]["to"]
    n = len(ex.applied)
    f = classes.snap_reader(ex, to)
    steps.whole(ex, "before %d" % (n + 1), f)
    steps.whole(ex, to, lambda idx: rd("applied %d" % (n + 1), idx))
    ex.applied.append((k, ex.read(a[2].region, ex.index(a[2])), ex.read(a[3].region, ex.index(a[3]))))
    return UNDEF


class Manager_(Run, Unit):
    """a member function of the manager on given lists of conditions, each with its node set, type and component"""

    def __init__(self, entry, conditions, dofs=None, args=None, name=None, per=1, lst="boundaryConditions"):
        self.entry, self.conditions, self.dofs, self.args, self.lst, self.per = entry, list(conditions), dict(dofs or {}), args, lst, per
        self.tus = [MANAGER, DOF]
        self.name = name or entry

    def sources(self):
        return self.tus + [LAYOUT, SLOTS]

    def build_key(self):
        return ("manager",)

    def build(self):
        pass

    def conc(self, rng):
        sets = list(dict.fromkeys(d["set"] for d in self.conditions))
        self.local_sets = self.per > 1
        n = sum(w * self.dofs.get("Solve For " + f, 0) for f, w in (("Displacement", 3), ("Temperature", 1), ("Concentration", 1), ("Pressure", 1)))
        self.wide = {"force": n, "reaction": n} if n else {}
        c = self.case(rng, sets)
        c.lines.append("entry|%s|%s" % (self.entry, self.lst))
        c.lines += ["dof|%s|%d" % kv for kv in self.dofs.items()]
        for k, d in enumerate(self.conditions):
            c.lines.append("cond|%s|%s|%d|%s" % (d["type"], d["set"], d.get("coord", 0), d["to"]))
            c.arrays["applied %d" % (k + 1)] = [rng.uniform(-1, 1) for _ in c.arrays[d["to"]]]
            c.lines.append("fill|%d|%s" % (k + 1, " ".join("%.17g" % x for x in c.arrays["applied %d" % (k + 1)])))
        if self.entry.endswith("SetDiagonal"):
            d = n * c.N
            pat = [int(r == s or rng.random() < 0.7) for r in range(d) for s in range(d)]
            c.arrays["tangent"] = [x * rng.uniform(-2, 2) for x in pat]
            c.arrays["pattern"] = pat
            c.lines.append("tangent|%s|%s" % (" ".join("%.17g" % x for x in c.arrays["tangent"]), " ".join(map(str, pat))))
        return c, self.go(c, sets, ["force"] if self.entry.endswith("InsertZeros") else ())

    def sym(self):
        cfg = {"conditions": self.conditions, "sets": [c["set"] for c in self.conditions], "values": {k: P(v) for k, v in self.dofs.items()},
               "present": {k: True for k in self.dofs}, "element size": 1, "per point": self.per}
        c = classes.Class("BoundaryAndInitialConditionManager", self.tus, cfg)
        ex = c.exec([(re.compile(r"^virt:BoundaryCondition:"), h_apply)] + HANDLERS)
        ex.cls = c
        ex.vecs, ex.fspec = {}, {}
        ex.applied = []
        ex.obj("@peridigm")
        vectors(ex, "@peridigm")
        put, rcp = setter(ex, "this", "BoundaryAndInitialConditionManager")
        ex.mem["this"].append(Eff([], ONE, P(at("BoundaryAndInitialConditionManager", "peridigm")), 0, Ptr("@peridigm", ZERO)))
        rcp("nodeSets", obj(ex, "@obj:sets"))
        for l in ("boundaryConditions", "initialConditions", "forceContributions"):
            n = len(self.conditions) if l == self.lst else 0
            ex.obj("@list:" + l)
            for k, off in ((0, 0), (1, n), (2, n)):
                put(l, Ptr("@list:" + l, P(24 * off)), k)
        for k, d in enumerate(self.conditions):
            r = "@bc%d" % (k + 1)
            ex.obj(r)
            ex.regions[r].vtype = "BoundaryCondition"
            for q, v in enumerate((Ptr(r, ZERO), Ptr(None, ZERO), ONE)):
                ex.mem["@list:" + self.lst].append(Eff([], ONE, P(24 * k + 8 * q), 0, v))
            o = lambda m: P(at("BoundaryCondition", m))
            ex.mem[r].append(Eff([], ONE, o("bcType"), 0, P(TYPES.index(d["type"]))))
            ex.mem[r].append(Eff([], ONE, o("coord"), 0, P(d.get("coord", 0))))
            put_str(ex, Ptr(r, o("nodeSetName")), d["set"])
        obj(ex, "@dof")
        if self.dofs:
            for k in ("total_number_of_degrees_of_freedom_",):
                ex.mem["@dof"].append(Eff([], ONE, P(at("DegreesOfFreedomManager", k)), 0, ZERO))
            save, c.cls = c.cls, "DegreesOfFreedomManager"
            c.call(ex, "initialize", [Ptr("@dof", ZERO), Ptr("PL", ZERO)], 2)
            c.cls = save
        args = [Ptr("this", ZERO)] + (self.args(ex, c) if self.args else [])
        ex.ret = c.call(ex, self.entry, args, len(args))
        return ex


class Deck_(Run, Unit):
    """the manager set up from an input deck, then applied; concrete only"""
    tus = [MANAGER, BC, DOF, ENUMS]
    name = "input deck"

    def __init__(self, text_sets, mesh_sets, conditions, entry):
        self.text_sets, self.mesh_sets, self.conditions, self.entry = text_sets, mesh_sets, conditions, entry

    def sources(self):
        return self.tus

    def build_key(self):
        return ("deck",)

    def build(self):
        pass

    def conc(self, rng):
        with tempfile.TemporaryDirectory() as d:
            return self.deck(rng, d)

    def deck(self, rng, d):
        c = self.case(rng, list(self.text_sets) + self.mesh_sets)
        txt, f = rng.choice(FUNCTIONS)
        c.funcs["rtc:value:value = f"] = f
        c.scalars["number"] = rng.uniform(-1, 1)
        for n, label in self.text_sets.items():
            if not c.arrays["nodes:" + n]:
                c.arrays["nodes:" + n] = [c.ids[0]]
                c.scalars["n:" + n] = 1
            nums = [str(g + 1) for g in c.arrays["nodes:" + n]]
            if rng.random() < 0.5:      # the numbers are in a file, with comments
                name = os.path.join(d, "nodes_%s.txt" % n)
                k = rng.randint(0, len(nums))
                with open(name, "w") as f:
                    f.write("".join(l + "\n" for l in ("# %d 1" % c.N, "  " + " ".join(nums[:k]), "", "/ 1 2", "* 2", "  ")) + "\t ".join(nums[k:]) + rng.choice(["", "\n", "  \n\n"]))
                c.lines.append("text|%s|%s" % (label, name))
            else:
                c.lines.append("text|%s|%s" % (label, " ".join(nums)))
        for n in self.mesh_sets:
            c.lines.append("meshset|%s|%s" % (n, " ".join(map(str, c.arrays["nodes:" + n]))))
        for k, b in enumerate(self.conditions):
            kv = [("Type", b["type"]), ("Node Set", self.text_sets.get(b["set"], b["set"])), ("Value", "#%.17g" % c.scalars["number"] if b.get("number") else txt)]
            if "coord" in b:
                kv.append(("Coordinate", b["coord"]))
            c.lines.append("list|condition %d|%s" % (k, "|".join("%s|%s" % x for x in kv)))
        c.lines.append("entry|" + self.entry)
        return c, self.go(c, [])
