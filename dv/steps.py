"""Member functions of the main object, which owns the global vectors and drives blocks, contact, boundary conditions and output."""
import os
import re

from . import blocks, classes, extract
from . import terms as T
from .blocks import number, obj
from .classes import assign_all, data_of, snap_reader, vec_obj
from .contract import Unit
from .ir import Unsupported
from .sym import Eff, NULL, Ptr, UNDEF
from .terms import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAYOUT = os.path.join(ROOT, "drivers/layout.cpp")
_at = {}
VECTORS = "x u y v a force externalForce contactForce scratch deltaU".split()
SCALARS = "density volume temperature deltaTemperature concentration fluidPressureU fluidPressureY fluidPressureV fluidPressureDeltaU fluxDivergence concentrationFluxDivergence fluidFlow".split()
OBJECTS = "workset modelEvaluator boundaryAndInitialConditionManager contactManager outputManager dataLoader peridigmParams out".split()
OUTPUT = [f + "@NP1" for f in ("Coordinates", "Displacement", "Velocity", "Force_Density", "External_Force_Density", "Contact_Force_Density")]
IDS = {"coordinates": "Coordinates", "displacement": "Displacement", "velocity": "Velocity", "acceleration": "Acceleration", "temperature": "Temperature",
       "deltaTemperature": "Temperature_Change", "concentration": "Concentration", "forceDensity": "Force_Density", "contactForceDensity": "Contact_Force_Density",
       "externalForceDensity": "External_Force_Density", "fluxDivergence": "Flux_Divergence", "concentrationFluxDivergence": "Concentration_Flux_Divergence",
       "fluidFlowDensity": "Flux_Density", "fluidPressureU": "Fluid_Pressure_U", "fluidPressureY": "Fluid_Pressure_Y", "fluidPressureV": "Fluid_Pressure_V"}


def at(cls, member):
    if not _at:
        for m in re.finditer(r"@at_([A-Za-z]+)_(\w+) = .*i64 (\d+)", extract.emit_ir(LAYOUT)):
            _at[m.group(1), m.group(2)] = int(m.group(3))
    return _at[cls, member]


def setter(ex, region, cls):
    """functions that set a member, or a member that is a reference-counted pointer"""
    def put(member, v, k=0):
        ex.mem[region].append(Eff([], ONE, P(at(cls, member) + 8 * k), 0, v))

    def rcp(member, p):
        for k, v in enumerate((p, NULL, ONE)):
            put(member, v, k)
    return put, rcp


def vectors(ex, region):
    """the vectors of the main object"""
    put, rcp = setter(ex, region, "Peridigm")
    for r in VECTORS + SCALARS:
        rcp(r, vec_obj(ex, r))
        ex.regions["vec:" + r].vtype = "Epetra_Vector"


def whole(ex, r, f):
    if r not in ex.regions:
        ex.array(r)
    assign_all(ex, r, f)


def place(table, idx, width):
    """entry of the vector on the other side: the point's position there, same component"""
    T.NONNEG.add(table)
    q = idiv(idx, width) if width > 1 else idx
    return width * rd(table, q, True) + (idx - width * q)


def local(k, idx, width=3):
    """position in the global vector of entry idx of a block's vector"""
    return place("of block %d" % k, idx, width)


def entry(k, idx, width=3):
    """position in a block's vector of entry idx of the global vector"""
    return place("in block %d" % k, idx, width)


def holds(k, p):
    """whether a block holds a point of the global vectors (as its own or as a neighbour's)"""
    return ind("lt", P(0) - rd("held by block %d" % k, p, True))


def width(region):
    return 1 if region in SCALARS else 3


def source(ex, p):
    """vector behind an RCP handed over by value (passed as a pointer to it)"""
    v = ex.load(p, None) if p.region.startswith("@obj") is None else ex.read(p.region, ex.index(p))
    return data_of(ex, v)


def h_import(ex, name, a, i):
    """the block's vector receives the values of the global vector at its points"""
    k = number(ex, a[0])
    n = classes.field_name(ex, a[2])
    if a[4].const() != ex.cfg["insert"]:
        raise Unsupported("import mode %s" % a[4])
    r = source(ex, a[1])
    f = snap_reader(ex, r)
    whole(ex, "B%d:%s%s" % (k, n, classes.STEPS[int(a[3].const())]), lambda idx: f(local(k, idx, width(r))))
    return UNDEF


def h_export(ex, name, a, i):
    """the global vector receives the block's values at the points the block holds (in this library the mode Add adds up what comes
    from other processes and replaces what is local); its other entries stay"""
    k = number(ex, a[0])
    n = classes.field_name(ex, a[2])
    t = source(ex, a[1])
    f = snap_reader(ex, t)
    r = "B%d:%s%s" % (k, n, classes.STEPS[int(a[3].const())])
    if r not in ex.regions:
        ex.array(r)
    g = snap_reader(ex, r)
    if a[4].const() != ex.cfg["add"]:
        raise Unsupported("export mode %s" % a[4])
    w = width(t)

    def value(idx):
        h = holds(k, idiv(idx, w) if w > 1 else idx)
        return h * g(entry(k, idx, w)) + (1 - h) * f(idx)
    whole(ex, t, value)
    return UNDEF


def note(ex, what):
    ex.__dict__.setdefault("events", []).append(what)


def h_eval(ex, name, a, i):
    """forces of the current state: arbitrary; the state they are evaluated in is kept"""
    n = ex.nevals = getattr(ex, "nevals", 0) + 1
    for k in (1, 2):
        for f in ("Coordinates@NP1", "Displacement@NP1", "Velocity@NP1"):
            r = "B%d:%s" % (k, f)
            if r in ex.regions:
                whole(ex, "eval%d:%s" % (n, r), snap_reader(ex, r))
        whole(ex, "B%d:Force_Density@NP1" % k, lambda idx, k=k: rd("force%d:%d" % (n, k), idx))
    ex.assumed.add("internal and contact forces of a configuration: arbitrary (under contract in C01-C11, C17)")
    whole(ex, "contact force", lambda idx: rd("contact%d" % n, idx))
    note(ex, "evaluate")
    return UNDEF


def h_bc(ex, name, a, i):
    """boundary conditions: the velocity becomes arbitrary (under contract in C20)"""
    n = ex.nbc = getattr(ex, "nbc", 0) + 1
    whole(ex, "before bc%d" % n, snap_reader(ex, "v"))
    whole(ex, "v", lambda idx: rd("bc%d:v" % n, idx))
    ex.__dict__.setdefault("times", []).append((ex.read(a[1].region, ex.index(a[1])), ex.read(a[2].region, ex.index(a[2]))))
    return UNDEF


def h_body(ex, name, a, i):
    n = ex.nbody = getattr(ex, "nbody", 0) + 1
    whole(ex, "externalForce", lambda idx: rd("body%d" % n, idx))
    ex.__dict__.setdefault("bodytimes", []).append((ex.read(a[1].region, ex.index(a[1])), ex.read(a[2].region, ex.index(a[2]))))
    return UNDEF


def h_contact_import(ex, name, a, i):
    n = ex.ncontact = getattr(ex, "ncontact", 0) + 1
    for w, p in zip(("volume", "y", "v"), a[1:]):
        whole(ex, "contact%d:%s" % (n, w), snap_reader(ex, source(ex, p)))
    return UNDEF


def h_contact_export(ex, name, a, i):
    whole(ex, source(ex, a[1]), snap_reader(ex, "contact force"))
    return UNDEF


def h_axpy(ex, name, a, i):
    """y += alpha x over the first n entries"""
    if a[5].const() != 1 or a[6].const() != 1:
        raise Unsupported("strided vector update")
    al, X, Y = a[2], a[3], a[4]
    if not (X.off.is_zero() and Y.off.is_zero()):
        raise Unsupported("vector update of a part")
    if str(a[1]) != str(3 * sym("len1", True)):
        raise Unsupported("vector update of %s entries" % a[1])
    f, g = snap_reader(ex, X.region), snap_reader(ex, Y.region)
    whole(ex, Y.region, lambda idx: g(idx) + al * f(idx))
    return UNDEF


def h_len(ex, name, a, i):
    r = data_of(ex, a[0])
    T.NONNEG.add("len1")
    return width(r) * sym("len1", True)


def h_output(ex, name, a, i):
    """what is written: the fields of the blocks"""
    n = ex.nout = getattr(ex, "nout", 0) + 1
    for k in (1, 2):
        for f in OUTPUT:
            whole(ex, "out%d:B%d:%s" % (n, k, f), snap_reader(ex, "B%d:%s" % (k, f)) if "B%d:%s" % (k, f) in ex.regions else lambda idx: rd("unset", idx))
    note(ex, "write")
    ex.__dict__.setdefault("outtimes", []).append(a[2])
    return UNDEF


def h_update(ex, name, a, i):
    note(ex, "advance %d" % number(ex, a[0]))
    return UNDEF


def void(ex, name, a, i):
    return UNDEF


PN = r"^_ZNK?10PeridigmNS"
HANDLERS = [(re.compile(rx), h) for rx, h in [
    (PN + r"9BlockBase10importDataE", h_import),
    (PN + r"9BlockBase10exportDataE", h_export),
    (PN + r"9BlockBase11updateStateEv$", h_update),
    (PN + r"14ModelEvaluator9evalModelE", h_eval),
    (PN + r"34BoundaryAndInitialConditionManager23applyBoundaryConditionsE", h_bc),
    (PN + r"34BoundaryAndInitialConditionManager23applyForceContributionsE", h_body),
    (PN + r"14ContactManager10importDataE", h_contact_import),
    (PN + r"14ContactManager10exportDataE", h_contact_export),
    (PN + r"14ContactManager9rebalanceE", void),
    (PN + r"5TimerC?\w*", void),
    (PN + r"22OutputManagerContainer5writeE", h_output),
    (PN + r"8Peridigm15displayProgressE", void),
    (PN + r"10DataLoader8loadDataE", void),
    (PN + r"9BlockBase18getDamageModelNameB5cxx11Ev$|" + PN[1:] + r"5Block18getDamageModelNameB5cxx11Ev$", lambda ex, n, a, i: (classes.put_str(ex, a[0], "None"), UNDEF)[1]),
    (r"ComputeCriticalTimeStepE", lambda ex, n, a, i: sym("critical%d" % number(ex, a[1]))),
    (r"^_ZNK11Epetra_BLAS4AXPYEidPKdPdii$", h_axpy),
    (r"^_ZNK18Epetra_MultiVector8MyLengthEv$", h_len),
    (PN + r"18DamageModelFactory", void),
    (r"^_ZStlsI|^_ZNSolsE|^_ZNSo", void),
]]


class Body_(Unit):
    """a member function of the main object on two blocks, from an arbitrary state of the global vectors"""

    def __init__(self, entry, flags=None, cfg=None, tus=("src/core/Peridigm.cpp",), nblocks=2, name=None, args=None, handlers=()):
        self.entry, self.flags, self.cfg, self.tus, self.nblocks = entry, dict(flags or {}), dict(cfg or {}), list(tus), nblocks
        self.name = name or entry
        self.args = args
        self.handlers = list(handlers)

    def sources(self):
        return self.tus + [LAYOUT, blocks.SLOTS]

    def build_key(self):
        return ("body",)

    def build(self):
        pass

    def sym(self):
        c = classes.Class("Peridigm", self.tus, self.cfg)
        ex = c.exec(self.handlers + HANDLERS + blocks.HANDLERS)
        ex.cls = c
        ex.vecs, ex.fspec = {}, {}
        ex.cfg.setdefault("insert", 2)
        ex.cfg.setdefault("add", 0)
        m = ex.mods[0]
        ex.block_size = m.size_align(m.named('%"class.PeridigmNS::Block"'))[0]
        self.members(ex)
        args = [Ptr("this", ZERO)] + (self.args(ex, c) if self.args else [])
        ex.ret = c.call(ex, self.entry, args, len(args))
        return ex

    def members(self, ex):
        put, rcp = setter(ex, "this", "Peridigm")
        vectors(ex, "this")
        ex.array("contact force")
        for n in OBJECTS:
            rcp(n, obj(ex, "@" + n))
        rcp("peridigmComm", obj(ex, "COMM", "Epetra_Comm"))
        rcp("blocks", obj(ex, "@obj:blocks"))
        ex.obj("@blocks")
        for k, off in ((0, 0), (1, self.nblocks), (2, self.nblocks)):
            ex.mem["@obj:blocks"].append(Eff([], ONE, P(8 * k), 0, Ptr("@blocks", P(off * ex.block_size))))
        rcp("contactBlocks", obj(ex, "@obj:contactBlocks"))
        ex.obj("@contactBlocks")
        for k in range(3):
            ex.mem["@obj:contactBlocks"].append(Eff([], ONE, P(8 * k), 0, Ptr("@contactBlocks", ZERO)))
        for f in ("analysisHasContact", "analysisHasMultiphysics", "analysisHasDataLoader", "analysisHasReadRestart"):
            put(f, P(int(self.flags.get(f, False))))
        for n, f in IDS.items():
            put(n + "FieldId", P(classes.field_id(ex, f)))
