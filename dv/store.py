"""Field stores: values of fields at points and bonds, by state; copies, rebalance, scatter to ghosts and advance of the step."""
import os
import re
import subprocess
import tempfile
from fractions import Fraction

from . import blocks, classes, concrete
from . import terms as T
from .blocks import ROOT, obj
from .concrete import Case, EvalError
from .contract import Unit
from .ir import Unsupported
from .sym import Eff, NULL, Ptr, UNDEF
from .terms import *
from .steps import at, setter

STATE = "src/core/Peridigm_State.cpp"
MANAGER = "src/core/Peridigm_DataManager.cpp"
FIELD = "src/core/Peridigm_Field.cpp"
GLUE = os.path.join(ROOT, "drivers/store_glue.cpp")
DRIVER = os.path.join(ROOT, "drivers/store_driver.cpp")
NODE, ELEMENT, BOND, GLOBAL = 1, 2, 3, 4
SIZE = dict([(k, k) for k in range(1, 10)] + [(10, 1), (11, 3), (12, 6), (13, 9)])
CONSTANT, TWO = 1, 2
NONE, N, NP1 = 1, 2, 3


class Mirror:
    """what the stores must hold: value by field, step, point and component"""

    def __init__(self, rng):
        self.rng = rng
        self.lines, self.fields, self.stores, self.glob = [], {}, {}, {}
        self.got, self.want = [], []

    def field(self, name, rel, length, temporal):
        self.fields[name] = (rel, length, temporal)
        self.lines.append("field|%s|%d|%d|%d" % (name, rel, length, temporal))

    def steps(self, f):
        return (NONE,) if self.fields[f][2] == CONSTANT else (N, NP1)

    def maps(self, d):
        return "%s|%s|%s" % (" ".join(map(str, d["own"])), " ".join(map(str, d["all"])), " ".join(str(d["bonds"][g]) for g in d["own"]))

    def store(self, name, own, all_, bonds, fields):
        d = {"own": own, "all": all_, "bonds": bonds, "fields": list(fields), "v": {}}
        self.stores[name] = d
        self.lines.append("store|%s|%s|%s" % (name, self.maps(d), " ".join(fields)))
        for f in fields:
            for s in self.steps(f):
                for k in self.keys(d, f):
                    self.table(d, f).setdefault((f, s) + k, 0.0)

    def table(self, d, f):
        return self.glob if self.fields[f][0] == GLOBAL else d["v"]

    def keys(self, d, f):
        """entries of a field, in the order of the vector"""
        rel, length, _ = self.fields[f]
        if rel == GLOBAL:
            return [(0, c) for c in range(SIZE[length])]
        if rel == BOND:
            return [(g, c) for g in d["own"] for c in range(d["bonds"][g])]
        # a second entry of the same point stands for its copy on another process
        return [(g, c) if g not in d["all"][:n] else (g, c, n) for n, g in enumerate(d["all"]) for c in range(SIZE[length])]

    def set(self, name, f, s):
        d = self.stores[name]
        xs = []
        for k in self.keys(d, f):
            x = self.rng.uniform(-1, 1)
            self.table(d, f)[(f, s) + k] = x
            xs.append(x)
        self.lines.append("set|%s|%s|%d|%s" % (name, f, s, " ".join("%.17g" % x for x in xs)))

    def fill(self, name):
        for f in self.stores[name]["fields"]:
            for s in self.steps(f):
                self.set(name, f, s)

    def update(self, name):
        d = self.stores[name]
        self.lines.append("update|" + name)
        for t in (d["v"], self.glob):
            for k, x in list(t.items()):
                if k[1] == NP1:
                    o = (k[0], N) + k[2:]
                    t[o], t[k] = x, (x if t is self.glob else None)
        # the new state is written anew in every step; what it holds before is no one's business

    def scatter(self, name):
        self.lines.append("scatter|" + name)
        self.spread(self.stores[name])

    def spread(self, d):
        """copies of a point take the values of the point"""
        for f in d["fields"]:
            if self.fields[f][0] in (NODE, ELEMENT):
                for s in self.steps(f):
                    for k in self.keys(d, f):
                        d["v"][(f, s) + k] = d["v"].get((f, s) + k[:2])

    def rebalance(self, name, own, all_):
        d = self.stores[name]
        d["own"], d["all"] = own, all_
        self.spread(d)
        self.lines.append("rebalance|%s|%s" % (name, self.maps(d)))

    def copy(self, to, frm):
        self.lines.append("copy|%s|%s" % (to, frm))
        a, b = self.stores[to], self.stores[frm]
        for k in a["v"]:
            a["v"][k] = b["v"].get(k)

    def show(self, name):
        d = self.stores[name]
        for f in d["fields"]:
            for s in self.steps(f):
                self.lines.append("show|%s|%s|%d" % (name, f, s))
                self.got.append((name, f, s))
                self.want.append([self.table(d, f)[(f, s) + k] for k in self.keys(d, f)])


def history(rng):
    """a random set of fields, two stores over any points, any operations in any order"""
    m = Mirror(rng)
    kinds = rng.choice([(CONSTANT,), (TWO,), (CONSTANT, TWO), (CONSTANT, TWO)])
    nf = rng.randint(1, 8)
    same = rng.random() < 0.2
    if same:
        nf = 9
    for i in range(nf):
        t = rng.choice(kinds)
        rel = rng.choice([NODE, ELEMENT, ELEMENT, BOND, GLOBAL]) if not same or i == 0 else rel
        if rel == BOND or rel == GLOBAL:
            length = 10 if rel == BOND else rng.choice([10, 11])
        else:
            length = rng.choice([10, 11, 12, 13, 2, 4, 5, 7, 8]) if not same or i == 0 else length
        m.field("F%d" % (nf - i if rng.random() < 0.5 else 10 + i), rel, length, t)
    fs = list(m.fields)
    rng.shuffle(fs)
    npt = rng.randint(1, 5)
    pts = rng.sample(range(npt + 2), npt)
    bonds = {g: rng.randint(0, 3) for g in pts}
    if not any(bonds.values()):
        bonds[pts[0]] = 1
    perm = lambda xs: rng.sample(xs, len(xs))
    ghosts = rng.random() < 0.5
    if ghosts:
        lo = rng.randint(0, 2)
        pts = list(range(lo, lo + npt))
        bonds = {g: rng.randint(1, 3) for g in pts}
    more = lambda: pts + [rng.choice(pts) for _ in range(rng.randint(1, 3))]
    m.store("A", pts, more() if ghosts else pts if rng.random() < 0.5 else perm(pts), bonds, fs)
    m.fill("A")
    part = rng.sample(pts, rng.randint(1, npt))
    m.store("B", part, perm(part), bonds, fs)
    m.show("A")
    for _ in range(rng.randint(1, 5)):
        op = rng.choice("update rebalance scatter copy set".split())
        if op == "update":
            m.update("A")
            for f in fs:
                if m.fields[f][2] == TWO:
                    if m.fields[f][0] != GLOBAL or rng.random() < 0.5:
                        m.set("A", f, NP1)
        elif op == "rebalance":
            own = perm(pts)
            if ghosts and rng.random() < 0.7:
                m.rebalance("A", pts, more())
                m.show("A")
                continue
            m.rebalance("A", own, own if rng.random() < 0.5 else perm(own))
        elif op == "scatter":
            m.scatter("A")
        elif op == "copy":
            m.copy("B", "A")
            m.show("B")
        else:
            f = rng.choice(fs)
            m.set("A", f, rng.choice(m.steps(f)))
        m.show("A")
    return m


_exe = []


def run(lines):
    if not _exe:
        _exe.append(concrete.link(concrete.compile_all([DRIVER, STATE, MANAGER, FIELD])))
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([_exe[0], f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV)
    finally:
        os.unlink(f.name)
    if r.returncode:
        raise EvalError("the driver exited with status %d: %s" % (r.returncode, r.stderr.decode()[-400:]))
    return [[float(x) for x in l.split()] for l in r.stdout.decode().split("\n")]


class History_(Unit):
    """stores driven through their public functions; concrete only"""
    name = "history"
    entry = "DataManager"
    each = 5

    def sources(self):
        return [STATE, MANAGER, FIELD]

    def build_key(self):
        return ("history",)

    def build(self):
        pass

    def conc(self, rng):
        c = Case()
        w, g = [], []
        c.lines = []
        for _ in range(self.each):
            m = history(rng)
            for want, have in zip(m.want, run(m.lines)):
                if len(want) != len(have):
                    have = have + [float("inf")] * len(want)        # values are missing
                for a, b in zip(want, have):
                    if a is not None:
                        w.append(a)
                        g.append(b)
            c.lines += m.lines + [""]
        c.scalars["n"] = len(w)
        c.arrays["want"], c.arrays["got"] = w, [0.0] * len(w)
        return c, {"got": g}


# ---------------------------------------------------------------- the copying functions, symbolically
def side(p):
    """S or T: the source or target a pointer belongs to"""
    return p.region.split(":")[1]


def h_map(ex, name, a, i):
    return Ptr("@map:" + side(a[0]), ZERO)


def h_gid(ex, name, a, i):
    return rd("gid:" + side(a[0]), a[1], True)


def h_lid(ex, name, a, i):
    return rd("lid:" + side(a[0]), a[1], True)


def h_size(ex, name, a, i):
    return NN_(side(a[0]), a[1])


def h_first(ex, name, a, i):
    return B_(side(a[0]), a[1])


def h_column(ex, name, a, i):
    """the place of the pointer to a column"""
    return Ptr("@columns:" + side(a[0]), a[1].scale(8))


def h_entry(ex, name, a, i):
    return Ptr(side(a[0]), (T.COLUMN * a[0].off + a[1]).scale(8))


def void(ex, name, a, i):
    return UNDEF


COPY = [(re.compile(rx), h) for rx, h in [
    (r"^virt:Epetra_Vector:|^_ZNK17Epetra_DistObject3MapEv$", h_map),
    (r"^_ZNK18Epetra_MultiVector10NumVectorsEv$", lambda ex, n, a, i: sym("nv", True)),
    (r"^_ZNK15Epetra_BlockMap13NumMyElementsEv$", lambda ex, n, a, i: sym("n:" + side(a[0]), True)),
    (r"^_ZNK15Epetra_BlockMap3GIDEi$", h_gid),
    (r"^_ZNK15Epetra_BlockMap3LIDEi$", h_lid),
    (r"^_ZNK15Epetra_BlockMap11ElementSizeEi$", h_size),
    (r"^_ZNK15Epetra_BlockMap19FirstPointInElementEi$", h_first),
    (r"^_ZNK?18Epetra_MultiVectorclEi$", h_column),
    (r"^_ZNK?13Epetra_VectorixEi$", h_entry),
]]


class Copy_(Unit):
    """one table of columns into another, by the identifiers of the points"""
    entry = name = "copyLocallyOwnedMultiVectorData"

    def sources(self):
        return [STATE]

    def build_key(self):
        return ("copy",)

    def build(self):
        pass

    def sym(self):
        c = classes.Class("State", [STATE])
        ex = c.exec(COPY)
        ex.cls = c
        T.NONNEG.update(["nv", "n:S", "n:T", "lid:S", "lid:T", "gid:S", "gid:T"])
        for s in "ST":
            ex.array(s)
            ex.nlist("list " + s)
            for o in ("@table:", "@map:", "@columns:", "@each:"):
                obj(ex, o + s)
            ex.regions["@columns:" + s].base = lambda idx, ty, s=s: Ptr("@each:" + s, idx.scale(Fraction(1, 8)))
            ex.regions["@table:" + s].vtype = "Epetra_Vector"
        ex.assumed.add("the columns of a table of vectors do not overlap; entries of different points do not overlap")
        c.call(ex, self.entry, [Ptr("this", ZERO), Ptr("@table:S", ZERO), Ptr("@table:T", ZERO)], 3)
        return ex


class Recorded(Unit):
    """a function that hands pairs to a copying function; the pairs are kept"""

    def sources(self):
        return [STATE, MANAGER]

    def build_key(self):
        return ("recorded", self.entry)

    def build(self):
        pass


def h_pair(ex, name, a, i):
    if ex.binders or not ex.guard.is_one():
        raise Unsupported("conditional copy")
    ex.pairs.append((a[1], a[2]))
    return UNDEF


class Tables_(Recorded):
    """all tables of a state; present: the lengths it has"""
    entry = "copyLocallyOwnedDataFromState"

    def __init__(self, present, bonds):
        self.present, self.bonds = present, bonds
        self.name = "%s, lengths %s" % (self.entry, present)

    def sym(self):
        c = classes.Class("State", [STATE])
        ex = c.exec([(re.compile(r"State31copyLocallyOwnedMultiVectorDataE"), h_pair)])
        ex.cls = c
        ex.pairs = []
        for who, r in (("T", "this"), ("S", "@state:S")):
            if r not in ex.regions:
                obj(ex, r)
            put, rcp = setter(ex, r, "State")
            obj(ex, "@points:" + who)
            for k in range(3):
                put("pointData", Ptr("@points:" + who, ZERO if k == 0 else P(9 * 24)), k)
            for k in range(9):
                o = "@table:%s:%d" % (who, k + 1)
                obj(ex, o)
                for j, v in enumerate((Ptr(o, ZERO) if k + 1 in self.present else NULL, NULL, ONE)):
                    ex.mem["@points:" + who].append(Eff([], ONE, P(24 * k + 8 * j), 0, v))
            obj(ex, "@table:%s:bond" % who)
            rcp("bondData", Ptr("@table:%s:bond" % who, ZERO) if self.bonds else NULL)
        obj(ex, "@rcp:S")
        for j, v in enumerate((Ptr("@state:S", ZERO), NULL, ONE)):
            ex.mem["@rcp:S"].append(Eff([], ONE, P(8 * j), 0, v))
        c.call(ex, self.entry, [Ptr("this", ZERO), Ptr("@rcp:S", ZERO)], 2)
        return ex


STATES = ("stateNONE", "stateN", "stateNP1")


def h_states(ex, name, a, i):
    if ex.binders or not ex.guard.is_one():
        raise Unsupported("conditional copy")
    ex.pairs.append((ex.read(a[1].region, ex.index(a[1])), a[0]))
    return UNDEF


class States_(Recorded):
    """all states of a store; present: those it has"""
    entry = "copyLocallyOwnedDataFromDataManager"

    def __init__(self, present):
        self.present = present
        self.name = "%s, %s" % (self.entry, " ".join(present))

    def sym(self):
        c = classes.Class("DataManager", [MANAGER])
        ex = c.exec([(re.compile(r"State29copyLocallyOwnedDataFromStateE"), h_states)])
        ex.cls = c
        ex.pairs = []
        stores(ex, self.present)
        c.call(ex, self.entry, [Ptr("this", ZERO), Ptr("@store:S", ZERO)], 2)
        return ex


def stores(ex, present):
    for who, r in (("T", "this"), ("S", "@store:S")):
        if r not in ex.regions:
            obj(ex, r)
        put, rcp = setter(ex, r, "DataManager")
        for s in STATES:
            obj(ex, "@%s:%s" % (who, s))
            rcp(s, Ptr("@%s:%s" % (who, s), ZERO) if s in present else NULL)


def h_value(ex, name, a, i):
    """entry of a global vector, one after another"""
    r = side(a[0])
    return Ptr(r, (WIDE[r[0]] * a[0].off + a[1]).scale(8))


WIDE = {"s": 1, "v": 3}
GLOBALS = {"scalarGlobalDataStateN": "s@N", "scalarGlobalDataStateNP1": "s@NP1", "vectorGlobalDataStateN": "v@N", "vectorGlobalDataStateNP1": "v@NP1"}


class Advance_(Recorded):
    """the advance of the step"""
    entry = name = "updateState"

    def sources(self):
        return [GLUE]

    def sym(self):
        c = classes.Class("StoreGlue", [GLUE])
        ex = c.exec([(re.compile(r"^_ZNK?13Epetra_VectorixEi$"), h_value)])
        ex.cls = c
        stores(ex, STATES)
        T.NONNEG.update(["n:s", "n:v"])
        for m, r in GLOBALS.items():
            g = "@_ZN10PeridigmNS11DataManager%d%sE" % (len(m), m)
            ex.array(r)
            obj(ex, "@each:" + r)
            obj(ex, "@list:" + r)
            ex.regions["@list:" + r].base = lambda idx, ty, r=r: Ptr("@each:" + r, idx.scale(Fraction(1, 24)))
            if g not in ex.regions:
                obj(ex, g)
            for k in range(3):
                ex.mem[g].append(Eff([], ONE, P(8 * k), 0, Ptr("@list:" + r, ZERO if k == 0 else sym("n:" + r[0], True).scale(24))))
        c.call(ex, "advance", [Ptr("this", ZERO)], 1)
        return ex
