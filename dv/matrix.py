"""Assembly into the sparse tangent matrix: entries addressed by global row and column."""
import os
import re
import subprocess
import tempfile

from . import classes, concrete
from . import terms as T
from .blocks import ROOT, obj, virt
from .concrete import Case, EvalError
from .contract import Unit
from .ir import Ty, Unsupported
from .sym import Eff, Ptr, UNDEF
from .terms import *
from .terms import _byid, walk_atoms, atom_poly, subst

TU = "src/core/Peridigm_SerialMatrix.cpp"
DRIVER = os.path.join(ROOT, "drivers/matrix_driver.cpp")
W = sym("width", True)


def entry(row, col):
    """position of an entry of the matrix"""
    return W * row + col


def glob(p, table):
    """global index of a local one"""
    sb = {}
    for x in list(walk_atoms(p)):
        a = _byid[x]
        if a.kind == "fn" and str(a.key[1]).startswith("position:"):
            # a position lies within the list
            q = atom_poly(a)
            sb.update({next(iter(c.t))[0][0]: v for c, v in ((ind("lt", q), ZERO), (ind("lt", q - sym("n", True)), ONE)) if c.const() is None})
    p = subst(p, sb)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            if a.kind == "rd" and a.key[1] == table:
                return undo(a.key[2])
    raise Unsupported("row or column %s" % p)


def undo(p):
    """entry of a list at the position of a value: the value"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            if a.kind == "rd" and len(a.key[2].t) == 1:
                (m, c), = a.key[2].t.items()
                b = _byid[m[0][0]] if len(m) == 1 and m[0][1] == 1 and c == 1 else None
                if b is not None and b.kind == "fn" and b.key[1] == "position:" + a.key[1]:
                    return b.key[2]
    return p


def add(ex, row, n, values, cols, table):
    read = lambda p, k, esz: ex.read(p.region, ex.index(Ptr(p.region, p.off + k.scale(esz))))
    nc = n.const()
    ks = [P(j) for j in range(int(nc))] if nc is not None else [var(ex.fresh("k"), True)]
    b = [] if nc is not None else [(ks[0], n)]
    ex.binders += b
    new = []
    try:
        for k in ks:
            c = read(cols, k, 4)
            new.append(Eff(list(b), ex.guard, entry(row, glob(c, table) if table else undo(c)), 1, read(values, k, 8)))
    finally:
        del ex.binders[len(ex.binders) - len(b):]
    ex.mem["M"] += new
    ex.assumed.add("sums into a row of the sparse matrix: the given values are added at the given columns, whatever the sparsity pattern")
    return ZERO


def h_my(ex, name, a, i):
    return add(ex, glob(a[1], "LRID"), a[2], a[3], a[4], "LCID")


def h_row(ex, name, a, i):
    return add(ex, a[1], a[2], a[3], a[4], None)


def h_block(ex, name, a, i):
    """dense block, row pointers"""
    if a[1].const() != 1:
        raise Unsupported("block of %s rows" % a[1])
    row = ex.read(a[2].region, ex.index(a[2]))
    v = ex.read(a[5].region, ex.index(a[5]))
    return add(ex, row, a[3], v, a[4], None)


def h_square(ex, name, a, i):
    """dense square block, row pointers"""
    r, k = var(ex.fresh("k"), True), var(ex.fresh("k"), True)
    at = lambda j: ex.read(a[2].region, ex.index(Ptr(a[2].region, a[2].off + j.scale(4))))
    v = ex.read(a[3].region, ex.index(Ptr(a[3].region, a[3].off + r.scale(8))))
    ex.mem["M"].append(Eff([(r, a[1]), (k, a[1])], ex.guard, entry(at(r), at(k)), 1, ex.read(v.region, ex.index(Ptr(v.region, v.off + k.scale(8))))))
    return ZERO


def h_map(ex, name, a, i):
    """std::map from integers to integers: an array over the keys; the keys inserted are the entries of a list without repetition"""
    key = ex.load(a[1], Ty("int", 32))
    r = "map:%s" % a[0].region
    if r not in ex.regions:
        ex.array(r, isint=True, esz=4)
        ex.regions[r].base = lambda idx, ty: ZERO
        ex.regions[r].inverse = True
    return Ptr(r, key.scale(4))


def h_count(ex, name, a, i):
    ex.assumed.add("all degrees of freedom of a point are in the list, once each (the code ends the run otherwise)")
    return ONE


def h_put(ex, name, a, i):
    v = a[1]
    classes.assign_all(ex, "M", lambda idx: v)
    return ZERO


def h_vector(ex, name, a, i):
    """std::vector of n zeros"""
    esz = 4 if "St6vectorIi" in name else 8
    r = ex.fresh("vec")
    ex.array(r, isint=esz == 4, esz=esz)
    ex.regions[r].base = lambda idx, ty: ZERO
    for k, v in enumerate((Ptr(r, ZERO), Ptr(r, a[1].scale(esz)), Ptr(r, a[1].scale(esz)))):
        ex.store(Ptr(a[0].region, a[0].off + 8 * k), v)
    return UNDEF


def h_virt(ex, name, a, i):
    n = virt(name)
    return {"SumIntoMyValues": h_my, "SumIntoGlobalValues_row": h_row, "SumIntoGlobalValues_row_": h_row}[n](ex, n, a, i)


HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^_ZNK16Epetra_CrsMatrix4LRIDEi$", lambda ex, n, a, i: rd("LRID", a[1], True)),
    (r"^_ZNK16Epetra_CrsMatrix4LCIDEi$", lambda ex, n, a, i: rd("LCID", a[1], True)),
    (r"^virt:Matrix:", h_virt),
    (r"^_ZN16Epetra_CrsMatrix15SumIntoMyValuesEiiPKdPKi$", h_my),
    (r"^_ZN18Epetra_FECrsMatrix19SumIntoGlobalValuesEiiPKdPKi$|^_ZN16Epetra_CrsMatrix19SumIntoGlobalValuesEiiPKdPKi$", h_row),
    (r"^_ZN18Epetra_FECrsMatrix19SumIntoGlobalValuesEiPKiiS1_PKPKdi$", h_block),
    (r"^_ZN18Epetra_FECrsMatrix19SumIntoGlobalValuesEiPKiPKPKdi$", h_square),
    (r"^_ZN7Teuchos(10CompObject|6Object|4BLASIi[id]E|11DefaultBLASImplIi[id]E)[CD][12]E", lambda ex, n, a, i: UNDEF),
    (r"^_ZNSt3mapIii.*Eix", h_map),
    (r"^_ZNKSt3mapIii.*E5countE", h_count),
    (r"^_ZNSt3mapIii.*E[CD][12]Ev$", lambda ex, n, a, i: UNDEF),
    (r"^_ZN16Epetra_CrsMatrix9PutScalarEd$", h_put),
    (r"^_ZNSt6vectorI[id]SaI[id]EEC[12]EmRKS0_$", h_vector),
    (r"^_ZNSt6vectorI[id]SaI[id]EED[12]Ev$", lambda ex, n, a, i: UNDEF),
]]


class Matrix_(Unit):
    tus = [TU]

    def __init__(self, entry):
        self.entry = self.name = entry

    def sources(self):
        return self.tus

    def build_key(self):
        return ("matrix",)

    def build(self):
        pass

    def sym(self):
        c = classes.Class("SerialMatrix", self.tus)
        ex = c.exec(HANDLERS)
        ex.cls = c
        obj(ex, "@matrix")
        ex.regions["@matrix"].vtype = "Matrix"
        for k, v in enumerate((Ptr("@matrix", ZERO), Ptr(None, ZERO), ONE)):
            ex.mem["this"].append(Eff([], ONE, P(8 * k), 0, v))
        T.NONNEG.update(["n", "width", "g"])
        T.DISTINCT.add("g")
        ex.array("M")
        ex.array("V")
        ex.array("g", isint=True, esz=4)
        ex.array("rows")
        ex.regions["rows"].base = lambda idx, ty: Ptr("V", (sym("n", True) * idx).scale(8))
        n = sym("n", True)
        args = {"addValue": [sym("row", True), sym("col", True), sym("value")], "addValues": [n, Ptr("g", ZERO), Ptr("rows", ZERO)],
                "addBlockDiagonalValues": [n, Ptr("g", ZERO), Ptr("rows", ZERO)], "putScalar": [sym("value")]}[self.entry]
        c.call(ex, self.entry, [Ptr("this", ZERO)] + args, len(args) + 1)
        return ex

    def exe(self):
        return concrete.link(concrete.compile_all([DRIVER] + self.tus))

    def conc(self, rng):
        """matrix over a few points with three degrees of freedom each, in any order"""
        c = Case()
        npts = rng.randint(2, 4)
        pts = rng.sample(range(npts), npts)
        w = 3 * npts
        part = rng.sample(pts, rng.randint(1, npts))
        g = [3 * p + k for p in part for k in range(3)]
        if self.entry == "addValues" or rng.random() < 0.5:
            rng.shuffle(g)
        c.scalars.update({"width": w, "n": len(g), "row": rng.randrange(w), "col": rng.randrange(w), "value": rng.uniform(-1, 1)})
        c.arrays["g"] = g
        c.arrays["V"] = [rng.uniform(-1, 1) for _ in range(len(g) ** 2)]
        c.arrays["M"] = [rng.uniform(-1, 1) for _ in range(w * w)]
        ls = ["%s %d %d %d %.17g %d" % (self.entry, w, c.scalars["row"], c.scalars["col"], c.scalars["value"], len(g)), " ".join(map(str, [3 * p + k for p in pts for k in range(3)])), " ".join(map(str, g))]
        ls += [" ".join("%.17g" % x for x in c.arrays[r]) for r in ("V", "M")]
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write("\n".join(ls) + "\n")
        try:
            r = subprocess.run([self.exe(), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV)
        finally:
            os.unlink(f.name)
        if r.returncode:
            raise EvalError("the driver exited with status %d: %s" % (r.returncode, r.stderr.decode()[-400:]))
        return c, {"M": [float(x) for x in r.stdout.decode().split()]}
