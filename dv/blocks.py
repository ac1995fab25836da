"""Functions and compute classes that work on blocks: each block has its own points, neighbour list, fields and material."""
import os
import re
import subprocess
import tempfile

from . import classes, concrete, extract, models
from . import terms as T
from .classes import store_rcp, put_str, data_of, vec_obj, assign_all
from .concrete import EvalError, flat_list, standard_case
from .contract import Model_, LEN, GEN, g_uni, nonneg
from .ir import Ty, Unsupported
from .sym import Exec, Ptr, NULL, UNDEF, Eff
from .terms import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = os.path.join(ROOT, "drivers/slots.cpp")
DRIVER = os.path.join(ROOT, "drivers/block_driver.cpp")
_slots = {}


def slots():
    """(class, position) -> name of the virtual function"""
    if not _slots:
        for m in re.finditer(r"@slot_(Material|Epetra_Comm|Epetra_Vector|BoundaryCondition|Matrix)_(\w+) = .*\{ i64 (\d+), i64 0 \}", extract.emit_ir(SLOTS)):
            _slots[m.group(1), (int(m.group(3)) - 1) // 8] = m.group(2)
    return _slots


def virt(name):
    _, cls, k = name.split(":")
    n = slots().get((cls, int(k)))
    if n is None:
        raise Unsupported("virtual function %s of %s" % (k, cls))
    return n


def h_comm(ex, name, a, i):
    n = virt(name)
    if n == "MyPID":
        return ZERO
    if n == "NumProc":
        return ONE
    k = a[3].const()
    if k is None:
        raise Unsupported("reduction of %s values" % a[3])
    ex.assumed.add("reductions over processes: one process (partial and global values coincide)")
    sz, ty = (8, Ty("double")) if n.endswith("_d") else (4, Ty("int", 32))
    for j in range(int(k)):
        ex.store(Ptr(a[2].region, a[2].off + sz * j), ex.load(Ptr(a[1].region, a[1].off + sz * j), ty))
    return ZERO


def h_material(ex, name, a, i):
    n = virt(name)
    k = a[0].region.split(":")[1]
    if n == "computeStoredElasticEnergyDensity":
        pre = "" if k == "1" else "B%s:" % k
        r = pre + "Stored_Elastic_Energy_Density"
        if r not in ex.regions:
            ex.array(r)
        assign_all(ex, r, lambda idx: rd("energy:" + k, idx))
        ex.assumed.add("the material's stored energy density: arbitrary (under contract in C25)")
        return UNDEF
    return sym({"Density": "rho", "BulkModulus": "K", "ShearModulus": "G"}[n] + ("" if k == "1" else k))


def number(ex, p):
    if not isinstance(p, Ptr) or p.region != "@blocks":
        raise Unsupported("block %r" % (p,))
    c = p.off.const()
    if c is None:
        raise Unsupported("block at a symbolic position")
    return int(c) // ex.block_size + 1


def sfx(k):
    return "" if k == 1 else str(k)


def obj(ex, n, vtype=None):
    if n not in ex.regions:
        ex.obj(n)
        if vtype:
            ex.regions[n].vtype = vtype
    return Ptr(n, ZERO)


def h_nbhd(ex, name, a, i):
    store_rcp(ex, a[0], obj(ex, "@nd:%d" % number(ex, a[1])))
    return UNDEF


def h_nd(what):
    def h(ex, name, a, i):
        k = int(a[0].region.split(":")[1])
        return sym("N" + sfx(k), True) if what == "N" else Ptr(what + sfx(k), ZERO)
    return h


def h_blockdm(ex, name, a, i):
    store_rcp(ex, a[0], obj(ex, "DM" + sfx(number(ex, a[1]))))
    return UNDEF


def h_blockdata(ex, name, a, i):
    return h_data(ex, name, [a[0], Ptr("DM" + sfx(number(ex, a[1])), ZERO)] + list(a[2:]), i)


def h_data(ex, name, a, i):
    """data of a block; data of the whole body is shared between the blocks"""
    n = classes.field_name(ex, a[2])
    st = a[3].const()
    if st is None or int(st) not in classes.STEPS:
        raise Unsupported("time step argument %s" % a[3])
    glob = any(s[0] == 4 for s in ex.field_specs.get(n, ()))
    k = a[1].region[2:]
    v = vec_obj(ex, ("B%s:" % k if k and not glob else "") + n + classes.STEPS[int(st)])
    ex.regions[v.region].vtype = "Epetra_Vector"
    store_rcp(ex, a[0], v)
    return UNDEF


def h_hasdata(ex, name, a, i):
    return ONE if classes.field_name(ex, a[1]) in ex.cfg.get("fields", ()) else ZERO


def h_hasfield(ex, name, a, i):
    return ONE if classes.strval(ex, a[1]) in ex.cfg.get("fields", ()) else ZERO


def h_blockmat(ex, name, a, i):
    store_rcp(ex, a[0], obj(ex, "@mat:%d" % number(ex, a[1]), "Material"))
    return UNDEF


def h_blockname(ex, name, a, i):
    put_str(ex, a[0], "block_%d" % number(ex, a[1]))
    return UNDEF


def h_values(ex, name, a, i):
    return Ptr(data_of(ex, a[0]), ZERO)


def h_vector(ex, name, a, i):
    if virt(name) != "Map":
        raise Unsupported("virtual function of a vector")
    return h_map(ex, name, a, i)


def h_map(ex, name, a, i):
    """map of the points of a vector: named after its block"""
    r = data_of(ex, a[0])
    k = re.match(r"B(\d+):", r)
    return obj(ex, "@map:" + (k.group(1) if k else "1"))


def h_nummy(ex, name, a, i):
    n = "M" + sfx(int(a[0].region.split(":")[1]))
    T.NONNEG.add(n)
    return sym(n, True)


def h_spec(ex, name, a, i):
    n = classes.field_name(ex, a[2])
    s = ex.field_specs.get(n) or {classes.KNOWN_FIELDS[n]}
    ex.fspec[a[0].region, str(a[0].off)] = sorted(s)[0]
    return UNDEF


def h_specget(k):
    return lambda ex, name, a, i: P(ex.fspec[a[0].region, str(a[0].off)][k])


# local arrays held in a std::vector
def h_dvec(ex, name, a, i):
    r = "@v:%s:%s" % (a[0].region, a[0].off)
    isint = "vectorIiSaIiEE" in name
    if r not in ex.regions:
        ex.array(r, esz=4 if isint else 8, isint=isint)
    n = a[1].const()
    if n is None:
        raise Unsupported("vector of symbolic size")
    for j in range(int(n)):
        ex.mem[r].append(Eff([], ex.guard, P(j), 0, ZERO))
    ex.vecs[a[0].region, str(a[0].off)] = r
    return UNDEF


def h_dvec_at(ex, name, a, i):
    r = ex.vecs.get((a[0].region, str(a[0].off)))
    if r is None:
        raise Unsupported("element of an unknown vector")
    return Ptr(r, a[1].scale(ex.regions[r].esz))


HM = r"^_ZN10PeridigmNS14HorizonManager"
HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^virt:Epetra_Comm:", h_comm),
    (r"^virt:Material:", h_material),
    (r"^virt:Epetra_Vector:", h_vector),
    (r"^_ZN10PeridigmNS9BlockBase19getNeighborhoodDataEv$", h_nbhd),
    (r"^_ZN10PeridigmNS9BlockBase14getDataManagerEv$", h_blockdm),
    (r"^_ZN10PeridigmNS9BlockBase7getDataEiNS_13PeridigmField4StepE$", h_blockdata),
    (r"^_ZN10PeridigmNS11DataManager7getDataEiNS_13PeridigmField4StepE$", h_data),
    (r"^_ZNK10PeridigmNS9BlockBase7hasDataEiNS_13PeridigmField4StepE$", h_hasdata),
    (r"^_ZN10PeridigmNS12FieldManager8hasFieldE", h_hasfield),
    (r"^_ZN10PeridigmNS5Block16getMaterialModelEv$", h_blockmat),
    (r"^_ZN10PeridigmNS9BlockBase7getNameB5cxx11Ev$", h_blockname),
    (r"^_ZN10PeridigmNS9BlockBase5getIDEv$", lambda ex, n, a, i: P(number(ex, a[0]))),
    (r"^_ZNK10PeridigmNS16NeighborhoodData14NumOwnedPointsEv$", h_nd("N")),
    (r"^_ZNK10PeridigmNS16NeighborhoodData8OwnedIDsEv$", h_nd("own")),
    (r"^_ZNK10PeridigmNS16NeighborhoodData16NeighborhoodListEv$", h_nd("L")),
    (r"^_ZNK18Epetra_MultiVector6ValuesEv$|^_ZNK13Epetra_Vector6ValuesEv$", h_values),
    (r"^_ZNK17Epetra_DistObject3MapEv$", h_map),
    (r"^_ZNK15Epetra_BlockMap13NumMyElementsEv$", h_nummy),
    (r"^_ZN10PeridigmNS12FieldManager12getFieldSpecEi$", h_spec),
    (r"^_ZNK10PeridigmNS9FieldSpec11getRelationEv$", h_specget(0)),
    (r"^_ZNK10PeridigmNS9FieldSpec9getLengthEv$", h_specget(1)),
    (r"^_ZNK10PeridigmNS9FieldSpec11getTemporalEv$", h_specget(2)),
    (r"^_ZN10PeridigmNS9FieldSpecD2Ev$", lambda ex, n, a, i: UNDEF),
    (HM + r"4selfEv$", lambda ex, n, a, i: obj(ex, "HorizonManager")),
    (HM + r"23blockHasConstantHorizonE", lambda ex, n, a, i: ONE if ex.cfg.get("constant horizon") else ZERO),
    (HM + r"28getBlockConstantHorizonValueE", lambda ex, n, a, i: sym("h")),
    (HM + r"15evaluateHorizonE", lambda ex, n, a, i: fn("horizon", *a[2:])),
    (r"^_ZNSt6vectorI([di])SaI\1EEC2EmRKS0_$", h_dvec),
    (r"^_ZNSt6vectorI([di])SaI\1EED2Ev$", lambda ex, n, a, i: UNDEF),
    (r"^_ZNSt6vectorI([di])SaI\1EEixEm$", h_dvec_at),
]]


class Blocks_(Model_):
    """a compute class (or a free function) applied to blocks"""
    SUPPORT = Model_.SUPPORT + ["src/core/Peridigm_BlockBase.cpp", "src/core/Peridigm_Block.cpp", "src/core/Peridigm_HorizonManager.cpp"]

    def __init__(self, cls, tus, cfg=None, nblocks=2, entry=None, code=None, **kw):
        super().__init__(cls or entry, tus, cfg, **kw)
        self.nblocks, self.entry, self.isclass = nblocks, entry, cls is not None
        self.code = code

    def cexec(self):
        c = classes.Class(self.cls, self.tus, self.cfg, self.bases)
        ex = c.exec(self.handlers + HANDLERS)
        ex.cls = c
        ex.vecs, ex.fspec = {}, {}
        for n, s in self.needs.items():
            ex.field_specs[n] = {s}
        for m in ex.mods:
            try:
                ex.block_size = m.size_align(m.named('%"class.PeridigmNS::Block"'))[0]
            except (Unsupported, KeyError):
                continue
            break
        ex.obj("@blocks")
        for k in range(2, self.nblocks + 1):
            ex.nlist("L%d" % k)
            ex.array("own%d" % k, isint=True)
            ex.obj("DM%d" % k)
            T.NONNEG.add("N%d" % k)
        return c, ex

    def rcp(self, ex, n, p):
        r = "@rcp:" + n
        if r not in ex.regions:
            ex.obj(r)
            for k, v in enumerate((p, NULL, ONE)):
                ex.mem[r].append(Eff([], ONE, P(8 * k), 0, v))
        return Ptr(r, ZERO)

    def construct(self, c, ex):
        comm = obj(ex, "COMM", "Epetra_Comm")
        if self.isclass:
            c.call(ex, self.cls, [Ptr("this", ZERO), self.rcp(ex, "PL", Ptr("PL", ZERO)), self.rcp(ex, "comm", comm), self.rcp(ex, "glob", obj(ex, "GPL"))], 4)

    def sym(self):
        c, ex = self.cexec()
        for p in self.pos:
            T.NONNEG.add(p)
        self.apply_base(ex)
        if self.setup:
            self.setup(ex)
        self.construct(c, ex)
        if not self.isclass:
            for m in ex.mods:
                fs = extract.find(m, self.entry)
                if fs:
                    ex.ret = ex.run_function(m.function(fs[0][0]), [obj(ex, "COMM", "Epetra_Comm"), Ptr("@blocks", ZERO)])
                    return ex
            raise Unsupported("no definition of " + self.entry)
        v = obj(ex, "@obj:blocks")
        for k, off in ((0, 0), (1, self.nblocks), (2, self.nblocks)):
            ex.mem["@obj:blocks"].append(Eff([], ONE, P(8 * k), 0, Ptr("@blocks", P(off * ex.block_size))))
        for m in self.calls:
            c.call(ex, m, [Ptr("this", ZERO), self.rcp(ex, "blocks", v)], 2)
        return ex

    def specs(self):
        if self._specs is None:
            c, ex = self.cexec()
            self.construct(c, ex)
            self._specs = ex.field_specs, ex.params_read - ex.params_set - self.absent(ex)
        return self._specs

    def case(self, rng):
        specs, read = self.specs()
        c = standard_case(rng, lists=["L"])
        c.parts = [c]
        for k in range(2, self.nblocks + 1):
            d = standard_case(rng, lists=["L"])
            c.parts.append(d)
            c.lists["L%d" % k] = d.lists["L"]
            c.scalars["N%d" % k] = d.N
        par = self.params(rng, c, read)
        for k, d in enumerate(c.parts, 1):
            c.scalars["M" + sfx(k)] = d.M
            for n in ("rho", "K", "G"):
                c.scalars[n + sfx(k)] = rng.uniform(0.3, 2.0)
            for n in sorted(specs, key=lambda n: (n != "Model_Coordinates", n)):
                rel, length, temp = sorted(specs[n])[0]
                if rel == 4 and k > 1:
                    continue
                sz = {1: d.M, 2: d.M, 3: d.nb, 4: 1}[rel] * LEN[length]
                for s in ([""] if temp == 1 else ["@N", "@NP1"]):
                    g = self.gen.get(n + s) or self.gen.get(n) or GEN.get(n) or g_uni(-1.5, 1.5)
                    d.arrays[n + s] = nonneg(n + s, g(rng, d, sz))
                    c.arrays[("B%d:" % k if k > 1 else "") + n + s] = d.arrays[n + s]
            d.scalars["own"] = d.N
            c.arrays["own" + sfx(k)] = list(range(d.N))
        c.scalars["h"] = rng.uniform(0.8, 2.0)
        c.scalars["dt"] = 1.0
        if self.fix:
            self.fix(rng, c)
        self.base_arrays(c)
        return c, par

    def driver_flags(self):
        if not self.isclass:
            return ('-DHEADER="%s"' % self.header, "-DCODE=%s" % self.code)
        calls = "".join("obj.%s(blocks);" % m for m in self.calls)
        return ('-DHEADER="%s"' % self.header, "-DCLASS=%s" % self.cls, "-DCODE=%s" % (self.callcode or calls))

    def make_exe(self):
        items = [(DRIVER, self.driver_flags())]
        items += list(dict.fromkeys(self.tus + self.SUPPORT + self.link))
        return concrete.link(concrete.compile_all(items))

    def run(self, c, par):
        exe = self.exe()
        lines = []
        for n, v in par.items():
            t = "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else "string" if isinstance(v, str) else "double"
            lines.append("%s|%s|%s" % (t, n, ("%d" % v) if t in ("bool", "int") else v if t == "string" else "%.17g" % v))
        specs = self.specs()[0]
        for n, sp in sorted(specs.items()):
            if n in classes.KNOWN_FIELDS or n in self.needs:
                lines.append("reg|%s|%d,%d,%d" % ((n,) + sorted(sp)[0]))
        if "h" in c.scalars:
            lines.append("horizon|%s" % (getattr(c, "horizon_text", None) or "%.17g" % c.scalars["h"]))
        for k, d in enumerate(c.parts, 1):
            s = sfx(k)
            lines.append("block|%d,%d,%d" % (d.N, d.M, d.nb))
            lines.append("mat|%.17g %.17g %.17g" % tuple(c.scalars[n + s] for n in ("rho", "K", "G")))
            lines.append("list|" + " ".join(map(str, flat_list(d.lists["L"]))))
            for r in sorted(d.arrays):
                if r.startswith("own"):
                    continue
                v = c.arrays[("B%d:" % k if k > 1 else "") + r] if ("B%d:" % k if k > 1 else "") + r in c.arrays else None
                if v is None or any(ch in r for ch in ":"):
                    continue
                n, st = (r.split("@") + [""])[:2]
                if n in specs:
                    lines.append("field|%s|%d|%s" % (n, {"": 1, "N": 2, "NP1": 3}[st], " ".join("%.17g" % x for x in v)))
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write("\n".join(lines) + "\n")
        try:
            r = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV)
        finally:
            os.unlink(f.name)
        if r.returncode:
            raise EvalError("driver for %s exited with status %d: %s" % (self.cls, r.returncode, r.stderr.decode()[-400:]))
        outs = {}
        for ln in r.stdout.decode().split("\n"):
            if ln.startswith("OUT|"):
                _, k, n, s, v = ln.split("|", 4)
                outs[("B%s:" % k if k != "1" else "") + n + {"1": "", "2": "@N", "3": "@NP1"}[s]] = [float(x) for x in v.split()]
        return outs
