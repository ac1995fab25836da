"""Units under contract, obligations, and their two readings: symbolic (the
deciding one) and concrete (replay / labelled bounded stand-in)."""
import copy
import ctypes
import hashlib
import math
import os
import random
import re
import subprocess
import tempfile
import time

from . import extract, models, prove, concrete, classes
from . import terms as T
from .concrete import ConcreteModel, Case, standard_case, flat_list, run_child
from .evalp import Model, Ties, Ev, EvalError, refute_zero
from .extract import ExtractionError
from .ir import Unsupported
from .prove import Prover, STATS
from .sym import Exec, Ptr, NULL, FnPtr, Eff, var_id
from .terms import *
from .terms import _byid

OPAQUE = ("rdL", "rdH", "rdU", "hav", "havoc")


# ---------------------------------------------------------------- parameters of free functions
class Arr:
    """array parameter: comps entries per point ('node'), owned point ('own'), bond ('bond') or a fixed number ('fix')"""

    def __init__(self, name, comps=1, on="own", gen=None, pos=False, isint=False, esz=None):
        self.name, self.comps, self.on, self.gen, self.pos, self.isint, self.esz = name, comps, on, gen, pos, isint, esz


class NList:
    def __init__(self, name="L"):
        self.name = name


class Real:
    def __init__(self, name, gen=None, pos=False, value=None):
        self.name, self.gen, self.pos, self.value = name, gen, pos, value


class Int:
    def __init__(self, name, gen=None, value=None):
        self.name, self.gen, self.value = name, gen, value


class Fn:
    name = "omega"


class Null:
    def __init__(self, name="null"):
        self.name = name


class Bool:
    def __init__(self, name, value):
        self.name, self.value = name, value


GEN = {}          # default generators by name: f(rng, case, n) -> list


def g_uni(a, b):
    return lambda rng, c, n: [rng.uniform(a, b) for _ in range(n)]


def g_frac(rng, c, n):
    return [rng.choice([0.0, 0.0, 1.0, rng.random()]) for _ in range(n)]


def nonneg(name, vals):
    return [abs(v) for v in vals] if name in T.NONNEG else vals


def g_points(rng, c, n):
    """well separated points"""
    pts = []
    while len(pts) * 3 < n:
        q = [rng.uniform(-1.2, 1.2) for _ in range(3)]
        if all(sum((a - b)**2 for a, b in zip(q, r)) > 0.15 for r in pts):
            pts.append(q)
    return [x for q in pts for x in q][:n]


def g_deformed(ref):
    def f(rng, c, n):
        x = c.arrays.get(ref)
        if x is None:
            return g_points(rng, c, n)
        A = [[(1.0 if i == j else 0.0) + rng.uniform(-.25, .25) for j in range(3)] for i in range(3)]
        b = [rng.uniform(-1, 1) for _ in range(3)]
        out = []
        for k in range(n // 3):
            for i in range(3):
                out.append(sum(A[i][j] * x[3 * k + j] for j in range(3)) + b[i] + rng.uniform(-.05, .05))
        return out
    return f


# ---------------------------------------------------------------- units
class Unit:
    """something of /repo that can be evaluated symbolically and run for real"""
    name = "?"
    base = {}            # region -> function(idx Poly) -> Poly: assumed initial contents

    def sym(self):
        raise NotImplementedError

    def conc(self, rng):
        """-> (case, outs)"""
        raise NotImplementedError

    def apply_base(self, ex):
        for r, f in self.base.items():
            if r not in ex.regions:
                ex.array(r)
            ex.regions[r].base = (lambda idx, ty, f=f: f(idx))

    def base_arrays(self, c):
        """fill the arrays fixed by `base` from the rest of the case"""
        for r, f in self.base.items():
            if r not in c.arrays:
                continue
            n = len(c.arrays[r])
            ev = Ev(ConcreteModel(c))
            c.arrays[r] = [ev.poly(f(P(i))) for i in range(n)]

    def describe(self):
        return self.name

    def sources(self):
        return []

    def build_key(self):
        return id(self)

    def build(self):
        pass


class Kernel(Unit):
    """free function"""

    def __init__(self, tu, fname, params, sel=None, extra_tus=(), name=None, base=None, setup=None, gen=None, handlers=(), link=(),
                 fix=None, ret=None, ncases=None, dense=False):
        self.dense = dense
        self.tu, self.fname, self.params = tu, fname, params
        self.sel = sel or (lambda d: "Sacado" not in d)
        self.extra = list(extra_tus)
        self.name = name or fname
        self.base = base or {}
        self.setup = setup
        self.gen = gen or {}
        self.handlers = list(handlers)
        self.link = list(link)
        self.fix = fix
        self.rettype = ret

    def symbol(self):
        m = extract.module(self.tu)
        c = [(n, d) for n, d in extract.find(m, self.fname) if self.sel(d)]
        if len(c) != 1:
            c2 = [(n, d) for n, d in c if len(m.function(n).params) == len(self.params)]
            if len(c2) == 1:
                return c2[0][0]
            raise Unsupported("%d candidates for %s in %s" % (len(c), self.fname, self.tu))
        return c[0][0]

    def sym(self):
        mods = [extract.module(self.tu)] + [extract.module(t) for t in self.extra]
        ex = Exec(mods)
        T.NONNEG.add("N")
        ex.handlers = self.handlers + ex.handlers
        f = ex.mods[0].function(self.symbol())
        if len(f.params) != len(self.params):
            raise Unsupported("%s has %d parameters, contract names %d" % (self.fname, len(f.params), len(self.params)))
        args = []
        for d in self.params:
            if isinstance(d, Arr):
                args.append(ex.array(d.name, isint=d.isint, nonneg=d.pos, esz=d.esz))
            elif isinstance(d, NList):
                args.append(ex.nlist(d.name))
            elif isinstance(d, Real):
                if d.pos:
                    T.NONNEG.add(d.name)
                args.append(sym(d.name) if d.value is None else P(d.value))
            elif isinstance(d, Int):
                args.append(P(d.value) if d.value is not None else sym(d.name, True))
            elif isinstance(d, Fn):
                args.append(models.OMEGA)
            elif isinstance(d, Null):
                args.append(NULL)
            elif isinstance(d, Bool):
                args.append(ONE if d.value else ZERO)
            elif isinstance(d, Ptr):
                args.append(d)
        self.apply_base(ex)
        if self.setup:
            self.setup(ex)
        ex.ret = ex.run_function(f, args)
        return ex

    def sources(self):
        return [self.tu] + self.extra

    def build_key(self):
        return ("k", tuple([self.tu] + self.extra + self.link))

    def build(self):
        concrete.shared([self.tu] + self.extra + self.link)

    def case(self, rng):
        c = standard_case(rng, N=rng.choice([5, 6]), ghosts=rng.choice([0, 1]), full=True) if self.dense else standard_case(rng)
        for d in self.params:
            if isinstance(d, Arr):
                n = d.comps * {"node": c.M, "own": c.N, "bond": c.nb, "fix": 1}[d.on]
                g = d.gen or self.gen.get(d.name) or GEN.get(d.name) or (g_uni(0.3, 2.0) if d.pos else g_uni(-1.5, 1.5))
                c.arrays[d.name] = nonneg(d.name, g(rng, c, n))
            elif isinstance(d, Real):
                c.scalars[d.name] = d.value if d.value is not None else (d.gen(rng) if d.gen else rng.uniform(0.3, 2.0))
            elif isinstance(d, Int) and d.name != "N":
                c.scalars[d.name] = d.value if d.value is not None else (d.gen(rng) if d.gen else rng.randint(1, 4))
        if self.fix:
            self.fix(rng, c)
        self.base_arrays(c)
        return c

    def conc(self, rng):
        lib = concrete.shared([self.tu] + self.extra + self.link)
        f = getattr(lib, self.symbol())
        c = self.case(rng)

        def go():
            bufs = {}
            args = []
            keep = []
            for d in self.params:
                if isinstance(d, Arr):
                    a = c.arrays[d.name]
                    b = ((ctypes.c_uint8 if d.esz == 1 else ctypes.c_int if d.isint else ctypes.c_double) * max(len(a), 1))(*a)
                    bufs[d.name] = b
                    args.append(b)
                elif isinstance(d, NList):
                    fl = flat_list(c.lists[d.name])
                    args.append((ctypes.c_int * len(fl))(*fl))
                elif isinstance(d, Real):
                    args.append(ctypes.c_double(c.scalars[d.name]))
                elif isinstance(d, Int):
                    args.append(ctypes.c_int(c.N if d.name == "N" else c.scalars[d.name]))
                elif isinstance(d, Fn):
                    cb = concrete.OMEGA_T(c.omega)
                    keep.append(cb)
                    args.append(cb)
                elif isinstance(d, Null):
                    args.append(ctypes.c_void_p(None))
                elif isinstance(d, Bool):
                    args.append(ctypes.c_bool(d.value))
                else:
                    raise EvalError("parameter")
            f.restype = {None: None, "d": ctypes.c_double, "i": ctypes.c_int}[self.rettype]
            r = f(*args)
            outs = {k: list(b)[:len(c.arrays[k])] for k, b in bufs.items()}
            if self.rettype:
                outs["ret"] = [r]
            return outs
        return c, run_child(go)


LEN = {0: 0, 10: 1, 11: 3, 12: 6, 13: 9}
for _i in range(1, 10):
    LEN[_i] = _i


class Model_(Unit):
    """a class: constructor, then the given member functions"""
    SUPPORT = ["src/core/Peridigm_DataManager.cpp", "src/core/Peridigm_State.cpp", "src/core/Peridigm_Field.cpp",
               "src/core/Peridigm_InfluenceFunction.cpp", "src/core/Peridigm_Enums.cpp"]

    def __init__(self, cls, tus, cfg=None, calls=("computeForce",), name=None, base=None, gen=None, pos=(), handlers=(), link=(), header=None,
                 callcode=None, setup=None, fix=None, dt=None, influence="1.0/(1.0+zeta*zeta/(horizon*horizon))", values=None, mkparams=None, bases=(), dense=False, sig=classes.SIGNATURE, getters=(), needs=None):
        self.needs = dict(needs or {})       # fields defined outside the class
        self.getters = tuple(getters)       # member functions without arguments, read after the calls as "ret:<name>"
        self.dense = dense
        self.sig = sig
        self.bases = bases
        self.cls, self.tus, self.cfg, self.calls = cls, list(tus), dict(cfg or {}), list(calls)
        self.name = name or cls
        self.base = base or {}
        self.gen = gen or {}
        self.pos = pos
        self.handlers = list(handlers)
        self.link = list(link)
        self.header = header or "Peridigm_%s.hpp" % cls
        self.callcode = callcode
        self.setup = setup
        self.fix = fix
        self.influence = influence
        self.mkparams = mkparams

    def sources(self):
        return self.tus

    def build_key(self):
        return ("m", self.driver_flags())

    def build(self):
        self.exe()

    def cexec(self):
        c = classes.Class(self.cls, self.tus, self.cfg, self.bases)
        ex = c.exec(self.handlers)
        ex.cls = c
        for n, t in self.needs.items():
            ex.field_specs[n] = {t}
        return c, ex

    def sym(self):
        c, ex = self.cexec()
        for p in self.pos:
            T.NONNEG.add(p)
        self.apply_base(ex)
        if self.setup:
            self.setup(ex)
        c.construct(ex)
        for m in self.calls:
            m, sig = m if isinstance(m, tuple) else (m, self.sig)
            c.compute(ex, m, sig=sig)
        ex.got = {"ret:" + g: c.call(ex, g, [Ptr("this", ZERO)], 1) for g in self.getters}
        return ex

    def specs(self):
        if self._specs is None:
            c, ex = self.cexec()
            c.construct(ex)
            self._specs = ex.field_specs, ex.params_read - ex.params_set - self.absent(ex)
        return self._specs

    _specs = None

    def absent(self, ex):
        """parameters that were read with a default only"""
        v, p = self.cfg.get("values", {}), self.cfg.get("present", {})
        return {n for n in getattr(ex, "params_defaulted", ()) if n not in v and not p.get(n)}

    def params(self, rng, c, read):
        out = {}
        vals = self.cfg.get("values", {})
        for n in sorted(read | set(k for k, v in self.cfg.get("present", {}).items() if v) | set(vals)):
            if n in vals:
                out[n] = vals[n]
            else:
                g = self.gen.get("p:" + n)
                out[n] = g(rng) if g else rng.uniform(0.3, 2.0)
                c.scalars["p:" + n] = out[n]
        if self.mkparams:
            self.mkparams(rng, c, out)
        return out

    def case(self, rng):
        specs, read = self.specs()
        c = standard_case(rng, N=rng.choice([5, 6]), ghosts=rng.choice([0, 1]), full=True) if self.dense else standard_case(rng)
        par = self.params(rng, c, read)
        order = sorted(specs, key=lambda n: (n != "Model_Coordinates", n))
        for n in order:
            rel, length, temp = sorted(specs[n])[0]
            k = LEN[length]
            sz = {1: c.M, 2: c.M, 3: c.nb, 4: 1}[rel] * k
            for s in ([""] if temp == 1 else ["@N", "@NP1"]):
                r = n + s
                g = self.gen.get(r) or self.gen.get(n) or GEN.get(n) or (g_uni(0.3, 2.0) if r in self.pos else g_uni(-1.5, 1.5))
                c.arrays[r] = nonneg(r, g(rng, c, sz))
        c.scalars["dt"] = self.gen["dt"](rng) if "dt" in self.gen else rng.uniform(0.1, 1.0)
        if self.fix:
            self.fix(rng, c)
        self.base_arrays(c)
        if self.influence == "One":
            c.omega = lambda z, h: 1.0
        return c, par

    def driver_flags(self):
        args = ", ".join({"own": "&own[0]", "L": "&lst[0]", "DM": "dm"}.get(t, t) for t in self.sig.split())
        calls = self.callcode or "".join('if(c == "%s") obj.%s(%s);' % (m, m, args) for m in dict.fromkeys(self.calls))
        get = "".join('printf("OUT|ret:%s|1|%%.17g\\n", (double)obj.%s());' % (g, g) for g in self.getters)
        return ('-DCLASS=%s' % self.cls, '-DHEADER="%s"' % self.header, "-DCALLS=%s" % calls) + (("-DGETTERS=%s" % get,) if get else ())

    def exe(self):
        if self._exe is None:
            self._exe = self.make_exe()
        return self._exe

    _exe = None

    def make_exe(self):
        items = [(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers/model_driver.cpp"), self.driver_flags())]
        items += list(dict.fromkeys(self.tus + self.SUPPORT + self.link))
        return concrete.link(concrete.compile_all(items))

    def conc(self, rng):
        c, par = self.case(rng)
        return c, self.run(c, par)

    def run(self, c, par):
        exe = self.exe()
        lines = []
        for n, v in par.items():
            t = "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else "string" if isinstance(v, str) else "double"
            lines.append("%s|%s|%s" % (t, n, ("%d" % v) if t in ("bool", "int") else v if t == "string" else "%.17g" % v))
        for n, sp in sorted(self.specs()[0].items()):
            if n in classes.KNOWN_FIELDS or n in self.needs:
                lines.append("%s|%s|%d,%d,%d" % (("need" if n in self.needs else "reg", n) + sorted(sp)[0]))
        lines.append("influence|%s" % self.influence)
        lines.append("size|%d,%d,%d" % (c.N, c.M, c.nb))
        lines.append("dt|%.17g" % c.scalars["dt"])
        lines.append("own|" + " ".join(str(i) for i in range(c.N)))
        lines.append("list|" + " ".join(map(str, flat_list(c.lists["L"]))))
        for r, v in c.arrays.items():
            n, s = (r.split("@") + [""])[:2]
            st = {"": 1, "N": 2, "NP1": 3}[s]
            lines.append("field|%s|%d|%s" % (n, st, " ".join("%.17g" % x for x in v)))
        for m in self.calls:
            lines.append("call|" + (m[0] if isinstance(m, tuple) else m))
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write("\n".join(lines) + "\n")
        try:
            r = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=concrete.ENV)
        finally:
            os.unlink(f.name)
        if r.returncode:
            raise EvalError("driver for %s exited with status %d: %s" % (self.cls, r.returncode, r.stderr.decode()[-400:]))
        outs = {}
        for ln in r.stdout.decode().split("\n"):
            if ln.startswith("OUT|"):
                _, n, s, v = ln.split("|", 3)
                outs[n + {"1": "", "2": "@N", "3": "@NP1"}[s]] = [float(x) for x in v.split()]
        return outs


class Twin(Unit):
    """the same class evaluated twice: on arbitrary data, and on data changed by `moved` (region -> function of the index)"""

    def __init__(self, unit, moved, name=None):
        self.unit, self.moved = unit, moved
        self.name = name or unit.name

    def sources(self):
        return self.unit.sources()

    def build_key(self):
        return self.unit.build_key()

    def build(self):
        self.unit.build()

    def sym(self):
        ex = self.unit.sym()
        save = self.unit.base
        self.unit.base = dict(save, **self.moved)
        try:
            ex.twin = self.unit.sym()
        finally:
            self.unit.base = save
        return ex

    def conc(self, rng):
        c, par = self.unit.case(rng)
        outs = self.unit.run(c, par)
        c2 = copy.copy(c)
        c2.arrays = dict(c.arrays)
        ev = Ev(ConcreteModel(c))
        for r, f in self.moved.items():
            if r in c2.arrays:
                c2.arrays[r] = [ev.poly(f(P(i))) for i in range(len(c.arrays[r]))]
        for k, v in self.unit.run(c2, par).items():
            outs["twin:" + k] = v
        for k, v in c2.arrays.items():
            c.arrays["twin:" + k] = v
        return c, outs


def broken(b):
    """arbitrary set of bonds"""
    return ind("lt", P(Fraction(1, 2)) - rd("broken", b))


class Without(Unit):
    """a class evaluated with the damage of an arbitrary set of bonds equal to one; compared with those bonds absent.
    Symbolically the absence is: their summand is dropped from every sum over bonds; for real: they are removed from the lists"""

    def __init__(self, unit, damage="Bond_Damage@NP1", name=None, lst="L"):
        self.unit, self.damage, self.lst = unit, damage, lst
        self.name = name or unit.name
        unit.base = dict(unit.base)
        unit.base[damage] = lambda b: broken(b) + (1 - broken(b)) * rd(damage, b)

    def sources(self):
        return self.unit.sources()

    def build_key(self):
        return self.unit.build_key()

    def build(self):
        self.unit.build()

    def sym(self):
        ex = self.unit.sym()
        ex.without = self
        return ex

    def drop(self, p):
        def f(k, n, body):
            if len(n.t) == 1:
                (m, c), = n.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    a = _byid[m[0][0]]
                    if a.kind == "fn" and a.key[1] == "NN:" + self.lst:
                        return body * (1 - broken(B_(self.lst, a.key[2]) + k))
        return T.map_sums(p, f)

    def conc(self, rng):
        u = self.unit
        fix = u.fix

        def fix2(rng, c):
            if fix:
                fix(rng, c)
            c.arrays["broken"] = [rng.choice([0.0, 1.0]) for _ in range(c.nb)]
        u.fix = fix2
        try:
            c, par = u.case(rng)
        finally:
            u.fix = fix
        br = c.arrays.pop("broken")
        outs = u.run(c, par)
        c2 = copy.copy(c)
        c2.arrays = dict(c.arrays)
        specs, _ = u.specs()
        keep = [k for k, x in enumerate(br) if not x]
        for r in c2.arrays:
            n = r.split("@")[0]
            if n in specs and sorted(specs[n])[0][0] == 3:
                k = LEN[sorted(specs[n])[0][1]]
                c2.arrays[r] = [c.arrays[r][k * b + j] for b in keep for j in range(k)]
        it = iter(br)
        c2.lists = dict(c.lists)
        c2.lists[self.lst] = [[q for q in x if not next(it)] for x in c.lists[self.lst]]
        c2.nb = len(keep)
        if not keep:
            raise EvalError("every bond broken")
        for k, v in u.run(c2, par).items():
            outs["twin:" + k] = v
        c.arrays["broken"] = br
        for k, v in c2.arrays.items():
            c.arrays["twin:" + k] = v
        return c, outs


# ---------------------------------------------------------------- accessors handed to contracts
class SymOut:
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.binders = []

    def idx(self, name, n):
        v = var(name, True)
        self.binders.append((v, P(n)))
        return v

    def __call__(self, region, idx):
        if region in getattr(self.ex, "got", ()):
            return self.ex.got[region]
        if region not in self.ex.regions:
            if region.split("@")[0] not in getattr(self.ex, "field_specs", ()):
                raise Unsupported("no region %s" % region)
            self.ex.array(region)           # a field that was never touched
        save = self.ex.binders
        self.ex.binders = list(save) + self.binders
        lim, T.MUL_LIMIT = T.MUL_LIMIT, getattr(self.ex, "mul_limit", T.MUL_LIMIT)
        try:
            v = self.ex.final(region, P(idx))
        finally:
            self.ex.binders = save
            T.MUL_LIMIT = lim
        if not isinstance(v, Poly):
            raise Unsupported("value of %s[%s] is not numeric" % (region, idx))
        return v

    def inc(self, region, weight):
        """sum over all entries of weight * (final - initial)"""
        return self._total(region, weight, False)

    def tot(self, region, weight):
        return self._total(region, weight, True)

    def _total(self, region, weight, full):
        ex = self.ex
        if region not in ex.regions:
            raise Unsupported("no region %s" % region)
        return self._total_list(region, ex.mem[region], weight, full)

    def _total_list(self, region, effs, weight, full):
        ex = self.ex
        tot = ZERO
        reset = False
        for n, e in enumerate(effs):
            if e.kind == "all":
                if not e.guard.is_one():
                    raise Unsupported("conditional whole-vector update of %s" % region)
                if e.lin is not None:
                    if not full:
                        raise Unsupported("whole-vector update of %s" % region)
                    tot = ZERO
                    for c, r, l in e.lin:
                        tot = tot + c * self._total_list(r, l, weight, True)
                    reset = True
                    continue
                v = e.val(var("any", True))
                if not (isinstance(v, Poly) and v.const() is not None):
                    raise Unsupported("whole-vector update of %s" % region)
                k = var("all!k", True)
                T.NONNEG.add("len:" + region)
                tot = ZERO if v.is_zero() else Sum(k, sym("len:" + region, True), weight(k) * v)
                reset = True
                continue
            if e.kind != "w":
                raise Unsupported("opaque update of %s" % region)
            val = e.val
            if e.coef != 1:
                save, sb, sg = ex.mem.get(region), ex.binders, ex.guard
                ex.mem[region] = effs[:n]
                ex.binders = list(e.binders)
                ex.guard = ONE
                try:
                    old = ex.read(region, e.idx)
                finally:
                    ex.mem[region], ex.binders, ex.guard = save, sb, sg
                if any(not poly_mentions(e.idx, var_id(k)) for k, _ in e.binders):
                    raise Unsupported("overwriting update of %s" % region)
                val = val - old
            body = e.guard * weight(e.idx) * val
            for k, nn in reversed(e.binders):
                body = Sum(k, nn, body)
            tot = tot + body
        if full and not reset:
            k = var("all!k", True)
            T.NONNEG.add("len:" + region)
            b = ex.base_value(ex.regions[region], k) if region in ex.regions else rd(region, k)
            tot = tot + Sum(k, sym("len:" + region, True), weight(k) * b)
        return tot

    def ret(self):
        return self.ex.ret

    def twin(self):
        """accessor of the second evaluation"""
        if hasattr(self.ex, "without"):
            return DropOut(self.ex)
        return SymOut(self.ex.twin)

    def written(self):
        return sorted(r for r, l in self.ex.mem.items() if l and not is_scratch(self.ex, r))


class DropOut(SymOut):
    def __call__(self, region, idx):
        return self.ex.without.drop(super().__call__(region, idx))

    def inc(self, region, weight):
        return self.ex.without.drop(super().inc(region, weight))

    def tot(self, region, weight):
        return self.ex.without.drop(super().tot(region, weight))


class ConcOut:
    symbolic = False

    def __init__(self, case, outs):
        self.case, self.outs = case, outs
        self.binders = []

    def idx(self, name, n):
        v = var(name, True)
        self.binders.append((v, P(n)))
        return v

    def __call__(self, region, idx):
        return rd("out:" + region, idx)

    def inc(self, region, weight):
        r = ZERO
        for i in range(len(self.outs[region])):
            w = weight(P(i))
            r = r + w * (P(0) + rd("out:" + region, i) - rd(region, i))
        return r

    def tot(self, region, weight):
        r = ZERO
        for i in range(len(self.outs[region])):
            r = r + weight(P(i)) * rd("out:" + region, i)
        return r

    def ret(self):
        return rd("out:ret", ZERO)

    def twin(self):
        c = copy.copy(self.case)
        return TwinOut(c, self.outs)

    def written(self):
        return sorted(k for k, v in self.outs.items() if not k.startswith("ret") and any(a != b and not (a != a and b != b) for a, b in zip(v, self.case.arrays[k])))


class TwinOut(ConcOut):
    def __call__(self, region, idx):
        return super().__call__("twin:" + region, idx)

    def inc(self, region, weight):
        return super().inc("twin:" + region, weight)

    def tot(self, region, weight):
        return super().tot("twin:" + region, weight)


def is_scratch(ex, r):
    reg = ex.regions[r]
    return getattr(reg, "alloca", False) or getattr(reg, "heap", False) or r.startswith(("@", "param:", "vec:", "PL", "map:")) or r == "this"


def split3(idx, n=3):
    """idx = n*o + c"""
    c = idx.t.get((), 0) % n
    r = idx - c
    t = {}
    for m, k in r.t.items():
        if k % n:
            return None
        t[m] = k // n
    return Poly(t), c


# ---------------------------------------------------------------- goals
class Goal:
    """kind 'zero': value == 0;  'le': value <= 0;  'true': structural fact"""

    def __init__(self, kind, name, value, facts=(), detail="", probe=None):
        self.kind, self.name, self.value, self.facts, self.detail = kind, name, value, list(facts), detail
        self.probe = probe          # quantity that must not vanish identically (vacuity guard)


def eq(name, a, b, facts=(), probe=None):
    return Goal("zero", name, P(a) - P(b), facts, probe=P(b) if probe is None else probe)


def zero(name, a, facts=(), probe=None):
    return Goal("zero", name, P(a), facts, probe=probe)


def le(name, a, b, facts=()):
    return Goal("le", name, P(a) - P(b), facts)


def true(name, c, detail=""):
    return Goal("true", name, bool(c), detail=detail)


class Contract:
    """goals: list of functions O -> list of Goal (one binder scope each)"""

    def __init__(self, unit, *groups, name=None, pre=(), facts=(), cases=6, timeout=None, mk_model=Model, frame=None, skip_conc=False, tol=1e-6,
                 limits=(40, 6000), bounded=None, goal_limit=None, tiny=0.0, quotients=False):
        self.quotients = quotients  # name quotients
        self.tiny = tiny
        self.goal_limit = goal_limit
        self.bounded = bounded      # reason why only the concrete reading is used
        self.limits = limits
        self.unit, self.groups = unit, groups
        self.name = name or unit.name
        self.cases = cases
        self.facts = list(facts)
        self.timeout = timeout
        self.mk_model = mk_model
        self.frame = frame
        self.skip_conc = skip_conc
        self.tol = tol

    # ---- symbolic
    def prove(self):
        """evaluate with products above a small size kept as named subterms first, expanded if that is not enough"""
        old = T.MUL_LIMIT
        best = None
        Exec.TINY = self.tiny
        T.NAME_QUOTIENTS = self.quotients
        try:
            for lim in self.limits:
                lim, T.LAZY = lim if isinstance(lim, tuple) else (lim, None)
                T.MUL_LIMIT = lim
                T._subst_memo.clear()
                r = self.prove_at(lim)
                if best is None or r["error"] is None:
                    if best is not None and best["obs"] and len(best["obs"]) == len(r["obs"]):
                        for k, o in enumerate(best["obs"]):
                            if o["status"] != "undecided":
                                r["obs"][k] = o
                    best = r
                if r["error"] or all(o["status"] != "undecided" for o in r["obs"]):
                    break
                self.partial(best)
        finally:
            T.MUL_LIMIT, T.LAZY, T.NAME_QUOTIENTS = old, None, False
        return best

    def partial(self, r):
        """hook: best result so far"""

    def prove_at(self, lim):
        res = {"contract": self.name, "obs": [], "functions": [], "assumed": [], "error": None}
        t0 = time.time()
        if self.bounded:
            res["error"] = "bounded: " + self.bounded
            return res
        try:
            ex = self.unit.sym()
        except Unsupported as e:
            res["error"] = "not within reach of the verifier: %s" % e
            return res
        except RecursionError as e:
            res["error"] = "evaluation too deep"
            return res
        res["functions"] = sorted(ex.functions)
        res["assumed"] = sorted(ex.assumed)
        res["eval_s"] = time.time() - t0
        if self.frame is not None:
            w = SymOut(ex).written()
            extra = [r for r in w if r not in self.frame]
            res["obs"].append(dict(name="frame", status="discharged" if not extra else "refuted", backend="structural", t=0.0,
                                   detail="" if not extra else "also modifies " + ", ".join(extra)))
        if self.goal_limit:
            for e in (ex, getattr(ex, "twin", None)):
                if e is not None:
                    e.mul_limit = T.MUL_LIMIT
            T.MUL_LIMIT = self.goal_limit
        for g in self.groups:
            O = SymOut(ex)
            try:
                goals = g(O)
            except Unsupported as e:
                res["obs"].append(dict(name=getattr(g, "__name__", "group"), status="undecided", backend="", t=0.0, detail="not evaluated: %s" % e))
                continue
            for go in goals:
                res["obs"].append(self.decide(ex, O, go))
        return res

    def decide(self, ex, O, g):
        t = time.time()
        if g.kind == "true":
            return dict(name=g.name, status="discharged" if g.value else "refuted", backend="structural", t=0.0, detail=g.detail)
        rng = [c for k, n in O.binders for c in (ind("le", -k), ind("lt", k - n))]
        facts = list(g.facts) + rng + self.facts
        pr = Prover(ex, [], timeout=self.timeout or 8000)
        before = dict(STATS)
        if g.kind == "zero":
            try:
                ok = pr.zero(g.value, facts)
            except RecursionError:
                ok = False
            dt = time.time() - t
            if ok:
                be = [k for k in ("cleared", "sum-merge", "case-split", "z3") if STATS[k] != before[k]]
                r = dict(name=g.name, status="discharged", backend="+".join(["normal-form"] + be), t=dt, detail="")
                if g.probe is not None and not self.nontrivial(g.probe, facts):
                    r["status"] = "undecided"
                    r["detail"] = "vacuity guard: the compared quantity vanishes in every random model"
                return r
        else:
            goal = ind("le", g.value)
            if goal.is_one():
                return dict(name=g.name, status="discharged", backend="normal-form", t=0.0, detail="")
            r = pr.valid(goal, facts, self.timeout)
            dt = time.time() - t
            if r:
                return dict(name=g.name, status="discharged", backend="cvc5" if STATS["cvc5"] != before["cvc5"] else "z3", t=dt, detail="")
        return self.refute(g, facts, dt)

    def nontrivial(self, p, facts):
        if isinstance(p, Poly) and p.const() not in (None, 0):
            return True
        n = 0
        for s in range(12):
            ev = Ev(self.mk_model(s))
            self.rand_vars(ev, s, p)
            try:
                if abs(ev.poly(p)) > 1e-12:
                    return True
                n += 1
            except (EvalError, OverflowError, KeyError):
                continue
        # outside the domain of some function in every model tried
        return n == 0 and not P(p).is_zero()

    def rand_vars(self, ev, s, *ps):
        return

    def refute(self, g, facts, dt):
        """evaluate the failed obligation in random models"""
        v = g.value
        allp = T.walk_atoms(v)
        opaque = sorted({_byid[a].kind for a in allp if _byid[a].kind in OPAQUE or
                         (_byid[a].kind == "var" and re.match(r"phi|hav|sv!|opq", str(_byid[a].key[1])))})
        if opaque:
            return dict(name=g.name, status="undecided", backend="", t=dt, detail="opaque terms (%s) in %s" % (",".join(opaque), show(v, 3)[:300]))
        n = 0
        kinds = {_byid[a].kind for f in [v] + [f for f in facts if isinstance(f, Poly)] for a in T.walk_atoms(f)}
        ties = self.mk_model is Model and "ind" in kinds and not kinds & {"sqrt"}
        start = time.time()
        for s in range(80 if ties else 40):
            m = Ties(s) if ties and s % 2 else self.mk_model(s)
            ev = Ev(m)
            self.assign_vars(m, ev, s, facts, v)
            try:
                if not all(abs(ev.poly(f) - 1) < 1e-9 for f in facts if isinstance(f, Poly)):
                    continue
                val = ev.poly(v)
                sc = ev.mag(v)
            except (EvalError, OverflowError, KeyError):
                continue
            if isinstance(val, complex) or val != val:
                continue
            n += 1
            bad = abs(val) > 1e-6 * max(sc, 1e-30) if g.kind == "zero" else val > 1e-6 * max(sc, 1e-30)
            if bad:
                return dict(name=g.name, status="refuted", backend="normal-form+model", t=dt,
                            detail="obligation value %.6g (scale %.3g) in random model %d: %s" % (val, sc, s, show(v, 5)[:500]))
            if n >= (60 if ties else 10) or time.time() - start > 20:
                break
        return dict(name=g.name, status="undecided", backend="", t=dt, detail="no proof; holds in %d random models: %s" % (n, show(v, 3)[:300]))

    def assign_vars(self, m, ev, s, facts, v):
        """free index variables: small integers within their ranges"""
        rnd = random.Random(s)
        vs = sorted({a for f in list(facts) + [v] if isinstance(f, Poly) for a in f.fv()})
        for a in vs:
            at = _byid[a]
            m.vars[at.key[1]] = rnd.randint(0, 2) if at.isint else rnd.uniform(-1.5, 1.5)

    # ---- concrete
    def replay(self, seed, cases=None):
        """-> dict(ran, checked, failures)"""
        out = {"contract": self.name, "ran": 0, "checked": 0, "failure": None, "error": None}
        if self.skip_conc:
            out["error"] = "no concrete reading of this contract"
            return out
        tries = 0
        want = cases or self.cases
        while out["ran"] < want and tries < 3 * want:
            tries += 1
            start = "%s/%s/%d" % (seed, self.name, tries)
            try:
                case, outs = self.unit.conc(random.Random(start))
            except (Unsupported, ExtractionError, AttributeError, OSError, subprocess.TimeoutExpired) as e:
                out["error"] = str(e)[:500]
                out["fatal"] = isinstance(e, concrete.SourceError)
                break
            except EvalError as e:
                out["error"] = str(e)[:300]
                if "status" in str(e) and self.ends_early(start):
                    out["crash"] = out.get("crash", 0) + 1
                    if out["crash"] > 2:
                        break
                continue
            out["ran"] += 1
            for g in self.groups:
                O = ConcOut(case, outs)
                try:
                    goals = g(O)
                except (EvalError, KeyError, Unsupported) as e:
                    out["error"] = "%s: %s" % (getattr(g, "__name__", "?"), e)
                    continue
                f = self.conc_goals(O, goals, case, outs, out)
                if f is not None:
                    f["case"] = case.dump()
                    f["outputs"] = outs
                    out["failure"] = f
                    return out
            if self.frame is not None:
                extra = [r for r in ConcOut(case, outs).written() if r not in self.frame]
                if extra:
                    out["failure"] = dict(obligation="frame", at={}, value="modified " + ", ".join(extra), case=case.dump(), outputs=outs)
                    return out
        return out

    def ends_early(self, start):
        """the code does not return normally on this input, again"""
        try:
            self.unit.conc(random.Random(start))
        except EvalError as e:
            return "status" in str(e)
        except Exception:
            pass
        return False

    def conc_goals(self, O, goals, case, outs, out):
        m = ConcreteModel(case, outs)

        def rec(i, at):
            if i == len(O.binders):
                ev = Ev(m)
                for g in goals:
                    if g.kind == "true":
                        if not g.value:
                            return dict(obligation=g.name, at=dict(at), value=g.detail)
                        continue
                    try:
                        if not all(abs(ev.poly(f) - 1) < 1e-9 for f in list(g.facts) + self.facts):
                            continue
                        v, sc = ev.poly(g.value), ev.mag(g.value)
                    except (EvalError, OverflowError):
                        continue
                    if isinstance(v, complex):
                        continue
                    out["checked"] += 1
                    if v != v:
                        bad = True
                    else:
                        bad = abs(v) > self.tol * (sc + 1e-6) if g.kind == "zero" else v > self.tol * (sc + 1e-6)
                    if bad:
                        return dict(obligation=g.name, at=dict(at), value="%.10g (scale %.4g, must be %s)" % (v, sc, "0" if g.kind == "zero" else "<= 0"))
                return None
            k, n = O.binders[i]
            nm = _byid[var_id(k)].key[1]
            try:
                cnt = int(round(Ev(m).poly(n)))
            except EvalError:
                return None
            for z in range(cnt):
                m.vars[nm] = z
                at.append((nm, z))
                r = rec(i + 1, at)
                at.pop()
                if r:
                    return r
            return None
        return rec(0, [])
