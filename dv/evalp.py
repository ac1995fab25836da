"""Numeric evaluation of terms in a model (concrete arrays or a random abstract model)."""
import hashlib
import math
import random

from .terms import _byid, Poly
from . import terms as T


class EvalError(Exception):
    pass


class Model:
    """override rd/sym/nn/nbr/boff/fn"""

    def __init__(self, seed=0):
        self.seed = seed
        self.vars = {}
        self.cache = {}

    # -- abstract defaults: hash based
    def h(self, *key):
        k = repr((self.seed,) + key)
        v = self.cache.get(k)
        if v is None:
            v = int.from_bytes(hashlib.md5(k.encode()).digest()[:8], "big") / 2.0**64
            self.cache[k] = v
        return v

    npoints = 4
    nowned = 3

    def rd(self, region, idx, isint):
        if isint:
            return self.intrd(region, int(round(idx)))
        if region in T.NONNEG:
            return 0.3 + 1.7 * self.h("rd", region, int(round(idx)))
        return -1.5 + 3.0 * self.h("rd", region, int(round(idx)))

    def intrd(self, region, idx):
        if region == "LRID" and self.h("rdi", region, idx) < 0.5:
            return -1           # not a row of this process
        if region in T.DISTINCT:
            n = self.nowned
            perm = sorted(range(n), key=lambda j: self.h("perm", region, j))
            return n * (idx // n) + perm[idx % n]
        return int(self.h("rdi", region, idx) * self.npoints)

    def sym(self, name, isint):
        if name == "huge":
            return 1e150
        if name == "pi":
            return math.pi
        if isint:
            return self.intsym(name)
        return 0.4 + 1.6 * self.h("sym", name)

    def intsym(self, name):
        return 7 if name == "nv" else self.nowned

    def nn(self, lst, p):
        return 1 + int(self.h("nn", lst, p) * 2.99)

    def nbr(self, lst, p, n):
        v = int(self.h("nbr", lst, p, n) * (self.npoints - 1))
        return v if v < p else v + 1

    def boff(self, lst, p):
        return sum(self.nn(lst, j) for j in range(int(p)))

    def fn(self, name, args):
        f = FUNCS.get(name)
        if f is not None:
            try:
                return f(*args)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise EvalError(name)
        if name.startswith("position:"):
            n = self.nowned
            return next((k for k in range(n) if self.intrd(name[9:], k) == round(args[0])), 0)
        if name.startswith("rtc:"):
            return 0.5 + 0.6 * int(3 * self.h("fn", name, tuple(round(a, 9) for a in args)))     # a few values only: equal ones occur
        return 0.3 + 1.4 * self.h("fn", name, tuple(round(a, 9) for a in args))

    def opaque(self, a, args):
        return -1.0 + 2.0 * self.h("op", a.kind, str(a.key[1]), str(a.key[2]) if not isinstance(a.key[2], Poly) else "", tuple(args))


class Ties(Model):
    """few values, exact in binary: comparisons meet their boundary"""

    def grid(self, n, *key):
        return 0.5 * int(n * self.h(*key))

    def rd(self, region, idx, isint):
        if isint:
            return self.intrd(region, int(round(idx)))
        v = self.grid(3, "rd", region, int(round(idx)))
        return 0.5 + v if region in T.NONNEG else v - 0.5

    def sym(self, name, isint):
        if isint or name in ("huge", "pi"):
            return super().sym(name, isint)
        return 0.5 + self.grid(2, "sym", name)


def _trunc(x):
    return float(int(x))


FUNCS = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "acos": math.acos, "asin": math.asin,
         "atan": math.atan, "atan2": math.atan2, "pow": lambda a, b: math.pow(a, b), "floor": math.floor, "ceil": math.ceil,
         "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "log10": math.log10, "trunc": lambda x: int(x),
         "fmod": math.fmod, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3.), x),
         "rounded": lambda x, n: float("%.*g" % (int(n), x)),
         "idiv": lambda a, b: int(a / b) if b else 0}


class Ev:
    def __init__(self, model):
        self.m = model
        self.bv = {}
        self.memo = {}

    def poly(self, p):
        v = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                x = self.atom(a)
                if e == 1:
                    t *= x
                else:
                    if x == 0 and e < 0:
                        raise EvalError("1/0")
                    t *= x ** e
            v += t
        return v

    def mag(self, p):
        """sum of |monomials|: scale for comparisons"""
        v = 0.0
        for m, c in p.t.items():
            t = abs(float(c))
            for a, e in m:
                x = self.atom(a)
                if x == 0 and e < 0:
                    raise EvalError("1/0")
                t *= self.matom(a) ** e if e > 0 else abs(x) ** e
            v += t
        return v

    def matom(self, aid):
        """scale of an atom: what cancels inside a sum or a named term counts"""
        a = _byid[aid]
        if a.kind == "def":
            return self.mag(a.key[1])
        if a.kind == "sum":
            bvid, n, body = a.key[1], a.key[2], a.key[3]
            lev = _byid[bvid].key[1]
            old = self.bv.get(lev)
            s = 0.0
            for i in range(int(round(self.poly(n)))):
                self.bv[lev] = i
                s += self.mag(body)
            self.bv[lev] = old
            return s
        return abs(self.atom(aid))

    def atom(self, aid):
        a = _byid[aid]
        k = a.kind
        if k == "bv":
            return self.bv[a.key[1]]
        if a.bvh > 0:
            bv = self.bv
            key = (aid,) + tuple(bv.get(h) for h in range(1, a.bvh + 1))
        else:
            key = aid
        r = self.memo.get(key)
        if r is None:
            r = self._atom(a)
            self.memo[key] = r
        return r

    any = None

    def absent(self, entry, n, v):
        """0 if v is among the first n entries of the table"""
        x = round(self.poly(v))
        for i in range(int(round(self.poly(n)))):
            e = Ev(self.m)
            e.bv, e.any = self.bv, i
            if round(e.poly(entry)) == x:
                return 0
        return 1

    def _atom(self, a):
        k = a.kind
        if k == "var":
            try:
                return self.m.vars[a.key[1]]
            except KeyError:
                return self.m.h("var", a.key[1]) if not a.isint else 0
        if k == "sym":
            if a.key[1] == "any" and self.any is not None:
                return self.any
            return self.m.sym(a.key[1], a.isint)
        if k == "rd":
            return self.m.rd(a.key[1], self.poly(a.key[2]), a.isint)
        if k == "sqrt":
            x = self.poly(a.key[1])
            if x < 0:
                if x > -1e-12:
                    return 0.0
                raise EvalError("sqrt<0")
            return math.sqrt(x)
        if k == "abs":
            return abs(self.poly(a.key[1]))
        if k == "inv":
            x = self.poly(a.key[1])
            if x == 0:
                raise EvalError("1/0")
            return 1.0 / x
        if k == "def":
            return self.poly(a.key[1])
        if k == "ind":
            if a.key[1] == "lt":
                return 1.0 if self.poly(a.key[2]) < 0 else 0.0
            if a.key[1] == "eq":
                x = self.poly(a.key[2])
                return 1.0 if abs(x) < 1e-13 else 0.0
            return 1.0 if self.m.h("pred", str(a.key[2]), tuple(round(self.poly(x), 9) for x in a.key[3:])) < 0.5 else 0.0
        if k == "sum":
            bvid, n, body = a.key[1], a.key[2], a.key[3]
            N = int(round(self.poly(n)))
            lev = _byid[bvid].key[1]
            old = self.bv.get(lev)
            s = 0.0
            for i in range(N):
                self.bv[lev] = i
                s += self.poly(body)
            self.bv[lev] = old
            return s
        if k == "fold":
            h, n, v0, step = a.key[1], a.key[2], a.key[3], a.key[4]
            N = int(round(self.poly(n)))
            v = self.poly(v0)
            o1, o2 = self.bv.get(h), self.bv.get(h + 1)
            for i in range(N):
                self.bv[h] = i
                self.bv[h + 1] = v
                v = self.poly(step)
            self.bv[h], self.bv[h + 1] = o1, o2
            return v
        if k == "fn":
            nm = a.key[1]
            if nm.startswith("NN:"):
                return self.m.nn(nm[3:], int(round(self.poly(a.key[2]))))
            if nm.startswith("nbr:"):
                return self.m.nbr(nm[4:], int(round(self.poly(a.key[2]))), int(round(self.poly(a.key[3]))))
            if nm.startswith("B:"):
                return self.m.boff(nm[2:], int(round(self.poly(a.key[2]))))
            if nm == "absent":
                return self.absent(*a.key[2:])
            return self.m.fn(nm, [self.poly(x) for x in a.key[2:]])
        args = [self.poly(x) for x in a.key[1:] if isinstance(x, Poly)]
        return self.m.opaque(a, args)


def refute_zero(p, mk_model=Model, seeds=range(8), tol=1e-6, check_facts=None):
    """search a random model in which p is clearly non-zero; returns
    (model, value, scale) or None; second component False when nothing could be evaluated"""
    evaluated = 0
    for s in seeds:
        m = mk_model(s)
        ev = Ev(m)
        try:
            if check_facts is not None and not check_facts(ev):
                continue
            v = ev.poly(p)
            sc = ev.mag(p)
        except (EvalError, OverflowError):
            continue
        if isinstance(v, complex) or v != v:
            continue
        evaluated += 1
        if abs(v) > tol * max(sc, 1e-30):
            return (m, v, sc), True
    return None, evaluated > 0
