"""Symbolic evaluator for extracted functions.

Every function is evaluated for all inputs and all iteration counts: loops are
summarised by closed forms whose inductive step is checked (never unrolled
unless the trip count is a literal constant).  Memory is a per-region ordered
list of guarded effects  region[idx] := coef*old + val , possibly quantified
by loop binders."""
from fractions import Fraction
import math
import re
import sys

from . import ir
from .ir import Unsupported
from .terms import *
from .terms import _byid, _isint_poly
from . import terms as T


INLINE = object()         # handler result: evaluate the body of the callee


class Ptr:
    __slots__ = ("region", "off")

    def __init__(self, region, off):
        self.region = region
        self.off = P(off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.region == o.region and self.off == o.off

    def __hash__(self):
        return hash((self.region, self.off))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.region, self.off)


NULL = Ptr(None, ZERO)


class CPtr:
    """conditional pointer: list of (cond, value)"""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "CPtr(%s)" % self.alts


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Agg:
    def __init__(self, d):
        self.d = d


UNDEF = object()


class Region:
    def __init__(self, name, esz=8, kind="array", isint=False, base=None, size=None):
        self.name = name
        self.esz = esz
        self.kind = kind          # array | obj | nlist
        self.isint = isint
        self.base = base
        self.size = size
        self.phantom = False      # target of a pointer whose value is not known


class Eff:
    __slots__ = ("binders", "guard", "idx", "coef", "val", "kind", "lin")

    def __init__(self, binders, guard, idx, coef, val, kind="w"):
        self.binders = binders     # list of (var Poly, N Poly)
        self.guard = guard
        self.idx = idx
        self.coef = coef           # 0 (set) or 1 (add)
        self.val = val
        self.kind = kind           # w | bar (loop barrier) | hav
        self.lin = None

    def __repr__(self):
        b = "".join("{%s<%s}" % (k, n) for k, n in self.binders)
        return "%s[%s] %s %s  if %s" % (b, self.idx, "+=" if self.coef else ":=", self.val, self.guard)


class LoopInfo:
    pass


def var_id(v):
    (m, c), = v.t.items()
    return m[0][0]


_NORET = (("glob", "MPI_Abort"), ("glob", "abort"), ("glob", "exit"))


class CFG:
    """reachable-to-return part of a function's control flow graph"""

    def __init__(self, fn):
        self.fn = fn
        succ = {}
        for b, ins in fn.blocks.items():
            succ[b] = ir.successors(ins[-1]) if ins else []
            if any(i.op in ("call", "invoke") and i.ops and i.ops[0] in _NORET for i in ins):
                succ[b] = []
        rets = [b for b, ins in fn.blocks.items() if ins and ins[-1].op == "ret"]
        pred = {b: [] for b in fn.blocks}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        good = set()
        st = list(rets)
        while st:
            b = st.pop()
            if b in good:
                continue
            good.add(b)
            st.extend(pred[b])
        # reachable from the entry
        reach = set()
        st = [fn.entry]
        while st:
            b = st.pop()
            if b in reach or b not in good:
                continue
            reach.add(b)
            st.extend(succ[b])
        self.blocks = reach
        self.succ = {b: [s for s in dict.fromkeys(succ[b]) if s in reach] for b in reach}
        self.pred = {b: [] for b in reach}
        for b in reach:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.noret = not rets
        if fn.entry in reach:
            self._dom()
            self._loops()

    def _rpo(self, entry, blocks, succ):
        seen = set()
        out = []
        st = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s in blocks and s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def _dom(self):
        rpo = self._rpo(self.fn.entry, self.blocks, self.succ)
        self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.fn.entry: self.fn.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.num = num

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n

    def _loops(self):
        self.loops = {}       # header -> LoopInfo
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    li = self.loops.get(s)
                    if li is None:
                        li = LoopInfo()
                        li.header = s
                        li.latches = []
                        li.body = {s}
                        self.loops[s] = li
                    li.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in li.body:
                            li.body.add(x)
                            st.extend(self.pred[x])
                elif self.num[s] <= self.num[b]:
                    raise Unsupported("irreducible control flow")
        for h, li in self.loops.items():
            li.exits = [(b, s) for b in li.body for s in self.succ[b] if s not in li.body]
        # parent
        for h, li in self.loops.items():
            par = None
            for h2, l2 in self.loops.items():
                if h2 != h and h in l2.body and (par is None or len(l2.body) < len(self.loops[par].body)):
                    par = h2
            li.parent = par

    def inner_header(self, block, within):
        """outermost loop header h (strictly inside `within`) whose body contains block"""
        best = None
        for h, li in self.loops.items():
            if block in li.body and (within is None or (h != within.header and h in within.body)):
                if best is None or len(li.body) > len(self.loops[best].body):
                    best = h
        return best


_cfgs = {}


def cfg_of(fn):
    c = _cfgs.get(id(fn))
    if c is None:
        c = CFG(fn)
        _cfgs[id(fn)] = (c, fn)
        return c
    return c[0]


INTRIN_NOOP = re.compile(r"^llvm\.(lifetime|dbg|assume|invariant|experimental\.noalias|donothing|prefetch|stackrestore|va_)")
MAX_UNROLL = 80


class Exec:
    def __init__(self, mods, facts=None, handlers=None, trace=None):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.regions = {}
        self.mem = {}
        self.deep_loops = False             # resolve the reads of an iteration's start state below sums as well
        self.fresh_statics = False          # variables of static storage hold their initial values (start of the program)
        self.guard = ONE            # relative to the innermost open loop
        self.outer = ONE            # product of the guards of the open loops
        self.binders = []           # open loop binders
        self.facts = list(facts or [])     # indicator polys known to be 1
        from . import models
        self.handlers = list(handlers or []) + models.DEFAULT     # list of (regex on symbol, fn)
        self.ctr = 0
        self.depth = 0
        self.notes = []             # modelling notes (assumptions met)
        self.assumed = set()
        self.functions = set()      # functions whose IR was evaluated
        self.lists = {}             # nlist region -> options
        self.inj = set()            # int regions with pairwise distinct entries
        self.selfex = {}            # list -> function p -> excluded value
        self.loops_done = 0
        self.nonneg_regions = set()
        self.alloc_names = {}
        self.solver = None
        self.passes = 0
        self.unknown_calls = {}
        self.steps = 0
        self.max_steps = 3000000
        self.alias_assume = []
        self.global_regions = {}
        self.modcache = {}

    # ------------------------------------------------------------ regions
    def fresh(self, base):
        self.ctr += 1
        return "%s!%d" % (base, self.ctr)

    def add_region(self, name, **kw):
        r = Region(name, **kw)
        self.regions[name] = r
        self.mem[name] = []
        return r

    def array(self, name, isint=False, nonneg=False, esz=None):
        self.add_region(name, esz=esz or (4 if isint else 8), kind="array", isint=isint)
        if nonneg:
            T.NONNEG.add(name)
        return Ptr(name, ZERO)

    def nlist(self, name, excl=None):
        """neighbourhood list region: [n0, id.., n1, id.., ...]"""
        self.add_region(name, esz=4, kind="nlist", isint=True)
        self.lists[name] = True
        self.selfex[name] = excl if excl is not None else (lambda p: p)
        return Ptr(name, ZERO)

    def obj(self, name, size=None):
        self.add_region(name, esz=1, kind="obj", size=size)
        return Ptr(name, ZERO)

    def ctx(self):
        return self.outer * self.guard

    # ------------------------------------------------------------ integer reasoning
    def sol(self):
        if self.solver is None:
            from .prove import IntSolver
            self.solver = IntSolver(self)
        return self.solver

    def range_facts(self, extra=()):
        out = []
        for k, n in list(self.binders) + list(extra):
            out.append((k, n))
        return out

    def distinct(self, a, b, binders=(), facts=()):
        """prove a != b (integers) under the open binders"""
        d = a - b
        c = d.const()
        if c is not None:
            return c != 0
        if d.is_zero():
            return False
        col, rest, w = T.columns(d)
        if not col.is_zero() and (w is T.COLUMN or self.within(a, w, binders) and self.within(b, w, binders)):
            # different columns, or different places in the column
            return self.distinct(col, ZERO, binders, facts) or self.distinct(rest, ZERO, binders, facts)
        # gcd test
        g = 0
        for m, cc in d.t.items():
            if m:
                if Fraction(cc).denominator != 1:
                    g = 1
                    break
                g = math.gcd(g, int(cc))
        c0 = d.t.get((), 0)
        if g > 1 and c0 % g != 0:
            return True
        return self.sol().never_zero(d, self.range_facts(binders), facts)

    def within(self, p, w, binders=()):
        """the place in p = column * w + place lies in 0 .. k w - 1, where k divides the column"""
        (wid, _), = next(iter(w.t))
        c = {m: x for m, x in p.t.items() if dict(m).get(wid) == 1}
        r = Poly({m: x for m, x in p.t.items() if m not in c})
        k = 0
        for x in c.values():
            if Fraction(x).denominator != 1:
                return False
            k = math.gcd(k, int(x))
        if not c:
            k = self.row
        return self.provable(ind("lt", r - w.scale(k)), binders) and self.provable(ind("le", -r), binders)

    row = 1                 # values per cell, when the column is 0

    def provable(self, cond, binders=()):
        """cond: indicator poly"""
        if cond.is_one():
            return True
        if cond.is_zero():
            return False
        return self.sol().valid(cond, self.range_facts(binders))

    # ------------------------------------------------------------ memory
    def index(self, p, width=None):
        r = self.regions[p.region]
        if r.esz == 1:
            return p.off
        t = {}
        for m, c in p.off.t.items():
            c2 = Fraction(c) / r.esz
            if c2.denominator != 1:
                raise Unsupported("unaligned access to %s at %s" % (p.region, p.off))
            t[m] = c2.numerator
        return Poly(t)

    def base_value(self, reg, idx, ty=None):
        if reg.base is not None:
            v = reg.base(idx, ty)
            if v is not None:
                return v
        if reg.kind == "nlist":
            return self.nlist_value(reg.name, idx)
        isint = reg.isint or (ty is not None and ty.k == "int")
        if ty is not None and ty.k == "ptr":
            nm = "%s@%s" % (reg.name, idx)
            if nm not in self.regions:
                self.obj(nm)
            return Ptr(nm, ZERO)
        return rd(reg.name, idx, isint)

    def nlist_value(self, name, idx):
        P_ = None
        for m, c in idx.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                a = _byid[m[0][0]]
                if a.kind == "fn" and a.key[1] == T.BOFF + ":" + name:
                    P_ = a.key[2]
        if P_ is None:
            c = idx.t.get((), 0)
            cands = [ZERO]
            r = idx
            # position 0 of the list is particle 0
            if any(_byid[a].kind == "rd" and _byid[a].key[1] == name for a in T.walk_atoms(idx)):
                return rd(name, idx, True)
            if not _isint_poly(r):
                return rd(name, idx, True)
            if any(_byid[a].kind == "var" and str(_byid[a].key[1]).startswith("phi") for a in idx.atoms()):
                return rd(name, idx, True)
            P_ = ZERO
        else:
            r = idx - P_ - B_(name, P_)
        if r.is_zero():
            return NN_(name, P_)
        return nbr_(name, P_, r - 1)

    def read(self, region, idx, ty=None):
        reg = self.regions[region]
        if reg.phantom:
            raise Unsupported("access through a pointer that changes in a loop: %s" % region)
        effs = self.mem[region]
        # find the last definite overwrite
        start = 0
        plans = []
        ctx = self.ctx()
        v = None
        self.reading = region
        rest = ctx              # the cases not yet overwritten
        i = len(effs) - 1
        while i >= 0:
            e = effs[i]
            if e.kind == "bar":
                v = ("bar", e)
                break
            if e.kind == "hav":
                v = ("hav", e)
                break
            if e.kind == "all":
                if e.guard.is_one() or implies(ctx, e.guard):
                    v = ("val", e.val(idx))
                    break
                if not (ctx * e.guard).is_zero():
                    val = e.val(idx)
                    rest = rest * (ONE - e.guard)
                    if rest.is_zero():
                        v = ("val", val)
                        break
                    plans.append((e, e.guard, val))
                i -= 1
                continue
            m = self.match(e, idx, ctx)
            if m == "no":
                i -= 1
                continue
            if m == "unknown":
                v = ("unk", e)
                break
            cond, val = m
            if e.coef == 0 and cond.is_one():
                v = ("val", val)
                break
            if e.coef == 0:
                rest = rest * (ONE - cond)
                if rest.is_zero():
                    v = ("val", val)
                    break
            plans.append((e, cond, val))
            i -= 1
        if v is None:
            cur = self.base_value(reg, idx, ty)
        elif v[0] == "val":
            cur = v[1]
        elif v[0] == "bar":
            cur = self.opaque_read(("rdL", v[1].idx), region, idx, ty)
        elif v[0] == "hav":
            cur = self.opaque_read(("rdH", v[1].idx), region, idx, ty)
        else:
            cur = self.opaque_read(("rdU", id_of(v[1])), region, idx, ty)
        for e, cond, val in reversed(plans):
            if e.coef == 1:
                cur = cur + cond * val
            else:
                cur = self.ite_val(cond, val, cur)
        return cur

    def opaque_read(self, tag, region, idx, ty):
        reg = self.regions[region]
        isint = reg.isint or (ty is not None and ty.k == "int")
        if ty is not None and ty.k == "ptr":
            nm = "%s.%s.%s@%s" % (tag[0], tag[1], region, idx)
            if nm not in self.regions:
                self.obj(nm)
                self.regions[nm].phantom = True
            return Ptr(nm, ZERO)
        return atom_poly(mk_atom((tag[0], tag[1], region, idx), isint))

    def ite_val(self, c, a, b):
        if c.is_one():
            return a
        if c.is_zero():
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg({k: self.ite_val(c, a.d[k], b.d[k]) for k in a.d if k in b.d})
        if a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region == b.region:
            return Ptr(a.region, ite(c, a.off, b.off))
        if isinstance(a, (Ptr, CPtr, FnPtr)) and isinstance(b, (Ptr, CPtr, FnPtr)):
            al = [(c, a)] if not isinstance(a, CPtr) else [(c * x, y) for x, y in a.alts]
            bl = [(ONE - c, b)] if not isinstance(b, CPtr) else [((ONE - c) * x, y) for x, y in b.alts]
            merged = {}
            for x, y in al + bl:
                if not x.is_zero():
                    merged[y] = merged.get(y, ZERO) + x
            if len(merged) == 1:
                return next(iter(merged))
            return CPtr([(x, y) for y, x in merged.items()])
        raise Unsupported("merge of %r and %r" % (a, b))

    def match(self, e, q, ctx):
        """'no' | 'unknown' | (cond, val)"""
        bs = e.binders
        if not bs:
            d = q - e.idx
            c = d.const()
            if c is not None:
                if c != 0:
                    return "no"
                eqc = ONE
            else:
                if self.distinct(q, e.idx):
                    return "no"
                if not _isint_poly(d):
                    eqc = ind("eq", d)
                else:
                    eqc = ind("eq", d)
                    if self.provable(eqc):
                        eqc = ONE
            g = e.guard
            if g.is_one() or implies(ctx, g):
                g = ONE
            elif (ctx * g).is_zero():
                return "no"
            cond = eqc * g
            if cond.is_zero():
                return "no"
            return cond, e.val
        # quantified effect
        dep = [(k, n) for k, n in bs if poly_mentions(e.idx, var_id(k))]
        free = [(k, n) for k, n in bs if not poly_mentions(e.idx, var_id(k))]
        if not dep:
            d = q - e.idx
            c = d.const()
            if c is not None and c != 0:
                return "no"
            if c is None:
                if self.distinct(q, e.idx):
                    return "no"
                eqc = ind("eq", d)
                if self.provable(eqc):
                    eqc = ONE
            else:
                eqc = ONE
            if e.coef == 1:
                body = e.guard * e.val
                for k, n in reversed(free):
                    body = Sum(k, n, body)
                return eqc, body
            # last write wins: single binder
            if len(free) == 1 and isinstance(e.val, Poly):
                k, n = free[0]
                sb = {var_id(k): n - 1}
                g = subst(e.guard, sb)
                if not e.guard.is_one() and poly_mentions(e.guard, var_id(k)):
                    return "unknown"
                nz = ind("lt", -n)
                if self.provable(nz):
                    nz = ONE
                return eqc * g * nz, subst(e.val, sb)
            return "unknown"
        sol = self.unify(e.idx, dep, q)
        if sol is None:
            if self.distinct(e.idx, q, binders=dep):
                return "no"
            if e.coef == 0 and len(bs) == 1 and isinstance(e.val, Poly):
                return self.scattered(e, bs[0], q, ctx)
            return "unknown"
        if sol == "no":
            return "no"
        sb = {var_id(k): v for k, v in sol.items()}
        cond = ONE
        for k, n in dep:
            v = sol[k]
            n2 = subst(n, sb)
            lo = ind("le", -v)
            hi = ind("lt", v - n2)
            for c in (lo, hi):
                if c.is_zero():
                    return "no"
                if not c.is_one() and not self.provable(c):
                    if self.provable(ONE - c):
                        return "no"
                    cond = cond * c
        g = subst(e.guard, sb)
        val = subst(e.val, sb) if isinstance(e.val, Poly) else e.val
        if e.coef == 1:
            body = g * val
            for k, n in reversed(free):
                body = Sum(k, subst(n, sb), body)
            if cond.is_zero():
                return "no"
            return cond, body
        if free:
            # the same location written by several inner iterations: last wins
            if len(free) == 1 and not poly_mentions(g, var_id(free[0][0])):
                k, n = free[0]
                n = subst(n, sb)
                val = subst(val, {var_id(k): n - 1})
                nz = ind("lt", -n)
                if not self.provable(nz):
                    cond = cond * nz
            else:
                return "unknown"
        if not g.is_one():
            if implies(ctx, g):
                g = ONE
            elif (ctx * g).is_zero():
                return "no"
        cond = cond * g
        if cond.is_zero():
            return "no"
        return cond, val

    def scattered(self, e, b, q, ctx):
        """entries named by a table are assigned a value that depends on the entry only, not on where the table names it"""
        k, n = b
        kid = var_id(k)
        ts = [(m, c) for m, c in e.idx.t.items() if any(kid in _byid[a].fv for a, _ in m)]
        if len(ts) != 1 or len(ts[0][0]) != 1 or ts[0][0][0][1] != 1 or _byid[ts[0][0][0][0]].kind != "rd" or poly_mentions(n, kid):
            return "unknown"
        (m, c), a = ts[0], ts[0][0][0][0]
        v = (q - (e.idx - Poly({m: c}))).scale(Fraction(1) / c)
        if not all(Fraction(x).denominator == 1 for y, x in v.t.items() if y):
            return "unknown"
        if Fraction(v.t.get((), 0)).denominator != 1:
            return "no" if _isint_poly(v - P(v.t[()])) else "unknown"
        sb = {a: v}
        g, val = subst(e.guard, sb), subst(e.val, sb)
        if getattr(self.regions.get(self.reading), "inverse", False) and g.is_one() and val == k:
            # position of an entry in a list without repetition
            return ONE, fn("position:" + _byid[a].key[1], v)
        if poly_mentions(g, kid) or poly_mentions(val, kid):
            return "unknown"
        cond = g * T.member(subst(atom_poly(_byid[a]), {kid: T.ANY}), n, v)
        return "no" if cond.is_zero() or (ctx * cond).is_zero() else (cond, val)

    def unify(self, pat, dep, q):
        """solve pat(binders) == q ; None if unknown, 'no' if impossible"""
        sol = {}
        ids = {var_id(k): k for k, _ in dep}

        def ground(p):
            return subst(p, {var_id(k): v for k, v in sol.items()})

        def go(pat, q):
            pat = ground(pat)
            (pc, pr, pw), (qc, qr, qw) = T.columns(pat), T.columns(q)
            w = pw if qw is None else qw
            if w is not None and (pw is None or qw is None or pw is qw) and (w is T.COLUMN or self.within(pat, w, dep) and self.within(q, w, dep)):
                r = go(pc, qc)
                return r if r is None or r == "no" else go(pr, qr)
            # binder-dependent monomials
            hard = []
            lin = []
            for m, c in pat.t.items():
                deps = [a for a, _ in m if _byid[a].fv & ids.keys() and not (_byid[a].fv & ids.keys()) <= {var_id(k) for k in sol}]
                if not deps:
                    continue
                if len(m) == 1 and m[0][1] == 1:
                    a = _byid[m[0][0]]
                    if m[0][0] in ids:
                        lin.append((m[0][0], c))
                    else:
                        hard.append((a, c))
                else:
                    return None
            for a, c in hard:
                ok = None
                cand = []
                for m, c2 in q.t.items():
                    if len(m) == 1 and m[0][1] == 1 and c2 == c:
                        b = _byid[m[0][0]]
                        if b.kind == a.kind and b.key[1] == a.key[1] and len(b.key) == len(a.key):
                            cand.append(b)
                injective = (a.kind == "rd" and a.key[1] in self.inj) or \
                            (a.kind == "fn" and str(a.key[1]).startswith(T.BOFF + ":"))
                if not injective or len(cand) != 1:
                    if a.kind == "fn" and str(a.key[1]).startswith(T.BOFF + ":") and not cand:
                        # bond index 0.. of particle 0
                        r = go(a.key[2], ZERO)
                        if r is None:
                            return None
                        continue
                    return None
                b = cand[0]
                r = go(a.key[2], b.key[2])
                if r is None or r == "no":
                    return r
            pat = ground(pat)
            rem = [m for m in pat.t if any(_byid[a].fv & ids.keys() and a in ids and ids[a] not in sol for a, _ in m)]
            if not rem:
                d = pat - q
                if d.is_zero():
                    return True
                c = d.const()
                if c is not None:
                    return "no"
                return None
            if len(rem) > 1:
                return None
            m = rem[0]
            if len(m) != 1 or m[0][1] != 1:
                return None
            c = pat.t[m]
            rest = q - (pat - Poly({m: c}))
            v = rest.scale(Fraction(1) / c)
            if not all(Fraction(x).denominator == 1 for x in v.t.values()):
                g = 0
                for mm, cc in rest.t.items():
                    if mm:
                        g = math.gcd(g, int(cc))
                g = math.gcd(g, int(c))
                if g > 1 and rest.t.get((), 0) % g:
                    return "no"
                return None
            sol[ids[m[0][0]]] = v
            return True

        r = go(pat, q)
        if r is None or r == "no":
            return r
        if len(sol) != len(dep):
            return None
        return sol

    def load(self, p, ty):
        if isinstance(p, CPtr):
            res = None
            for c, x in p.alts:
                if isinstance(x, Ptr) and x.region is None:
                    continue
                v = self.load(x, ty)
                res = v if res is None else self.ite_val(c, v, res)
            if res is None:
                raise Unsupported("load of null")
            return res
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported("load through %r" % (p,))
        if ty.k in ("struct", "array", "named"):
            return self.load_agg(p, ty)
        if ty.k == "ptr":
            vt = getattr(self.regions[p.region], "vtype", None)
            if vt and p.off.is_zero():
                if "@VT:" + vt not in self.regions:
                    self.obj("@VT:" + vt)
                return Ptr("@VT:" + vt, ZERO)
            if p.region.startswith("@VT:"):
                return FnPtr("virt:%s:%d" % (p.region[4:], p.off.const() // 8))
        return self.read(p.region, self.index(p), ty)

    def load_agg(self, p, ty):
        m = self.mods[0]
        t = m.named(ty.a[0]) if ty.k == "named" else ty
        d = {}
        if t.k == "struct":
            for i in range(len(t.a[0])):
                off, ft = m.field_offset(t, i)
                d[i] = self.load(Ptr(p.region, p.off + off), ft)
        else:
            s, _ = m.size_align(t.a[1])
            for i in range(t.a[0]):
                d[i] = self.load(Ptr(p.region, p.off + i * s), t.a[1])
        return Agg(d)

    def store(self, p, v, ty=None):
        if isinstance(p, CPtr):
            save = self.guard
            for c, x in p.alts:
                self.guard = save * c
                if not self.guard.is_zero() and not (isinstance(x, Ptr) and x.region is None):
                    self.store(x, v, ty)
            self.guard = save
            return
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported("store through %r" % (p,))
        if isinstance(v, Agg):
            m = self.mods[0]
            t = m.named(ty.a[0]) if ty.k == "named" else ty
            for i, x in v.d.items():
                if t.k == "struct":
                    off, ft = m.field_offset(t, i)
                else:
                    ft = t.a[1]
                    off = i * m.size_align(ft)[0]
                if x is not UNDEF:
                    self.store(Ptr(p.region, p.off + off), x, ft)
            return
        if v is UNDEF:
            return
        if self.guard.is_zero():
            return
        idx = self.index(p)
        self.write(p.region, idx, v, ty)

    def write(self, region, idx, v, ty=None):
        lst = self.mem[region]
        reg = self.regions[region]
        if reg.phantom:
            raise Unsupported("store through a pointer that changes in a loop: %s" % region)
        if isinstance(v, Poly) and reg.kind != "nlist" and not (isinstance(idx, Poly) and idx.const() is not None and reg.kind == "obj" and not self.in_loop(region)):
            cur = self.read(region, idx, ty)
            if isinstance(cur, Poly) and not cur.is_zero():
                delta = v - cur
                if delta.is_zero():
                    return
                own = self.own_atoms(cur, region)
                if own and not (own & T.walk_atoms(delta)):
                    lst.append(Eff([], self.guard, idx, 1, delta))
                    return
        lst.append(Eff([], self.guard, idx, 0, v))

    def in_loop(self, region):
        return any(e.kind == "bar" for e in self.mem[region])

    def own_atoms(self, p, region):
        s = set()
        for a in T.walk_atoms(p):
            at = _byid[a]
            if at.kind == "rd" and at.key[1] == region:
                s.add(a)
            elif at.kind in ("rdL", "rdH", "rdU") and at.key[2] == region:
                s.add(a)
        return s

    # ------------------------------------------------------------ values
    TINY = 0.0

    def const_fp(self, x):
        if x == 0:
            return ZERO
        if abs(x) < self.TINY:
            self.assumed.add("literals below %g in magnitude (guards against division by zero) are read as zero" % self.TINY)
            return ZERO
        if x != x or x in (float("inf"), float("-inf")):
            return sym("fp:" + repr(x))
        if abs(x) == sys.float_info.max:
            self.assumed.add("the largest finite number is read as an arbitrary number above 1e100")
            return sym("huge") if x > 0 else -sym("huge")
        r = x / math.pi
        f = Fraction(r).limit_denominator(64)
        if f != 0 and abs(float(f) * math.pi - x) <= 1e-15 * abs(x) and abs(f.numerator) <= 64:
            # literal multiples of pi
            if Fraction(x).limit_denominator(4096) != 0 and float(Fraction(x).limit_denominator(4096)) == x:
                return P(x)
            return sym("pi").scale(f)
        return P(x)

    def val(self, env, v, ty=None):
        k = v[0]
        if k == "loc":
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported("value %s undefined" % v[1])
        if k == "int":
            n = v[1]
            return P(n)
        if k == "fp":
            return self.const_fp(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero_of(ty)
        if k == "glob":
            return self.global_ptr(v[1])
        if k == "cgep":
            (bt, bv) = v[2][0]
            return self.gep(self.val(env, bv, bt), v[1], [(t, self.val(env, x, t)) for t, x in v[2][1:]])
        if k == "ccast":
            return self.val(env, v[3], v[2])
        if k == "agg":
            return Agg({i: self.val(env, x, t) for i, (t, x) in enumerate(v[1])})
        raise Unsupported("const %r" % (v,))

    def zero_of(self, ty):
        if ty is None or ty.k in ("int", "double", "float"):
            return ZERO
        if ty.k == "ptr":
            return NULL
        if ty.k == "named":
            ty = self.mods[0].named(ty.a[0])
        if ty.k == "struct":
            return Agg({i: self.zero_of(t) for i, t in enumerate(ty.a[0])})
        if ty.k == "array":
            return Agg({i: self.zero_of(ty.a[1]) for i in range(ty.a[0])})
        raise Unsupported("zero of %r" % ty)

    def global_ptr(self, name):
        for m in self.mods:
            if name in m.fn_text or name in m.decl or name in m.aliases:
                return FnPtr(name)
        rn = "@" + name
        if rn not in self.regions:
            self.obj(rn)
            self.init_global(rn, name)
        return Ptr(rn, ZERO)

    def init_global(self, rn, name):
        for m in self.mods:
            g = m.globals.get(name)
            if not g:
                continue
            mm = re.match(r"(.*?)\b(constant|global)\b (.*)$", g)
            if not mm:
                continue
            if "external" in mm.group(1):
                continue
            is_const = mm.group(2) == "constant"
            body = mm.group(3)
            try:
                p = ir.Parser(m, ir.TOK.findall(body))
                ty = p.type()
                v = p.value(ty)
            except Unsupported:
                return
            if is_const or self.fresh_statics:
                self._init_cells(m, rn, 0, ty, v)
            return

    def _init_cells(self, m, rn, off, ty, v):
        if ty.k == "named":
            ty = m.named(ty.a[0])
        if v[0] == "agg":
            for i, (t, x) in enumerate(v[1]):
                if ty.k == "struct":
                    o, ft = m.field_offset(ty, i)
                else:
                    o = i * m.size_align(ty.a[1])[0]
                self._init_cells(m, rn, off + o, t, x)
        elif v[0] == "str":
            return
        elif v[0] == "zero" and ty.k in ("array", "struct"):
            n = len(ty.a[0]) if ty.k == "struct" else ty.a[0]
            if n > 4096:
                return
            for i in range(n):
                if ty.k == "struct":
                    o, ft = m.field_offset(ty, i)
                else:
                    ft = ty.a[1]
                    o = i * m.size_align(ft)[0]
                self._init_cells(m, rn, off + o, ft, ("zero",))
        elif v[0] in ("int", "fp", "null", "zero", "glob", "cgep"):
            self.mem[rn].append(Eff([], ONE, P(off), 0, self.val({}, v, ty)))

    def gep(self, base, et, idx):
        if isinstance(base, CPtr):
            return CPtr([(c, self.gep(x, et, idx)) for c, x in base.alts])
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        m = self.mods[0]
        off = base.off
        t = et
        for i, (it, v) in enumerate(idx):
            if v is UNDEF:
                return UNDEF
            if i == 0:
                off = off + v.scale(m.size_align(t)[0]) if not v.is_zero() else off
                continue
            if t.k == "named":
                t = m.named(t.a[0])
            if t.k == "struct":
                c = v.const()
                o, t = m.field_offset(t, int(c))
                off = off + o
            elif t.k in ("array", "vector"):
                t = t.a[1]
                off = off + v.scale(m.size_align(t)[0])
            else:
                raise Unsupported("gep into %r" % t)
        return Ptr(base.region, off)

    # ------------------------------------------------------------ instructions
    def run_function(self, fn, args):
        """inline evaluation of fn; returns its value"""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion through %s" % fn.name)
        self.functions.add(fn.name)
        cfg = cfg_of(fn)
        if fn.entry not in cfg.blocks:
            raise Unsupported("%s never returns" % fn.name)
        if len(args) != len(fn.params):
            raise Unsupported("arity of %s" % fn.name)
        env = {}
        for (nm, ty, at), a in zip(fn.params, args):
            env[nm] = a
        g0 = self.guard
        out = self.exec_region(fn, cfg, None, env)
        self.guard = g0
        self.depth -= 1
        rets = out["rets"]
        if not rets:
            raise Unsupported("no return in %s" % fn.name)
        v = rets[-1][1]
        for c, x in reversed(rets[:-1]):
            v = self.ite_val(c, x, v)
        return v

    def edge_conds(self, fn, cfg, env, b, within, ec):
        """branch conditions of block b -> {succ: poly}"""
        term = fn.blocks[b][-1]
        succ = cfg.succ[b]
        if term.op == "br":
            if len(term.x) == 1:
                return {term.x[0]: ONE}
            a, c = term.x
            if a == c:
                return {a: ONE}
            if a not in cfg.blocks:
                self.note_abort(fn, b)
                return {c: ONE}
            if c not in cfg.blocks:
                self.note_abort(fn, b)
                return {a: ONE}
            cv = self.val(env, term.ops[0])
            if cv is UNDEF:
                raise Unsupported("branch on undef in %s" % fn.name)
            return {a: cv, c: ONE - cv}
        if term.op == "switch":
            v = self.val(env, term.ops[0])
            r = {}
            rest = ONE
            for n, lb in term.x[1]:
                c = ind("eq", v - n)
                rest = rest * (ONE - c)
                if lb in cfg.blocks:
                    r[lb] = r.get(lb, ZERO) + c
            if term.x[0] in cfg.blocks:
                r[term.x[0]] = r.get(term.x[0], ZERO) + rest
            if len(r) == 1:
                return {next(iter(r)): ONE}
            return r
        if term.op == "invoke":
            return {term.x[1][0]: ONE}
        return {}

    def note_abort(self, fn, b):
        self.assumed.add("executions of %s that end in abort/exception are excluded" % fn.name)

    def exec_region(self, fn, cfg, loop, env, entry_env_phi=None):
        """execute the blocks of `loop` (or the whole function when loop is
        None) once, acyclically, inner loops summarised.  Effects are recorded
        under guard g0*relative-condition."""
        body = cfg.blocks if loop is None else loop.body
        entry = fn.entry if loop is None else loop.header
        # collapsed nodes: rep[b] = header of outermost inner loop or b itself
        key = (id(cfg), entry if loop is not None else None)
        st = _struct.get(key)
        if st is None:
            rep = {}
            for b in body:
                h = cfg.inner_header(b, loop)
                rep[b] = h if h is not None else b
            nodes = set(rep.values())
            succ = {n: [] for n in nodes}
            for b in body:
                for s in cfg.succ[b]:
                    if s in body and not (loop is not None and s == entry):
                        if rep[s] != rep[b] or (rep[b] == b and s == b):
                            succ[rep[b]].append(rep[s])
            order = cfg._rpo(entry, nodes, succ)
            st = (rep, order, succ)
            _struct[key] = st
        rep, order, nsucc = st
        g0 = self.guard
        cond = {n: ZERO for n in order}
        cond[entry] = ONE
        bc = {}                     # exact edge conditions: (src,dst) -> relative branch condition given src node executes
        exits = []
        rets = []
        back = []
        incoming = {n: [] for n in order}   # n -> [(src block, dst block, cond)]
        for n in order:
            c = cond[n]
            if c.is_zero():
                continue
            self.guard = g0 * c
            if (self.outer * self.guard).is_zero():
                cond[n] = ZERO
                continue
            if n in cfg.loops and (loop is None or n != entry):
                li = cfg.loops[n]
                pre = [(s, x) for s, d, x in incoming[n]]
                ex = self.exec_loop(fn, cfg, li, env, incoming[n], nsucc, bc, order, rep)
                outs = ex
            else:
                if n != entry or loop is None:
                    self.eval_phis(fn, cfg, n, env, incoming[n], bc, order, rep)
                r = self.exec_block(fn, n, env)
                if r is not None:
                    rets.append((c, r[0]))
                outs = [(n, s, x) for s, x in self.edge_conds(fn, cfg, env, n, loop, None).items()]
            for (src, dst, x) in outs:
                if x.is_zero():
                    continue
                if dst not in body:
                    exits.append((src, dst, c * x))
                    continue
                if loop is not None and dst == entry:
                    back.append((src, c * x))
                    continue
                bc[(src, dst)] = (n, x)
                cond[rep[dst]] = cond[rep[dst]] + c * x
                incoming[rep[dst]].append((src, dst, c * x))
        self.guard = g0
        return {"rets": rets, "exits": exits, "back": back, "bc": bc}

    def eval_phis(self, fn, cfg, b, env, incoming, bc, order, rep):
        ins = fn.blocks[b]
        if not ins or ins[0].op != "phi":
            return
        srcs = {s: c for s, d, c in incoming if d == b}
        new = {}
        rel = None
        for i in ins:
            if i.op != "phi":
                break
            alts = []
            for v, lb in i.x:
                if lb in srcs:
                    alts.append((lb, self.val(env, v, i.ty)))
            if not alts:
                raise Unsupported("phi without incoming")
            first = alts[0][1]
            if all(x is first or (x is not UNDEF and first is not UNDEF and type(x) == type(first) and not isinstance(x, Agg) and x == first) for _, x in alts[1:]):
                new[i.res] = first
                continue
            if rel is None:
                rel = self.rel_conds(b, [lb for lb, _ in alts], srcs, bc, order, rep)
            vv = None
            for lb, x in alts:
                vv = x if vv is None else self.ite_val(rel[lb], x, vv)
            new[i.res] = vv
        env.update(new)

    def rel_conds(self, b, labels, srcs, bc, order, rep):
        """conditions of the incoming edges of b relative to the nearest node
        that dominates b in the (acyclic, collapsed) region"""
        # backward closure
        preds = {}
        for (s, d), (n, x) in bc.items():
            preds.setdefault(rep[d], []).append((n, s, d, x))
        # dominator: walk order backwards keeping the set of ancestors; the
        # common dominator is the unique node through which all paths pass
        pos = {n: i for i, n in enumerate(order)}
        anc = {b}
        dom = None
        frontier = {b}
        while True:
            # expand the latest node
            n = max(frontier, key=lambda z: pos[z])
            frontier.discard(n)
            for (pn, s, d, x) in preds.get(n, []):
                if pn not in anc:
                    anc.add(pn)
                    frontier.add(pn)
            if len(frontier) == 1:
                cand = next(iter(frontier))
                dom = cand
                break
            if not frontier:
                dom = n
                break
        cnd = {dom: ONE}
        for n in order[pos[dom]:pos[b]]:
            pass
        edge = {}
        sub = sorted((z for z in anc), key=lambda z: pos[z])
        for n in sub:
            if n not in cnd:
                cnd[n] = ZERO
        for n in sub:
            if n == b:
                continue
            for (s, d), (sn, x) in bc.items():
                if sn == n and rep[d] in anc and pos[rep[d]] > pos[n]:
                    if rep[d] == b:
                        edge[s] = edge.get(s, ZERO) + cnd[n] * x
                    else:
                        cnd[rep[d]] = cnd[rep[d]] + cnd[n] * x
        return edge

    def exec_block(self, fn, b, env):
        for i in fn.blocks[b]:
            if i.op == "phi":
                continue
            if i.op == "ret":
                return (self.val(env, i.ops[0], i.ty) if i.ops else None,)
            if i.op in ("br", "switch"):
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("evaluation budget exceeded")
            self.exec_instr(fn, i, env)
        return None

    def exec_instr(self, fn, i, env):
        op = i.op
        if op in _BINOPS:
            a = self.val(env, i.ops[0], i.ty)
            b = self.val(env, i.ops[1], i.ty)
            env[i.res] = self.binop(op, i.ty, a, b)
        elif op == "load":
            env[i.res] = self.load(self.val(env, i.ops[0]), i.ty)
        elif op == "store":
            self.store(self.val(env, i.ops[1]), self.val(env, i.ops[0], i.ty), i.ty)
        elif op == "getelementptr":
            env[i.res] = self.gep(self.val(env, i.ops[0]), i.x[0], [(t, self.val(env, v, t)) for t, v in i.x[1]])
        elif op == "icmp":
            env[i.res] = self.icmp(i.x[0], i.x[1], self.val(env, i.ops[0], i.x[1]), self.val(env, i.ops[1], i.x[1]))
        elif op == "fcmp":
            env[i.res] = self.fcmp(i.x[0], self.val(env, i.ops[0]), self.val(env, i.ops[1]))
        elif op in ("call", "invoke"):
            r = self.call(fn, i, env)
            if i.res is not None:
                env[i.res] = r
        elif op == "select":
            c = self.val(env, i.ops[0])
            env[i.res] = self.ite_val(c, self.val(env, i.ops[1], i.ty), self.val(env, i.ops[2], i.ty))
        elif op == "fneg":
            env[i.res] = -self.val(env, i.ops[0])
        elif op == "freeze":
            env[i.res] = self.val(env, i.ops[0], i.ty)
        elif op in ir.CASTS:
            env[i.res] = self.cast(op, i.x, i.ty, self.val(env, i.ops[0], i.x))
        elif op == "alloca":
            nm = "%s$%s" % (fn.name[-40:], i.res)
            if self.depth > 1:
                nm = "%s/%d" % (nm, self.depth)
            if nm not in self.regions:
                self.obj(nm)
            elif not self.in_loop(nm) and self.guard.is_one():
                self.mem[nm] = []
            self.regions[nm].alloca = True
            self.regions[nm].ty = i.x[0]
            env[i.res] = Ptr(nm, ZERO)
        elif op == "extractvalue":
            v = self.val(env, i.ops[0], i.ty)
            for k in i.x:
                if isinstance(v, Agg):
                    v = v.d.get(k, UNDEF)
                else:
                    v = UNDEF
            env[i.res] = v
        elif op == "insertvalue":
            a = self.val(env, i.ops[0], i.ty)
            e = self.val(env, i.ops[1])
            if len(i.x) != 1:
                raise Unsupported("insertvalue depth")
            d = dict(a.d) if isinstance(a, Agg) else {}
            d[i.x[0]] = e
            env[i.res] = Agg(d)
        elif op in ("unreachable", "landingpad", "resume", "fence"):
            pass
        else:
            raise Unsupported("instruction %s" % i.line)

    def binop(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.region == b.region:
                    return a.off - b.off
            raise Unsupported("pointer arithmetic %s %r %r" % (op, a, b))
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported("binop on %r %r" % (a, b))
        if op in ("add", "fadd"):
            return a + b
        if op in ("sub", "fsub"):
            return a - b
        if op in ("mul", "fmul"):
            return a * b
        if op == "fdiv":
            return a / b
        bits = ty.a[0] if ty.k == "int" else 0
        ca, cb = a.const(), b.const()
        if op in ("and", "or", "xor"):
            if bits == 1:
                if op == "and":
                    return a * b
                if op == "or":
                    return a + b - a * b
                return a + b - (a * b).scale(2)
            if ca is not None and cb is not None:
                m = (1 << bits) - 1
                x, y = int(ca) & m, int(cb) & m
                r = x & y if op == "and" else x | y if op == "or" else x ^ y
                if r >> (bits - 1):
                    r -= 1 << bits
                return P(r)
            if T._as_bool(a) is not None and T._as_bool(b) is not None:
                if op == "and":
                    return a * b
                if op == "or":
                    return a + b - a * b
                return a + b - (a * b).scale(2)
            if op == "and" and cb == 1 and T._as_bool(a) is not None:
                return a
            if op == "xor" and cb == 1 and T._as_bool(a) is not None:
                return ONE - a
            if op == "xor" and cb == -1:
                return -a - 1
            return fn("bits." + op, a, b, isint=True)
        if op == "shl":
            if cb is not None:
                return a.scale(2 ** int(cb))
            return fn("bits.shl", a, b, isint=True)
        if op in ("sdiv", "udiv"):
            return self.idiv(a, b)
        if op in ("ashr", "lshr"):
            if cb is not None:
                return self.idiv(a, P(2 ** int(cb)), floor=True)
            return fn("bits." + op, a, b, isint=True)
        if op in ("srem", "urem"):
            if ca is not None and cb is not None and cb:
                return P(int(math.fmod(ca, cb)))
            q = self.idiv(a, b)
            return a - q * b
        if op == "frem":
            return T.fn("fmod", a, b)
        raise Unsupported(op)

    def idiv(self, a, b, floor=False):
        ca, cb = a.const(), b.const()
        if cb == 1:
            return a
        if ca is not None and cb is not None and cb != 0:
            q = Fraction(ca) / cb
            return P(math.floor(q) if floor or q >= 0 else -math.floor(-q))
        if cb is not None and all(Fraction(c) / cb == int(Fraction(c) / cb) for c in a.t.values()):
            return a.scale(Fraction(1) / cb)
        return T.fn("idiv", a, b, isint=True)

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, CPtr) or isinstance(b, CPtr):
            r = ZERO
            al = a.alts if isinstance(a, CPtr) else [(ONE, a)]
            bl = b.alts if isinstance(b, CPtr) else [(ONE, b)]
            for c1, x in al:
                for c2, y in bl:
                    r = r + c1 * c2 * self.icmp(pred, ty, x, y)
            return r
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return ONE if same == (pred == "eq") else ZERO
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("compare %r %r" % (a, b))
            if a.region != b.region:
                if pred == "eq":
                    return ZERO
                if pred == "ne":
                    return ONE
                raise Unsupported("order of unrelated pointers")
            a, b = a.off, b.off
        d = a - b
        if pred == "eq":
            return ind("eq", d)
        if pred == "ne":
            return ONE - ind("eq", d)
        if pred in ("slt", "ult"):
            return ind("lt", d)
        if pred in ("sgt", "ugt"):
            return ind("lt", -d)
        if pred in ("sle", "ule"):
            return ind("le", d)
        if pred in ("sge", "uge"):
            return ind("le", -d)
        raise Unsupported(pred)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        d = a - b
        p = pred[1:]
        if pred in ("ord",):
            return ONE
        if pred in ("uno",):
            return ZERO
        if pred == "true":
            return ONE
        if pred == "false":
            return ZERO
        if p == "eq":
            return ind("eq", d)
        if p == "ne":
            return ONE - ind("eq", d)
        if p == "lt":
            return ind("lt", d)
        if p == "gt":
            return ind("lt", -d)
        if p == "le":
            return ind("le", d)
        if p == "ge":
            return ind("le", -d)
        raise Unsupported("fcmp " + pred)

    def cast(self, op, st, dt, v):
        if v is UNDEF:
            return UNDEF
        if op in ("sext", "zext", "sitofp", "uitofp", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "addrspacecast", "freeze"):
            if op == "sext" and st == ir.I(1):
                return -v
            return v
        if op == "trunc":
            if dt.a[0] == 1:
                if isinstance(v, Poly):
                    c = v.const()
                    if c is not None:
                        return P(int(c) & 1)
                    if T._as_bool(v) is not None:
                        return v
                    return ONE - ind("eq", v)
            return v
        if op in ("fptosi", "fptoui"):
            c = v.const()
            if c is not None:
                return P(int(c))
            if _isint_poly(v):
                return v
            return T.fn("trunc", v, isint=True)
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def call(self, fn, i, env):
        callee = i.ops[0]
        f = self.val(env, callee)
        tys = i.x[0]
        args = [self.val(env, v, t) for v, t in zip(i.ops[1:], tys)]
        if isinstance(f, FnPtr):
            return self.call_named(f.name, args, tys, i)
        if isinstance(f, CPtr):
            res = None
            save = self.guard
            for c, x in f.alts:
                if isinstance(x, FnPtr):
                    self.guard = save * c
                    v = self.call_named(x.name, args, tys, i)
                    res = v if res is None else self.ite_val(c, v, res)
            self.guard = save
            return res
        h = getattr(self, "indirect_call", None)
        if h is not None:
            return h(f, args, tys, i)
        raise Unsupported("indirect call in %s: %s" % (fn.name, i.line[:120]))

    def call_named(self, name, args, tys, i):
        for rx, h in self.handlers:
            if rx.search(name):
                r = h(self, name, args, i)
                if r is INLINE:
                    break
                if r is not NotImplemented:
                    return r
        if name.startswith("llvm."):
            return self.intrinsic(name, args, i)
        h = BUILTIN.get(name)
        if h is not None:
            return h(*args)
        for m in self.mods:
            if m.has(name):
                f = m.function(name)
                save = self.mods
                if m is not self.mods[0]:
                    self.mods = [m] + [x for x in self.mods if x is not m]
                try:
                    return self.run_function(f, args)
                finally:
                    self.mods = save
        raise Unsupported("call to %s" % name)

    def intrinsic(self, name, a, i):
        if INTRIN_NOOP.match(name):
            return UNDEF
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma."):
            if UNDEF in (a[0], a[1], a[2]):
                return UNDEF
            return a[0] * a[1] + a[2]
        b = name.split(".")[1]
        if b in ("sqrt", "fabs", "exp", "log", "sin", "cos", "pow", "floor", "ceil", "log10", "exp2", "log2"):
            return BUILTIN[b](*a)
        if b in ("maxnum", "smax", "umax", "maximum"):
            return ite(ind("lt", a[0] - a[1]), a[1], a[0])
        if b in ("minnum", "smin", "umin", "minimum"):
            return ite(ind("lt", a[1] - a[0]), a[1], a[0])
        if b == "abs":
            return ite(ind("lt", a[0]), -a[0], a[0])
        if b in ("memcpy", "memmove"):
            self.memcpy(a[0], a[1], a[2])
            return UNDEF
        if b == "memset":
            self.memset(a[0], a[1], a[2])
            return UNDEF
        if b == "expect":
            return a[0]
        if b == "copysign":
            return ite(ind("lt", a[1]), -abs_(a[0]), abs_(a[0]))
        if b == "powi":
            c = a[1].const()
            if c is not None:
                return a[0] ** int(c)
        if b == "stacksave":
            return NULL
        if b == "is":
            return ONE
        if name.startswith("llvm.umul.with.overflow"):
            return Agg({0: a[0] * a[1], 1: ZERO})
        if name.startswith("llvm.uadd.with.overflow"):
            return Agg({0: a[0] + a[1], 1: ZERO})
        raise Unsupported("intrinsic " + name)

    def memset(self, dst, byte, n):
        if byte.const() != 0:
            raise Unsupported("memset non-zero")
        if not isinstance(dst, Ptr) or dst.region is None:
            if n.const() == 0:
                return
            raise Unsupported("memset through %r" % (dst,))
        reg = self.regions[dst.region]
        c = n.const()
        if reg.esz == 1:
            if c is None:
                # byte cells of an object of unknown size: quantified over 8-byte cells
                k = var(self.fresh("k"), True)
                self.mem[dst.region].append(Eff([(k, self.idiv(n, P(8)))], self.guard, dst.off + k.scale(8), 0, ZERO))
                return
            for o in self.cell_offsets(dst, int(c)):
                self.write(dst.region, dst.off + o, ZERO)
            return
        cnt = self.idiv(n, P(reg.esz))
        base = self.index(dst)
        cc = cnt.const()
        if cc is not None and cc <= 64:
            for j in range(int(cc)):
                self.write(dst.region, base + j, ZERO)
            return
        k = var(self.fresh("k"), True)
        self.mem[dst.region].append(Eff([(k, cnt)], self.guard, base + k, 0, ZERO))

    def cell_offsets(self, p, n):
        step = 8
        ty = getattr(self.regions[p.region], "ty", None)
        if n % 8:
            step = 4 if n % 4 == 0 else 1
        if ty is not None:
            t = ty
            while t.k == "array":
                t = t.a[1]
            if t.k == "int":
                step = max(1, t.a[0] // 8)
        return range(0, n, step)

    def memcpy(self, dst, src, n):
        c = n.const()
        if c == 0:
            return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr) or dst.region is None or src.region is None:
            raise Unsupported("memcpy %r %r" % (dst, src))
        rd_, rs = self.regions[dst.region], self.regions[src.region]
        if rs.esz == 1 and rd_.esz == 1:
            if c is None:
                raise Unsupported("memcpy of symbolic size between objects")
            # copy every cell written at a constant offset inside the window, otherwise 8-byte cells
            offs = set()
            for e in self.mem[src.region]:
                if e.kind == "w" and not e.binders and e.idx is not None:
                    d = (e.idx - src.off).const()
                    if d is not None and 0 <= d < c:
                        offs.add(int(d))
            if not offs:
                offs = set(self.cell_offsets(src, int(c)))
            elif c % 8 == 0:
                for o in range(0, int(c), 8):
                    if not any(o <= x < o + 8 for x in offs):
                        offs.add(o)
            vals = [(o, self.read(src.region, src.off + o, self.cell_type(src.region, src.off + o))) for o in sorted(offs)]
            for o, v in vals:
                self.write(dst.region, dst.off + o, v)
            return
        esz = rs.esz if rs.esz != 1 else rd_.esz
        cnt = self.idiv(n, P(esz))
        cc = cnt.const()
        if cc is not None and cc <= 64:
            vals = []
            for j in range(int(cc)):
                sp = Ptr(src.region, src.off + j * esz)
                vals.append(self.read(src.region, self.index(sp), ir.I(32) if esz == 4 else ir.DOUBLE))
            for j, v in enumerate(vals):
                dp = Ptr(dst.region, dst.off + j * esz)
                self.write(dst.region, self.index(dp), v)
            return
        k = var(self.fresh("k"), True)
        self.binders.append((k, cnt))
        v = self.read(src.region, self.index(Ptr(src.region, src.off + k.scale(esz))), ir.I(32) if esz == 4 else ir.DOUBLE)
        self.binders.pop()
        self.mem[dst.region].append(Eff([(k, cnt)], self.guard, self.index(Ptr(dst.region, dst.off + k.scale(esz))), 0, v))

    def cell_type(self, region, off):
        """type of the value last stored at a constant offset (so pointers copy as pointers)"""
        for e in reversed(self.mem[region]):
            if e.kind == "w" and not e.binders and e.idx == off:
                if isinstance(e.val, (Ptr, CPtr, FnPtr)):
                    return ir.PTR
                return None
        return None

    # ------------------------------------------------------------ loops
    def exec_loop(self, fn, cfg, li, env, incoming, nsucc, bc, order, rep):
        """returns [(src, dst, condition relative to the loop being entered)]"""
        h = li.header
        phis = [i for i in fn.blocks[h] if i.op == "phi"]
        # entry values
        self.eval_phis_entry(fn, h, phis, env, incoming, bc, order, rep)
        init = {i.res: env[i.res] for i in phis}
        r = self.try_unroll(fn, cfg, li, env, phis, init)
        if r is not None:
            return r
        return self.summarise(fn, cfg, li, env, phis, init)

    def eval_phis_entry(self, fn, h, phis, env, incoming, bc, order, rep):
        srcs = [s for s, d, c in incoming if d == h]
        new = {}
        for i in phis:
            alts = [(lb, self.val(env, v, i.ty)) for v, lb in i.x if lb in srcs]
            if not alts:
                raise Unsupported("loop phi without entry")
            if len(alts) == 1:
                new[i.res] = alts[0][1]
            else:
                rel = self.rel_conds(h, [lb for lb, _ in alts], None, bc, order, rep)
                vv = None
                for lb, x in alts:
                    vv = x if vv is None else self.ite_val(rel[lb], x, vv)
                new[i.res] = vv
        env.update(new)

    def back_values(self, fn, phis, env, back):
        """values of the header phis along the back edge"""
        labels = [b for b, _ in back]
        res = {}
        for i in phis:
            alts = [(lb, self.val(env, v, i.ty)) for v, lb in i.x if lb in labels]
            if len(alts) == 1:
                res[i.res] = alts[0][1]
            else:
                raise Unsupported("loop with several latches")
        return res

    def snapshot(self):
        return {k: list(v) for k, v in self.mem.items()}

    def restore(self, s):
        self.mem = {k: list(s.get(k, [])) for k in self.regions}

    def try_unroll(self, fn, cfg, li, env, phis, init):
        snap = None
        g0 = self.guard
        # cheap rejection: the first header test must be decided
        envc = dict(env)
        snap = self.snapshot()
        assumed = set(self.assumed)
        ctr = self.ctr
        alive = ONE
        outs = {}
        cur = dict(init)
        exit_envs = []
        failed = False
        for it in range(MAX_UNROLL + 1):
            e2 = dict(envc)
            e2.update(cur)
            self.guard = g0 * alive
            if it == MAX_UNROLL:
                failed = True
                break
            if it == 0:
                # quick probe of the header test before running the body
                q = self.probe_header(fn, cfg, li, e2)
                if q == "symbolic":
                    failed = True
                    break
            r = self.exec_region(fn, cfg, li, e2)
            decided = False
            for (s, d, c) in r["exits"]:
                cc = alive * c
                if not cc.is_zero():
                    exit_envs.append((s, d, cc, e2))
            bcnd = ZERO
            for _, c in r["back"]:
                bcnd = bcnd + c
            if not r["back"] or bcnd.is_zero():
                alive = ZERO
                break
            if not bcnd.is_one() and it == 0 and not self.some_exit_decided(r):
                failed = True
                break
            alive = alive * bcnd
            if len(alive.t) > 64:
                failed = True
                break
            cur = self.back_values(fn, phis, e2, r["back"])
            for k in list(cur):
                if isinstance(cur[k], Poly) and len(cur[k].t) > 3000:
                    failed = True
            if failed:
                break
        if failed:
            self.restore(snap)
            self.guard = g0
            return None
        self.guard = g0
        # merge the environments of the exits
        merged = {}
        total = ZERO
        if len(exit_envs) == 1:
            env.update(exit_envs[0][3])
        else:
            base = dict(exit_envs[-1][3])
            for (s, d, c, e2) in reversed(exit_envs[:-1]):
                for k, v in e2.items():
                    if k in envc and envc[k] is v:
                        continue
                    if k in base and base[k] is not v:
                        try:
                            base[k] = self.ite_val(c, v, base[k])
                        except Unsupported:
                            base[k] = UNDEF
                    elif k not in base:
                        base[k] = v
            env.update(base)
        agg = {}
        for (s, d, c, e2) in exit_envs:
            agg[(s, d)] = agg.get((s, d), ZERO) + c
        return [(s, d, c) for (s, d), c in agg.items()]

    def some_exit_decided(self, r):
        return False

    def probe_header(self, fn, cfg, li, env):
        """'symbolic' if the loop can only be left through the header and the
        first header test is not decided"""
        hs = {s for s, d in li.exits}
        if hs != {li.header}:
            return "maybe"
        e = dict(env)
        snap = self.snapshot()
        try:
            for i in fn.blocks[li.header]:
                if i.op in ("phi",):
                    continue
                if i.op in ("br", "switch"):
                    break
                self.exec_instr(fn, i, e)
            ec = self.edge_conds(fn, cfg, e, li.header, None, None)
        except Unsupported:
            self.restore(snap)
            return "maybe"
        self.restore(snap)
        for c in ec.values():
            if c.const() is None:
                return "symbolic"
        return "ok"

    def summarise(self, fn, cfg, li, env, phis, init):
        self.loops_done += 1
        g0, o0 = self.guard, self.outer
        snap = self.snapshot()
        k = var(self.fresh("k"), True)
        kid = var_id(k)
        lid = self.fresh("L")
        hdr_exit = all(s == li.header for s, d in li.exits)
        single = len(li.exits) == 1
        latch_exit = single and li.exits[0][0] in li.latches and not hdr_exit
        if not single or not (hdr_exit or latch_exit):
            return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid)
        closed = {}         # phi -> function(kpoly) -> value
        opaque = {}
        kinds = {}
        for i in phis:
            cf = self.guess_affine(fn, cfg, li, i, init[i.res], env, phis)
            if cf is not None:
                closed[i.res] = cf
                kinds[i.res] = "guess"
        mod = set(self.modcache.get((fn.name, li.header), ()))
        nl_tried = set()
        for i in phis:
            if i.res not in closed:
                v = init[i.res]
                if isinstance(v, Ptr) and v.region is None and v.off.is_zero():
                    # an absent array stays absent
                    closed[i.res] = lambda x, v=v: v
                    kinds[i.res] = "guess"
                    continue
                if isinstance(v, Ptr) and v.region in self.lists and v.off.is_zero():
                    nm = v.region
                    closed[i.res] = self.mk_nlist(nm, v)
                    kinds[i.res] = "guess"
                    nl_tried.add(i.res)
        for attempt in range(14):
            self.passes += 1
            self.restore(snap)
            e2 = dict(env)
            opaque = {}
            for i in phis:
                if i.res in closed:
                    e2[i.res] = closed[i.res](k)
                else:
                    v = init[i.res]
                    isint = i.ty.k == "int"
                    nm = "phi%s.%s" % (lid, i.res)
                    at = var(nm, isint or i.ty.k == "ptr")
                    opaque[i.res] = at
                    if i.ty.k == "ptr":
                        if not isinstance(v, Ptr):
                            return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid)
                        e2[i.res] = Ptr(v.region, at.scale(self.unit(v.region)))
                    else:
                        e2[i.res] = at
            # barrier
            for rn in self.regions:
                if rn in mod:
                    self.mem[rn].append(Eff([], ONE, lid, 0, None, "bar"))
            self.outer = o0 * g0
            self.guard = ONE
            # iteration k is executed, so k >= 0; the trip count is added once known
            N = None
            ncur = getattr(self, "_trip_guess", {}).get((id(fn), li.header, attempt))
            trip = self.trip_from_header(fn, cfg, li, e2, k, kid) if hdr_exit else None
            self.binders.append((k, trip))
            nreg = set(self.regions)
            try:
                r = self.exec_region_loop(fn, cfg, li, e2, hdr_exit)
            finally:
                self.binders.pop()
                self.outer = o0
                self.guard = g0
            if not r["back"]:
                return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid)
            upd = self.back_values(fn, phis, e2, r["back"])
            # modified regions
            m2 = set()
            for rn in self.regions:
                if rn in nreg and len(self.mem[rn]) != len(snap.get(rn, ())) + (rn in mod):
                    m2.add(rn)
            if not m2 <= mod:
                mod |= m2
                self.modcache[(fn.name, li.header)] = set(mod)
                continue
            # verify guesses
            bad = False
            for i in phis:
                if kinds.get(i.res) == "guess":
                    want = closed[i.res](k + 1)
                    got = upd[i.res]
                    if not self.same_val(want, got):
                        del closed[i.res]
                        kinds[i.res] = "failed"
                        bad = True
            if bad:
                continue
            progress = False
            need_rerun = False
            opq_ids = {var_id(v) for v in opaque.values()}
            for i in phis:
                if i.res in closed:
                    continue
                u = upd[i.res]
                at = opaque[i.res]
                v0 = init[i.res]
                if u is UNDEF or v0 is UNDEF and isinstance(u, Poly) and not (u.fv() & opq_ids):
                    if u is UNDEF:
                        closed[i.res] = (lambda x, v0=v0: v0)
                        kinds[i.res] = "closed"
                        continue
                if v0 is UNDEF:
                    # value carried over from the previous iteration: only its last value can matter
                    if isinstance(u, Poly) and not (u.fv() & opq_ids):
                        closed[i.res] = (lambda x, u=u: subst(u, {kid: x - 1}))
                        kinds[i.res] = "closed"
                        progress = True
                    continue
                if i.ty.k == "ptr":
                    if not isinstance(u, Ptr) or u.region != v0.region:
                        continue
                    uu, vv = u.off, v0.off
                    wrap = (lambda p, rg=v0.region: Ptr(rg, p))
                else:
                    if not isinstance(u, Poly):
                        continue
                    uu, vv = u, v0
                    wrap = (lambda p: p)
                d = uu - (at.scale(self.unit(v0.region)) if i.ty.k == "ptr" else at)
                if not (d.fv() & opq_ids) and not self.has_barrier_atoms(d, lid):
                    cf = self.closed_sum(d, k, kid, vv, wrap)
                    closed[i.res] = cf
                    kinds[i.res] = "closed"
                    progress = True
                    if i.ty.k in ("int", "ptr") and not d.const() == 0:
                        need_rerun = True
                    continue
                if isinstance(vv, Poly) and i.ty.k == "int" and kinds.get(i.res) != "failed":
                    # index into a neighbourhood list
                    g = self.guess_list_index(d, at, vv)
                    if g is not None:
                        closed[i.res] = g
                        kinds[i.res] = "guess"
                        progress = True
                        need_rerun = True
                        break
            if need_rerun:
                continue
            remaining = [i for i in phis if i.res not in closed]
            if remaining and progress:
                # accumulators that depend on other accumulators: substitute and retry
                continue
            break
        else:
            return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid)
        remaining = [i for i in phis if i.res not in closed]
        recs = {}
        if remaining:
            for i in remaining:
                cf = self.rec_form(i, upd[i.res], opaque[i.res], init[i.res], k, kid, opq_ids, lid)
                if cf is None:
                    return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid, mod)
                closed[i.res] = cf
        # trip count
        if hdr_exit:
            N = trip
        else:
            N = self.trip_from_cond(r["stay"], k, kid)
            if N is not None:
                N = N + 1
        if N is None:
            return self.havoc_loop(fn, cfg, li, env, phis, init, snap, lid, mod)
        nn = ind("le", -N)
        if not nn.is_one() and not self.provable(nn):
            N = N * ind("lt", -N)
        # substitute the solved accumulators in the effects
        sub = {}
        for i in phis:
            if i.res in opaque and i.res in closed:
                cv = closed[i.res](k)
                if isinstance(cv, Poly):
                    sub[var_id(opaque[i.res])] = cv
                elif isinstance(cv, Ptr):
                    sub[var_id(opaque[i.res])] = cv.off.scale(Fraction(1, self.unit(cv.region)))
        tails = {}
        for rn in sorted(mod):
            effs = self.mem[rn]
            j = max(x for x, e in enumerate(effs) if e.kind == "bar" and e.idx == lid) if any(e.kind == "bar" and e.idx == lid for e in effs) else None
            t = effs[j + 1:] if j is not None else []
            if sub:
                t = [self.sub_eff(e, sub) for e in t]
            tails[rn] = t
        newregs = [rn for rn in self.regions if rn not in snap]
        after_body = {rn: self.mem[rn] for rn in newregs}
        self.restore(snap)
        self.finish_effects(tails, k, kid, N, lid, g0)
        # exit environment
        kval = N if hdr_exit else N - 1
        eN = dict(env)
        ksub = {kid: kval}
        for i in phis:
            eN[i.res] = self.sub_any(closed[i.res](k), ksub)
        if hdr_exit:
            # header instructions re-evaluated at k = N
            for i in fn.blocks[li.header]:
                if i.op in ("phi", "br", "switch"):
                    continue
                if i.op in ("store", "call", "invoke"):
                    if i.op == "store":
                        continue
                    try:
                        self.exec_instr(fn, i, eN)
                    except Unsupported:
                        pass
                    continue
                self.exec_instr(fn, i, eN)
        else:
            for nm, v in e2.items():
                if nm not in env:
                    eN[nm] = self.sub_any(self.sub_any(v, sub), ksub)
        env.update(eN)
        return [(li.exits[0][0], li.exits[0][1], ONE)]

    def sub_any(self, v, s):
        if isinstance(v, Poly):
            return subst(v, s)
        if isinstance(v, Ptr):
            return Ptr(v.region, subst(v.off, s))
        if isinstance(v, Agg):
            return Agg({k: self.sub_any(x, s) for k, x in v.d.items()})
        if isinstance(v, CPtr):
            return CPtr([(subst(c, s), self.sub_any(x, s)) for c, x in v.alts])
        return v

    def sub_eff(self, e, s):
        return Eff([(b, subst(n, s)) for b, n in e.binders], subst(e.guard, s),
                   subst(e.idx, s) if isinstance(e.idx, Poly) else e.idx, e.coef, self.sub_any(e.val, s), e.kind)

    def same_val(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.region == b.region and self.same_val(a.off, b.off)
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            if d.is_zero():
                return True
            if _isint_poly(d) and not any(_byid[x].kind in ("rdL",) for x in T.walk_atoms(d)):
                return self.provable(ind("eq", d))
            return False
        return a is b

    def exec_region_loop(self, fn, cfg, li, env, hdr_exit):
        if not hdr_exit:
            r = self.exec_region(fn, cfg, li, env)
            stay = ZERO
            for _, c in r["back"]:
                stay = stay + c
            r["stay"] = stay
            return r
        # header exit: the body is executed under "stay", which holds by definition of the trip count
        save = self.edge_conds
        me = self

        def ec(fn2, cfg2, env2, b, within, e):
            d = save(fn2, cfg2, env2, b, within, e)
            if b == li.header and fn2 is fn:
                d = {s: ONE for s, c in d.items() if s in li.body}
            return d

        self.edge_conds = ec
        try:
            return self.exec_region(fn, cfg, li, env)
        finally:
            self.edge_conds = save

    def trip_from_header(self, fn, cfg, li, env, k, kid):
        e = dict(env)
        snap = self.snapshot()
        try:
            for i in fn.blocks[li.header]:
                if i.op == "phi":
                    continue
                if i.op in ("br", "switch"):
                    break
                self.exec_instr(fn, i, e)
            term = fn.blocks[li.header][-1]
            if term.op != "br" or len(term.x) != 2:
                return None
            c = self.val(e, term.ops[0])
            if c is UNDEF:
                return None
            stay = c if term.x[0] in li.body else ONE - c
        except Unsupported:
            return None
        finally:
            self.restore(snap)
        return self.trip_from_cond(stay, k, kid)

    def trip_from_cond(self, stay, k, kid):
        """N such that stay(k) <=> k < N"""
        def one(aid, pos):
            a = _byid[aid]
            if a.kind != "ind" or a.key[1] not in ("lt", "eq"):
                return None
            p = a.key[2]
            mk = ((kid, 1),)
            c = p.t.get(mk)
            if c is None:
                return None
            r = p - Poly({mk: c})
            if kid in r.fv():
                return None
            if a.key[1] == "lt":
                if pos and c > 0:
                    # c*k + r < 0  <=> k < -r/c
                    return self.ceil_div(-r, c)
                if not pos and c < 0:
                    # not(c*k + r < 0) <=> c*k + r >= 0 <=> k <= r/|c| <=> k < r/|c| + 1
                    return self.floor_div(r, -c) + 1 if self.floor_div(r, -c) is not None else None
                return None
            if not pos:
                v = r.scale(Fraction(-1) / c)
                if all(Fraction(x).denominator == 1 for x in v.t.values()):
                    return v
            return None

        if len(stay.t) == 1:
            (m, c), = stay.t.items()
            if c == 1 and len(m) == 1:
                return one(m[0][0], True)
        q = ONE - stay
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if c == 1 and len(m) == 1:
                return one(m[0][0], False)
        return None

    def ceil_div(self, p, c):
        if c == 1:
            return p
        v = p.scale(Fraction(1) / c)
        if all(Fraction(x).denominator == 1 for x in v.t.values()):
            return v
        return self.idiv(p + (c - 1), P(c), floor=True)

    def floor_div(self, p, c):
        if c == 1:
            return p
        v = p.scale(Fraction(1) / c)
        if all(Fraction(x).denominator == 1 for x in v.t.values()):
            return v
        return self.idiv(p, P(c), floor=True)

    def guess_affine(self, fn, cfg, li, phi, v0, env, phis):
        """syntactic: phi' = phi + c through add/sub/gep with loop-invariant c"""
        if v0 is UNDEF:
            return None
        defs = {}
        for b in li.body:
            for i in fn.blocks[b]:
                if i.res is not None:
                    defs[i.res] = i
        nxt = [v for v, lb in phi.x if lb in li.latches]
        if len(nxt) != 1:
            return None
        cur = nxt[0]
        step = ZERO
        for _ in range(16):
            if cur[0] != "loc":
                return None
            if cur[1] == phi.res:
                break
            i = defs.get(cur[1])
            if i is None:
                return None
            if i.op == "add" or i.op == "sub":
                a, b = i.ops
                cb = self.inv_val(b, defs, env)
                if cb is not None:
                    step = step + cb if i.op == "add" else step - cb
                    cur = a
                    continue
                ca = self.inv_val(a, defs, env)
                if ca is not None and i.op == "add":
                    step = step + ca
                    cur = b
                    continue
                return None
            if i.op == "getelementptr" and len(i.x[1]) == 1:
                c = self.inv_val(i.x[1][0][1], defs, env)
                if c is None:
                    return None
                step = step + c.scale(self.mods[0].size_align(i.x[0])[0])
                cur = i.ops[0]
                continue
            return None
        else:
            return None
        if isinstance(v0, Ptr):
            return lambda x: Ptr(v0.region, v0.off + step * x)
        if isinstance(v0, Poly):
            return lambda x: v0 + step * x
        return None

    def inv_val(self, v, defs, env):
        if v[0] == "int":
            return P(v[1])
        if v[0] == "loc" and v[1] not in defs:
            x = env.get(v[1])
            if isinstance(x, Poly):
                return x
        return None

    def unit(self, region):
        return self.regions[region].esz if region is not None else 1

    def mk_nlist(self, nm, v0):
        return lambda x: Ptr(v0.region, v0.off + (x + B_(nm, x)).scale(4))

    def guess_list_index(self, d, at, v0):
        aid = var_id(at)
        for a in T.walk_atoms(d):
            t = _byid[a]
            if t.kind == "rd" and t.key[1] in self.lists:
                nm = t.key[1]
                off = t.key[2]
                # off == at  -> index of the length entry
                r = off - at
                c = r.const()
                if c is not None and v0.const() is not None and v0.const() + c == 0:
                    return lambda x: v0 + x + B_(nm, x)
        return None

    def has_barrier_atoms(self, p, lid):
        return any(_byid[a].kind == "rdL" and _byid[a].key[1] == lid for a in T.walk_atoms(p))

    def closed_sum(self, d, k, kid, v0, wrap):
        if kid not in d.fv():
            return lambda x: wrap(v0 + d * x)

        def f(x):
            xid = self.fresh_sum_var()
            s = Sum(xid, x, subst(d, {kid: xid}))
            return wrap(v0 + s)
        return f

    def fresh_sum_var(self):
        return var("sumk", True)

    def rec_form(self, i, u, at, v0, k, kid, opq_ids, lid):
        """general first-order recurrence phi' = u(phi, k), kept as an
        uninterpreted fold determined by (initial value, step)"""
        if not isinstance(u, Poly) or not isinstance(v0, Poly):
            return None
        if (u.fv() & opq_ids) - {var_id(at)}:
            return None
        if self.has_barrier_atoms(u, lid):
            return None
        h = u.bvh() + 1
        bk = atom_poly(mk_atom(("bv", h), True))
        bphi = atom_poly(mk_atom(("bv", h + 1), i.ty.k == "int"))
        step = subst(u, {kid: bk, var_id(at): bphi})
        return lambda x: atom_poly(mk_atom(("fold", h, P(x), v0, step), i.ty.k == "int"))

    def finish_effects(self, tails, k, kid, N, lid, g0):
        binder = (k, N)
        # resolve reads of the state at the start of iteration k
        ats = {}
        for rn, t in tails.items():
            for e in t:
                for p in self.eff_polys(e):
                    for a in T.walk_atoms(p):
                        at = _byid[a]
                        if at.kind == "rdL" and at.key[1] == lid:
                            ats[a] = at
        self.binders.append(binder)
        sub = {}
        hav = set()
        try:
            for _ in range(4):
                todo = {a: at for a, at in ats.items() if a not in sub}
                if not todo:
                    break
                for a, at in todo.items():
                    rn, q = at.key[2], at.key[3]
                    q = subst(q, sub)
                    if self.has_barrier_atoms(q, lid):
                        continue
                    ok = True
                    j = var(self.fresh("j"), True)
                    for e in tails.get(rn, []):
                        if e.kind != "w":
                            ok = False
                            break
                        ei = subst(e.idx, sub)
                        if self.has_barrier_atoms(ei, lid):
                            ok = False
                            break
                        ei2 = subst(ei, {kid: j})
                        bl = [(j, k)] + [(b, subst(subst(n, sub), {kid: j})) for b, n in e.binders]
                        if not self.distinct(ei2, q, binders=bl):
                            ok = False
                            break
                    if ok:
                        sub[a] = self.read(rn, q, ir.I(32) if at.isint else None)
                        if not isinstance(sub[a], Poly):
                            del sub[a]
                    else:
                        pass
                if all(a in sub for a in ats):
                    break
        finally:
            self.binders.pop()
        under = {a for a in ats if a not in sub}
        cells = {}
        if under:
            for rn, t in tails.items():
                self.cell_folds(rn, [self.sub_eff(e, sub) for e in t], k, kid, N, lid, cells, sub)
        for rn, t in tails.items():
            if rn in cells:
                for q, v in cells[rn]:
                    self.mem[rn].append(Eff([], g0, q, 0, v))
                continue
            lst = []
            bad = False
            for e in t:
                e2 = self.sub_eff(e, sub) if sub else e
                if under and self.deep_loops and e2.kind == "w":
                    e2 = self.resolve_eff(e2, lid, tails, k, kid, binder)
                if e2.kind == "hav":
                    bad = "inner havoc"
                    break
                if any(self.has_barrier_atoms(p, lid) for p in self.eff_polys(e2)):
                    bad = "depends on earlier iterations at %s" % (show(e2.idx, 2) if isinstance(e2.idx, Poly) else e2.idx)
                    break
                lst.append(e2)
            if not bad and len(lst) > 1:
                # loop fission legality
                for x in range(len(lst)):
                    for y in range(x + 1, len(lst)):
                        e1, e2 = lst[x], lst[y]
                        if e1.coef == 1 and e2.coef == 1:
                            continue
                        j = var(self.fresh("j"), True)
                        i2 = subst(e2.idx, {kid: j})
                        bl = [binder, (j, k)]
                        ren = {}
                        b1 = [(b, n) for b, n in e1.binders]
                        b2 = []
                        for b, n in e2.binders:
                            nb = var(self.fresh("q"), True)
                            ren[var_id(b)] = nb
                            b2.append((nb, subst(subst(n, {kid: j}), ren)))
                        i2 = subst(i2, ren)
                        if not self.distinct(e1.idx, i2, binders=bl + b1 + b2):
                            bad = "overlapping writes %s / %s" % (show(e1.idx, 2), show(i2, 2))
                            break
                    if bad:
                        break
            # pointer-valued effects that vary with k cannot be quantified
            for e in lst:
                if not isinstance(e.val, Poly) and e.val is not None:
                    if e.binders or (isinstance(e.val, Ptr) and kid in e.val.off.fv()) or kid in e.idx.fv():
                        if self.regions[rn].kind != "obj":
                            bad = True
            if bad:
                self.mem[rn].append(Eff([], ONE, self.fresh("H"), 0, None, "hav"))
                self.notes.append("region %s havocked by a loop: %s" % (rn, str(bad)[:300]))
                continue
            for e in lst:
                g = e.guard * g0
                dep = [e.idx] + ([e.val] if isinstance(e.val, Poly) else []) + [e.guard]
                self.mem[rn].append(Eff([binder] + e.binders, g, e.idx, e.coef, e.val))

    def cell_folds(self, rn, t, k, kid, N, lid, cells, sub):
        """fixed cells of a region, each updated from its own previous value: recurrences"""
        by = {}
        for e in t:
            if e.kind != "w" or e.binders or not isinstance(e.idx, Poly) or e.idx.const() is None or not isinstance(e.val, Poly):
                return
            by.setdefault(e.idx.const(), []).append(e)
        if self.regions[rn].kind == "nlist" or not any(self.has_barrier_atoms(p, lid) for e in t for p in self.eff_polys(e)):
            return
        out, new = [], {}
        for c, es in sorted(by.items()):
            q = P(c)
            own = [a for e in t for p in self.eff_polys(e) for a in T.walk_atoms(p)
                   if _byid[a].kind == "rdL" and _byid[a].key[1:4] == (lid, rn, q)]
            v0 = self.read(rn, q, ir.I(32) if own and _byid[own[0]].isint else None)
            if not isinstance(v0, Poly):
                return
            at = atom_poly(_byid[own[0]]) if own else var(self.fresh("cell"))
            u = at
            for e in es:
                u = u + e.guard * e.val if e.coef else e.guard * e.val + (ONE - e.guard) * u
            me = own[0] if own else var_id(at)
            ph = var(self.fresh("cell"), bool(own) and _byid[own[0]].isint)
            u = subst(u, {me: ph})
            if self.has_barrier_atoms(u, lid):
                return
            d = u - ph
            if var_id(ph) not in d.fv():
                cf = self.closed_sum(d, k, kid, v0, lambda p: p)
            else:
                h = u.bvh() + 1
                bk = atom_poly(mk_atom(("bv", h), True))
                bphi = atom_poly(mk_atom(("bv", h + 1), bool(own) and _byid[own[0]].isint))
                step = subst(u, {kid: bk, var_id(ph): bphi})
                cf = lambda x, h=h, v0=v0, step=step, ii=bool(own) and _byid[own[0]].isint: atom_poly(mk_atom(("fold", h, P(x), v0, step), ii))
            out.append((q, cf(N)))
            if own:
                new[own[0]] = cf(k)
        cells[rn] = out
        sub.update(new)

    def resolve_eff(self, e, lid, tails, k, kid, binder):
        """resolve the reads of the state at the start of iteration k that stand below sums"""
        f = lambda p: self.resolve_sums(p, lid, tails, k, kid) if isinstance(p, Poly) and self.has_barrier_atoms(p, lid) else p
        save = self.binders
        self.binders = list(save) + [binder] + list(e.binders)
        try:
            return Eff([(b, f(n)) for b, n in e.binders], f(e.guard), f(e.idx), e.coef, f(e.val), e.kind)
        finally:
            self.binders = save

    def resolve_sums(self, p, lid, tails, k, kid):
        mp = {}
        for x in p.atoms():
            at = _byid[x]
            if at.kind == "rdL" and at.key[1] == lid:
                q = self.resolve_sums(at.key[3], lid, tails, k, kid)
                if self.has_barrier_atoms(q, lid) or any(_byid[y].kind == "bv" for y in T.walk_atoms(q)):
                    continue
                j = var(self.fresh("j"), True)
                ok = True
                for e in tails.get(at.key[2], []):
                    if e.kind != "w" or self.has_barrier_atoms(e.idx, lid) or any(self.has_barrier_atoms(n, lid) for _, n in e.binders) \
                            or not self.distinct(subst(e.idx, {kid: j}), q, binders=[(j, k)] + [(b, subst(n, {kid: j})) for b, n in e.binders]):
                        ok = False
                        break
                if ok:
                    v = self.read(at.key[2], q, ir.I(32) if at.isint else None)
                    if isinstance(v, Poly):
                        mp[x] = v
            elif at.kind == "sum" and any(_byid[y].kind == "rdL" and _byid[y].key[1] == lid for y in T.deep_atoms(x)):
                n = self.resolve_sums(at.key[2], lid, tails, k, kid)
                s = var(self.fresh("s"), True)
                body = subst(at.key[3], {at.key[1]: s})
                self.binders.append((s, n))
                try:
                    body = self.resolve_sums(body, lid, tails, k, kid)
                finally:
                    self.binders.pop()
                mp[x] = T.Sum(s, n, body)
            elif at.kind not in ("var", "sym", "bv", "rdL") and any(_byid[y].kind == "rdL" and _byid[y].key[1] == lid for y in T.deep_atoms(x)):
                mp[x] = T.rebuild(at, [self.resolve_sums(y, lid, tails, k, kid) if isinstance(y, Poly) else y for y in at.key[1:]])
        return T._subst(p, mp, frozenset(mp), {}) if mp else p

    def eff_polys(self, e):
        out = [e.guard]
        if isinstance(e.idx, Poly):
            out.append(e.idx)
        if isinstance(e.val, Poly):
            out.append(e.val)
        elif isinstance(e.val, Ptr):
            out.append(e.val.off)
        for b, n in e.binders:
            out.append(n)
        return out

    def havoc_loop(self, fn, cfg, li, env, phis, init, snap, lid, mod=None):
        """loop without a closed form: everything it may change becomes
        unknown, only the exit condition is known afterwards"""
        g0, o0 = self.guard, self.outer
        self.restore(snap)
        hv = self.fresh("hv")
        e2 = dict(env)
        fresh = {}
        for i in phis:
            v0 = init[i.res]
            nm = "%s.%s" % (hv, i.res)
            isint = i.ty.k in ("int", "ptr")
            at = sym(nm, isint)
            if i.ty.k == "ptr":
                if isinstance(v0, Ptr):
                    e2[i.res] = Ptr(v0.region, at.scale(self.unit(v0.region)))
                else:
                    raise Unsupported("pointer recurrence in %s" % fn.name)
            else:
                e2[i.res] = at
        for rn in self.regions:
            self.mem[rn].append(Eff([], ONE, lid, 0, None, "bar"))
        self.outer = o0 * g0
        self.guard = ONE
        envx = dict(e2)
        try:
            r = self.exec_region(fn, cfg, li, envx)
        finally:
            self.outer = o0
            self.guard = g0
        m2 = set()
        for rn in self.regions:
            effs = self.mem[rn]
            j = max((x for x, e in enumerate(effs) if e.kind == "bar" and e.idx == lid), default=None)
            if j is not None and len(effs) > j + 1:
                m2.add(rn)
        self.restore(snap)
        for rn in sorted(m2):
            self.mem[rn].append(Eff([], ONE, hv, 0, None, "hav"))
        self.notes.append("loop in %s without closed form: havoc" % fn.name)
        # values at the exit: those of the last (partial) iteration
        sub = {}
        for rn in ():
            pass
        exits = {}
        for (s, d, c) in r["exits"]:
            exits[(s, d)] = exits.get((s, d), ZERO) + c
        if not exits:
            raise Unsupported("loop without exit in %s" % fn.name)
        lastv = {}
        for nm, v in envx.items():
            if nm not in env or nm in fresh:
                lastv[nm] = self.havoc_rd(v, lid, hv, m2)
        for i in phis:
            lastv[i.res] = envx[i.res]
        env.update(lastv)
        tot = ZERO
        for c in exits.values():
            tot = tot + self.havoc_rd(c, lid, hv, m2)
        if not tot.is_one():
            # the exit is eventually taken (termination is assumed); the exit condition is known
            self.facts.append((self.outer * self.guard, tot))
            self.assumed.add("the iterative loop in %s terminates" % fn.name)
        keys = list(exits)
        if len(keys) == 1:
            return [(keys[0][0], keys[0][1], ONE)]
        res = []
        for kk in keys[:-1]:
            res.append((kk[0], kk[1], self.havoc_rd(exits[kk], lid, hv, m2)))
        rest = ONE
        for _, _, c in res:
            rest = rest - c
        res.append((keys[-1][0], keys[-1][1], rest))
        return res

    def havoc_rd(self, v, lid, hv, mods):
        """reads of the state at loop start become reads of the havocked state"""
        if isinstance(v, Poly):
            sub = {}
            for a in T.walk_atoms(v):
                at = _byid[a]
                if at.kind == "rdL" and at.key[1] == lid:
                    if at.key[2] in mods:
                        sub[a] = atom_poly(mk_atom(("rdH", hv, at.key[2], at.key[3]), at.isint))
                    else:
                        sub[a] = self.read(at.key[2], at.key[3], ir.I(32) if at.isint else None)
            return subst(v, sub) if sub else v
        if isinstance(v, Ptr):
            return Ptr(v.region, self.havoc_rd(v.off, lid, hv, mods))
        return v

    # ------------------------------------------------------------ results
    def final(self, region, idx):
        return self.read(region, P(idx))


_struct = {}
_effid = {}


def id_of(e):
    return _effid.setdefault(id(e), len(_effid))


_BINOPS = ir.BIN


def _pow(a, b):
    c = b.const()
    if c is not None and c == int(c) and abs(c) <= 12:
        return a ** int(c)
    if c == Fraction(1, 2):
        return sqrt_(a)
    return T.fn("pow", a, b)


def _exp(a):
    if a.is_zero():
        return ONE
    return T.fn("exp", a)


def _u(name):
    return lambda a: T.fn(name, a) if not a.is_zero() or name in ("cos", "acos", "log") else ZERO


def _acos(a):
    if a.const() == -1:
        return sym("pi")
    return T.fn("acos", a)


def _cos(a):
    return ONE if a.is_zero() else T.fn("cos", a)


BUILTIN = {
    "sqrt": sqrt_, "fabs": abs_, "exp": _exp, "log": lambda a: T.fn("log", a), "pow": _pow,
    "sin": _u("sin"), "cos": _cos, "tan": _u("tan"), "acos": _acos, "asin": _u("asin"), "atan": _u("atan"),
    "atan2": lambda a, b: T.fn("atan2", a, b), "floor": lambda a: a if _isint_poly(a) else T.fn("floor", a, isint=True),
    "ceil": lambda a: a if _isint_poly(a) else T.fn("ceil", a, isint=True),
    "tanh": _u("tanh"), "sinh": _u("sinh"), "cosh": lambda a: T.fn("cosh", a), "log10": lambda a: T.fn("log10", a),
    "cbrt": _u("cbrt"), "fmod": lambda a, b: T.fn("fmod", a, b), "exp2": lambda a: T.fn("exp2", a), "log2": lambda a: T.fn("log2", a),
    "fmax": lambda a, b: ite(ind("lt", a - b), b, a), "fmin": lambda a, b: ite(ind("lt", b - a), b, a),
}
T.FN_REBUILD.update({"exp": _exp, "pow": _pow, "cos": _cos, "acos": _acos, "sin": _u("sin")})
