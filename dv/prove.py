"""Decision procedures: canonical-form equality, case splitting, z3/cvc5."""
from fractions import Fraction
import itertools
import math
import time
import z3

from .terms import *
from .terms import _byid, _isint_poly
from . import terms as T

STATS = {"canonical": 0, "cleared": 0, "case-split": 0, "z3": 0, "cvc5": 0, "z3_time": 0.0, "int_queries": 0, "int_time": 0.0,
         "sum-merge": 0}


class Z3Tr:
    def __init__(self, shallow=False):
        self.shallow = shallow      # leave long radicands, inverses and named subterms uninterpreted
        self.cache = {}
        self.atoms = {}
        self.side = []
        self._done = set()

    def atom(self, aid):
        r = self.cache.get(aid)
        if r is not None:
            return r
        a = _byid[aid]
        nm = "a%d" % aid
        if a.kind == "ind":
            b = self.boolean(aid)
            r = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        elif a.isint:
            r = z3.Int(nm)
            self.atoms[aid] = r
        else:
            r = z3.Real(nm)
            self.atoms[aid] = r
            self.cache[aid] = r
            if a.kind == "sqrt" and a.key[1].const() is not None and a.key[1].const() > 0:
                c = Fraction(a.key[1].const()) * 10**24
                lo = math.isqrt(int(c))
                self.side.append(z3.And(r >= z3.Q(lo, 10**12), r <= z3.Q(lo + 1, 10**12)))
                if not self.shallow:
                    self.side.append(r * r == self.real(a.key[1]))
            elif self.shallow and a.kind in ("sqrt", "abs", "inv", "def") and len(a.key[1].t) > 3:
                if a.kind in ("sqrt", "abs"):
                    self.side.append(r >= 0)
            elif a.kind == "sqrt":
                x = self.real(a.key[1])
                self.side.append(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
                self.side.append(z3.Implies(x > 0, r > 0))
            elif a.kind == "abs":
                x = self.real(a.key[1])
                self.side.append(r == z3.If(x >= 0, x, -x))
            elif a.kind == "inv":
                x = self.real(a.key[1])
                self.side.append(z3.Implies(x != 0, r * x == 1))
            elif a.kind == "def":
                self.side.append(r == self.real(a.key[1]))
            elif a.kind == "fn" and a.key[1] == "exp":
                self.side.append(r > 0)
                x = self.real(a.key[2])
                self.side.append(z3.Implies(x <= 0, r <= 1))
                self.side.append(z3.Implies(x >= 0, r >= 1))
            elif a.kind in ("rd", "sym") and a.key[1] in T.NONNEG:
                self.side.append(r >= 0)
            elif a.kind == "sym" and a.key[1] == "pi":
                self.side.append(z3.And(r > z3.RealVal("3.14159"), r < z3.RealVal("3.1416")))
            elif a.kind == "sym" and a.key[1] == "huge":
                self.side.append(r > z3.RealVal("1e100"))
        self.cache[aid] = r
        return r

    def boolean(self, aid):
        a = _byid[aid]
        k = a.key
        if k[1] == "lt":
            return self.num(k[2]) < 0
        if k[1] == "eq":
            return self.num(k[2]) == 0
        return z3.Bool("b%d" % aid)

    def num(self, p):
        if _isint_poly(p):
            return self.integer(p)
        return self.real(p)

    def integer(self, p):
        ts = []
        for m, c in p.t.items():
            t = z3.IntVal(int(c))
            for a, e in m:
                x = self.atom(a)
                for _ in range(e):
                    t = t * x
            ts.append(t)
        return z3.Sum(ts) if ts else z3.IntVal(0)

    def real(self, p):
        ts = []
        for m, c in p.t.items():
            f = Fraction(c)
            t = z3.RealVal("%d/%d" % (f.numerator, f.denominator))
            for a, e in m:
                at = _byid[a]
                x = self.atom(a)
                if at.isint or at.kind == "ind":
                    x = z3.ToReal(x)
                if e > 0:
                    for _ in range(e):
                        t = t * x
                else:
                    iv = z3.Real("i%d" % a)
                    if ("i", a) not in self._done:
                        self._done.add(("i", a))
                        self.side.append(z3.Implies(x != 0, iv * x == 1))
                    for _ in range(-e):
                        t = t * iv
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def cond(self, p):
        """indicator poly -> z3 Bool (poly == 1)"""
        if p.is_one():
            return z3.BoolVal(True)
        if p.is_zero():
            return z3.BoolVal(False)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1:
                return z3.And([self.boolean(a) for a, _ in m])
        q = ONE - p
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if c == 1:
                return z3.Not(z3.And([self.boolean(a) for a, _ in m]))
        return self.num(p) == 1


def pythagoras(p):
    """sin^2 = 1 - cos^2"""
    while True:
        hit = None
        for m in p.t:
            for a, e in m:
                at = _byid[a]
                if e >= 2 and at.kind == "fn" and at.key[1] == "sin":
                    hit = a
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        c = T.FN_REBUILD["cos"](_byid[hit].key[2])
        s2 = ONE - c * c
        rest, acc = {}, ZERO
        for m, k in p.t.items():
            e = dict(m).get(hit, 0)
            if e >= 2:
                acc = acc + Poly({tuple((x, y if x != hit else y - 2) for x, y in m if x != hit or y != 2): k}) * s2
            else:
                rest[m] = k
        p = Poly(rest) + acc


class IntSolver:
    """integer side conditions: index disjointness and ranges"""

    def __init__(self, ex):
        self.ex = ex
        self.cache = {}

    def axioms(self, tr, atoms):
        ex = self.ex
        out = []
        Bs = []
        own = []
        seen = set(atoms)
        todo = list(atoms)
        while todo:
            aid = todo.pop()
            a = _byid[aid]
            if a.kind == "fn" and isinstance(a.key[1], str):
                nm = a.key[1]
                if nm.startswith("NN:"):
                    out.append(tr.atom(aid) >= 0)
                elif nm.startswith("nbr:"):
                    out.append(tr.atom(aid) >= 0)
                    lst = nm[4:]
                    f = ex.selfex.get(lst)
                    if f is not None:
                        e = f(a.key[2])
                        if e is not None:
                            out.append(tr.atom(aid) != tr.integer(e))
                            for x in T.walk_atoms(e):
                                if x not in seen:
                                    seen.add(x)
                                    todo.append(x)
                    h = getattr(ex, "nbr_facts", None)
                    if h:
                        for c in h(lst, a.key[2], a.key[3]):
                            out.append(tr.cond(c))
                elif nm.startswith("B:"):
                    Bs.append(a)
                    out.append(tr.atom(aid) >= 0)
            elif a.kind == "fn" and a.key[1] == "idiv":
                pass
            elif a.kind == "rd" and a.key[1] in ex.inj:
                own.append(a)
                out.append(tr.atom(aid) >= 0)
            elif a.kind == "rd" and a.isint and a.key[1] in T.NONNEG:
                out.append(tr.atom(aid) >= 0)
            elif a.kind == "sym" and a.isint and a.key[1] in T.NONNEG:
                out.append(tr.atom(aid) >= 0)
            if a.kind == "fn" and a.key[1] == "idiv":
                x, y = tr.integer(a.key[2]), tr.integer(a.key[3])
                q = tr.atom(aid)
                out.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(q * y <= x, x < q * y + y, q >= 0)))
        for x, y in itertools.combinations(Bs, 2):
            if x.key[1] != y.key[1]:
                continue
            l = x.key[1][2:]
            p, q = tr.integer(x.key[2]), tr.integer(y.key[2])
            bx, by = tr.atom(x.id), tr.atom(y.id)
            nx, ny = tr.integer(NN_(l, x.key[2])), tr.integer(NN_(l, y.key[2]))
            out += [nx >= 0, ny >= 0]
            out.append(z3.Implies(p < q, bx + nx <= by))
            out.append(z3.Implies(q < p, by + ny <= bx))
            out.append(z3.Implies(p == q, z3.And(bx == by, nx == ny)))
        for x, y in itertools.combinations(own, 2):
            if x.key[1] == y.key[1]:
                p, q = tr.integer(x.key[2]), tr.integer(y.key[2])
                out.append((p == q) == (tr.atom(x.id) == tr.atom(y.id)))
        return out

    def run(self, polys, mk, ranges):
        t0 = time.time()
        tr = Z3Tr()
        goal = mk(tr)
        s = z3.Solver()
        s.set("timeout", 1500)
        atoms = set()
        for p in polys:
            atoms |= T.walk_atoms(p)
        rng = []
        for k, n in ranges:
            atoms |= T.walk_atoms(k)
            rng.append(tr.integer(k) >= 0)
            if n is not None:
                atoms |= T.walk_atoms(n)
                rng.append(tr.integer(k) < tr.num(n))
        for f in self.ex.facts:
            if isinstance(f, Poly):
                atoms |= T.walk_atoms(f)
                rng.append(tr.cond(f))
        ax = self.axioms(tr, atoms)
        s.add(rng + ax + tr.side + [goal])
        r = s.check()
        STATS["int_queries"] += 1
        STATS["int_time"] += time.time() - t0
        return r == z3.unsat

    def never_zero(self, d, ranges, facts=()):
        # nbr(p,n) is never p
        if len(d.t) == 2 and not facts:
            for m, c in d.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = _byid[m[0][0]]
                    if a.kind == "fn" and str(a.key[1]).startswith("nbr:"):
                        f = self.ex.selfex.get(a.key[1][4:])
                        e = f(a.key[2]) if f else None
                        if e is not None and (d - Poly({m: c}) + e.scale(c)).is_zero():
                            return True
        if not _isint_poly(d):
            return False
        key = ("nz", d, tuple(ranges), len(self.ex.facts), tuple(facts))
        r = self.cache.get(key)
        if r is None:
            r = self.run([d] + list(facts), lambda tr: z3.And([tr.integer(d) == 0] + [tr.cond(f) for f in facts]), ranges)
            self.cache[key] = r
        return r

    def valid(self, cond, ranges):
        key = ("v", cond, tuple(ranges), len(self.ex.facts))
        r = self.cache.get(key)
        if r is None:
            # conditions over reals are left to the main prover
            ok = all(_byid[a].kind == "ind" and (_byid[a].key[1] == "pred" or _isint_poly(_byid[a].key[2])) for a in cond.atoms())
            r = self.run([cond], lambda tr: z3.Not(tr.cond(cond)), ranges) if ok else False
            self.cache[key] = r
        return r


# ---------------------------------------------------------------- equality
def clear_denoms(p):
    """multiply by the denominators (sound for p==0 given non-zero denominators)"""
    old = T.MUL_LIMIT
    T.MUL_LIMIT = 10**9
    try:
        for _ in range(12):
            neg = {}
            invs = {}
            for m in p.t:
                for a, e in m:
                    if _byid[a].kind == "inv":
                        invs[a] = max(invs.get(a, 0), e)
                    elif e < 0:
                        neg[a] = max(neg.get(a, 0), -e)
            if not neg and not invs:
                return p
            if invs:
                # one denominator at a time
                a = max(invs, key=lambda x: x)
                E = invs[a]
                den = _byid[a].key[1]
                pw = [ONE]
                for _ in range(E):
                    pw.append(pw[-1] * den)
                groups = {}
                for m, c in p.t.items():
                    e = 0
                    mm = []
                    for x, ex_ in m:
                        if x == a:
                            e = ex_
                        else:
                            mm.append((x, ex_))
                    groups.setdefault(e, {})[tuple(mm)] = c
                q = ZERO
                for e, t in groups.items():
                    q = q + T.reduce_poly(Poly(t)) * pw[E - e]
                p = q
                if len(p.t) > 60000:
                    raise TooBig()
                continue
            f = Poly({tuple(sorted(neg.items())): 1})
            res = {}
            sp = False
            r2 = ZERO
            for m, c in p.t.items():
                d = dict(m)
                for a, e in neg.items():
                    d[a] = d.get(a, 0) + e
                mm = tuple(sorted((a, e) for a, e in d.items() if e))
                res[mm] = res.get(mm, 0) + c
            p = T.reduce_poly(Poly({m: c for m, c in res.items() if c != 0}))
            if len(p.t) > 60000:
                raise TooBig()
        return p
    finally:
        T.MUL_LIMIT = old


class TooBig(Exception):
    pass


class Prover:
    def __init__(self, ex=None, facts=(), timeout=8000):
        self.ex = ex
        self.facts = list(facts)       # indicator polys assumed == 1
        self.timeout = timeout
        self.log = []

    def zero(self, p, facts=(), depth=0):
        """True if p == 0 is proved for all values of the atoms"""
        p = pythagoras(p)
        if depth == 0:
            p, facts = self.merge_inds(p, facts)
        p = self.assume(p, facts)
        if p.is_zero():
            STATS["canonical"] += 1
            return True
        if depth == 0 and any(_byid[a].kind == "def" for a in p.atoms()):
            # named subterms as unknowns
            try:
                if pythagoras(clear_denoms(p)).is_zero():
                    STATS["cleared"] += 1
                    return True
            except TooBig:
                pass
        if len(p.t) > 24 and any(_byid[a].kind == "ind" for a in p.atoms()) and any(e < 0 or _byid[a].kind == "inv" for m in p.t for a, e in m):
            # cases before denominators
            if self.split(p, facts, depth):
                STATS["case-split"] += 1
                return True
            if depth:
                return False
        elif any(_byid[a].kind == "ind" and any(_byid[x].kind == "def" for x in T.walk_atoms(_byid[a].key[2])) for a in p.atoms()):
            # cases before named subterms are expanded
            if self.split(p, facts, depth):
                STATS["case-split"] += 1
                return True
            if depth:
                return False
        p = unfold_defs(p)
        if p.is_zero():
            STATS["canonical"] += 1
            return True
        try:
            q = clear_denoms(p)
            q = unfold_defs(q)
        except TooBig:
            return False
        if q.is_zero():
            STATS["cleared"] += 1
            return True
        r = self.merge_sums(q, facts, depth)
        if r:
            STATS["sum-merge"] += 1
            return True
        r = self.split(q, facts, depth)
        if r:
            STATS["case-split"] += 1
            return True
        return False

    def assume(self, p, facts):
        """the comparisons that the facts settle, outside of other terms"""
        known = {}
        for f in list(facts) + self.facts:
            for m, c in f.t.items():
                if len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].kind == "ind":
                    if len(f.t) == 1 and c == 1:
                        known[m[0][0]] = ONE
                    elif len(f.t) == 2 and c == -1 and f.t.get(()) == 1:
                        known[m[0][0]] = ZERO
        if not known:
            return p
        for a in list(known):
            k, q = _byid[a].key[1], _byid[a].key[2]
            if known[a] is ONE and k in ("lt", "eq"):
                for o in (ind("lt", -q), ind("eq", q)) if k == "lt" else (ind("lt", -q), ind("lt", q)):
                    for x in o.atoms():
                        if len(o.t) == 1:
                            known.setdefault(x, ZERO)
        mp = {a: v for a, v in known.items() if a in p.atoms()}
        if not mp:
            return p
        r = {}
        for m, c in p.t.items():
            if any(a in mp and mp[a] is ZERO for a, e in m):
                continue
            m = tuple(x for x in m if x[0] not in mp)
            r[m] = r.get(m, 0) + c
        return Poly({m: c for m, c in r.items() if c != 0})

    def merge_inds(self, p, facts):
        """comparisons of sums that are provably equal become the same comparison"""
        facts = list(facts)
        at = set()
        for q in [p] + facts:
            at |= set(q.atoms())
        inds = sorted(a for a in at if _byid[a].kind == "ind" and _byid[a].key[1] in ("lt", "eq") and any(_byid[x].kind == "sum" for x in T.walk_atoms(_byid[a].key[2])))
        mp = {}
        for n, a in enumerate(inds):
            for b in inds[:n]:
                if b in mp or _byid[a].key[1] != _byid[b].key[1]:
                    continue
                x, y = _byid[a].key[2], _byid[b].key[2]
                if len(x.t) + len(y.t) > 200:
                    continue
                if self.zero(x - y, [], 1):
                    mp[a] = atom_poly(_byid[b])
                    break
        if mp:
            p = subst(p, mp)
            facts = [subst(f, mp) for f in facts]
        return p, facts

    def merge_sums(self, p, facts, depth):
        if depth > 6:
            return False
        groups = {}
        rest = {}
        found = False
        for m, c in p.t.items():
            s = [(a, e) for a, e in m if _byid[a].kind == "sum"]
            if len(s) == 1 and s[0][1] == 1:
                a = _byid[s[0][0]]
                key = (a.key[2],)
                co = Poly({tuple(x for x in m if x != s[0]): c})
                groups.setdefault(key, []).append((a, co))
                found = True
            else:
                rest[m] = c
        if not found:
            return False
        for (n,), lst in groups.items():
            if len(lst) == 1 and lst[0][0].key[3].t is not None:
                pass
            h = max([x.key[3].bvh() for x, _ in lst] + [co.bvh() for _, co in lst]) + 1
            bv = atom_poly(mk_atom(("var", "mrg%d.%d" % (depth, h)), True))
            body = ZERO
            for a, co in lst:
                body = body + co * subst(a.key[3], {a.key[1]: bv})
            f2 = list(facts) + [ind("le", -bv), ind("lt", bv - n)]
            if not self.zero(body, f2, depth + 1):
                return False
        return self.zero(Poly(rest), facts, depth + 1)

    def split(self, p, facts, depth):
        inds = sorted(a for a in p.atoms() if _byid[a].kind == "ind")
        if not inds:
            # indicators nested in sums etc.
            return self.rewrite_eq(p, facts, depth)
        if len(inds) > 10 or depth > 8:
            return False
        a = inds[0]
        # choose the indicator that occurs most often
        cnt = {}
        for m in p.t:
            for x, _ in m:
                if x in inds:
                    cnt[x] = cnt.get(x, 0) + 1
        a = max(inds, key=lambda x: (cnt[x], -x))
        for v in (1, 0):
            q = subst(p, {a: P(v)})
            lit = atom_poly(_byid[a]) if v else ONE - atom_poly(_byid[a])
            f2 = list(facts) + [lit]
            if q.is_zero():
                continue
            inner = any(_byid[x].kind == "ind" for x in q.atoms())
            if self.infeasible(f2, inner):
                continue
            if not self.zero(q, f2, depth + 1) and not (inner and self.infeasible(f2)):
                return False
        return True

    def infeasible(self, facts, quick=False):
        key = (id(self.ex), frozenset(list(facts) + self.facts))
        r = self._infeasible.get(key)
        if r is None and quick:
            r = self._infeasible_at(facts, True, 200)
            if r:
                self._infeasible[key] = r
        elif r is None:
            r = self._infeasible[key] = self._infeasible_at(facts, True) or self._infeasible_at(facts, False)
        return r

    _infeasible = {}

    def _infeasible_at(self, facts, shallow, ms=500):
        t0 = time.time()
        tr = Z3Tr(shallow)
        s = z3.Solver()
        s.set("timeout", ms if shallow else 2000)
        cs = [tr.cond(f) for f in list(facts) + self.facts]
        if self.ex is not None:
            atoms = set()
            for f in list(facts) + self.facts:
                atoms |= T.walk_atoms(f)
            cs += IntSolver(self.ex).axioms(tr, atoms)
        s.add(cs + tr.side)
        r = s.check()
        STATS["z3"] += 1
        STATS["z3_time"] += time.time() - t0
        return r == z3.unsat

    def rewrite_eq(self, p, facts, depth):
        """use an equality fact to eliminate an atom"""
        if depth > 8:
            return False
        for f in list(facts) + self.facts:
            if len(f.t) == 1:
                (m, c), = f.t.items()
                if c == 1:
                    for a, _ in m:
                        at = _byid[a]
                        if at.kind == "ind" and at.key[1] == "eq":
                            e = at.key[2]
                            for mm, cc in e.t.items():
                                if len(mm) == 1 and mm[0][1] == 1 and not poly_mentions(e - Poly({mm: cc}), mm[0][0]):
                                    x = mm[0][0]
                                    if _byid[x].kind == "ind":
                                        continue
                                    if not any(T._mentions(y, x) for y in p.atoms()):
                                        continue
                                    val = (Poly({mm: cc}) - e).scale(Fraction(1) / cc)
                                    q = subst(p, {x: val})
                                    rest = [g for g in facts if g is not f]
                                    if self.zero(q, rest, depth + 1):
                                        return True
        # a small remainder may be forced to zero by the inequalities of the case
        return bool(facts) and len(p.t) <= 4 and self.infeasible(list(facts) + [ind("lt", p)]) and self.infeasible(list(facts) + [ind("lt", -p)])

    # ------------------------------------------------ inequalities
    def valid(self, goal, facts=(), timeout=None):
        """goal: z3-building function tr->Bool or indicator poly"""
        t0 = time.time()
        tr = Z3Tr()
        g = tr.cond(goal) if isinstance(goal, Poly) else goal(tr)
        cs = [tr.cond(f) if isinstance(f, Poly) else f(tr) for f in list(facts) + self.facts]
        if self.ex is not None:
            atoms = set()
            for f in list(facts) + self.facts + ([goal] if isinstance(goal, Poly) else []):
                if isinstance(f, Poly):
                    atoms |= T.walk_atoms(f)
            cs += IntSolver(self.ex).axioms(tr, atoms)
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(cs + tr.side + [z3.Not(g)])
        r = s.check()
        STATS["z3"] += 1
        STATS["z3_time"] += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.last_model = s.model()
            return False
        # second opinion
        r2 = cvc5_check(s.to_smt2(), (timeout or self.timeout))
        if r2 == "unsat":
            STATS["cvc5"] += 1
            return True
        self.last_model = None
        return None


def cvc5_check(smt, timeout):
    import subprocess
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    try:
        r = subprocess.run([exe, "--lang=smt2", "--tlimit=%d" % timeout, "--nl-ext-tplanes"], input=("(set-logic ALL)\n" + smt).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout / 1000 + 5)
        o = r.stdout.decode().strip().split("\n")[0]
        return o
    except Exception:
        return "unknown"
