"""Canonical terms of the verifier.

A numeric term is a Laurent polynomial (`Poly`) with rational coefficients over
interned atoms.  Atoms are array reads, scalar symbols, sqrt/inv/other function
applications, indicator functions of comparisons (0/1 valued, so that
ite(c,a,b) = b + [c]*(a-b)), and bounded sums.  Integers and reals share the
representation: machine arithmetic is treated as mathematical (see DESIGN.md).
"""
from fractions import Fraction
import math

_atoms = {}          # key -> Atom
_byid = []


class Atom:
    __slots__ = ("id", "key", "kind", "isint", "fv", "bvh", "name")

    def __init__(self, key, isint):
        self.id = len(_byid)
        self.key = key
        self.kind = key[0]
        self.isint = isint
        fv = frozenset()
        bvh = 0
        for a in key[1:]:
            if isinstance(a, Poly):
                fv |= a.fv()
                bvh = max(bvh, a.bvh())
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Poly):
                        fv |= b.fv()
                        bvh = max(bvh, b.bvh())
        if self.kind == "var":
            fv = frozenset([self.id])
        if self.kind == "bv":
            bvh = key[1]
        self.fv = fv
        self.bvh = bvh

    def __repr__(self):
        return show_atom(self)


def mk_atom(key, isint=False):
    a = _atoms.get(key)
    if a is None:
        a = Atom(key, isint)
        _atoms[key] = a
        _byid.append(a)
    return a


def atom_by_id(i):
    return _byid[i]


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_fv", "_bvh", "_at", "_wa")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None
        self._bvh = None
        self._at = None
        self._wa = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m in self.t:
                for a, _ in m:
                    f = _byid[a].fv
                    if f and not f <= s:
                        s = s | f
            self._fv = s
        return self._fv

    def bvh(self):
        if self._bvh is None:
            h = 0
            for m in self.t:
                for a, _ in m:
                    h = max(h, _byid[a].bvh)
            self._bvh = h
        return self._bvh

    def is_zero(self):
        return not self.t

    def const(self):
        """rational value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_one(self):
        return len(self.t) == 1 and self.t.get(()) == 1

    def atoms(self):
        if self._at is None:
            self._at = frozenset([a for m in self.t for a, _ in m])
        return self._at

    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = _norm(v + c)
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        a, b = self, o
        if len(a.t) * len(b.t) > MUL_LIMIT:
            if len(a.t) >= len(b.t):
                a = define(a)
                if len(a.t) * len(b.t) > MUL_LIMIT:
                    b = define(b)
            else:
                b = define(b)
                if len(a.t) * len(b.t) > MUL_LIMIT:
                    a = define(a)
        return mul_full(a, b)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return ONE / (self ** (-n))
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def inverse(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            r = {}
            p = Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
            return reduce_poly(p)
        if not self.t:
            return Poly({((mk_atom(("inv", ZERO)).id, 1),): 1})
        # common content: pull out the monomial gcd and the leading coefficient
        lead = min(self.t.keys(), key=_mono_key)
        lc = self.t[lead]
        common = None
        for m in self.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                nc = {}
                for a_, e_ in common.items():
                    e2 = d.get(a_, 0)
                    if e_ > 0 and e2 > 0:
                        nc[a_] = min(e_, e2)
                    elif e_ < 0 and e2 < 0:
                        nc[a_] = max(e_, e2)
                common = nc
            if not common:
                break
        core = self.scale(Fraction(1) / lc)
        out = Poly({(): _norm(Fraction(1) / lc)})
        if common:
            # do not factor indicators out of a denominator
            common = {a_: e_ for a_, e_ in common.items() if _byid[a_].kind != "ind" and not (_byid[a_].kind == "sqrt" and _byid[a_].key[1].const() is not None)}
        if common:
            cm = Poly({tuple(sorted((a_, -e_) for a_, e_ in common.items())): 1})
            core = mul_full(core, cm)
            if len(core.t) == 1:
                return out * cm * core.inverse()
            out = out * cm
        return out * atom_poly(mk_atom(("inv", core)))

    def __truediv__(self, o):
        o = P(o)
        c = o.const()
        if c is not None and c != 0:
            return self.scale(Fraction(1) / c)
        if NAME_QUOTIENTS and len(self.t) > 1 and len(o.t) > 1:
            return define(self * o.inverse())
        return self * o.inverse()

    def __rtruediv__(self, o):
        return P(o) / self

    def __repr__(self):
        return show(self)


MUL_LIMIT = 6000
NAME_QUOTIENTS = False      # quotients of longer polynomials become named subterms


def _mono_key(m):
    return (len(m), m)


LAZY = None          # squares of roots of longer radicands than this stay unexpanded (None: always expand)


def mul_full(a, b):
    r = {}
    special = False
    at, bt = a.t, b.t
    for m1, c1 in at.items():
        for m2, c2 in bt.items():
            m, sp = mono_mul(m1, m2)
            special = special or sp
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = _norm(c)
            else:
                v = _norm(v + c)
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    p = Poly(r)
    if special:
        p = reduce_poly(p)
    return p


def mono_mul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    i = j = 0
    out = []
    sp = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 < a2:
            out.append(m1[i])
            i += 1
        elif a1 > a2:
            out.append(m2[j])
            j += 1
        else:
            e = e1 + e2
            if e:
                k = _byid[a1].kind
                if k == "ind":
                    e = 1
                elif k == "sqrt" and (e >= 2 or e <= -2):
                    sp = sp or LAZY is None or len(_byid[a1].key[1].t) <= LAZY
                elif k == "abs" and e >= 2:
                    sp = True
                out.append((a1, e))
            i += 1
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out), sp


def reduce_poly(p):
    """rewrite sqrt(P)^e with |e|>=2, abs(x)^2"""
    work = False
    for m in p.t:
        for a, e in m:
            k = _byid[a].kind
            if k == "sqrt" and (e >= 2 or e <= -2 or (e < 0 and _byid[a].key[1].const() is not None)) and (LAZY is None or len(_byid[a].key[1].t) <= LAZY):
                work = True
            elif k == "abs" and e >= 2:
                work = True
            elif k == "ind" and e != 1:
                work = True
    if not work:
        return p
    res = ZERO
    for m, c in p.t.items():
        acc = Poly({(): c})
        rest = []
        extra = []
        for a, e in m:
            at = _byid[a]
            if at.kind == "sqrt" and e < 0 and at.key[1].const() is not None:
                q = (1 - e) // 2
                extra.append(P(Fraction(1) / at.key[1].const()) ** q)
                if e + 2 * q:
                    rest.append((a, e + 2 * q))
            elif at.kind == "sqrt" and (e >= 2 or e <= -2) and (LAZY is None or len(at.key[1].t) <= LAZY):
                q = abs(e) // 2
                r = e - q * 2 if e > 0 else e + q * 2
                base = at.key[1]
                extra.append(base ** q if e > 0 else base.inverse() ** q)
                if r:
                    rest.append((a, r))
            elif at.kind == "abs" and e >= 2:
                q = e // 2
                extra.append(at.key[1] ** (2 * q))
                if e - 2 * q:
                    rest.append((a, e - 2 * q))
            elif at.kind == "ind":
                rest.append((a, 1))
            else:
                rest.append((a, e))
        acc = Poly({tuple(rest): c})
        for x in extra:
            acc = acc * x
        res = res + acc
    return res


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        x = _norm(x)
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        r = rationalize(x)
        if r.denominator >= 10**7:
            q = _root_of(abs(x))
            if q is not None:
                return sqrt_(P(q)).scale(1 if x > 0 else -1)
            for e in (1, -1):
                q = Fraction(x / math.pi ** e).limit_denominator(100)
                if abs(float(q) * math.pi ** e - x) <= 2e-16 * abs(x) and abs(q.numerator) <= 1000:
                    return sym("pi") ** e * P(q)
        return P(r)
    if isinstance(x, Atom):
        return atom_poly(x)
    raise TypeError(repr(x))


def rationalize(x):
    """simplest rational that rounds to the double x (constants such as 1/3
    or 0.1 folded by the compiler are read as the rational they denote)"""
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    if x < 0:
        return -rationalize(-x)
    f = Fraction(x)
    # half-ulp interval
    m, e = math.frexp(x)
    ulp = Fraction(2) ** (e - 53)
    lo, hi = f - ulp / 2, f + ulp / 2
    r = _simplest(lo, hi)
    # a decimal literal is also "simple": prefer the simplest fraction when it is short
    if r.denominator < 10**7:
        return r
    dec = Fraction(repr(x))
    return dec


def _root_of(x):
    """small rational whose square root rounds to the double x (constants such as sqrt(2.0/3.0) folded by the compiler)"""
    f = Fraction(x) ** 2
    q = _simplest(f * (1 - Fraction(1, 2**51)), f * (1 + Fraction(1, 2**51)))
    return q if q.denominator <= 1000 and q.numerator <= 10**6 and math.sqrt(q) == x else None


def _simplest(lo, hi):
    fl = math.floor(lo)
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _simplest(1 / (hi - fl), 1 / (lo - fl))


_apcache = {}


def atom_poly(a):
    r = _apcache.get(a.id)
    if r is None:
        r = Poly({((a.id, 1),): 1})
        _apcache[a.id] = r
    return r


def var(name, isint=False):
    """a free symbol that may be bound later (loop counters, quantified indices)"""
    return atom_poly(mk_atom(("var", name), isint))


def sym(name, isint=False):
    return atom_poly(mk_atom(("sym", name), isint))


def _count(a):
    """an integer that is never negative: position of a loop or goal, declared size or position"""
    return a.isint and (a.kind == "var" or a.kind in ("sym", "rd") and a.key[1] in NONNEG)


def idiv(a, b):
    """integer quotient; exact where the dividend is a non-negative multiple plus a remainder"""
    a, b = P(a), P(b)
    k = b.const()
    if k is not None and k > 1 and a.t:
        q, r = {}, 0
        for m, c in a.t.items():
            if m == ():
                r = c
            elif c > 0 and Fraction(c, k).denominator == 1 and all(e > 0 and _count(_byid[x]) for x, e in m):
                q[m] = c
            else:
                break
        else:
            if q and 0 <= r < k and r == int(r):
                return Poly(q).scale(Fraction(1, int(k)))
    return atom_poly(mk_atom(("fn", "idiv", a, b), True))


def fn(name, *args, isint=False):
    if name == "idiv":
        return idiv(*args)
    return atom_poly(mk_atom(("fn", name) + tuple(P(a) for a in args), isint))


def rd(region, idx, isint=False):
    return atom_poly(mk_atom(("rd", region, P(idx)), isint))


def define(p):
    if len(p.t) <= 1:
        return p
    lead = min(p.t.keys(), key=_mono_key)
    lc = p.t[lead]
    q = p.scale(Fraction(1) / lc)
    return atom_poly(mk_atom(("def", q))).scale(lc)


def _sqrt_const(c):
    """square root of a positive rational: rational factor times square roots of distinct primes (None: hard to factor)"""
    c = Fraction(c)
    n, k, r = c.numerator * c.denominator, Fraction(1, c.denominator), ONE
    rn = math.isqrt(n)
    if rn * rn == n:
        return P(rn * k)
    if n > 10**12:
        return None
    p = 2
    while p * p <= n and p < 10**4:
        while n % (p * p) == 0:
            n, k = n // (p * p), k * p
        if n % p == 0:
            n, r = n // p, r * atom_poly(mk_atom(("sqrt", P(p))))
        p += 1
    if n > 1:
        rn = math.isqrt(n)
        if rn * rn == n:
            k = k * rn
        else:
            r = r * atom_poly(mk_atom(("sqrt", P(n))))
    return r.scale(k)


def _even_factor(p):
    """monomial of even powers of non-negative atoms common to all terms"""
    it = iter(p.t)
    com = {a: e for a, e in next(it) if is_nonneg_atom(a)}
    for m in it:
        d = dict(m)
        com = {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in com.items() if a in d and d[a] * e > 0}
        if not com:
            return ()
    return tuple(sorted((a, e - e % 2 if e > 0 else e + e % 2) for a, e in com.items() if abs(e) > 1))


def sqrt_(p):
    p = P(p)
    c = p.const()
    if c is not None and c > 0:
        r = _sqrt_const(c)
        if r is not None:
            return r
    elif c is None and not (len(p.t) == 1 and next(iter(p.t.values())) < 0):
        k = 1 / _content(p)
        if k != 1:
            r = _sqrt_const(k)
            if r is not None:
                return r * sqrt_(p.scale(1 / k))
    if c == 0:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        # perfect square monomial -> |.| of each factor
        if all(e % 2 == 0 for _, e in m) and c > 0:
            n, d = Fraction(c).numerator, Fraction(c).denominator
            rn, rdn = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rdn * rdn == d:
                r = P(Fraction(rn, rdn))
                for a, e in m:
                    x = Poly({((a, e // 2),): 1})
                    r = r * (x if is_nonneg_atom(a) or (e // 2) % 2 == 0 else abs_(x))
                return r
        if len(m) == 1 and m[0][1] > 2 and m[0][1] % 2 and c == 1:
            # sqrt(x^(2k+1)) = x^k sqrt(x) where it is defined
            return Poly({((m[0][0], m[0][1] // 2),): 1}) * atom_poly(mk_atom(("sqrt", Poly({((m[0][0], 1),): 1}))))
    else:
        f = _even_factor(p)
        if f:
            inv = Poly({tuple((a, -e) for a, e in f): 1})
            return Poly({tuple((a, e // 2) for a, e in f): 1}) * sqrt_(p * inv)
    return atom_poly(mk_atom(("sqrt", p)))


COLUMN = sym("column", True)
WIDTHS = []             # further widths of tables stored row by row


def columns(p):
    """entry of a table of columns, column * width + place: (column, place, width)"""
    for w in [COLUMN] + WIDTHS:
        c, r = {}, {}
        i = next(iter(w.t))[0][0]
        for m, k in p.t.items():
            e = dict(m)
            if e.get(i) == 1:
                c[tuple(x for x in m if x[0] != i)] = k
            else:
                r[m] = k
        if c:
            return Poly(c), Poly(r), w
    return ZERO, p, None


DISTINCT = set()        # integer tables without repetition
NONNEG = set()       # atom predicates: regions / symbols declared non-negative


def is_nonneg_atom(aid):
    a = _byid[aid]
    if a.kind in ("sqrt", "ind", "abs"):
        return True
    if a.kind == "rd" and a.key[1] in NONNEG:
        return True
    if a.kind == "sym" and (a.key[1] in NONNEG or a.key[1] in ("pi", "huge")):
        return True
    return False


def abs_(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(abs(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            return Poly({m: abs(c)})
    lead = min(p.t.keys(), key=_mono_key)
    lc = p.t[lead]
    q = p.scale(Fraction(1) / lc)
    return atom_poly(mk_atom(("abs", q))).scale(abs(lc))


# ---------------------------------------------------------------- booleans
def _content(p):
    """positive scale making the coefficients coprime integers"""
    den = 1
    num = 0
    for c in p.t.values():
        f = Fraction(c)
        den = den * f.denominator // math.gcd(den, f.denominator)
    for c in p.t.values():
        num = math.gcd(num, abs(int(c * den)))
    return Fraction(den, num) if num else Fraction(1)


def _isint_poly(p):
    for m, c in p.t.items():
        if Fraction(c).denominator != 1:
            return False
        for a, e in m:
            at = _byid[a]
            if e < 0 or not (at.isint or at.kind == "ind"):
                return False
    return True


def ind(kind, p):
    """indicator polynomial of p<0 ('lt'), p<=0 ('le'), p==0 ('eq')"""
    p = P(p)
    c = p.const()
    if c is not None:
        if kind == "lt":
            return ONE if c < 0 else ZERO
        if kind == "le":
            return ONE if c <= 0 else ZERO
        return ONE if c == 0 else ZERO
    if kind == "eq":
        # single indicator: [i] == 0  <=> 1-[i]
        p = p.scale(_content(p))
        lead = min((m for m in p.t if m), key=_mono_key)
        if p.t[lead] < 0:
            p = -p
        s = _as_bool(p)
        if s is not None:
            return ONE - s
        # [i] - 1 == 0 / 1-[i] == 0
        s = _as_bool(ONE - p)
        if s is None:
            s = _as_bool(ONE + p)
        if s is not None:
            return s
        if _isint_poly(p):
            # p = g*q + c with g not dividing c: never
            g = 0
            for m, cc in p.t.items():
                if m:
                    g = math.gcd(g, int(cc))
            if g > 1 and p.t.get((), 0) % g:
                return ZERO
        return atom_poly(mk_atom(("ind", "eq", p), True))
    if kind == "le" and not _isint_poly(p.scale(_content(p))):
        return ONE - ind("lt", -p)
    if kind == "le":
        p = p.scale(_content(p))
        return ind("lt", p - 1)
    # lt
    p = p.scale(_content(p))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(is_nonneg_atom(a) for a, _ in m) and c > 0:
            return ZERO
        if all(e % 2 == 0 for a, e in m) and c > 0:
            return ZERO
    if _isint_poly(p):
        lead = min((m for m in p.t if m), key=_mono_key)
        # tighten constant by gcd of the coefficients
        g = 0
        for m, cc in p.t.items():
            if m:
                g = math.gcd(g, int(cc))
        c0 = p.t.get((), 0)
        if g > 1:
            # g*q + c0 < 0  <=> q + floor... <0 : q <= (-1-c0)//g
            k = (-1 - c0) // g
            q = Poly({m: cc // g for m, cc in p.t.items() if m}) - k - 1
            p = q
            lead = min((m for m in p.t if m), key=_mono_key)
        if len(p.t) == 1 and p.t[lead] == -1 and _byid[lead[0][0]].kind == "ind" and len(lead) == 1:
            return Poly({lead: 1})           # -[i] < 0
        if p.t[lead] < 0:
            return ONE - atom_poly(mk_atom(("ind", "lt", -p - 1), True))
        return atom_poly(mk_atom(("ind", "lt", p), True))
    return atom_poly(mk_atom(("ind", "lt", p), True))


def _as_bool(p):
    """p if p is syntactically 0/1-valued (p*p == p over indicator atoms)"""
    if not p.t or len(p.t) > 16:
        return None
    for m in p.t:
        for a, e in m:
            if _byid[a].kind != "ind":
                return None
    if all(not m for m in p.t):
        return None
    return p if mul_full(p, p) == p else None


def boolatom(name, *args):
    return atom_poly(mk_atom(("ind", "pred", name) + tuple(P(a) for a in args), True))


ANY = sym("any", True)


def member(entry, n, v):
    """v is one of the first n entries of a table; entry: the entry at position ANY"""
    return ind("eq", fn("absent", entry, n, v, isint=True))


def b_not(a):
    return ONE - a


def b_and(*xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def b_or(*xs):
    r = ONE
    for x in xs:
        r = r * (ONE - x)
    return ONE - r


def ite(c, a, b):
    a, b = P(a), P(b)
    if c.is_one() or a == b:
        return a
    if c.is_zero():
        return b
    for x, y, k in ((a, b, c), (b, a, ONE - c)):
        # x > 0 ? x : 0 with x known to be non-negative
        if y.is_zero() and len(x.t) == 1:
            (m, v), = x.t.items()
            if v > 0 and all(e > 0 and is_nonneg_atom(at) for at, e in m) and k == ind("lt", -x):
                return x
    return b + c * (a - b)


def implies(a, b):
    """syntactic: a -> b over the same indicator atoms"""
    return a * b == a


# ---------------------------------------------------------------- structure
NN, NBR, BOFF = "NN", "nbr", "B"     # neighbourhood abstraction, keyed by list name


def NN_(lst, p):
    return atom_poly(mk_atom(("fn", NN + ":" + lst, P(p)), True))


def nbr_(lst, p, n):
    return atom_poly(mk_atom(("fn", NBR + ":" + lst, P(p), P(n)), True))


def B_(lst, p):
    p = P(p)
    c = p.const()
    if c == 0:
        return ZERO
    k = p.t.get((), 0)
    if isinstance(k, int) and k > 0:
        r = ZERO
        base = p
        for _ in range(k):
            base = base - 1
            r = r + NN_(lst, base)
        return r + B_(lst, base)
    return atom_poly(mk_atom(("fn", BOFF + ":" + lst, p), True))


def Sum(k, n, body):
    """sum_{k=0}^{n-1} body ; k a var Poly.  Canonical: linear, one Sum atom per
    monomial of the k-dependent part, bound variable named by height."""
    body = P(body)
    n = P(n)
    (kid, _), = next(iter(k.t))
    nc = n.const()
    if nc is not None and nc <= 0:
        return ZERO
    # the bound variable lies in 0 .. n-1
    for c, v in ((ind("lt", k - n), ONE), (ind("lt", k), ZERO)):
        if len(c.t) == 1:
            (m, cc), = c.t.items()
            if cc == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in walk_atoms(body):
                body = subst(body, {m[0][0]: v})
    if nc is not None and nc <= 16:
        r = ZERO
        for i in range(int(nc)):
            r = r + subst(body, {kid: P(i)})
        return r
    res = ZERO
    groups = {}
    for m, c in body.t.items():
        inn = []
        out = []
        for a, e in m:
            (inn if kid in _byid[a].fv else out).append((a, e))
        groups.setdefault(tuple(inn), []).append((tuple(out), c))
    for inn, outs in groups.items():
        if not inn:
            s = n
        else:
            s = _sum_atom(kid, n, inn)
        res = res + Poly({o: c for o, c in outs}) * s
    return res


def _sum_atom(kid, n, inn):
    bodyp = Poly({inn: 1})
    # sum of list lengths is the bond offset
    if len(inn) == 1 and inn[0][1] == 1:
        a = _byid[inn[0][0]]
        if a.kind == "fn" and isinstance(a.key[1], str) and a.key[1].startswith(NN + ":"):
            arg = a.key[2]
            if arg == atom_poly(_byid[kid]):
                return B_(a.key[1][len(NN) + 1:], n)
    h = bodyp.bvh() + 1
    bv = mk_atom(("bv", h), True)
    b2 = subst(bodyp, {kid: atom_poly(bv)})
    if len(b2.t) == 1:
        isint = all(_byid[a].isint for m in b2.t for a, _ in m)
        (m, c), = b2.t.items()
        return atom_poly(mk_atom(("sum", bv.id, n, Poly({m: 1})), isint)).scale(c)
    # substitution expanded the monomial: keep it as one body
    return atom_poly(mk_atom(("sum", bv.id, n, b2), False))


_subst_memo = {}
_SPECIAL = ("sqrt", "abs", "ind")


def subst(p, mp):
    """replace atoms (by id) by polys, everywhere"""
    if not mp:
        return p
    keys = frozenset(mp.keys())
    if keys.isdisjoint(walk_atoms(p)):
        return p
    mk = (MUL_LIMIT,) + next(iter(mp.items())) if len(mp) == 1 else None
    memo = {}
    if mk is not None:
        # the same renaming is applied again and again (one summand at a time)
        memo = _subst_memo.get(mk)
        if memo is None:
            if len(_subst_memo) > 40:
                _subst_memo.clear()
            memo = _subst_memo[mk] = {}
        elif len(memo) > 400000:
            memo.clear()
    return _subst(p, mp, keys, memo)


def _subst(p, mp, keys, memo):
    r = memo.get(p)
    if r is not None:
        return r
    changed = {}
    for a in p.atoms():
        na = _subst_atom(a, mp, keys, memo)
        if na is not None:
            changed[a] = na
    if not changed:
        memo[p] = p
        return p
    res = {}
    one = {}
    special = False
    for a, x in changed.items():
        if len(x.t) == 1:
            (om, oc), = x.t.items()
            if oc == 1:
                one[a] = om
    total = ZERO
    acc1 = {}
    for m, c in p.t.items():
        if any(a in changed for a, _ in m):
            if all(a not in changed or a in one for a, _ in m):
                nm = tuple(x for x in m if x[0] not in changed)
                for a, e in m:
                    if a in changed:
                        om = one[a]
                        if e != 1:
                            om = tuple((x, y * e) for x, y in om)
                            special = special or any(_byid[x].kind in _SPECIAL for x, _ in om)
                        nm, sp = mono_mul(nm, om)
                        special = special or sp
                acc1[nm] = acc1.get(nm, 0) + c
                continue
            acc = Poly({tuple((a, e) for a, e in m if a not in changed): c})
            for a, e in m:
                if a in changed:
                    x = changed[a]
                    if e > 0:
                        for _ in range(e):
                            acc = acc * x
                    else:
                        ix = x.inverse()
                        for _ in range(-e):
                            acc = acc * ix
            total = total + acc
        else:
            res[m] = c
    if acc1:
        q = Poly({m: c for m, c in ((m, _norm(c)) for m, c in acc1.items()) if c != 0})
        total = total + (reduce_poly(q) if special else q)
    r = Poly(res) + total
    memo[p] = r
    return r


def _subst_atom(aid, mp, keys, memo):
    """None if unchanged"""
    if aid in mp:
        return mp[aid]
    a = _byid[aid]
    if a.kind in ("var", "sym", "bv"):
        return None
    ck = ("a", aid)
    if ck in memo:
        return memo[ck]
    newkey = []
    ch = False
    for x in a.key[1:]:
        if isinstance(x, Poly):
            y = _subst(x, mp, keys, memo)
            if y is not x and y != x:
                ch = True
            newkey.append(y)
        else:
            newkey.append(x)
    if not ch:
        memo[ck] = None
        return None
    r = rebuild(a, newkey)
    memo[ck] = r
    return r


def rebuild(a, args):
    k = a.kind
    if k == "sqrt":
        return sqrt_(args[0])
    if k == "abs":
        return abs_(args[0])
    if k == "inv":
        return args[0].inverse()
    if k == "def":
        return define(args[0]) if len(args[0].t) > 1 else args[0]
    if k == "ind":
        if args[0] in ("lt", "eq"):
            return ind(args[0], args[1])
        return boolatom(args[1], *args[2:])
    if k == "sum":
        bvid, n, body = args
        c = n.const()
        if c is not None and c <= 0:
            return ZERO
        if c is not None and c <= 16:
            r = ZERO
            for i in range(int(c)):
                r = r + subst(body, {bvid: P(i)})
            return r
        if body.is_zero():
            return ZERO
        if len(body.t) == 1:
            # factors that no longer depend on the bound variable move out
            (m, c0), = body.t.items()
            inn = tuple((x, e) for x, e in m if _mentions(x, bvid))
            out = tuple((x, e) for x, e in m if not _mentions(x, bvid))
            if not inn:
                return n * Poly({out: c0})
            if len(inn) == 1 and inn[0][1] == 1:
                ia = _byid[inn[0][0]]
                if ia.kind == "fn" and isinstance(ia.key[1], str) and ia.key[1].startswith(NN + ":") \
                        and ia.key[2] == atom_poly(_byid[bvid]):
                    return B_(ia.key[1][len(NN) + 1:], n) * Poly({out: c0})
            return atom_poly(mk_atom(("sum", bvid, n, Poly({inn: 1})), a.isint)) * Poly({out: c0})
        # several monomials: split linearly
        r = ZERO
        for m, c0 in body.t.items():
            r = r + rebuild(a, [bvid, n, Poly({m: c0})])
        return r
    if k == "fn":
        name = args[0]
        if isinstance(name, str):
            if name.startswith(BOFF + ":"):
                return B_(name[len(BOFF) + 1:], args[1])
            if name in FN_REBUILD:
                return FN_REBUILD[name](*args[1:])
    if k == "rd" and args[0] in RD_REBUILD:
        return RD_REBUILD[args[0]](*args[1:])
    return atom_poly(mk_atom((k,) + tuple(args), a.isint))


FN_REBUILD = {"idiv": idiv}
RD_REBUILD = {}
_ment = {}


def _mentions(aid, bvid):
    key = (aid, bvid)
    r = _ment.get(key)
    if r is None:
        if aid == bvid:
            r = True
        else:
            a = _byid[aid]
            r = False
            for x in a.key[1:]:
                if isinstance(x, Poly) and any(_mentions(y, bvid) for y in x.atoms()):
                    r = True
                    break
        _ment[key] = r
    return r


def poly_mentions(p, aid):
    return any(_mentions(y, aid) for y in p.atoms())


_deep = {}


def deep_atoms(a):
    """atoms strictly below atom a"""
    r = _deep.get(a)
    if r is None:
        s = set()
        for x in _byid[a].key[1:]:
            if isinstance(x, Poly):
                s |= walk_atoms(x)
        r = _deep[a] = frozenset(s)
    return r


def walk_atoms(p):
    """all atoms occurring in p at any depth"""
    if p._wa is None:
        s = set(p.atoms())
        for a in p.atoms():
            s |= deep_atoms(a)
        p._wa = frozenset(s)
    return p._wa


def map_sums(p, f, memo=None):
    """rebuild p bottom-up with every sum over bonds replaced by f(bound variable, range, body)"""
    memo = {} if memo is None else memo

    def poly(q):
        r = memo.get(q)
        if r is None:
            mp = {}
            for x in q.atoms():
                y = atom(x)
                if y is not None:
                    mp[x] = y
            r = memo[q] = _subst(q, mp, frozenset(mp), {}) if mp else q
        return r

    def atom(aid):
        k = ("a", aid)
        if k in memo:
            return memo[k]
        a = _byid[aid]
        r = None
        if a.kind not in ("var", "sym", "bv"):
            args = [poly(x) if isinstance(x, Poly) else x for x in a.key[1:]]
            ch = any(x is not y and x != y for x, y in zip(args, a.key[1:]))
            if a.kind == "sum":
                b = f(atom_poly(_byid[args[0]]), args[1], args[2])
                if b is not None:
                    args[2], ch = b, True
            if ch:
                r = rebuild(a, args)
        memo[k] = r
        return r
    return poly(p)


def unfold_defs(p):
    mp = {}
    for a in walk_atoms(p):
        at = _byid[a]
        if at.kind == "def":
            mp[a] = at.key[1]
    if not mp:
        return p
    global MUL_LIMIT
    old = MUL_LIMIT
    MUL_LIMIT = 10**9
    try:
        q = subst(p, mp)
        return unfold_defs(q) if q != p else q
    finally:
        MUL_LIMIT = old


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = a.key
    if a.kind in ("var", "sym"):
        return str(k[1])
    if a.kind == "bv":
        return "#%d" % k[1]
    if a.kind == "rd":
        return "%s[%s]" % (k[1], show(k[2]))
    if a.kind == "fn":
        return "%s(%s)" % (k[1], ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in k[2:]))
    if a.kind == "ind":
        if k[1] == "lt":
            return "[%s < 0]" % show(k[2])
        if k[1] == "eq":
            return "[%s == 0]" % show(k[2])
        return "[%s(%s)]" % (k[2], ", ".join(show(x) for x in k[3:]))
    if a.kind == "sum":
        return "Sum{%s<%s}(%s)" % (show_atom(_byid[k[1]]), show(k[2]), show(k[3]))
    return "%s(%s)" % (k[0], ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in k[1:]))


def show(p, limit=12):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: _mono_key(x[0]))):
        if i >= limit:
            out.append("... (%d terms)" % len(p.t))
            break
        fs = []
        for a, e in m:
            s = show_atom(_byid[a])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out)
